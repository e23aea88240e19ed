"""Generated directory trees with full record content, and the report rows a reader of them must see."""
import struct, uuid, datetime
from lib import ntfs
from lib.ntfs import ref
from checks.c05 import make, real_seq, model_path, readable, Node, bad_attr
from checks import c08

LO, HI = c08.LO, c08.HI
UNIX = datetime.datetime(1970, 1, 1)


class T(object):
    """A timestamp cell: ticks after an epoch."""
    def __init__(self, ticks, epoch=ntfs.EPOCH_1601, per_us=10):
        self.ticks, self.epoch, self.per_us = ticks, epoch, per_us

    def ok(self, cell):
        if cell == 'N/A':
            got = None
        else:
            try:
                got = datetime.datetime.strptime(cell, '%Y-%m-%d %H:%M:%S.%f')
            except ValueError:
                return False
            if len(cell) != 26:
                return False
        return ntfs.instant_ok(got, self.ticks, self.epoch, self.per_us)

    def __repr__(self):
        return 'T(%d)' % self.ticks


class OneOf(object):
    def __init__(self, values):
        self.values = values

    def ok(self, cell):
        return any(match(cell, v) for v in self.values)

    def __repr__(self):
        return 'OneOf%r' % (self.values,)


def under(parents, name):
    """The name below one of the acceptable parent paths."""
    if parents is None:
        return '<Unknown>/' + name
    return OneOf([('' if p == '/.' else p) + '/' + name for p in parents])


def match(cell, want):
    if hasattr(want, 'ok'):
        return want.ok(cell)
    if want is None:
        return cell == ''
    return cell == str(want)


def row_match(row, want):
    return len(row) == len(want) and all(match(c, w) for c, w in zip(row, want))


def times(rng, plausible=False):
    k = (lambda: rng.randint(LO, HI)) if plausible else (lambda: ntfs.rnd_filetime(rng))
    return dict((x, k()) for x in 'cmea')


def weird(rng, nm):
    r = rng.random()
    if r < 0.08 and len(nm) < 200:
        i = rng.randrange(len(nm) + 1)
        nm = nm[:i] + rng.choice([',', '"', '""', "'", ';', '\n', '\r', '\r\n', '\t', '=1', '\x85', '\u2028', '\ufffd']) + nm[i:]
    return nm


def dup(rng, is_dir=False):
    d = times(rng)
    d['alloc'] = rng.choice([0, 4096, rng.getrandbits(40)])
    d['size'] = rng.choice([0, 1, d['alloc'], rng.getrandbits(62)])
    d['attrs'] = rng.choice([0x20, 0x26, 0, 0x2020]) | (0x10000000 if is_dir else 0) | rng.choice([0, 0, 0x20000000])
    return d


def guid(rng):
    b = bytearray(ntfs.rnd_bytes(rng, 16))
    if rng.random() < 0.7:
        b[7] = 0x10 | rng.randrange(16)
        b[8] = 0x80 | rng.randrange(64)
    else:
        b[7] = 0x40 | rng.randrange(16)
        b[8] = 0x80 | rng.randrange(64)
    return bytes(b)


def guid_ticks(b):
    """Ticks of a version 1 GUID (RFC 4122 variant), or None."""
    if b is None or b[7] >> 4 != 1 or b[8] & 0xC0 != 0x80:
        return None
    return struct.unpack('<L', b[0:4])[0] | struct.unpack('<H', b[4:6])[0] << 32 | (struct.unpack('<H', b[6:8])[0] & 0xFFF) << 48


SYSTEM = ['$MFT', '$MFTMirr', '$LogFile', '$Volume', '$AttrDef', '.', '$Bitmap', '$Boot', '$BadClus', '$Secure', '$UpCase', '$Extend']


def system_nodes():
    res = {}
    for n, nm in enumerate(SYSTEM):
        x = Node()
        x.number, x.seq, x.in_use, x.is_dir, x.kind = n, n or 1, True, nm in ('.', '$Extend'), 'ok'
        x.names = [(ref(5, 5), nm, 3)]
        res[n] = x
    return res


def dress(rng, nodes, x, slack=True, deco=True):
    """Give the node its attributes. x.names are (parent, name, flags)."""
    x.lsn = rng.getrandbits(rng.choice([10, 40, 63]))
    x.si = None
    if x.number < 16 or rng.random() < 0.9:
        x.si = times(rng)
        x.usn = rng.choice([None, 0, rng.getrandbits(40), (1 << 63) + 5])
    x.dups = [dup(rng, x.is_dir) for __ in x.names]
    x.objid = guid(rng) if deco and rng.random() < 0.15 else None
    x.data = None
    x.ads = []
    if not x.is_dir or rng.random() < 0.05:
        r = rng.random()
        x.data = ('r', rng.choice([0, 1, 7, 60])) if r < 0.5 else ('n', rng.choice([1, 4096, rng.getrandbits(40)])) if r < 0.9 else None
        if x.number >= 16 and deco and rng.random() < 0.1:      # extents in several records
            x.data = ('s', rng.choice([1, 4096, rng.getrandbits(40)]))
    if deco and rng.random() < 0.2:
        x.ads = [(''.join(rng.choice('abcXYZ.09') for __ in range(rng.randint(1, 8))), rng.random() < 0.6, rng.randint(0, 30)) for __ in range(rng.choice([1, 1, 2, 3, 9, 12, 20]))]
    x.wsl = None
    if deco and rng.random() < 0.15:
        x.wsl = [(rng.choice([0, 1, rng.getrandbits(31), 253402300799]), rng.choice([0, 1000, 999999999, rng.randrange(10 ** 9)])) for __ in range(3)]
        x.wsl_bad = rng.random() < 0.15
    x.iroot = None
    if x.is_dir and rng.random() < 0.8:
        x.iroot = entries(rng, nodes, x, rng.choice([0, 1, 2, 4]))
        x.iroot_end = None
        if rng.random() < 0.1:
            x.iroot_end = ntfs.index_entry(rng.getrandbits(64), b'k' * 80)[:rng.randint(0, 15)]
        if rng.random() < 0.1:      # a key too short to be a file name
            x.iroot.insert(rng.randrange(len(x.iroot) + 1), (ref(99, 1), ntfs.rnd_bytes(rng, rng.choice([1, 8, 16, 65])), None))
    x.extra_root = deco and rng.random() < 0.1
    x.slack, x.planted = b'', []
    x.want_slack = slack and rng.random() < 0.5


def entries(rng, nodes, x, n, strange=0.0):
    """Index entries of the directory x: [(file reference, key or None, model)]."""
    res = []
    cand = [y for y in nodes.values() if y.names]
    me = ref(x.number, real_seq(x))
    for __ in range(n):
        y = rng.choice(cand)
        nm = weird(rng, ntfs.rnd_name(rng, 1, rng.choice([3, 12, 30])))
        d = dup(rng, rng.random() < 0.4)
        parent = me
        if rng.random() < strange:
            parent = ref(rng.choice(cand).number, rng.choice([1, 2, real_seq(y)]))
        fl = rng.choice([0, 1, 2, 3])
        res.append((ref(y.number, rng.choice([real_seq(y), 7])), ntfs.fn_value(parent, nm, flags=fl, **d), (parent, nm, fl, d)))
    return res


def make_slack(rng, mon, nodes, room):
    """Names left in unused space: (bytes, [(parent, name, flags, times by letter, size, attrs)])."""
    out, planted = b'', []
    dirs = [y for y in nodes.values()]
    for __ in range(rng.randint(0, 3)):
        y = rng.choice(dirs)
        parent = ref(y.number, real_seq(y)) if rng.random() < 0.8 else ref(y.number, (real_seq(y) + 9) & 0xFFFF)
        nm = ntfs.rnd_name(rng, 1, rng.choice([2, 8, 20]), astral=False)
        t = times(rng, True)
        alloc = rng.choice([0, 4096, rng.getrandbits(30) & ~7])
        d = dict(t, alloc=alloc, size=max(0, alloc - rng.randint(0, 4095)), attrs=rng.choice([0x20, 0x10000010, 0x26, 0, 0x2020]))
        fl = rng.choice([0, 1, 2, 3])
        v = ntfs.fn_value(parent, nm, flags=fl, **d)
        piece = c08.garbage(rng, mon, rng.choice([0, 8, 16, 24, 40])) + v
        piece += b'\x00' * (-len(piece) % 8)
        if len(out) + len(piece) + 8 > room:
            break
        out += piece
        planted.append((parent, nm, fl, d))
    return out, planted


def attributes(rng, x, cs=4096):
    """(type, attribute bytes) in type order."""
    res = []
    x.pieces = list(getattr(x, 'more_pieces', []))
    if x.si is not None:
        kw = dict(x.si)
        if x.usn is not None:
            kw.update(owner=1, usn=x.usn)
        res.append((ntfs.SI, ntfs.attr_resident(ntfs.SI, ntfs.si_value(**kw))))
    for (p, nm, f), d in zip(x.names, x.dups):
        res.append((ntfs.FN, ntfs.attr_resident(ntfs.FN, ntfs.fn_value(p, nm, flags=f, **d))))
    if x.objid is not None:
        res.append((ntfs.OBJID, ntfs.attr_resident(ntfs.OBJID, x.objid)))
    if x.number == 3:
        res.append((ntfs.VOLINFO, ntfs.attr_resident(ntfs.VOLINFO, ntfs.volinfo_value())))
    if x.data is not None:
        kind, size = x.data
        if kind == 'r':
            res.append((ntfs.DATA, ntfs.attr_resident(ntfs.DATA, ntfs.rnd_bytes(rng, size))))
        elif kind in ('s', '?'):
            # The size is in the first piece only; the pieces may lie in any order in the table (or the first one is lost).
            low = rng.choice([1, 16, 1 << 20])
            first = ntfs.attr_nonresident(ntfs.DATA, [(100, low)], size, cluster_size=cs)
            rest = []
            for __ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice([1, 5, 1 << 16])
                rest.append(ntfs.attr_nonresident(ntfs.DATA, [(rng.randrange(1 << 30), k)], 0, lowest_vcn=low, allocated=0, cluster_size=cs))
                low += k
            if rng.random() < 0.1:
                x.data = ('?', size)
                x.pieces += rest
            elif rng.random() < 0.5:
                res.append((ntfs.DATA, first))
                x.pieces += rest
            elif rng.random() < 0.3:        # a later piece in the base record
                res.append((ntfs.DATA, rest.pop()))
                x.pieces += rest + [first]
            else:
                x.pieces += rest + [first]
            rng.shuffle(x.pieces)
        else:
            runs = getattr(x, 'runs', None) or [(100, max(1, min(1 << 30, -(-size // cs))))]
            res.append((ntfs.DATA, ntfs.attr_nonresident(ntfs.DATA, runs, size, cluster_size=cs)))
    for nm, res_, size in x.ads:
        if res_:
            res.append((ntfs.DATA, ntfs.attr_resident(ntfs.DATA, ntfs.rnd_bytes(rng, size), name=nm)))
        else:
            res.append((ntfs.DATA, ntfs.attr_nonresident(ntfs.DATA, [(900, 1)], size, name=nm, cluster_size=cs)))
    if x.iroot is not None:
        res.append((ntfs.IDXROOT, ntfs.attr_resident(ntfs.IDXROOT, ntfs.index_root_value([ntfs.index_entry(r, k) for r, k, __ in x.iroot], end=x.iroot_end), name='$I30')))
    if x.extra_root:
        # A view index sorts after $I30 by name.
        res.append((ntfs.IDXROOT, ntfs.attr_resident(ntfs.IDXROOT, ntfs.index_root_value([ntfs.index_entry(77, b'k' * 16)], indexed=0, rule=16), name='$Q')))
    if x.wsl is not None:
        v = struct.pack('<HHLLLLLLLQQQ', 0, 2 if x.wsl_bad else 1, 0o100644, 0, 0, 0, *[n for __, n in x.wsl], *[s for s, __ in x.wsl])
        pre = ntfs.ea_entry(b'OTHER', 0, b'x' * 5, False) if rng.random() < 0.5 else b''
        res.append((ntfs.EA, ntfs.attr_resident(ntfs.EA, pre + ntfs.ea_entry(b'LXATTRB', 0, v, True))))
    return res


class Tree(object):
    """nodes by number plus the serialised table."""

    def __init__(self, rng, mon, n, hostile=True, size=1024, spill=True, slack=True, deco=True, nodes=None, dirs_extra=None, cs=4096):
        self.rng, self.mon, self.size = rng, mon, size
        for __ in range(60):
            if nodes is None:
                self.nodes = system_nodes()
                self.nodes.update((k, v) for k, v in make(rng, n, hostile).items() if k != 5)
                for x in self.nodes.values():
                    if x.number >= 16:
                        x.names = [(p, weird(rng, nm), f) for p, nm, f in x.names]
            else:
                self.nodes = nodes
            for x in self.nodes.values():
                dress(rng, self.nodes, x, slack, deco)
                if not spill or x.number < 16:
                    x.ads = x.ads[:3]
                if x.data is not None and x.data[0] == 's' and not spill:
                    x.data = ('n', x.data[1])
            if dirs_extra:
                dirs_extra(self)
            try:
                self.serialise(spill, cs)
                return
            except ValueError:
                continue
        raise ValueError('no tree fits')

    def serialise(self, spill, cs):
        rng = self.rng
        self.recs = {}
        self.ext = top = max(self.nodes) + 1
        for x in self.nodes.values():
            self.recs[x.number] = self.record(x, spill, cs)
        self.table = b''.join(self.recs.get(i, b'\x00' * self.size) for i in range(self.ext))

    def record(self, x, spill=True, cs=4096):
        rng, size = self.rng, self.size
        attrs = attributes(rng, x, cs) + list(getattr(x, 'more_attrs', []))
        attrs.sort(key=lambda a: a[0])
        room = ntfs.attrs_room(size)
        mine, others = [], []
        pieces = list(x.pieces)
        if pieces:
            self.mon.count('split_attributes')
        sp = spill and x.number >= 16 and rng.random() < 0.15
        left = room
        # Keep the first attribute in the base record; what does not fit (or some names) goes to an extension record.
        for i, a in enumerate(attrs):
            if (len(a[1]) > left or (sp and a[0] == ntfs.FN and rng.random() < 0.5)) and i and spill and x.number >= 16:
                others.append(a)
            else:
                if len(a[1]) > left:
                    raise ValueError('does not fit')
                left -= len(a[1])
                mine.append(a)
        x.slacks = []
        fn_mine = [a for a in mine if a[0] == ntfs.FN]
        order = [a for t, a in mine if t == ntfs.FN] + [a for t, a in others if t == ntfs.FN]
        by = dict((a, (nm, d)) for (t, a), (nm, d) in zip([a for a in attrs if a[0] == ntfs.FN], zip(x.names, x.dups)))
        if len(by) != len(x.names):
            raise ValueError('equal names')
        x.names, x.dups = [by[a][0] for a in order], [by[a][1] for a in order]
        ext_slack = []
        if others or pieces:
            # attribute order across records decides what the report shows first
            groups = [[]] if others else []
            for __, a in others:
                if groups[-1] and sum(map(len, groups[-1])) + len(a) > room:
                    groups.append([])
                if len(a) > room:
                    raise ValueError('does not fit')
                groups[-1].append(a)
            for a in pieces:
                groups.insert(rng.randrange(len(groups) + 1) if not others else len(groups), [a])
            for g in groups:
                r, sl = self.seal(g, number=self.ext, seq=1, flags=1, base=ref(x.number, real_seq(x)), want=x.want_slack)
                self.recs[self.ext] = r
                self.ext += 1
                ext_slack.append(sl)
                self.mon.count('extension_records')
            # A real record of this kind also has a list of its attributes, which comes before the names.
            at = next((i for i, (t, __) in enumerate(mine) if t > ntfs.ATTRLIST), len(mine))
            if rng.random() < 0.5:
                lst = ntfs.attr_nonresident(ntfs.ATTRLIST, [(7, 1)], 32 * len(attrs), cluster_size=cs)
            else:
                lst = ntfs.attr_resident(ntfs.ATTRLIST, b''.join(ntfs.attrlist_entry(t, None, 0, ref(x.number, real_seq(x)), i) for i, (t, __) in enumerate(mine)))
            if len(lst) <= left and x.kind == 'ok':
                mine.insert(at, (ntfs.ATTRLIST, lst))
                self.mon.count('attribute_lists')
        raw = [a for __, a in mine]
        if x.kind == 'badattr':
            raw = [bad_attr(rng, self.mon)] + raw
        r, sl = self.seal(raw, number=x.number, seq=x.seq, flags=(1 if x.in_use else 0) | (2 if x.is_dir else 0), links=len(x.names), lsn=x.lsn, want=x.want_slack and x.kind != 'badattr')
        x.slacks = [sl] + ext_slack
        if x.kind == 'torn':
            r = r[:510] + bytes([r[510] ^ 0x55, r[511]]) + r[512:]
        elif x.kind == 'zero':
            r = b'\x00' * size
        return r

    def seal(self, attrs, want=False, **kw):
        rng, size = self.rng, self.size
        used = ntfs.align8(48 + 2 * (size // 512 + 1)) + sum(map(len, attrs)) + 8
        b, planted = make_slack(rng, self.mon, self.nodes, size - used) if want else (b'', [])
        raw, uo = ntfs.frs_plain(attrs, size=size, slack=b, first_free=used, **kw)
        slack = bytes(raw[used - 4:])
        return bytes(ntfs.usa_protect(raw, uo, ntfs.rnd_bytes(rng, 2))), (slack, planted)

    # --- What a reader must see ---

    def first_path(self, x):
        """The acceptable first paths of a node."""
        if x.number == 5:
            return ['/.']
        long_ = [nm for nm in x.names if nm[2] != 2]
        return sorted(set(model_path(self.nodes, p, nm)[0] for p, nm, f in (long_ or x.names)))

    def path_of(self, reference, check_dir=False):
        """Path of the record a reference leads to, or None."""
        num, seq = reference & 0xFFFFFFFFFFFF, reference >> 48
        x = self.nodes.get(num)
        if x is None or not readable(x) or real_seq(x) != seq or not x.names:
            return None
        return self.first_path(x)

    def path_of_number(self, num):
        x = self.nodes.get(num)
        if x is None or not readable(x) or not x.names:
            return None
        return self.first_path(x)

    def fn_times(self, d):
        return [T(d['m']), T(d['a']), T(d['c']), T(d['e'])]

    def mft_rows(self, tag=None):
        """[(kind, rows)] in table order; kind 'set' (any order), 'seq', or 'skip' with the reference whose rows are not judged."""
        def src(s):
            return s if tag is None else '%s (%s)' % (s, tag)
        out = []
        for num in sorted(self.nodes):
            x = self.nodes[num]
            if x.kind in ('torn', 'zero'):
                continue
            reference = ref(num, x.seq)
            if x.kind == 'badattr':
                out.append(('skip', reference))
                continue
            si = ['', '', '', '', '']
            if x.si is not None:
                si = [T(x.si['m']), T(x.si['a']), T(x.si['c']), T(x.si['e']), x.usn]
            size = '?'
            if x.data is not None and x.data[0] != '?':
                size = x.data[1]
            ot = ''
            gt = guid_ticks(x.objid)
            if gt is not None:
                ot = T(gt, ntfs.EPOCH_1582)
            ads = ' '.join(sorted(set(nm for nm, __, __ in x.ads)))
            wsl = ['', '', '']
            if x.wsl is not None and not x.wsl_bad:
                w = [T(s * 10 ** 9 + n, UNIX, 1000) for s, n in x.wsl]     # stored as A, M, CH
                wsl = [w[1], w[0], w[2]]
            head = [src('File record'), reference, 'Y' if x.in_use else 'N', 'Y' if x.is_dir else 'N', x.lsn]
            rows = []
            for (p, nm, f), d in zip(x.names, x.dups):
                path = model_path(self.nodes, p, nm)[0] if num != 5 else '/.'
                rows.append(head + [path] + si + self.fn_times(d) + [ot, size, ads] + wsl)
            if not rows:
                rows.append(head + [''] + si + ['', '', '', '', ot, size, ads] + wsl)
            out.append(('set', rows))
            if x.is_dir and x.iroot:
                rows = []
                fp = self.first_path(x) if x.names else None
                for r, __, m in x.iroot:
                    if m is None:
                        continue
                    parent, nm, f, d = m
                    rows.append([src('Index record'), r, '?', 'Y' if d['attrs'] & 0x10000000 else 'N', '', under(fp, nm), '', '', '', '', ''] + self.fn_times(d) + ['', d['size'], '', '', '', ''])
                out.append(('seq', rows))
            for sl, planted in x.slacks:
                rows = self.slack_rows(sl, planted, src('Slack'))
                if rows:
                    out.append(('seq', rows))
        return out

    def slack_rows(self, sl, planted, source):
        from dfir_ntfs import MFT
        rows = []
        todo = list(planted)
        for it in MFT.SlackSpace(sl).carve(True):
            if isinstance(it, str):
                rows.append([source, '?', '?', '?', '', '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>' + it] + [''] * 5 + ['?'] * 4 + ['', '?', '', '', '', ''])
            elif todo:
                rows.append(self.slack_row(todo.pop(0), source))
        for p in todo:
            rows.append(self.slack_row(p, source))
        return rows

    def slack_row(self, p, source):
        parent, nm, f, d = p
        pp = self.path_of(parent)
        return [source, '?', '?', 'Y' if d['attrs'] & 0x10000000 else 'N', '', under(pp, nm), '', '', '', '', ''] + self.fn_times(d) + ['', d['size'], '', '', '', '']


def compare_rows(mon, rows, groups, mech, ctx, ref_col=1):
    """rows (lists of cells) against the expected groups."""
    i = 0
    n = 0
    for kind, want in groups:
        if kind == 'skip':
            while i < len(rows) and len(rows[i]) > ref_col and rows[i][ref_col] == str(want):
                i += 1
            continue
        got = rows[i:i + len(want)]
        i += len(want)
        if kind == 'seq':
            for j, w in enumerate(want):
                g = got[j] if j < len(got) else None
                mon.check(g is not None and row_match(g, w), mech, lambda: 'row %r, expected %r; %s' % (g, w, ctx))
                n += 1
        else:
            left = list(got)
            for w in want:
                k = next((k for k, g in enumerate(left) if row_match(g, w)), None)
                mon.check(k is not None, mech, lambda: 'rows %r, expected %r; %s' % (left, w, ctx))
                left.pop(k)
                n += 1
    mon.check(i == len(rows), mech + ':extra', lambda: 'unexpected rows %r; %s' % (rows[i:i + 3], ctx))
    mon.count('rows', n)
