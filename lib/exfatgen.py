"""exFAT: entry sets, boot regions, whole volumes (built from the published specification)."""
import struct, datetime
from lib import ntfs

BAD = 0xFFFFFFF7
EOC = 0xFFFFFFFF
FORBIDDEN = set(map(chr, list(range(32)) + [0x22, 0x2A, 0x2F, 0x3A, 0x3C, 0x3E, 0x3F, 0x5C, 0x7C]))


def rot_sum(data, skip, bits):
    top = 1 << (bits - 1)
    mask = (1 << bits) - 1
    s = 0
    for i, b in enumerate(data):
        if i in skip:
            continue
        s = ((s >> 1) | (top if s & 1 else 0)) + b & mask
    return s


def set_checksum(raw):
    return rot_sum(raw, (2, 3), 16)


def utf16(s):
    return s.encode('utf-16le')


def units(s):
    return len(utf16(s)) // 2


ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.()[]{}!@#$%^&+=~,;'


def rnd_name(rng, maxlen=None):
    n = rng.choice([1, 2, 8, 14, 15, 16, 29, 30, 31, 44, 45, 46, rng.randint(1, 60)] + ([254, 255, 240, 241] if maxlen is None else []))
    if maxlen:
        n = min(n, maxlen)
    out = ''
    while units(out) < n:
        r = rng.random()
        if r < 0.8:
            out += rng.choice(ALPHA)
        elif r < 0.93:
            out += chr(rng.choice([0xE9, 0x416, 0x4E2D, 0xFFFD, 0x3042, 0x1E9E, 0x0130, 0xE000, 0xFF0F]))
        elif units(out) + 2 <= n:
            out += chr(rng.randint(0x10000, 0x10FFFF))
    if out in ('.', '..'):
        out += 'x'
    return out


def rnd_ts(rng):
    """(raw value, decoded datetime or None)"""
    if rng.random() < 0.1:
        v = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(32)])
    else:
        d = datetime.datetime(rng.randint(1980, 2107), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 29) * 2)
        v = ((d.year - 1980) << 25) | (d.month << 21) | (d.day << 16) | (d.hour << 11) | (d.minute << 5) | (d.second // 2)
    return v


def decode_ts(v, ten=0):
    try:
        d = datetime.datetime(1980 + (v >> 25), (v >> 21) & 15, (v >> 16) & 31, (v >> 11) & 31, (v >> 5) & 63, (v & 31) * 2)
    except ValueError:
        return None
    return d + datetime.timedelta(microseconds=10000 * (ten if ten < 200 else 0))


def decode_tz(b):
    if not b & 0x80:
        return None
    b &= 0x7F
    return b - 128 if b & 0x40 else b


class Meta(object):
    """All stored fields of an entry set but the name."""

    def __init__(self, rng, is_dir=False, cluster=0, size=0, vdl=None, nofat=False):
        self.attrs = (0x10 if is_dir else 0) | rng.choice([0, 0x20, 0x20, 1, 2, 4, 0x27, 8]) | (rng.getrandbits(16) & ~0x10 if rng.random() < 0.05 else 0)
        self.ct, self.mt, self.at = rnd_ts(rng), rnd_ts(rng), rnd_ts(rng)
        self.c10, self.m10 = [rng.choice([0, 1, 99, 100, 199, 200, 255, rng.randint(0, 255)]) for __ in 'ab']
        self.ctz, self.mtz, self.atz = [rng.choice([0, 0x80, 0x84, 0xFF, 0xC0, 0xBF, 0x7F, rng.randint(0, 255)]) for __ in 'abc']
        self.flags = 0x8000 if rng.random() < 0.1 else rng.choice([0, 0, 0, 0x7FFF, 1])
        self.cluster, self.size = cluster, size
        self.vdl = size if vdl is None else vdl
        self.nofat = nofat
        self.efs = (rng.choice([0, 0, 5]), rng.choice([0, 0, 1, 3]))
        self.junk = rng.getrandbits(56)

    def primary(self, count, typ=0x85):
        return struct.pack('<BBHHHLLLBBBBB', typ, count, 0, self.attrs, self.flags, self.ct, self.mt, self.at, self.c10, self.m10, self.ctz, self.mtz, self.atz) + self.junk.to_bytes(7, 'little')

    def stream(self, name_len, name_hash, typ=0xC0):
        return struct.pack('<BBBBHBBQLLQ', typ, 1 | (2 if self.nofat else 0), self.efs[0], name_len, name_hash, self.efs[1], 0, self.vdl, 0, self.cluster, self.size)

    def expect(self, name, deleted):
        return (deleted, bool(self.attrs & 0x10), name, decode_ts(self.at), decode_tz(self.atz), decode_ts(self.mt, self.m10), decode_tz(self.mtz),
                decode_ts(self.ct, self.c10), decode_tz(self.ctz), self.size, self.vdl, self.attrs, self.cluster, bool(self.flags & 0x8000), self.nofat)


def name_entries(name, typ=0xC1, flags=0):
    b = utf16(name)
    out = []
    for i in range(0, len(b), 30):
        p = b[i:i + 30]
        out.append(bytes((typ, flags)) + p + b'\x00' * (30 - len(p)))
    return out


def fix_checksum(raw):
    raw = bytearray(raw)
    raw[2:4] = struct.pack('<H', set_checksum(raw))
    return bytes(raw)


def entry_set(rng, meta, name, vendor=0):
    names = name_entries(name)
    extra = [bytes([rng.choice([0xE0, 0xE1])]) + ntfs.rnd_bytes(rng, 31) for __ in range(vendor)]
    raw = meta.primary(1 + len(names) + len(extra)) + meta.stream(units(name), rng.getrandbits(16)) + b''.join(names) + b''.join(extra)
    return fix_checksum(raw)


def delete(raw):
    b = bytearray(raw)
    for i in range(0, len(b), 32):
        b[i] &= 0x7F
    return bytes(b)


# --- A reference reader of directories (of the format, independent of the code under test) ---

def ref_name(parts, limit):
    b = b''.join(parts)
    us = [b[i:i + 2] for i in range(0, len(b), 2)]
    if b'\x00\x00' in us:
        us = us[:us.index(b'\x00\x00')]
    s = b''.join(us).decode('utf-16le', 'replace')
    if not s:
        return None
    if limit is not None and len(s) > limit:
        return s[:limit]
    if s in ('.', '..') or any(c in FORBIDDEN for c in s):
        return None
    return s


def ref_set(ents, k):
    """Entry k is a (possibly deleted) file entry: return (expected tuple, entries consumed) or None."""
    e = ents[k]
    n = e[1]
    if not 2 <= n <= 64 or k + n + 1 > len(ents):
        return None
    live = bool(e[0] & 0x80)
    sec = ents[k + 1:k + 1 + n]
    raw = b''.join(ents[k:k + 1 + n])
    if live and struct.unpack_from('<H', raw, 2)[0] != set_checksum(raw):
        return None
    kinds = []
    for s in sec:
        if not s[0] & 0x40 or (live and not s[0] & 0x80):
            return None
        kinds.append(s[0] & 0x7F)
    if kinds[0] != 0x40 or kinds[1] != 0x41 or 0x40 in kinds[1:]:
        return None
    vendor = [i for i, t in enumerate(kinds) if t in (0x60, 0x61)]
    if vendor and any(t not in (0x60, 0x61) for t in kinds[vendor[0]:]):
        return None
    st = sec[0]
    if not st[1] & 1 or st[3] == 0:
        return None
    names = [s[2:] for s, t in zip(sec, kinds) if t == 0x41]
    if len(names) > min(17, -(-st[3] // 15)):
        return None
    name = ref_name(names, st[3])
    if name is None:
        return None
    attrs, flags, ct, mt, at, c10, m10, ctz, mtz, atz = struct.unpack_from('<HHLLLBBBBB', raw, 4)
    vdl, __, cl, size = struct.unpack_from('<QLLQ', st, 8)
    return ('file', not live, bool(attrs & 0x10), name, decode_ts(at), decode_tz(atz), decode_ts(mt, m10), decode_tz(mtz), decode_ts(ct, c10), decode_tz(ctz),
            size, vdl, attrs, cl, bool(flags & 0x8000), bool(st[1] & 2)), n + 1


def ref_orphan(ents, k):
    parts = []
    j = k
    while j < len(ents) and ents[j][0] == ents[k][0] and ents[j][1] == 0 and len(parts) < 17:
        parts.append(ents[j][2:])
        j += 1
        if parts[-1][-2:] == b'\x00\x00':
            break
    if not parts:
        return None
    s = ref_name(parts, None)
    return None if s is None else (('orphan', s), len(parts))


def ref_entries(buf, root=False):
    """Returns (items, stopped_by): what a directory holds."""
    ents = [bytes(buf[i:i + 32]) for i in range(0, len(buf), 32)]
    out = []
    k = 0
    labels = bitmaps = 0
    while k < len(ents):
        e = ents[k]
        t = e[0]
        if t == 0:
            return out, None
        if t == 0x80:
            return out, 'raise' if root else None
        step = 1
        if t & 0x40:
            if t & 0x7F == 0x41:
                r = ref_orphan(ents, k)
                if r:
                    out.append(r[0])
                    step = r[1]
        elif t & 0x7F == 0x05:
            r = ref_set(ents, k)
            if r:
                out.append(r[0])
                step = r[1]
        elif not root and t in (0x81, 0x82, 0x83):
            return out, None
        elif root and t == 0x83:
            labels += 1
            if labels > 1 or e[1] > 15:
                return out, 'raise'
            if e[1]:
                s = ref_label(e[2:2 + 2 * e[1]])
                if s is None:
                    return out, 'raise'
                out.append(('label', s))
        elif root and t == 0x81:
            bitmaps += 1
            if bitmaps > 2:
                return out, 'raise'
            out.append(('bitmap', e[1] & 1, struct.unpack_from('<L', e, 20)[0], struct.unpack_from('<Q', e, 24)[0]))
        k += step
    return out, None


def ref_label(b):
    us = [b[i:i + 2] for i in range(0, len(b), 2)]
    if b'\x00\x00' in us:
        us = us[:us.index(b'\x00\x00')]
    s = b''.join(us).decode('utf-16le', 'replace')
    if not s or any(c in FORBIDDEN for c in s):
        return None
    return s


# --- Volumes ------------------------------------------------------------------------

class Geometry(object):
    def __init__(self, rng, bps=None, small=True):
        self.bps = bps or rng.choice([512, 512, 512, 512, 4096, 1024, 2048])
        self.spc = 1 << rng.choice([0, 0, 1, 2, 3] if self.bps < 4096 else [0, 0, 1])
        self.cs = self.bps * self.spc
        self.nfats = 2 if rng.random() < 0.3 else 1
        self.active = rng.randrange(self.nfats)
        floor = -(-(1 << 20) // self.cs)
        self.count = rng.choice([floor, floor + rng.randint(0, 40), floor - rng.randint(0, floor // 8), floor // 8 * 8 + rng.choice([-1, 0, 1, 7])])
        tight = rng.random() < 0.15
        if tight:                          # The table has room for exactly the clusters there are.
            per = self.bps // 4
            self.count = -(-(floor + 2) // per) * per - 2
        self.fatoff = 24 + rng.choice([0, 0, 1, 8, 104])
        self.fatlen = -(-(self.count + 2) * 4 // self.bps) + (0 if tight else rng.choice([0, 0, 1, 3]))
        end = self.fatoff + self.fatlen * self.nfats
        self.heap = end + rng.choice([0, 0, 1, 7, 64])
        if not tight and rng.random() < 0.25:
            # A small volume with a generously aligned cluster heap (as formatters that align it to 1 MiB make them).
            self.count = rng.choice([40, 64, 100])
            if rng.random() < 0.5:
                self.fatlen = -(-(self.count + 2) * 4 // self.bps)
            self.heap = max(self.heap, (1 << 20) // self.bps)
        self.vlen = self.heap + self.count * self.spc + rng.choice([0, 0, 1, 5])
        need = (1 << 20) // self.bps
        if self.vlen < need:
            self.vlen = need + rng.choice([0, 1])
        self.size = self.vlen * self.bps
        self.root = None

    def off(self, c):
        return self.heap * self.bps + (c - 2) * self.cs


def boot_region(rng, g, **over):
    f = dict(partoff=0, vlen=g.vlen, fatoff=g.fatoff, fatlen=g.fatlen, heap=g.heap, count=g.count, root=g.root, serial=rng.getrandbits(32), minor=0, major=1,
             flags=g.active | rng.choice([0, 2, 4, 8]), shift=g.bps.bit_length() - 1, cshift=g.spc.bit_length() - 1, nfats=g.nfats, drive=0x80, percent=rng.choice([0, 50, 100, 0xFF]), name=b'EXFAT   ', sig=b'\x55\xaa', zero=b'\x00' * 53)
    f.update(over)
    b = bytearray(g.bps * 12)
    b[0:3] = b'\xeb\x76\x90'
    b[3:11] = f['name']
    b[11:64] = f['zero']
    struct.pack_into('<QQLLLLLLBBHBBBBB', b, 64, f['partoff'], f['vlen'], f['fatoff'], f['fatlen'], f['heap'], f['count'], f['root'], f['serial'], f['minor'], f['major'], f['flags'], f['shift'], f['cshift'], f['nfats'], f['drive'], f['percent'])
    b[120:510] = ntfs.rnd_bytes(rng, 390)
    b[510:512] = f['sig']
    for i in range(1, 9):
        o = g.bps * (i + 1) - 4
        b[o:o + 4] = b'\x00\x00\x55\xaa'
    o = g.bps * 10
    if rng.random() < 0.3:
        b[o:o + 48] = ntfs.rnd_bytes(rng, 48)
    return seal(b, g.bps)


def seal(b, bps):
    b = bytearray(b)
    b[bps * 11:bps * 12] = struct.pack('<L', rot_sum(b[:bps * 11], (106, 107, 112), 32)) * (bps // 4)
    return bytes(b)


class Node(object):
    def __init__(self):
        self.children = []
        self.clusters = []
        self.content = b''
        self.deleted = False
        self.state = 'live'
        self.bad_tail = False


class Volume(object):
    """A random exFAT volume: .image, .expected (list of tuples), .files [(cluster, size, nofat, content)]."""

    def __init__(self, rng, mon, geo=None, maxfiles=30):
        self.rng, self.mon = rng, mon
        self.g = g = geo or Geometry(rng)
        self.free = self.usable()
        self.fat = {}
        self.alloc = set()
        self.data = {}
        self.expected, self.files, self.extents = [], [], []
        self.budget = maxfiles
        self.late, self.orphans = [], []
        self.build()

    def usable(self):
        return list(range(2, self.g.count + 2))

    def add_ghosts(self, top):
        """Deleted entries left behind by renaming or moving a directory."""
        rng = self.rng
        live, hosts = [], [(top, ())]

        def visit(lst, up, ok):
            for n in lst:
                if n.is_dir:
                    hosts.append((n.children, up + (n,)))
                    if ok and not n.deleted:
                        live.append((n, lst))
                    visit(n.children, up + (n,), ok and not n.deleted)
        visit(top, (), True)
        if not live or rng.random() < 0.4:
            return
        for __ in range(rng.choice([1, 1, 2, 4])):
            t, lst = rng.choice(live)
            if rng.random() < 0.5:
                host, at = lst, lst.index(t) if rng.random() < 0.7 else rng.randint(0, len(lst))
                self.mon.count('renamed_dirs')
            else:
                host, up = rng.choice(hosts)
                if t in up or host is lst:
                    continue
                at = len(host) if rng.random() < 0.7 else rng.randint(0, len(host))
                self.mon.count('moved_dirs')
            g = Node()
            g.is_dir, g.name, g.deleted, g.state, g.target, g.nofat = True, rnd_name(rng, 30), True, 'ghost', t, t.nofat
            host.insert(at, g)

    def resolve(self, nodes):
        out = []
        for n in nodes:
            if n.state == 'ghost':
                t = n.target
                if not t.clusters:
                    continue
                n.clusters = t.clusters[:1]
                n.meta.cluster, n.meta.size, n.meta.vdl, n.meta.nofat = t.meta.cluster, t.meta.size, t.meta.vdl, t.meta.nofat
            if n.is_dir:
                n.children = self.resolve(n.children)
            out.append(n)
        return out

    def take(self, n, contiguous):
        rng = self.rng
        if n > len(self.free) - 3:
            return None
        if contiguous:
            fs = set(self.free)
            for __ in range(40):
                s = rng.choice(self.free)
                if all(s + i in fs for i in range(n)):
                    out = list(range(s, s + n))
                    self.free = [c for c in self.free if not s <= c < s + n]
                    return out
            return None
        out = rng.sample(self.free, n)
        so = set(out)
        self.free = [c for c in self.free if c not in so]
        return out

    def store(self, cl, content):
        cs = self.g.cs
        for i, c in enumerate(cl):
            p = content[i * cs:(i + 1) * cs]
            self.data[c] = p + (ntfs.rnd_bytes(self.rng, cs - len(p)) if len(p) < cs else b'')

    def link(self, cl, bad_tail=False):
        for a, b in zip(cl, cl[1:]):
            self.fat[a] = b
        if cl:
            self.fat[cl[-1]] = BAD if bad_tail else EOC

    def tree(self, depth, dead=False):
        rng = self.rng
        out = []
        for __ in range(rng.choice([0, 1, 2, 5, 9]) if depth else rng.choice([1, 4, 8, 14])):
            if self.budget <= 0:
                break
            self.budget -= 1
            n = Node()
            n.is_dir = depth < 5 and rng.random() < 0.4
            n.name = rnd_name(rng, 30 if rng.random() < 0.8 else None)
            n.deleted = dead or rng.random() < 0.25
            n.state = 'live' if not n.deleted else rng.choice(['free', 'free', 'reused', 'open']) if not dead else 'free'
            n.nofat = rng.random() < 0.5
            if n.is_dir:
                n.children = self.tree(depth + 1, dead or (n.deleted and rng.random() < 0.8))
            else:
                cs = self.g.cs
                n.content = ntfs.rnd_bytes(rng, rng.choice([0, 1, cs - 1, cs, cs + 1, rng.randint(0, 4 * cs), rng.randint(0, 12 * cs)]))
            out.append(n)
        return out

    def place(self, n):
        rng, g = self.rng, self.g
        n.vendor = rng.choice([0, 0, 0, 0, 1, 3])
        n.meta = Meta(rng, n.is_dir)
        n.meta.nofat = n.nofat
        n.stray = []
        if n.state == 'ghost':
            return True
        if n.is_dir:
            n.children = [c for c in n.children if self.place(c)]
            n.stray = self.strays()
            size = sum(self.set_len(c) for c in n.children) + sum(len(b) for __, b in n.stray)
            need = max(1, -(-(size + 32) // g.cs)) if rng.random() < 0.8 else max(1, -(-size // g.cs))
            if rng.random() < 0.2:
                need += 1
            if not n.children and rng.random() < 0.2:
                n.stray = []
                n.clusters = []
                n.meta.cluster = n.meta.size = n.meta.vdl = 0
                return True
            cl = self.take(need, n.nofat)
            if cl is None:
                self.unplace(n)
                return False
            n.clusters = cl
            n.meta.cluster, n.meta.size, n.meta.vdl = cl[0], need * g.cs, need * g.cs
            if g.cs > 512 and rng.random() < 0.1:
                # A size that ends with the last sector in use.
                n.meta.size = n.meta.vdl = max(512, -(-size // 512) * 512)
                self.mon.count('short_directories')
            return True
        n.meta.size = len(n.content)
        n.meta.vdl = rng.choice([len(n.content), rng.randint(0, len(n.content))])
        need = -(-len(n.content) // g.cs)
        if need > 1 and not n.nofat and rng.random() < 0.06:
            # The table marks the last cluster as bad: null bytes are read in its place.
            need -= 1
            n.bad_tail = True
            n.content = n.content[:need * g.cs] + b'\x00' * (len(n.content) - need * g.cs)
        if need:
            cl = self.take(need, n.nofat)
            if cl is None:
                return False
            n.clusters = cl
            n.meta.cluster = cl[0]
        return True

    def strays(self):
        """Names left without their set."""
        out = []
        while self.rng.random() < 0.15:
            name = rnd_name(self.rng, 40)
            if units(name) % 15 == 0:
                name += 'z'
            out.append((name, b''.join(name_entries(name, self.rng.choice([0x41, 0x41, 0xC1])))))
        return out

    def unplace(self, n):
        n.clusters = []
        for c in n.children:
            self.unplace(c)

    def set_len(self, n):
        return 32 * (2 + -(-units(n.name) // 15) + n.vendor)

    def emit(self, n):
        raw = entry_set(self.rng, n.meta, n.name, n.vendor)
        return delete(raw) if n.deleted else raw

    def write(self, n):
        """Write the content of a node (recursively); allocate what is live."""
        rng, g = self.rng, self.g
        if n.state == 'ghost':
            return
        body = b''.join([self.emit(c) for c in n.children] + [b for __, b in n.stray]) if n.is_dir else n.content
        if n.is_dir:
            total = len(n.clusters) * g.cs
            body += b'\x00' * (total - len(body))
        self.store(n.clusters, body)
        if n.state in ('live', 'open'):
            self.alloc.update(n.clusters)
            if not n.nofat:
                self.link(n.clusters, n.bad_tail)
                if n.bad_tail and not n.deleted:
                    self.mon.count('bad_tail_files')
            else:
                for c in n.clusters:       # the table is undefined for contiguous files
                    if rng.random() < 0.5:
                        self.fat[c] = rng.choice([0, EOC, rng.randint(2, g.count + 1), rng.getrandbits(32)])
        elif not n.nofat:
            if len(n.clusters) > 1 or rng.random() < 0.7:
                self.link(n.clusters)      # Deleting a file only clears the bitmap.
        if n.state == 'reused' and n.clusters:
            self.late.append(n)
        for c in n.children:
            self.write(c)

    def build(self):
        rng, g = self.rng, self.g
        # Bitmaps, upcase table, root directory.
        nb = -(-g.count // 8)
        need = -(-nb // g.cs)
        self.bitmaps = []
        for i in range(g.nfats):
            self.bitmaps.append(self.take(need, rng.random() < 0.5) or self.take(need, False))
        self.upcase = self.take(-(-5836 // g.cs), True) or self.take(1, False)
        room = self.take(max(1, min(12, len(self.free) // 4)), False)
        top = self.tree(0)
        self.add_ghosts(top)
        top = [n for n in top if self.place(n)]
        top = self.resolve(top)
        pre = []
        for i in range(g.nfats):
            e = bytearray(32)
            e[0], e[1] = 0x81, i
            struct.pack_into('<LQ', e, 20, self.bitmaps[i][0], nb)
            pre.append(bytes(e))
        up = bytearray(32)
        up[0] = 0x82
        struct.pack_into('<LQ', up, 20, self.upcase[0], 5836)
        pre.append(bytes(up))
        label = rng.choice([None, '', 'VOL', 'exFAT lab\u00e9l', 'ABCDEFGHIJK', 'ABCDEFGHIJKLMNO'])
        lab = None
        if label is not None:
            e = bytearray(32)
            b = utf16(label)
            e[0], e[1] = (0x83, len(b) // 2)
            e[2:2 + len(b)] = b
            lab = bytes(e)
            pre.append(lab)
        if rng.random() < 0.3:
            pre.append(bytes([0xA0]) + ntfs.rnd_bytes(rng, 31))      # Volume GUID.
        if rng.random() < 0.2:
            pre.append(bytes([0xA1]) + b'\x00' * 31)                # TexFAT padding.
        rng.shuffle(pre)
        sets = [self.emit(n) for n in top]
        self.root_strays = self.strays()
        pre += [b for __, b in self.root_strays]
        body = b''
        mixed = rng.random() < 0.5
        if mixed:
            parts = [p for p in pre if p[0] == 0x81]
            rest = [p for p in pre if p[0] != 0x81] + sets
            for p in [x for x in pre if x[0] != 0x81]:
                parts.append(p)
            parts += sets
            body = b''.join(parts)
        else:
            body = b''.join(pre + sets)
        need = max(1, -(-len(body) // g.cs)) + (1 if rng.random() < 0.3 else 0)
        while need > len(room):
            # Too full: drop entries from the end.
            gone = top.pop()
            self.unplace(gone)
            top = self.resolve(top)
            body = b''.join(pre + [self.emit(n) for n in top])
            need = max(1, -(-len(body) // g.cs))
        cl, spare = room[:need], room[need:]
        self.free += spare
        g.root = cl[0]
        self.root_clusters = cl
        self.store(cl, body + b'\x00' * (need * g.cs - len(body)))
        self.link(cl)
        self.alloc.update(cl)
        for b in self.bitmaps + [self.upcase]:
            self.link(b)
            self.alloc.update(b)
        self.store(self.upcase, ntfs.rnd_bytes(rng, 5836))
        for n in top:
            self.write(n)
        for n in self.late:
            c = n.clusters[0]
            if c in self.alloc:
                continue
            self.alloc.add(c)
            self.fat[c] = EOC
            for k in n.clusters:
                if k == c or k not in self.alloc:
                    self.data[k] = (b'\xff' + ntfs.rnd_bytes(rng, 31)) * (g.cs // 32)
        for c in self.free[:rng.randint(0, 2)]:
            self.fat[c] = BAD
        self.label = label if label else None
        self.top = top
        self.names = ['/' + x for x, __ in self.root_strays]
        self.expected_scan, self.names_scan = [], list(self.names)
        self.collect(top, '')
        for n in self.orphans:
            if not n.children or not n.children[0].deleted:
                continue
            self.mon.count('orphan_dirs')
            self.collect(n.children, '<Orphan directory %d>' % n.clusters[0], True)
            self.names += ['<Orphan directory %d>/%s' % (n.clusters[0], x) for x, __ in n.stray]
        self.optional = set()
        self.collect_scan(top, '', set(self.root_clusters[:1]))
        self.assemble()

    def collect(self, children, path, orphan=False):
        for n in children:
            p = path + '/' + n.name
            self.expected.append(n.meta.expect(p, n.deleted))
            self.mon.count('deleted_entries' if n.deleted else ('live_dirs' if n.is_dir else 'live_files'))
            if not n.is_dir:
                if not n.deleted:
                    self.files.append((n.meta.cluster, n.meta.size, n.nofat, n.content))
                    self.mon.count('contiguous_files' if n.nofat else 'chained_files')
                continue
            if not n.clusters:
                self.mon.count('empty_dirs')
                continue
            if n.deleted and n.clusters[0] in self.alloc:
                if n.state == 'open' and not orphan:
                    self.orphans.append(n)
                elif n.state == 'reused':
                    self.mon.count('reused_dirs')
                continue
            if n.deleted:
                self.mon.count('deleted_dirs_descended')
            self.collect(n.children, p, orphan)
            self.names += [p + '/' + x for x, __ in n.stray]

    def collect_scan(self, children, path, stack):
        """What the walk reports when reallocated directories are scanned, too."""
        for n in children:
            p = path + '/' + n.name
            t = n.meta.expect(p, n.deleted)
            if n.is_dir and n.clusters and n.clusters[0] in stack:
                self.optional.add(t)
                continue
            self.expected_scan.append(t)
            inner = n.target if n.state == 'ghost' else n
            if n.is_dir and n.clusters and n.state != 'reused':
                self.collect_scan(inner.children, p, stack | set(n.clusters[:1]))
                self.names_scan += [p + '/' + x for x, __ in inner.stray]

    def assemble(self):
        rng, g = self.rng, self.g
        bits = bytearray(-(-g.count // 8))
        for c in self.alloc:
            bits[(c - 2) // 8] |= 1 << ((c - 2) % 8)
        for i, b in enumerate(self.bitmaps):
            self.store(b, bytes(bits) if i == g.active else ntfs.rnd_bytes(rng, len(bits)))
        img = bytearray(g.size)
        br = boot_region(rng, g)
        self.br = br
        img[0:len(br)] = br
        img[len(br):2 * len(br)] = br
        vals = [0xFFFFFFF8, EOC] + [0] * g.count
        for k, v in self.fat.items():
            vals[k] = v
        tab = struct.pack('<%dL' % len(vals), *vals)
        tab += b'\x00' * (g.fatlen * g.bps - len(tab))
        for i in range(g.nfats):
            o = (g.fatoff + i * g.fatlen) * g.bps
            img[o:o + len(tab)] = tab if i == g.active else ntfs.rnd_bytes(rng, len(tab))
        for c, b in self.data.items():
            img[g.off(c):g.off(c) + g.cs] = b
        self.image = bytes(img)


class FarGeometry(Geometry):
    def __init__(self, rng):
        Geometry.__init__(self, rng, bps=rng.choice([512, 4096]))
        self.spc = 1 << rng.choice([3, 5, 7] if self.bps == 512 else [0, 3, 5])
        self.cs = self.bps * self.spc
        # The bitmap is read as a whole: up to a few MiB of it.
        self.count = rng.choice([(1 << 20) + rng.randint(0, 999), (1 << 22) + rng.randint(0, 999), (1 << 24) + rng.randint(0, 999)])
        self.fatlen = -(-(self.count + 2) * 4 // self.bps) + rng.choice([0, 0, 1, 3])
        self.heap = self.fatoff + self.fatlen * self.nfats + rng.choice([0, 7, 64])
        if rng.random() < 0.2:
            self.heap = rng.choice([(1 << 31) + 5, (1 << 32) - 64])
        self.vlen = self.heap + self.count * self.spc + rng.choice([0, 1, 5])
        self.size = self.vlen * self.bps


class FarVolume(Volume):
    """A volume of gigabytes and more: a sparse file."""

    def usable(self):
        g, rng = self.g, self.rng
        out = set([2, 3, 4, 5, g.count + 1, g.count])
        nb = -(-(-(-g.count // 8)) // g.cs) * g.nfats
        for c in [x // g.cs for x in (1 << 31, 1 << 32, 1 << 33, 1 << 40)] + [1 << 16, g.count // 2]:
            out.update(x for x in range(c - 6, c + 6) if 2 <= x < g.count + 2)
        while len(out) < 160 + 2 * nb:
            a = rng.randint(2, g.count)
            out.update(x for x in range(a, a + 8 + nb) if x < g.count + 2)
        return sorted(out)

    def assemble(self):
        from lib import parts
        rng, g = self.rng, self.g
        bits = bytearray(-(-g.count // 8))
        for c in self.alloc:
            bits[(c - 2) // 8] |= 1 << ((c - 2) % 8)
        for i, b in enumerate(self.bitmaps):
            self.store(b, bytes(bits) if i == g.active else ntfs.rnd_bytes(rng, 4096) + bytes(len(bits) - 4096))
        self.offset = o = rng.choice([0, 512 * 63, 1 << 20, (1 << 32) + 512])
        f = parts.Far(o + g.size + rng.choice([0, 4096]))
        br = boot_region(rng, g)
        f.put(o, br)
        f.put(o + len(br), br)
        base = o + (g.fatoff + g.active * g.fatlen) * g.bps
        f.put(base, struct.pack('<LL', 0xFFFFFFF8, EOC))
        for k, v in self.fat.items():
            f.put(base + 4 * k, struct.pack('<L', v))
        for c, b in self.data.items():
            f.put(o + g.off(c), b)
        self.image = f
