"""C21: rows and blocks written by the command-line tools vs. the generated input."""
import struct, os
from lib.harness import clip, Mon
from lib import ntfs, cli, treegen, usngen, lfsgen, volgen, vssgen, parts, fatgen, exfatgen
from lib.ntfs import ref
from lib.treegen import T, compare_rows, match, row_match

PROPERTY = 'C21'
RULE = ('each case generates an input for one mode of a command-line tool (a tree of file records with hard links, deleted parents, extension records, streams, indexes and slack; a journal; a transaction log with damaged records; a volume with index buffers; '
        'a volume with several shadow copies holding different file tables; a memory image; a link-tracking log; FAT and exFAT volumes), runs the unmodified tool on it and compares every row, cell, line and block of its output, and the exit status, with the generated items. '
        'Distinct = distinct inputs.')
REQUIRED = ['rows', 'lines', 'blocks', 'separate_runs', 'extension_records', 'usn_v2', 'usn_v3', 'usn_v4', 'usn_paths', 'usn_bad_names', 'log_restart_areas', 'log_frs', 'log_attributes', 'log_entries', 'log_usn', 'log_si_updates', 'log_name_updates',
            'log_deleted', 'log_bad_offsets', 'log_truncated_lists', 'log_short_values', 'log_short_entries', 'log_negative_targets', 'log_number_paths', 'log_reference_paths', 'indx_entries', 'indx_slack', 'indx_foreign', 'indx_short_keys',
            'indx_skipped_buffers', 'indx_split', 'split_attributes', 'log_frs_large', 'indx_large_clusters', 'shadow_reports', 'no_shadows', 'broken_stores', 'dead_tables', 'list_lines', 'mem_rows', 'move_entries', 'fat_rows', 'fat_labels', 'fat_partial', 'exfat_rows', 'exfat_labels', 'exfat_partial']
ASSUMPTIONS = ['For a file with several long names any of them may be the one used to name its path as a target or parent.', 'The rows of a record with undecodable attributes are not judged (those of all other records are).',
               'Names in slack space that are only partly preserved are reported as the library function finds them (property C08 covers it).', 'llfuse is replaced by a stand-in (vsc_mount --list does not use it).']

MFT_HEADER = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp', '$SI USN value',
              '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']


HOOK = None     # other checks observe the same runs


def tool(rng, mon, script, argv):
    sep = rng.random() < 0.004
    r = HOOK(rng, mon, script, argv, sep) if HOOK is not None else cli.run(script, argv, separate=sep)
    mon.count('separate_runs' if sep else 'runs')
    return r


def succeeded(mon, r, mode, ctx):
    mon.check(r.status == 0 and r.error is None, 'exit-status:' + mode, lambda: '%s; %s' % (r.error, ctx))


def case_mft(rng, mon):
    size = rng.choice([1024, 1024, 4096])
    t = treegen.Tree(rng, mon, rng.choice([2, 6, 15, 40]), hostile=rng.random() < 0.7, size=size)
    with cli.Scratch() as s:
        p = s.put('mft', t.table)
        o = s.path('out.csv')
        r = tool(rng, mon, 'ntfs_parser', ['--mft', p, o])
        ctx = 'tree of %d records' % len(t.nodes)
        succeeded(mon, r, 'mft', ctx)
        rows = cli.read_csv(o)
    mon.equal(rows[:1], [MFT_HEADER], 'header:mft')
    compare_rows(mon, rows[1:], t.mft_rows(), 'rows:mft', ctx)
    mon.sig(t.table)


class Codes(object):
    def __init__(self, code, table, prefix):
        self.want = usngen.resolve(code, table, prefix)

    def ok(self, cell):
        return sorted(filter(None, cell.split(' | '))) == sorted(self.want)

    def __repr__(self):
        return 'Codes%r' % self.want


USN_HEADER = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']


def rnd_reference(rng, t):
    x = rng.choice(list(t.nodes.values()))
    return ref(x.number, rng.choice([treegen.real_seq(x)] * 4 + [7])) if rng.random() < 0.9 else rng.getrandbits(64)


def usn_tweak(rng, mon, t):
    def tweak(b, m):
        b = bytearray(b)
        w = 8 if m['v'] == 2 else 16
        for key, at in (('ref', 8), ('parent', 8 + w)):
            if rng.random() < 0.9:
                m[key] = rnd_reference(rng, t)
                b[at:at + w] = m[key].to_bytes(w, 'little')
        if m['v'] != 4 and rng.random() < 0.05:
            pos = 72 if m['v'] == 3 else 56
            b[pos:pos + 2] = (len(b) - m['noff'] + 2 * rng.randint(1, 100)).to_bytes(2, 'little')
            m['name'] = ''
            mon.count('usn_bad_names')
        return bytes(b), m
    return tweak


def case_usn(rng, mon):
    t = treegen.Tree(rng, mon, rng.choice([2, 6, 15, 30]), hostile=rng.random() < 0.7, slack=False)
    damage = rng.random() < 0.5
    data, model = usngen.journal(rng, mon, rng.choice([1, 2, 3, 6]), damage=damage, tweak=usn_tweak(rng, mon, t))
    ctx = 'journal of %d records' % len(model)
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'ntfs_parser', ['--usn', s.put('mft', t.table), s.put('j', data), o])
        succeeded(mon, r, 'usn', ctx)
        rows = cli.read_csv(o)
    mon.equal(rows[:1], [USN_HEADER], 'header:usn')
    want = []
    for __, m in model:
        paths = t.path_of(m['ref'])
        if paths is not None:
            mon.count('usn_paths')
        want.append([m['usn'], Codes(m['source'], usngen.SOURCES, 'USN_SOURCE_'), Codes(m['reason'], usngen.REASONS, 'USN_REASON_'), m['ref'], m['parent'],
                     T(m['ts']) if m['v'] != 4 else '', m['name'] if m['v'] != 4 else '', '' if paths is None else treegen.OneOf(paths)])
        mon.count('usn_v%d' % m['v'])
    compare_rows(mon, rows[1:], [('seq', want)], 'rows:usn', ctx)
    mon.sig(data)


# --- The transaction log as text ---

FILE_ATTRS = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE', 0x40: 'DEVICE', 0x80: 'NORMAL', 0x100: 'TEMPORARY', 0x200: 'SPARSE', 0x400: 'REPARSE_POINT', 0x800: 'COMPRESSED',
              0x1000: 'OFFLINE', 0x2000: 'NOT_CONTENT_INDEXED', 0x4000: 'ENCRYPTED'}


class Names(object):
    def __init__(self, v):
        self.want = sorted(n for k, n in FILE_ATTRS.items() if v & k)

    def ok(self, cell):
        return sorted(filter(None, cell.split(' | '))) == self.want

    def __repr__(self):
        return 'Names%r' % self.want


def dump(buf):
    if not buf:
        return ['-']
    res = []
    for i in range(0, len(buf), 16):
        b = buf[i:i + 16]
        h = ''
        for k, x in enumerate(b):
            h += '%02X' % x
            if k < len(b) - 1:
                h += '-' if k == 7 else ' '
        h += '   ' * (16 - len(b))
        res.append('%08X  %s  %s' % (i, h, ''.join(chr(x) if 32 <= x <= 126 else '.' for x in b)))
    return res


def t_lines(d):
    return [(' * %s timestamp: ' % k.upper(), d[k] if d[k] == 'N/A' else T(d[k])) for k in 'mace']


def si_lines(v):
    c, m, e, a, attrs = struct.unpack_from('<QQQQL', v)
    return ['$STANDARD_INFORMATION:'] + t_lines(dict(c=c, m=m, e=e, a=a)) + [(' * File attributes: ', Names(attrs)), '']


def fn_lines(t, v, head):
    parent, c, m, e, a = struct.unpack_from('<QQQQQ', v)
    n = v[64]
    name = v[66:66 + 2 * n].decode('utf-16le', 'replace')
    res = [head] + t_lines(dict(c=c, m=m, e=e, a=a)) + [' * File name: ' + name, ' * Parent (file reference number): %d' % parent]
    p = t.path_of(parent)
    if p is not None:
        res.append((' * Parent path (from $MFT): ', treegen.OneOf(p)))
    return res + ['']


def obj_lines(v):
    import uuid
    gt = treegen.guid_ticks(v[:16])
    return ['$OBJECT_ID:', ' * GUID: %s' % uuid.UUID(bytes_le=bytes(v[:16])), (' * Timestamp: ', 'N/A' if gt is None else T(gt, ntfs.EPOCH_1582)), '']


def value_lines(t, code, v):
    if code == ntfs.SI and len(v) >= 48:
        return si_lines(v)
    if code == ntfs.FN and len(v) >= 66:
        return fn_lines(t, v, '$FILE_NAME:')
    if code == ntfs.OBJID and len(v) >= 16:
        return obj_lines(v)
    return []


def rnd_value(rng, t):
    k = rng.choice([ntfs.SI, ntfs.FN, ntfs.FN, ntfs.OBJID, ntfs.DATA, ntfs.SECDESC])
    if k == ntfs.SI:
        return k, ntfs.si_value(attrs=rng.getrandbits(15), owner=rng.choice([None, 7]), **treegen.times(rng))
    if k == ntfs.FN:
        return k, ntfs.fn_value(rnd_reference(rng, t), ntfs.rnd_name(rng, 1, 20), flags=rng.randrange(4), **treegen.dup(rng))
    if k == ntfs.OBJID:
        return k, treegen.guid(rng) + ntfs.rnd_bytes(rng, rng.choice([0, 48]))
    return k, ntfs.rnd_bytes(rng, rng.randint(0, 40))


INDEX_ADD = (0xc, 0xe, 0x10)
NAME_UPDATE = (0x13, 0x14)


def log_extra(rng, mon, t, d, known):
    """The decoded part of a record."""
    redo, undo, a, b = d['redo'], d['undo'], d['redo_data'], d['undo_data']
    out = []
    if redo == 2:
        out += known.get(('frs', a), [])
    if 5 in (redo, undo) or 4 in (redo, undo):
        v = a if redo == 5 else b if undo == 5 else a if len(a) > len(b) else b
        out += known.get(('attr', v), [])
    off = d['rec_off'] + d['attr_off']
    if 7 in (redo, undo):
        size = d['block_size'] * 512 or 1024
        si = {1024: 80, 4096: 96}.get(size)
        if si is not None and si <= off <= si + 32:
            rel = off - si
            for nm, v in (('redo', a), ('undo', b)):
                if len(v) >= 8:
                    q = {}
                    for k, pos in (('c', 0), ('m', 8), ('e', 16), ('a', 24)):
                        q[k] = struct.unpack_from('<Q', v, pos - rel)[0] if rel <= pos and rel + len(v) >= pos + 8 else 'N/A'
                    out += ['Possible update to $STANDARD_INFORMATION (%s data):' % nm] + t_lines(q) + ['']
                    mon.count('log_si_updates')
    if redo in INDEX_ADD or undo in INDEX_ADD:
        v = a if redo in INDEX_ADD else b
        if len(v) >= 16:
            n, fl = struct.unpack_from('<HH', v, 10)
            key = v[16:16 + n]
            if not fl & 2 and len(key) > 66:
                out += fn_lines(t, key, '$FILE_NAME in index:')
    for nm, op, v in (('redo', redo, a), ('undo', undo, b)):
        if op in NAME_UPDATE and len(v) == 56:
            c, m, e, x = struct.unpack_from('<QQQQ', v)
            out += ['Update to duplicated information (%s data):' % nm] + t_lines(dict(c=c, m=m, e=e, a=x)) + ['']
            mon.count('log_name_updates')
    if d.get('name') == '$J':
        for op, v in ((redo, a), (undo, b)):
            if op == 8:
                out += known.get(('usn', v), [])
    return out


def rnd_log_data(rng, mon, t, op, known, frs_size=1024):
    """Data for an operation, mostly of the kind the operation carries."""
    r = rng.random()
    if r < 0.25:
        return rng.randbytes(rng.choice([0, 0, 1, 7, 8, 15, 24, 40, 56, rng.randrange(300)]))
    if op == 2:
        size = frs_size
        vals = [rnd_value(rng, t) for __ in range(rng.randint(1, 4) if size == 1024 else rng.randint(1, 16))]
        attrs = [(k, ntfs.attr_resident(k, v)) for k, v in vals]
        b, __ = ntfs.frs_plain([a for __, a in attrs], number=40, seq=3, size=size)
        used = struct.unpack('<L', b[24:28])[0]
        b = bytes(b[:used])
        if len(b) <= size and size == frs_size:
            known['frs', b] = sum([value_lines(t, k, v) for k, v in vals], [])
            mon.count('log_frs')
            mon.count('log_frs_large', len(b) > 1024)
        else:
            b = b''
        return b
    if op in (4, 5):
        k, v = rnd_value(rng, t)
        short = k in (ntfs.SI, ntfs.FN) and rng.random() < 0.1
        if short:
            v = v[:rng.randint(1, 40)]
            mon.count('log_short_values')
        b = ntfs.attr_resident(k, v, name=rng.choice([None, 'abc']) if k == ntfs.DATA else None) + (rng.randbytes(8) if rng.random() < 0.1 else b'')
        if rng.random() < 0.08:
            b = b[:rng.choice([1, 16, 23, 24, len(b) - 1])]
            if len(b) < 24 + len(v):
                return b
        known['attr', b] = value_lines(t, k, v)
        mon.count('log_attributes')
        return b
    if op in INDEX_ADD:
        key = ntfs.fn_value(rnd_reference(rng, t), ntfs.rnd_name(rng, 1, 20), flags=rng.randrange(4), **treegen.dup(rng)) if rng.random() < 0.8 else rng.randbytes(rng.choice([0, 8, 16, 66]))
        b = ntfs.index_entry(rng.getrandbits(64), key) if rng.random() < 0.9 else ntfs.index_end()
        if len(b) > 16 and len(key) > 66:
            mon.count('log_entries')
        if rng.random() < 0.1:
            b = b[:rng.randint(0, 15)]
            mon.count('log_short_entries')
        return b
    if op in NAME_UPDATE:
        return ntfs.dup_info(**treegen.dup(rng))
    if op == 7:
        return rng.randbytes(rng.choice([4, 8, 16, 32, 48]))
    if op == 8:
        b, m = usn_tweak(rng, mon, t)(*usngen.record(rng))
        if len(b) > 2000:
            return b''
        out = ['USN record (version 4):' if m['v'] == 4 else 'USN record:', ' Number: %d' % m['usn'], (' Source: ', Codes(m['source'], usngen.SOURCES, 'USN_SOURCE_')), (' Reason: ', Codes(m['reason'], usngen.REASONS, 'USN_REASON_')),
               ' File reference number: %d' % m['ref'], ' Parent file reference number: %d' % m['parent']]
        if m['v'] != 4:
            out += [(' Timestamp: ', T(m['ts']))]
            if m['name'] != '':
                out += [' File name: ' + m['name']]
        known['usn', b] = out + ['']
        mon.count('log_usn')
        return b
    return rng.randbytes(rng.randrange(60))


def frs_target(rng, t, cluster, block_size):
    """(vcn, block offset, number) of a record in a table with this geometry."""
    size = block_size * 512 or 1024
    n = rng.choice(list(t.nodes)) if rng.random() < 0.8 else rng.randrange(1 << 30)
    at = n * size
    return at // cluster, at % cluster // 512, n


def case_log(rng, mon):
    from checks import c11
    t = treegen.Tree(rng, mon, rng.choice([2, 6, 15]), hostile=rng.random() < 0.5, slack=False, deco=False, spill=False)
    log = lfsgen.Log(rng, npages=rng.choice([4, 6, 10, 14]), crc=False)
    cl = c11.Client(rng, log)
    cl.ra_size = rng.choice([112, 112, 128, 88])
    known = {}
    blocks = []       # (record, expected lines or None: not judged past the head)
    deleted = []

    def restart():
        links = [0] * 5
        f = dict(lens=tuple(rng.getrandbits(20) for __ in range(4)))
        r = cl.add(lfsgen.ntfs_restart(cl.major, 0, *links, size=cl.ra_size, cluster=cl.cluster, **f), dict(kind='restart'), 2)
        log.restart_lsn = r.lsn
        blocks.append((r, ['LSN: %d' % r.lsn, 'Restart area, version: %d.0' % cl.major, ' Start of checkpoint LSN: 0', ' Tables (LSN and length):', ' * Open attribute table: 0 %d' % f['lens'][0],
                           ' * Attribute names: 0 %d' % f['lens'][1], ' * Dirty page table: 0 %d' % f['lens'][2], ' * Transaction table: 0 %d' % f['lens'][3]], True))
        mon.count('log_restart_areas')

    def open_slot():
        free = [i for i, s in enumerate(cl.slots) if s is None]
        if not free:
            return
        i = rng.choice(free)
        reference = rnd_reference(rng, t)
        name = rng.choice(['', '$I30', '$J', '$J', '$J', '$SDS', '\u00fc'])
        d = dict(kind='open', redo=0x1c, undo=0, redo_data=cl.entry(reference, 0, 0x80, 0, cl.index(i)), undo_data=name.encode('utf-16le'), target=cl.index(i), lcns=(), rec_off=0, attr_off=0, block_off=0, block_size=0, vcn=0)
        write(d)
        cl.slots[i] = (reference, name)

    def write(d, cut=None):
        data = bytearray(lfsgen.ntfs_record(d['redo'], d['undo'], d['redo_data'], d['undo_data'], d['target'], d['lcns'], d['rec_off'], d['attr_off'], d['block_off'], d['block_size'], d['vcn'], rng=rng))
        if cut == 'lcns':
            struct.pack_into('<H', data, 14, rng.choice([1000, 65535]))
        elif cut == 'offset':
            w = rng.choice([4, 8])
            struct.pack_into('<HH', data, w, rng.randint(1, 31), rng.randint(1, 100))
        r = cl.add(bytes(data), d)
        L = ['LSN: %d' % r.lsn, 'Transaction ID: %d' % r.tx, 'Log record, redo operation: %s, undo operation: %s' % tuple(c11.NAMES.get(x, hex(x)) for x in (d['redo'], d['undo']))]
        if cut == 'offset':
            blocks.append((r, L, False))
            mon.count('log_bad_offsets')
            return
        if d['kind'] == 'resident':
            L.append('Target (file number): %d' % d['number'])
            p = t.path_of_number(d['number'])
            if p is not None:
                L.append(('Target path (from $MFT, likely wrong if the file was deleted later): ', treegen.OneOf(p)))
                mon.count('log_number_paths')
            L.append('Offset in target: %d' % (d['rec_off'] + d['attr_off']))
        elif d['kind'] == 'nonresident':
            L += ['Target (file reference number): %d' % d['reference'], ('Target (attribute name): ', d['name'] if d['name'] else treegen.OneOf(['', '-']))]
            p = t.path_of(d['reference'])
            if p is not None:
                L.append(('Target path (from $MFT): ', treegen.OneOf(p)))
                mon.count('log_reference_paths')
            L.append('Offset in target: %d' % (d['vcn'] * cl.cluster + d['block_off'] * 512 + d['rec_off'] + d['attr_off']))
        else:
            L += ['Unknown target, target attribute: %d' % d['target'], 'Unknown offset in target']
        if cut == 'lcns':
            L.append('Warning: truncated page')
            blocks.append((r, L, True))
            mon.count('log_truncated_lists')
            return
        if d['redo'] == 3:
            deleted.append(d['number'])
        if d['lcns']:
            L.append('LCN(s): ' + ' '.join(map(str, d['lcns'])))
        L += ['Redo data:'] + dump(d['redo_data']) + ['', 'Undo data:'] + dump(d['undo_data']) + ['']
        L += log_extra(rng, mon, t, d, known)
        blocks.append((r, L, True))

    def step():
        k = rng.random()
        cut = None if rng.random() < 0.95 else rng.choice(['lcns', 'offset'])
        if k < 0.1:
            return open_slot()
        have = [i for i, s in enumerate(cl.slots) if s is not None]
        if k < 0.5 and have:
            i = rng.choice(have)
            d = cl.blank('nonresident')
            d['target'] = cl.index(i)
            d['reference'], d['name'] = cl.slots[i]
            ops = [8] * 4 + [0xe, 0x10, 0x14] * 2 + c11.NON
            d['redo'], d['undo'] = rng.choice(ops), rng.choice(ops + [0, 0, 1])
            if rng.random() < 0.15:
                d['redo'] = rng.choice([0, 1])
                d['undo'] = rng.choice(ops)
            d['lcns'] = tuple(rng.randrange(1 << 40) for __ in range(rng.choice([0, 1, 1, 2, 8])))
        elif k < 0.9:
            d = cl.blank('resident')
            ops = [2, 3, 4, 5, 7, 0xc, 0x13] * 2 + c11.RES
            d['redo'], d['undo'] = rng.choice(ops), rng.choice(ops + [0, 0, 0, 1])
            if rng.random() < 0.15:
                d['redo'] = rng.choice([0, 1])
                d['undo'] = rng.choice(ops)
            if d['redo'] == 2 and d['block_size'] not in (0, 2, 8):
                d['block_size'] = rng.choice([0, 2, 8])
            d['vcn'], d['block_off'], d['number'] = frs_target(rng, t, cl.cluster, d['block_size'])
            if rng.random() < 0.02:
                d['vcn'] = -d['vcn'] - 1
                d['number'] = (d['vcn'] * cl.cluster + d['block_off'] * 512) // (d['block_size'] * 512 or 1024)
                mon.count('log_negative_targets')
            if 7 in (d['redo'], d['undo']) and rng.random() < 0.8:
                base = {0: 80, 2: 80, 8: 96}[d['block_size']]
                o = base + rng.choice([-8, -1, 0, 0, 8, 16, 24, 24, 32, 33, 40, 12])
                d['rec_off'] = rng.choice([56, 72, 0])
                d['attr_off'] = o - d['rec_off']
        else:
            d = cl.blank('other')
            d['redo'], d['undo'] = rng.choice(c11.OTHER + [0x30]), rng.choice(c11.OTHER)
        d['redo_data'], d['undo_data'] = rnd_log_data(rng, mon, t, d['redo'], known, d.get('block_size', 0) * 512 or 1024), rnd_log_data(rng, mon, t, d['undo'], known)
        write(d, cut)

    restart()
    for __ in range(rng.choice([5, 20, 60])):
        if log.abs >= log.circ - 3:
            break
        step()
        if rng.random() < 0.05:
            log.flush()
    log.flush()
    log.write_restart()
    log.move(True)
    cap = lfsgen.Capture(log, rng)
    must, whole, heads = cap.expect(True)
    if len(must) != len(log.order) or len(whole) != len(log.order):
        mon.count('log_not_complete')
        return
    ctx = 'log with %d records' % len(blocks)
    with cli.Scratch() as s:
        o = s.path('out.txt')
        r = tool(rng, mon, 'ntfs_parser', ['--log', s.put('mft', t.table), s.put('log', cap.image), o])
        succeeded(mon, r, 'log', ctx)
        text = cli.read_text(o)
    tail = []
    if deleted:
        mon.count('log_deleted')
        tail = [(None, ['Files and directories with these MFT numbers were deleted (in this order):', ' '.join(map(str, deleted))], True)]
    compare_text(mon, text, blocks + tail, 'blocks:log', ctx)
    mon.sig(cap.image)
    mon.sample('%d blocks of text, %d characters' % (len(blocks), len(text)))


SEP = '\n\n---\n\n'


def compare_text(mon, text, blocks, mech, ctx):
    """The text is exactly these blocks. A line may be a string or (prefix, cell)."""
    pos = 0
    for __, lines, whole in blocks:
        start = pos
        for i, want in enumerate(lines):
            end = SEP if i == len(lines) - 1 and whole else '\n'
            if isinstance(want, tuple) and hasattr(want[1], 'values'):     # OneOf (a path may hold line breaks)
                k = next((v for v in want[1].values if text.startswith(want[0] + v + end, pos)), None)
                ok = k is not None
                n = len(want[0] + (k or '') + end)
            elif isinstance(want, tuple):
                e = text.find('\n', pos)
                ok = text.startswith(want[0], pos) and e >= 0 and match(text[pos + len(want[0]):e], want[1]) and text.startswith(end, e)
                n = e + len(end) - pos
            else:
                ok = text.startswith(want + end, pos)
                n = len(want + end)
            if not ok:
                mon.fail(mech, 'line %r expected at %r, in the block %r; %s' % (want, text[pos:pos + 200], text[start:start + 1500], ctx))
            pos += n
            mon.count('lines')
        if not whole:
            e = text.find(SEP, pos - 1)
            mon.check(e >= 0, mech, lambda: 'no end of block; ' + ctx)
            pos = e + len(SEP)
        mon.count('blocks')
    mon.check(pos == len(text), mech + ':extra', lambda: 'unexpected text %r; %s' % (text[pos:pos + 300], ctx))


# --- Index records and slack ---

INDX_HEADER = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']


def index_stream(rng, mon, t, x, cs):
    """Index buffers of the directory x: (bytes, rows of entries, rows of slack)."""
    size = rng.choice([4096, 4096, 4096, 8192])
    out, ents, slacks = b'', [], []
    for v in range(rng.choice([1, 1, 2, 4]) if rng.random() < 0.995 else rng.randint(65, 140)):
        kind = 'ok' if v == 0 or rng.random() < 0.7 else rng.choice(['zero', 'torn', 'foreign'])
        e = treegen.entries(rng, t.nodes, x, rng.choice([0, 1, 3, 8]), 0.2)
        if rng.random() < 0.15:
            e.insert(rng.randrange(len(e) + 1), (ref(99, 1), ntfs.rnd_bytes(rng, rng.choice([1, 8, 16, 65])), None))
            mon.count('indx_short_keys')
        end = ntfs.index_end()
        if rng.random() < 0.08:
            end = b''
        sl, planted = treegen.make_slack(rng, mon, t.nodes, 1500)
        b = ntfs.index_buffer_plain([ntfs.index_entry(r, k) for r, k, __ in e], size=size, vcn=v * size // (cs if cs <= size else 512), lsn=rng.getrandbits(60), end=end, slack=b'\x00' * rng.choice([0, 8, 16]) + sl)
        raw = ntfs.usa_protect(b, 40, ntfs.rnd_bytes(rng, 2))
        if kind == 'ok':
            ents += [(r, m) for r, __, m in e if m is not None]
            slacks += planted
        else:
            mon.count('indx_skipped_buffers')
            if kind == 'zero':
                raw = b'\x00' * size
            elif kind == 'torn':
                raw[510] ^= 0x5A
            else:
                raw[0:4] = b'INDY'
        out += bytes(raw)
    return out, ents, slacks


def indx_row(t, x, source, reference, m):
    parent, nm, f, d = m
    if parent == ref(x.number, x.seq):
        p = t.first_path(x) if x.names else None
    else:
        p = t.path_of(parent)
    return [source, reference, 'Y' if d['attrs'] & 0x10000000 else 'N', treegen.under(p, nm)] + t.fn_times(d) + [d['size']]


def case_indx(rng, mon):
    geo = volgen.geometry(rng, True)
    if rng.random() < 0.1:
        geo = volgen.geometry(rng)
    while geo[0] * geo[1] > 1 << 18:
        geo = volgen.geometry(rng)
    cs = geo[0] * geo[1]
    blobs = []

    def extra(t):
        blobs.clear()
        at = 8000
        for x in t.nodes.values():
            x.more_attrs, x.more_pieces = [], []
            x.index = None
            if x.kind != 'ok' or not (x.is_dir or rng.random() < 0.03) or x.number == 0 or rng.random() < 0.3:
                continue
            data, ents, slacks = index_stream(rng, mon, t, x, cs)
            n = -(-len(data) // cs)
            runs, pos = [], 0
            while pos < n:
                k = rng.randint(1, n - pos) if rng.random() < 0.4 else n - pos
                at += rng.choice([0, 1, 5]) if runs else 1
                runs.append((at, k))
                blobs.append((at, data[pos * cs:(pos + k) * cs]))
                at += k
                pos += k
            if rng.random() < 0.3 and len(runs) > 1:        # out of order on the disk
                mon.count('indx_fragmented')
            if len(runs) > 1 and x.number >= 16 and rng.random() < 0.5:
                k = rng.randint(1, len(runs) - 1)
                low = sum(c for __, c in runs[:k])
                two = [ntfs.attr_nonresident(ntfs.IDXALLOC, runs[:k], len(data), name='$I30', cluster_size=cs, allocated=n * cs, rng=rng),
                       ntfs.attr_nonresident(ntfs.IDXALLOC, runs[k:], 0, name='$I30', cluster_size=cs, lowest_vcn=low, allocated=0, rng=rng)]
                if rng.random() < 0.6:
                    x.more_attrs.append((ntfs.IDXALLOC, two.pop(0)))
                rng.shuffle(two)
                x.more_pieces += two
                mon.count('indx_split')
            else:
                x.more_attrs.append((ntfs.IDXALLOC, ntfs.attr_nonresident(ntfs.IDXALLOC, runs, len(data), name='$I30', cluster_size=cs, rng=rng)))
            if rng.random() < 0.1:
                x.more_attrs.append((ntfs.IDXALLOC, ntfs.attr_nonresident(ntfs.IDXALLOC, runs, len(data), name='$SDH', cluster_size=cs)))
            x.index = ents, slacks
        t.top = at
    t = treegen.Tree(rng, mon, rng.choice([2, 6, 15, 40]), hostile=rng.random() < 0.6, size=geo[3], dirs_extra=extra, cs=cs)
    recs = [t.recs.get(i, b'\x00' * geo[3]) for i in range(t.ext)]
    off = rng.choice([0, 0, 512, 1 << 20])
    try:
        v = volgen.Volume(rng, mon, recs, geo=geo, fragments=rng.choice([1, 2, 4]), list_kind='none', max_ext=1, offset=off, after=rng.choice([0, 5000]), far=False)
    except volgen.Skip:
        mon.count('skipped')
        return
    if v.ext:
        mon.count('skipped')
        return
    assert v.clusters < 8000
    v.file.size = (t.top + 4) * cs
    v.file.total += v.file.size - v.size
    v.file.parts = [(s, d) if s else (0, d[:40] + struct.pack('<Q', v.file.size // v.bps) + d[48:]) for s, d in v.file.parts]
    for lcn, d in blobs:
        v.file.put(lcn * cs, d)
    groups = []
    for num in sorted(t.nodes):
        x = t.nodes[num]
        if x.index is None:
            continue
        ents, slacks = x.index
        groups.append(('seq', [indx_row(t, x, 'Index record', r, m) for r, m in ents]))
        groups.append(('seq', [indx_row(t, x, 'Index slack', '?', m) for m in slacks]))
        mon.count('indx_entries', len(ents))
        mon.count('indx_slack', len(slacks))
        mon.count('indx_foreign', len([m for __, m in ents if m[0] != ref(x.number, x.seq)]))
    ctx = 'volume with %d records, clusters of %d' % (len(recs), cs)
    mon.count('indx_large_clusters', cs > 65536)
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'ntfs_parser', ['--indx', s.put('vol', v.file), off, o])
        succeeded(mon, r, 'indx', ctx)
        rows = cli.read_csv(o)
    mon.equal(rows[:1], [INDX_HEADER], 'header:indx')
    compare_rows(mon, rows[1:], groups, 'rows:indx', ctx)
    mon.sig(t.table, [b[1] for b in blobs])
    mon.sample('%s: %d rows' % (ctx, len(rows) - 1))


# --- The main volume and its shadow copies ---

class Versions(vssgen.Simulation):
    """A volume whose master file table (in a fixed place) changes between snapshots."""
    AT, K = 3, 4

    def boot_block(self):
        if not hasattr(self, 'boot'):
            b = bytearray(vssgen.Simulation.boot_block(self))
            b[:512] = ntfs.boot_sector(512, 8, self.size // 512, self.AT * 4, 2, 256 - 10, 1, serial=self.rng.getrandbits(64))
            self.boot = bytes(b)
        return self.boot

    def new_tree(self):
        rng = self.rng
        while True:
            nodes = None

            def extra(t):
                x = t.nodes[0]
                x.data, x.runs, x.ads = ('n', (max(t.nodes) + 1) * 1024), [(self.AT * 4, self.K * 4)], []
            t = treegen.Tree(rng, self.mon, rng.choice([2, 6, 15, 25]), hostile=rng.random() < 0.6, spill=False, dirs_extra=extra)
            if len(t.table) <= self.K * vssgen.BS:
                break
        self.tree = t
        t.dead = False
        if self.allow_dead and rng.random() < 0.2:      # the table of this version can not be found
            t.table = b'BAAD' + t.table[4:]
            t.dead = True
        self.bytes = t.table + ntfs.rnd_bytes(rng, self.K * vssgen.BS - len(t.table))
        for i in range(self.K):
            c = self.bytes[i * vssgen.BS:(i + 1) * vssgen.BS]
            if self.live.get(self.AT + i) != c:
                self.hot = self.all
                self.write(self.AT + i)

    def content(self, b):
        if self.AT <= b < self.AT + self.K:
            i = b - self.AT
            return self.bytes[i * vssgen.BS:(i + 1) * vssgen.BS]
        return vssgen.Simulation.content(self, b)

    def overlay(self):
        keep, self.hot = self.hot, self.free_blocks
        vssgen.Simulation.overlay(self)
        self.hot = keep

    def run(self, snapshots, ops):
        rng = self.rng
        mine = list(range(self.AT, self.AT + self.K))
        self.free_blocks = [b for b in self.hot if b not in mine and b != 0]
        self.all = sorted(set(self.free_blocks) | set(mine) | {0})
        for b in mine + [0]:
            self.used[b] = True
        self.allow_dead = True
        self.new_tree()
        for __ in range(snapshots):
            self.hot = self.free_blocks
            for ___ in range(rng.randint(0, ops)):
                rng.choice([self.write, self.write, self.move, self.overlay, self.ignored, self.release])()
            if rng.random() < 0.7:
                self.new_tree()
            self.hot = self.all
            self.snapshot()
            self.stores[-1].tree = self.tree
            if rng.random() < 0.8:
                self.new_tree()
        self.allow_dead = False
        if self.tree.dead:
            self.new_tree()
        self.hot = self.all


def case_all_mft(rng, mon):
    sim = Versions(rng, mon, snapshots=rng.choice([1, 2, 3]), ops=rng.choice([2, 8]), fixed_end=True)
    off = rng.choice([0, 0, 512, 1 << 20])
    vol, __ = sim.files(off)
    none = rng.random() < 0.15
    groups = list(sim.tree.mft_rows('main volume'))
    broken = -1        # the position of an unreadable store: it and the older ones can not be read
    if rng.random() < 0.2:
        s = rng.choice(sim.stores)
        broken = s.pos
        vol.blocks[s.diff_at] = vol.blocks[s.diff_at][:20] + b'\x09' + vol.blocks[s.diff_at][21:]
        mon.count('broken_stores')
    if not none:
        for s in sim.order:
            if s.pos <= broken:
                continue
            if s.tree.dead:
                mon.count('dead_tables')
                continue
            groups += s.tree.mft_rows('shadow copy %d' % s.pos)
            mon.count('shadow_reports')
    else:
        mon.count('no_shadows')
    ctx = '%d snapshots' % len(sim.stores)
    with cli.Scratch() as sc:
        p = sc.path('vol')
        with open(p, 'wb') as f:
            f.truncate(vol.total)
            for b, d in vol.blocks.items():
                if b == 0 and none:
                    d = d[:7680] + b'\x00' * 512 + d[8192:]
                n = min(len(d), sim.size - b * vssgen.BS)
                f.seek(off + b * vssgen.BS)
                f.write(d[:n])
        o = sc.path('out.csv')
        r = tool(rng, mon, 'ntfs_parser', ['--all-mft', p, off, o])
        succeeded(mon, r, 'all-mft', ctx)
        rows = cli.read_csv(o)
        r = tool(rng, mon, 'vsc_mount', ['--list', p, off])
        succeeded(mon, r, 'list', ctx)
        lines = r.stdout.split('\n')
        if none:
            mon.equal(lines, ['Shadow copies are disabled', ''], 'list', ctx)
        else:
            mon.equal((lines[0], lines[-1], len(lines)), ('Shadow copies are enabled', '', len(sim.order) + 2), 'list', ctx)
            for line, s in zip(lines[1:], sim.order):
                pre = '  Stack position: %d, timestamp (UTC): ' % s.pos
                mon.check(line.startswith(pre) and plain_time(line[len(pre):], s.time), 'list-line', lambda: '%r for %r' % (line, (s.pos, s.time)))
                mon.count('list_lines')
    mon.equal(rows[:1], [MFT_HEADER], 'header:all-mft')
    compare_rows(mon, rows[1:], groups, 'rows:all-mft', ctx)
    mon.sig(sim.tree.table, [s.tree.table for s in sim.order])


def plain_time(cell, ticks):
    """str() of a datetime (or None)."""
    import datetime
    if cell in ('', 'None'):
        got = None
    else:
        try:
            got = datetime.datetime.fromisoformat(cell)
        except ValueError:
            return False
    return ntfs.instant_ok(got, ticks)


# --- Memory images ---

MEM_HEADER = ['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']


def case_mem(rng, mon):
    from checks import c25
    got = c25.image(rng, Mon())
    if got is None:
        return
    data, planted, few, ctx, __ = got
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'ntfs_parser', ['--mem', s.put('mem', data), o])
        if few:
            mon.count('mem_few')
            rows = None
        else:
            succeeded(mon, r, 'mem', ctx)
            rows = cli.read_csv(o)
    if rows is None:
        return
    mon.equal(rows[:1], [MEM_HEADER], 'header:mem')
    mon.equal(len(rows) - 1, len(planted), 'rows:mem', ctx)
    for row, (p, rf, t) in zip(rows[1:], planted):
        mon.check(row[0] == str(rf) and len(row) == 6 and all(plain_time(c, w) for c, w in zip(row[1:], (t[1], t[3], t[0], t[2], t[4]))), 'rows:mem', lambda: 'row %r for %r; %s' % (row, (rf, t), ctx))
        mon.count('rows')
        mon.count('mem_rows')
    mon.sig(planted[:4])


# --- The link-tracking log ---

class Machine(object):
    def __init__(self, raw):
        from checks import c22
        self.raw, self.names = raw, c22.text(raw)

    def ok(self, cell):
        a, b = self.names
        if a == b or b is None:
            return cell == a
        return a in cell and b in cell

    def __repr__(self):
        return 'Machine(%r)' % self.raw


class Range(object):
    def __init__(self, ts):
        self.ts = ts

    def ok(self, cell):
        a, __, b = cell.partition(' - ')
        return T(self.ts << 32).ok(a) and T((self.ts << 32) | 0xFFFFFFFF).ok(b)

    def __repr__(self):
        return 'Range(%x)' % self.ts


def case_move(rng, mon):
    import uuid
    from checks.c22 import guid_time
    data, i = parts.move_table(rng, rng.choice([512, 4096]), nsec=rng.choice([1, 2, 5]))
    U = lambda r: str(uuid.UUID(bytes_le=r))

    def ts(raw):
        t = guid_time(raw)
        return 'N/A' if t is None else T(t, ntfs.EPOCH_1582)
    if any(x in m['mraw'] for m in [i] + [m for __, m in i['entries']] for x in (b'\n', b'\r')):
        return
    blocks = [(None, ['File header:', (' * Machine ID: ', Machine(i['mraw'])), ' * Volume object ID: ' + U(i['vol'])], True)]
    for __, m in i['entries']:
        if m['type'] != 2:
            continue
        blocks.append((m, ['Object ID: ' + U(m['oid']), '', 'Domain-relative object ID, volume: ' + U(m['dv']), 'Domain-relative object ID, file: ' + U(m['do']), '', ('Machine ID: ', Machine(m['mraw'])), '',
                           'Birth domain-relative object ID, volume: ' + U(m['bv']), 'Birth domain-relative object ID, file: ' + U(m['bo']), '', 'GUID timestamps:', (' * Object ID: ', ts(m['oid'])),
                           (' * Domain-relative object ID, file: ', ts(m['do'])), (' * Birth domain-relative object ID, file: ', ts(m['bo'])), '', ('Timestamp (range): ', Range(m['ts']))], True))
        mon.count('move_entries')
    ctx = 'log with %d used entries' % (len(blocks) - 1)
    with cli.Scratch() as s:
        o = s.path('out.txt')
        r = tool(rng, mon, 'ntfs_parser', ['--move', s.put('log', data), o])
        succeeded(mon, r, 'move', ctx)
        text = cli.read_text(o)
    compare_text(mon, text, blocks, 'blocks:move', ctx)
    mon.sig(data)


# --- FAT and exFAT ---

FAT_HEADER = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
EXFAT_HEADER = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']


def fat_ts(x):
    import datetime
    if x is None:
        return 'N/A'
    if type(x) is datetime.date:
        return '%04d-%02d-%02d' % (x.year, x.month, x.day)
    return '%04d-%02d-%02d %02d:%02d:%02d.%06d' % (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)


def yn(b):
    return '?' if b is None else 'Y' if b else 'N'


def fat_row(e, label):
    return (yn(e[0]), yn(e[1]), e[2] + ' (Volume Label)' if label else e[4] if e[4] is not None else e[2], fat_ts(e[6]), fat_ts(e[5]), fat_ts(e[7]), str(e[8]), yn(e[12]), repr(e[3]))


def tz(x):
    return '?' if x is None else '0' if x == 0 else '%+d' % (15 * x)


def exfat_row(e):
    return (yn(e[0]), yn(e[1]), e[2], fat_ts(e[5]), fat_ts(e[3]), fat_ts(e[7]), '/'.join(tz(x) for x in (e[6], e[4], e[8])), str(e[9]), yn(e[13]))


def compare_multiset(mon, rows, want, mech, ctx):
    import collections
    have, need = collections.Counter(map(tuple, rows)), collections.Counter(want)
    if have != need:
        mon.fail(mech, 'missing %s; unexpected %s; %s' % (clip(list((need - have).elements())[:3], 900), clip(list((have - need).elements())[:3], 900), ctx))
    mon.count('checks')
    mon.count('rows', len(rows))


def fat_image(rng, image):
    off = rng.choice([0, 0, 512, 512 * 63])
    return off, ntfs.rnd_bytes(rng, off) + image + ntfs.rnd_bytes(rng, rng.choice([0, 4096]))


def case_fat(rng, mon):
    from dfir_ntfs.addons import FAT
    import io, warnings
    warnings.simplefilter('ignore')
    v = fatgen.FATVolume(rng, mon, maxfiles=rng.choice([3, 15, 40]))
    off, data = fat_image(rng, v.image)
    ctx = 'FAT%d, %d entries' % (v.geo.typ, len(v.expected))
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'fat_parser', [s.put('vol', data), off, o])
        succeeded(mon, r, 'fat', ctx)
        rows = cli.read_csv(o)
    mon.equal(rows[:1], [FAT_HEADER], 'header:fat')
    labels = [e for e in v.expected if e[9] & 8 and not e[0]]
    if len(labels) > 1:
        return
    want = [fat_row(e, e[9] & 8 and not e[0]) for e in v.expected]
    compare_multiset(mon, rows[1:], want, 'rows:fat', ctx)
    order = [fat_row(tuple(e), e[9] & 8 and not e[0]) for e in FAT.FileSystemParser(io.BytesIO(data), off).walk() if type(e) is FAT.FileEntry]
    mon.equal([tuple(x) for x in rows[1:]], order, 'order:fat', ctx)
    mon.count('fat_rows', len(want))
    mon.count('fat_labels', len(labels))
    mon.sig(v.image[:65536], ctx)


def case_exfat(rng, mon):
    from dfir_ntfs.addons import exFAT
    import io
    v = exfatgen.Volume(rng, mon, maxfiles=rng.choice([3, 15, 40]))
    off, data = fat_image(rng, v.image)
    ctx = 'exFAT, %d entries' % len(v.expected)
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'fat_parser', [s.put('vol', data), off, o])
        succeeded(mon, r, 'exfat', ctx)
        rows = cli.read_csv(o)
    mon.equal(rows[:1], [EXFAT_HEADER], 'header:exfat')
    want = [exfat_row(e) for e in v.expected]
    want += [('?', '?', x + ' (Partial Name)', '?', '?', '?', '?/?/?', '?', '?') for x in v.names]
    if v.label:
        want.append(('N', 'N', v.label + ' (Volume Label)', '?', '?', '?', '?/?/?', '0', 'N'))
        mon.count('exfat_labels')
    compare_multiset(mon, rows[1:], want, 'rows:exfat', ctx)
    order = [exfat_row(e)[2] if type(e) is exFAT.FileEntry else e[0] + (' (Partial Name)' if type(e) is exFAT.OrphanEntry else ' (Volume Label)') for e in exFAT.FileSystemParser(io.BytesIO(data), off).walk()]
    mon.equal([x[2] for x in rows[1:]], order, 'order:exfat', ctx)
    mon.count('exfat_rows', len(v.expected))
    mon.count('exfat_partial', len(v.names))
    mon.sig(v.image[:65536], ctx)


def case_fat_dir(rng, mon):
    """A root directory with all kinds of strays, deleted and damaged names (what C15 judges on the level of the library)."""
    from dfir_ntfs.addons import FAT
    import io, warnings
    warnings.simplefilter('ignore')
    v = fatgen.FATVolume(rng, mon, geo=fatgen.rnd_geometry(rng, rng.choice([12, 16])), maxfiles=2)
    from checks import c15
    d = c15.Dir(rng, Mon())
    d.fat32 = False
    for __ in range(rng.choice([1, 5, 15])):
        c15.group(rng, d)
    b = b''.join(bytes(x) for x in d.ents)[:v.geo.rootents * 32]
    v.image = v.assemble(b + b'\x00' * (v.geo.rootents * 32 - len(b)))
    off, data = fat_image(rng, v.image)
    items = list(FAT.FileSystemParser(io.BytesIO(data), off).walk())
    ctx = 'root directory with %d items' % len(items)
    with cli.Scratch() as s:
        o = s.path('out.csv')
        r = tool(rng, mon, 'fat_parser', [s.put('vol', data), off, o])
        succeeded(mon, r, 'fat', ctx)
        rows = cli.read_csv(o)
    want, seen = [], False
    for e in items:
        if type(e) is FAT.OrphanLongEntry:
            want.append(('?', '?', e[0] + ' (Partial Name)') + ('?',) * 6)
            mon.count('fat_partial')
            continue
        lab = bool(not seen and not e[0] and e[9] & 0x3f != 15 and e[9] & 0x18 == 8)
        seen = seen or lab
        want.append(fat_row(tuple(e), lab))
    mon.equal([tuple(x) for x in rows[1:]], want, 'rows:fat-directory', ctx)
    mon.count('rows', len(want))
    mon.sig(b)


FAMILIES = [('mft', case_mft, 1500, 30000), ('usn', case_usn, 1500, 30000), ('log', case_log, 3000, 60000), ('indx', case_indx, 1200, 20000), ('all-mft', case_all_mft, 500, 8000), ('mem', case_mem, 300, 4000), ('move', case_move, 1500, 20000),
            ('fat', case_fat, 1000, 15000), ('exfat', case_exfat, 800, 12000), ('fat-directory', case_fat_dir, 1500, 20000)]
