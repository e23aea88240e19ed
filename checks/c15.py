"""C15: FAT directory entries: names, metadata, attachment of long names."""
import warnings
from lib.harness import MonFile, clip
from lib import ntfs, fatgen
from lib.fatgen import Meta, expect, lfn_run, lfn_entry, lfn_pieces, checksum, rnd_short, rnd_long, DIR, VOL, ARC
from dfir_ntfs.addons import FAT

PROPERTY = 'C15'
RULE = ('each case writes a directory as a random sequence of groups (short names, long names, deleted ones, long names with a wrong checksum, cut, reordered or without a short entry, labels, invalid names, wiped entries, '
        'the end mark followed by remnants) and compares the log of reported entries with the one the groups determine. Distinct = distinct directories.')
REQUIRED = ['short_only', 'long_ok', 'deleted_long', 'deleted_short', 'deleted_by_dos', 'wrong_checksum', 'cut_run', 'run_after_run', 'run_at_end', 'null_marked_run', 'run_before_deleted_run', 'deleted_run_before_run', 'deleted_run_live_short', 'invalid_short', 'label', 'deleted_label', 'foreign_type', 'wiped', 'dir_and_volume',
            'end_mark', 'after_end_live', 'after_end_deleted', 'null_marked', 'thirteen_multiple', 'astral', 'orphans', 'short_only_mode', 'kanji', 'lower_case', 'fat16_high_word', 'missing_head', 'sequence_gap', 'max_name', 'empty_name', 'walks']


class Dir(object):
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.ents, self.model = [], []
        self.fat32 = rng.random() < 0.6
        self.enc = rng.choice(['ascii', 'ascii', 'cp437', 'cp866', 'latin-1'])
        self.ended = False
        self.pending = None          # the orphan name that is reported when the pending run turns out to have no short entry

    def put(self, *entries):
        self.ents.extend(entries)

    def flush(self):
        """A non-long entry or the end of the directory ends a pending run."""
        if self.pending is not None:
            self.model.append(('orphan', self.pending))
            self.mon.count('orphans')
            self.pending = None

    def state(self, deleted):
        if deleted:
            return True
        return None if self.ended else False

    def file(self, meta, raw, long_name, deleted, label=False):
        if deleted is False and self.ended:
            self.mon.count('after_end_live')
        if deleted and self.ended:
            self.mon.count('after_end_deleted')
        self.model.append(('file', expect(meta, raw, long_name, self.state(deleted), self.fat32, self.enc, label)))


def meta(rng, d, **kw):
    m = Meta(rng, **kw)
    if rng.random() < 0.25:
        m.attrs = DIR
    if not d.fat32 and m.cluster >> 16:
        d.mon.count('fat16_high_word')
    if m.nt & 24:
        d.mon.count('lower_case')
    return m


def name_for(rng, d):
    n = rnd_long(rng)
    if len(n.encode('utf-16le')) % 26 == 0:
        d.mon.count('thirteen_multiple')
    if any(ord(c) > 65535 for c in n):
        d.mon.count('astral')
    if len(n) == 255:
        d.mon.count('max_name')
    while len(n) > 255:
        n = n[:-1]
    return n


def group(rng, d):
    mon = d.mon
    kind = rng.choice(['short', 'short', 'long', 'long', 'long', 'del_short', 'del_long', 'del_long', 'dos', 'badsum', 'cut', 'runrun', 'delrun_live', 'invalid', 'label', 'wiped', 'dirvol', 'headless', 'gap', 'null', 'empty', 'foreign', 'run_delrun', 'delrun_run'])
    raw = rnd_short(rng)
    m = meta(rng, d)
    if raw[0] == 5:
        mon.count('kanji')
    # A pending run is ended by any group: groups that begin with long entries of another set make it an orphan first.
    if kind == 'short':
        d.flush()
        d.put(m.pack(raw))
        d.file(m, raw, None, False)
        mon.count('short_only')
    elif kind == 'long':
        n = name_for(rng, d)
        d.flush()
        d.put(*lfn_run(n, checksum(raw)))
        d.put(m.pack(raw))
        d.file(m, raw, n, False)
        mon.count('long_ok')
    elif kind in ('del_short', 'del_long', 'dos'):
        if d.pending is not None:
            return          # a deleted short entry takes over whatever run precedes it
        x = b'\xe5' + raw[1:]
        n = None
        if kind == 'del_long':
            n = name_for(rng, d)
            run = lfn_run(n, rng.getrandbits(8), 0xE5)
            if rng.random() < 0.08:
                run = [bytes([rng.choice([0, 0, 0xE5])]) + e[1:] for e in run]
                if any(e[0] == 0 for e in run):
                    d.ended = True
                    mon.count('null_marked_run')
            d.put(*run)
            mon.count('deleted_long')
        elif kind == 'dos':
            n = name_for(rng, d)
            d.put(*lfn_run(n, checksum(raw)))
            mon.count('deleted_by_dos')
        else:
            mon.count('deleted_short')
        d.put(m.pack(x))
        d.file(m, x, n, True)
    elif kind == 'badsum':
        n = name_for(rng, d)
        d.flush()
        d.put(*lfn_run(n, checksum(raw) ^ rng.randint(1, 255)))
        d.put(m.pack(raw))
        d.model.append(('orphan', n))
        mon.count('orphans')
        d.file(m, raw, None, False)
        mon.count('wrong_checksum')
    elif kind == 'cut':
        # The run stops before its first piece: it does not belong to the short entry.
        n = name_for(rng, d)
        run = lfn_run(n, checksum(raw))
        p = lfn_pieces(n)
        if len(run) < 2:
            return
        k = rng.randint(1, len(run) - 1)
        d.flush()
        d.put(*run[:k])
        d.put(m.pack(raw))
        part = partial(p[len(p) - k:])
        if part is not None:
            d.model.append(('orphan', part))
            mon.count('orphans')
        d.file(m, raw, None, False)
        mon.count('cut_run')
    elif kind == 'runrun':
        # A complete run without its short entry, directly followed by a complete one.
        n1, n2 = name_for(rng, d), name_for(rng, d)
        c1 = rng.getrandbits(8)
        d.flush()
        d.put(*lfn_run(n1, c1))
        d.put(*lfn_run(n2, checksum(raw)))
        d.put(m.pack(raw))
        d.model.append(('orphan', n1))
        mon.count('orphans')
        d.file(m, raw, n2, False)
        mon.count('run_after_run')
    elif kind == 'run_delrun':
        # A complete run without its short entry, directly followed by a deleted file with a long name.
        n1, n2 = name_for(rng, d), name_for(rng, d)
        d.flush()
        d.put(*lfn_run(n1, rng.getrandbits(8)))
        x = b'\xe5' + raw[1:]
        d.put(*lfn_run(n2, rng.getrandbits(8), 0xE5))
        d.put(m.pack(x))
        d.model.append(('orphan', n1))
        mon.count('orphans')
        d.file(m, x, n2, True)
        mon.count('run_before_deleted_run')
    elif kind == 'delrun_run':
        # A deleted run whose short entry is gone, directly followed by a live file with a long name; or by another deleted one.
        if d.pending is not None:
            return
        n1, n2 = name_for(rng, d), name_for(rng, d)
        c1 = rng.getrandbits(8)
        d.put(*lfn_run(n1, c1, 0xE5))
        if rng.random() < 0.5:
            d.put(*lfn_run(n2, checksum(raw)))
            d.put(m.pack(raw))
            d.model.append(('orphan', n1))
            d.file(m, raw, n2, False)
        else:
            x = b'\xe5' + raw[1:]
            d.put(*lfn_run(n2, c1 ^ rng.randint(1, 255), 0xE5))
            d.put(m.pack(x))
            d.model.append(('orphan', n1))
            d.file(m, x, n2, True)
        mon.count('orphans')
        mon.count('deleted_run_before_run')
    elif kind == 'delrun_live':
        n = name_for(rng, d)
        if d.pending is not None:
            return
        d.put(*lfn_run(n, checksum(raw), 0xE5))
        d.put(m.pack(raw))
        d.model.append(('orphan', n))
        mon.count('orphans')
        d.file(m, raw, None, False)
        mon.count('deleted_run_live_short')
    elif kind == 'invalid':
        # The short entry is not valid: it is not reported; the long name that matches it is.
        bad = bytearray(raw)
        pos = rng.randint(1, 10)
        bad[pos] = rng.choice(fatgen.BAD_CHARS)
        if bad[0] == 0x2E or bytes(bad[:2]) == b'..':
            return
        d.flush()
        if rng.random() < 0.5:
            n = name_for(rng, d)
            d.put(*lfn_run(n, checksum(bad)))
            d.model.append(('orphan', n))
            mon.count('orphans')
        d.put(m.pack(bad))
        mon.count('invalid_short')
    elif kind == 'label':
        m.attrs = VOL | rng.choice([0, ARC])
        raw = rng.choice([b'MY VOLUME  ', b'a.b c lower', b'X          ', b'\x05ABC       ', b'<no> [name]'])
        gone = rng.random() < 0.3
        if gone:
            raw = b'\xe5' + raw[1:]
            mon.count('deleted_label')
        d.flush()
        d.put(m.pack(raw))
        d.file(m, raw, None, gone, True)
        mon.count('label')
    elif kind == 'foreign':
        # Looks like a part of a long name, but its type is another one.
        n = name_for(rng, d)
        d.put(*[e[:12] + bytes([rng.randint(1, 255)]) + e[13:] for e in lfn_run(n, checksum(raw))])
        mon.count('foreign_type')
    elif kind == 'wiped':
        d.flush()
        d.put(b'\xe5' * 32)
        mon.count('wiped')
    elif kind == 'dirvol':
        d.flush()
        m.attrs = DIR | VOL | rng.choice([0, ARC])
        d.put(m.pack(raw))
        mon.count('dir_and_volume')
    elif kind == 'headless':
        # A run without its beginning is not a name of anything; the short entry stands alone.
        n = name_for(rng, d)
        run = lfn_run(n, checksum(raw))
        if len(run) < 2:
            return
        d.flush()
        d.put(*run[rng.randint(1, len(run) - 1):])
        d.put(m.pack(raw))
        d.file(m, raw, None, False)
        mon.count('missing_head')
    elif kind == 'gap':
        # A piece in the middle is missing: the beginning is an orphan and the rest belongs to nothing.
        n = name_for(rng, d)
        run = lfn_run(n, checksum(raw))
        p = lfn_pieces(n)
        if len(run) < 3:
            return
        k = rng.randint(1, len(run) - 2)
        d.flush()
        d.put(*(run[:k] + run[k + 1:]))
        d.put(m.pack(raw))
        part = partial(p[len(p) - k:])
        if part is not None:
            d.model.append(('orphan', part))
            mon.count('orphans')
        d.file(m, raw, None, False)
        mon.count('sequence_gap')
    elif kind == 'empty':
        # A long name without characters is no name.
        d.flush()
        good = rng.random() < 0.5
        d.put(lfn_entry(0x41, checksum(raw) ^ (0 if good else 1), b'\x00\x00' + b'\xff' * 24))
        d.put(m.pack(raw))
        d.file(m, raw, None, False)
        mon.count('empty_name')
    elif kind == 'null':
        if rng.random() < 0.85:
            return
        d.flush()
        if rng.random() < 0.5:
            d.put(b'\x00' * 32)
            d.ended = True
            mon.count('end_mark')
        else:
            x = b'\x00' + raw[1:]
            d.put(m.pack(x))
            d.ended = True
            d.file(m, x, None, True)
            mon.count('null_marked')


def partial(pieces):
    raw = b''.join(pieces)
    for i in range(0, len(raw), 2):
        if raw[i:i + 2] == b'\x00\x00':
            raw = raw[:i]
            break
    t = raw.decode('utf-16le', 'replace')
    return t or None


def observe(e):
    if type(e) is FAT.FileEntry:
        return ('file', tuple(e))
    return ('orphan', e.long_name_partial)


def case_dir(rng, mon):
    warnings.simplefilter('ignore')
    d = Dir(rng, mon)
    for __ in range(rng.choice([1, 2, 5, 15, 40])):
        group(rng, d)
    fill = -len(d.ents) % 16
    if fill == 0 and not d.ents:
        fill = 16
    if rng.random() < 0.3:
        # A run at the very end of the directory.
        n = name_for(rng, d)
        run = lfn_run(n, rng.getrandbits(8))
        pad = -(len(d.ents) + len(run)) % 16
        d.put(*([b'\xe5' * 32] * pad))
        d.put(*run)
        d.model.append(('orphan', n))
        mon.count('run_at_end')
        mon.count('orphans')
    else:
        d.put(*([rng.choice([b'\x00', b'\xe5']) * 32] * fill))
    buf = b''.join(d.ents)
    de = FAT.DirectoryEntries(buf if rng.random() < 0.7 else bytearray(buf), d.fat32)
    got = [observe(e) for e in de.entries(d.enc)]
    norm = lambda l: [(k, v if k == 'orphan' else tuple(bytes(x) if isinstance(x, bytearray) else x for x in v)) for k, v in l]
    got = norm(got)
    if got != d.model:
        k = 0
        while k < min(len(got), len(d.model)) and got[k] == d.model[k]:
            k += 1
        mon.fail('entry-log', 'at %d: got %s, expected %s' % (k, clip(got[k:k + 2], 900), clip(d.model[k:k + 2], 900)))
    mon.count('checks', len(got) + 1)
    # Without long names: the same short entries, nothing else.
    short = norm([observe(e) for e in de.entries(d.enc, True)])
    want = [(k, v[:4] + (None,) + v[5:]) for k, v in d.model if k == 'file']
    mon.equal(short, want, 'short-only-log')
    mon.count('short_only_mode')
    # The same directory as the root directory of a volume.
    if len(buf) <= 65024 and rng.random() < 0.3:
        g = fatgen.Geometry(12, 512, 1, 1, 1, len(buf) // 32, 20)
        class V(object):
            rng, geo, mon, fat, top, data = d.rng, g, d.mon, {}, 0xFFF, {}
            fat_bytes = fatgen.FATVolume.fat_bytes
        img = fatgen.FATVolume.assemble(V(), buf)
        p = FAT.FileSystemParser(MonFile(img))
        d.fat32 = False
        want = [(k, ('/' + v) if k == 'orphan' else v[:2] + ('/' + v[2], v[3], None if v[4] is None else '/' + v[4]) + v[5:11] + (v[11] & 0xFFFF,) + v[12:]) for k, v in d.model]
        got = [x for x in norm([observe(e) for e in p.walk(d.enc)])]
        if not any(k == 'file' and v[1] and v[11] & 0xFFFF for k, v in d.model):      # no (dangling) subdirectories
            mon.equal(got, want, 'walk-log')
            mon.count('walks')
    mon.sig(buf)
    mon.sample('%d entries: %s' % (len(d.ents), clip([(k, v if k == 'orphan' else (v[0], v[2], v[4])) for k, v in d.model], 500)))


def case_names(rng, mon):
    """Name functions by themselves."""
    warnings.simplefilter('ignore')
    raw = rnd_short(rng)
    mon.equal(FAT.BuildChecksum(raw), checksum(raw), 'checksum', raw.hex())
    nt = rng.getrandbits(8)
    enc = rng.choice(['ascii', 'cp437', 'cp866'])
    t, b = fatgen.short_text(raw, nt, enc)
    mon.equal(FAT.ParseShortName(raw, enc, bool(nt & 8), bool(nt & 16)), t, 'short-name', raw.hex())
    mon.equal(FAT.ParseShortName(raw, None), b, 'short-name-raw', raw.hex())
    mon.equal(FAT.ValidateShortName(raw), True, 'valid-name', raw.hex())
    bad = bytearray(raw)
    bad[rng.randint(1, 10)] = rng.choice(fatgen.BAD_CHARS)
    mon.equal(FAT.ValidateShortName(bytes(bad)), False, 'invalid-name', bytes(bad).hex())
    bad = bytearray(raw)
    bad[0] = rng.choice(b' abz"*,/')
    mon.equal(FAT.ParseShortName(bytes(bad)), None, 'invalid-first', bytes(bad).hex())
    lower, lext, enc_, large, pad = FAT.ParseNTByte(nt)
    table = {0: 0}
    bits = [(0x80, 8), (0x40, 4), (0x20, 2), (0x04, 1)]
    want_pad = sum(n for bit, n in bits if nt & bit) if nt & 1 else None
    mon.equal((lower, lext, enc_, large, pad), (bool(nt & 8), bool(nt & 16), bool(nt & 1), bool(nt & 1 and nt & 2), want_pad), 'nt-byte', hex(nt))
    n = rnd_long(rng)[:255]
    ents = []
    for p in reversed(lfn_pieces(n)):
        ents += [p[22:26], p[10:22], p[0:10]]
    mon.equal(FAT.BuildLongName(list(ents)), n, 'long-name', n)
    a = rng.getrandbits(6)
    names = {1: 'READ_ONLY', 2: 'HIDDEN', 4: 'SYSTEM', 8: 'VOLUME_ID', 16: 'DIRECTORY', 32: 'ARCHIVE'}
    mon.equal(set(filter(None, FAT.ResolveFileAttributes(a).split(' | '))), set(v for k, v in names.items() if a & k), 'attribute-text', hex(a))
    a = rng.getrandbits(8)
    mon.equal(FAT.IsVolumeLabel(a), a & 0x3f != 15 and a & 0x18 == 8, 'label-attributes', hex(a))
    mon.sig(raw, nt, n)


FAMILIES = [('dir', case_dir, 30000, 400000), ('names', case_names, 20000, 200000)]
