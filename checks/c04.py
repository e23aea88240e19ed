"""C04: enumeration and lookup of file records over generated, damaged tables."""
import struct
from lib.harness import MonFile, clip
from lib import ntfs, mftgen
from lib.ntfs import ref
from dfir_ntfs import MFT

PROPERTY = 'C04'
RULE = ('each case generates a table mixing allocated and deleted base records, extension records (stored anywhere, some stale or orphaned) and damaged, '
        'empty or foreign slots; the log of enumerated records and of lookups by number and sequence number is compared with the generator. '
        'Distinct = distinct slot layouts.')
REQUIRED = ['records', 'deleted_records', 'extended_records', 'stale_extensions', 'damaged_slots', 'lookups', 'lookups_via_child', 'wrong_sequence_refused', 'damaged_lookup_refused',
            'bad_attribute_records', 'truncated_tables', 'interleaved_lookups', 'short_headers', 'big_segments', 'far_records', 'crowded_records', 'deleted_child_lookups']

ERR = MFT.MasterFileTableException


def attr_list(mon, fr, slot, kids, ctx):
    """Compare the attribute log of a file record with base + extensions; a bad record fails only where it is bad."""
    want = []
    bad = False
    for s in [slot] + kids:
        if s.bad_attr:
            bad = True
            break
        want += s.attrs
    got = []
    try:
        for a in fr.attributes():
            got.append(mftgen.attr_obs(a))
    except ERR:
        mon.check(bad, 'attributes-refused', ctx)
        mon.count('bad_attribute_records')
        mon.equal(got, want, 'attributes-before-damage', ctx)
        return
    mon.check(not bad, 'bad-attribute-accepted', ctx)
    mon.equal(got, want, 'attribute-set', ctx)


def describe(slots):
    return ' '.join('%d:%s%s' % (s.number, s.kind[0], '' if s.in_use else '-') for s in slots[16:])


def case_table(rng, mon):
    size = 4096 if rng.random() < 0.15 else 1024
    total = rng.choice([16, 17, 20, 32, 64, 64, 120])
    short = rng.random() < 0.3
    data, slots = mftgen.build(rng, total, size=size, short=short)
    if short:
        mon.count('short_headers')
    if size == 4096:
        mon.count('big_segments')
    if rng.random() < 0.3:
        data += ntfs.frs([], number=total, seq=1, size=size)[:rng.choice([1, 4, 100, 511, 512, size - 1])]
        mon.count('truncated_tables')
    ctx = 'size=%d slots=%s' % (size, clip(describe(slots), 300))
    f = MonFile(data)
    mft = MFT.MasterFileTableParser(f)
    kids = {}
    for s in slots:
        if s.kind == 'ext':
            kids.setdefault(s.base, []).append(s)
    valid = [s for s in slots if s.kind in ('base', 'ext')]
    mon.equal(tuple(mft.statistics), (len(valid), len([s for s in valid if s.kind == 'ext'])), 'statistics', ctx)

    def kids_of(s):
        return kids.get(ref(s.number, s.real_seq()), [])

    in_use_only = rng.random() < 0.3
    expected = [s for s in slots if s.kind == 'base' and (s.in_use or not in_use_only)]
    it = iter(expected)
    n = 0
    interleave = rng.random() < 0.5
    for fr in mft.file_records(in_use_only):
        s = next(it, None)
        mon.check(s is not None, 'extra-record', lambda: '%s: extra record %r' % (ctx, fr.get_master_file_table_number()))
        mon.equal((fr.get_master_file_table_number(), fr.get_sequence_number(), fr.get_flags(), bool(fr.is_in_use()), fr.get_logfile_sequence_number()),
                  (s.number, s.seq, s.flags, s.in_use, s.lsn), 'record-header', ctx)
        if interleave:
            x = rng.choice(valid)
            try:
                mft.get_file_record_by_number(x.number)
            except ERR:
                pass
            mon.count('interleaved_lookups')
        attr_list(mon, fr, s, kids_of(s), '%s record %d' % (ctx, s.number))
        mon.count('records')
        if not s.in_use:
            mon.count('deleted_records')
        if kids_of(s):
            mon.count('extended_records')
            if len(kids_of(s)) > 16:
                mon.count('crowded_records')
        n += 1
    mon.check(next(it, None) is None, 'lost-record', '%s: %d of %d records' % (ctx, n, len(expected)))

    for ref_, lst in kids.items():
        num, seq = ref_ & 0xFFFFFFFFFFFF, ref_ >> 48
        b = slots[num] if num < total else None
        if b is None or b.kind != 'base' or b.real_seq() != seq:
            mon.count('stale_extensions', len(lst))
    mon.count('damaged_slots', len([s for s in slots if s.kind in ('torn', 'garbage', 'foreign', 'badhdr', 'empty')]))

    order = list(slots)
    rng.shuffle(order)
    for s in order[:60]:
        c = '%s lookup %d (%s)' % (ctx, s.number, s.kind)
        if s.kind == 'base':
            exp = rng.choice([None, s.real_seq()])
            fr = mft.get_file_record_by_number(s.number, exp) if exp is not None or rng.random() < 0.5 else mft.get_file_record_by_number(s.number)
            mon.equal((fr.get_master_file_table_number(), fr.get_sequence_number(), fr.get_flags(), fr.is_in_use()), (s.number, s.seq, s.flags, s.in_use), 'lookup', c)
            attr_list(mon, fr, s, kids_of(s), c)
            mon.count('lookups')
            wrong = rng.choice([(s.real_seq() + 1) & 0xFFFF, (s.real_seq() - 1) & 0xFFFF, rng.randint(0, 65535)])
            if wrong != s.real_seq():
                mon.raises(ERR, lambda: mft.get_file_record_by_number(s.number, wrong), 'wrong-sequence', c + ' expected sequence %d' % wrong)
                mon.count('wrong_sequence_refused')
        elif s.kind == 'ext':
            num, seq = s.base & 0xFFFFFFFFFFFF, s.base >> 48
            b = slots[num] if num < total else None
            mon.raises(ERR, lambda: mft.get_file_record_by_number(s.number, None, False), 'child-not-allowed', c)
            wrong = (s.real_seq() + 1) & 0xFFFF
            mon.raises(ERR, lambda: mft.get_file_record_by_number(s.number, wrong), 'child-wrong-sequence', c)
            if b is not None and b.kind == 'base' and b.real_seq() == seq:
                fr = mft.get_file_record_by_number(s.number, rng.choice([None, s.real_seq()]))
                mon.equal((fr.get_master_file_table_number(), fr.get_sequence_number()), (b.number, b.seq), 'lookup-via-child', c)
                attr_list(mon, fr, b, kids_of(b), c)
                mon.count('lookups_via_child')
                if not s.in_use:
                    mon.count('deleted_child_lookups')
            else:
                mon.raises(ERR, lambda: mft.get_file_record_by_number(s.number), 'orphan-child', c)
        else:
            mon.raises(ERR, lambda: mft.get_file_record_by_number(s.number), 'damaged-lookup', c)
            mon.raises(ERR, lambda: mft.get_file_record_segment_by_number(s.number), 'damaged-segment-lookup', c)
            mon.count('damaged_lookup_refused')
    for x in (total + 1, total + 5, 1 << 40):
        mon.raises(ERR, lambda: mft.get_file_record_by_number(x), 'lookup-past-end', ctx)
    if f.write_attempts:
        mon.fail('input-written', ctx)
    mon.sig(size, [(s.kind, s.in_use, s.seq, s.base) for s in slots[16:]])
    mon.sample(ctx)


def case_neighbours(rng, mon):
    """Metamorphic: damaging one slot changes nothing but that slot (and the extensions hanging on it)."""
    data, slots = mftgen.build(rng, 48, damage=False)

    def log(d):
        mft = MFT.MasterFileTableParser(MonFile(d))
        out = {}
        for fr in mft.file_records():
            n = fr.get_master_file_table_number()
            mon.check(n not in out, 'record-twice', str(n))
            out[n] = (fr.get_sequence_number(), fr.get_flags(), [mftgen.attr_obs(a) for a in fr.attributes()])
        return out
    before = log(data)
    for __ in range(4):
        n = rng.randrange(16, 48)
        d = bytearray(data)
        how = rng.randint(0, 3)
        if how == 0:
            d[n * 1024:(n + 1) * 1024] = b'\x00' * 1024
        elif how == 1:
            d[n * 1024:(n + 1) * 1024] = ntfs.rnd_bytes(rng, 1024)
        elif how == 2:
            d[n * 1024 + 510] ^= 0xFF
        else:
            d[n * 1024:n * 1024 + 4] = b'RCRD'
        after = log(bytes(d))
        affected = {n}
        if slots[n].kind == 'ext':
            affected.add(slots[n].base & 0xFFFFFFFFFFFF)
        for k in before:
            if k not in affected:
                mon.check(k in after, 'neighbour-lost', 'record %d lost after damage to %d' % (k, n))
                mon.equal(after[k], before[k], 'neighbour-changed', 'record %d after damage to %d' % (k, n))
        for k in after:
            mon.check(k in before, 'record-invented', 'record %d after damage to %d' % (k, n))
        mon.check(n not in after, 'damaged-record-reported', 'record %d' % n)
        mon.count('neighbour_checks')
    mon.sig('n', n, how, [(s.kind, s.base) for s in slots[16:]])


class Far(object):
    """A table of which only some records exist (the rest reads as zero bytes)."""

    def __init__(self, records, size, total):
        self.records, self.size, self.total, self.pos = records, size, total * size, 0

    def seek(self, o, whence=0):
        self.pos = o if whence == 0 else self.pos + o if whence == 1 else self.total + o
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        n = min(n, self.total - self.pos) if n is not None and n >= 0 else self.total - self.pos
        out = bytearray(max(0, n))
        for k, raw in self.records.items():
            lo, hi = max(self.pos, k * self.size), min(self.pos + n, (k + 1) * self.size)
            if lo < hi:
                out[lo - self.pos:hi - self.pos] = raw[lo - k * self.size:hi - k * self.size]
        self.pos += len(out)
        return bytes(out)


def case_far(rng, mon):
    """Record numbers of up to 48 bits, parents and names at such numbers."""
    size = rng.choice([1024, 4096])
    recs = dict(ntfs.system_records(size=size))
    top = 1 << rng.choice([24, 33, 36, 40])
    nums = sorted(set(rng.choice([(1 << 32) + rng.randint(0, 40), (1 << 32) - 1, (1 << 32) + 5, 5 + (1 << 24), rng.randrange(100, top), rng.randrange(100, top)]) for __ in range(6)))
    seqs = {n: rng.randint(1, 65535) for n in nums}
    parent = 5
    pseq = 5
    path = ''
    want = {}
    for i, n in enumerate(nums):
        name = 'd%d' % i
        lsn = rng.getrandbits(64)
        recs[n] = ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.si_value()), ntfs.attr_resident(ntfs.FN, ntfs.fn_value(ref(parent, pseq), name, flags=3))],
                           number=n, seq=seqs[n], flags=3, size=size, lsn=lsn)
        path += '/' + name
        want[n] = (path, lsn)
        parent, pseq = n, seqs[n]
    mft = MFT.MasterFileTableParser(Far(recs, size, max(nums) + 2), False)
    for n in nums:
        fr = mft.get_file_record_by_number(n, rng.choice([None, seqs[n]]))
        ctx = 'record %d of %s' % (n, nums)
        mon.equal((fr.get_master_file_table_number(), fr.get_sequence_number(), fr.get_logfile_sequence_number()), (n, seqs[n], want[n][1]), 'far-record', ctx)
        mon.equal(mft.build_full_paths(fr), [want[n][0]], 'far-path', ctx)
        seg = MFT.FileRecordSegment(recs[n])
        mon.equal(seg.get_master_file_table_number(), n, 'far-number', ctx)
        r = MFT.EncodeFileRecordSegmentReference(n, seqs[n])
        mon.equal((r, MFT.DecodeFileRecordSegmentReference(r)), (ref(n, seqs[n]), (n, seqs[n])), 'far-reference', ctx)
        mon.count('far_records')
    mon.sig('far', nums)


FAMILIES = [('far', case_far, 1500, 20000), ('table', case_table, 5000, 60000), ('neighbours', case_neighbours, 800, 10000)]
