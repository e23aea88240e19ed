"""C02: mapping pairs vs. an encoder and an independent reference decoder."""
from lib.harness import clip
from lib import ntfs
from dfir_ntfs import MFT

PROPERTY = 'C02'
RULE = ('run lists are encoded by an independent encoder with minimal or padded field widths and decoded by the library; arbitrary and mutated '
        'byte strings and every strict prefix are compared with an independent reference decoder (same runs, or refusal by both). '
        'Attributes split over several records are read back through FileRecord. Distinct = distinct encodings.')
REQUIRED = ['encoded', 'negative_deltas', 'sparse_runs', 'wide_fields', 'refused_malformed', 'accepted_arbitrary', 'prefixes', 'split_attributes', 'merged_attributes', 'gaps_refused', 'overlaps_refused', 'negative_lcn_refused']


class Refused(Exception):
    pass


def reference(b):
    """The format: header byte (low nibble: width of count, high nibble: width of the relative cluster), little-endian signed fields, zero ends."""
    out = []
    p = 0
    cur = 0
    while True:
        if p == len(b):
            raise Refused('no terminator')
        h = b[p]
        if h == 0:
            return out
        wc, wo = h % 16, h // 16
        if not 1 <= wc <= 8 or wo > 8:
            raise Refused('width')
        if p + 1 + wc + wo > len(b):
            raise Refused('truncated')
        cnt = 0
        for k in range(wc):
            cnt |= b[p + 1 + k] << (8 * k)
        if cnt == 0 or b[p + wc] & 0x80:
            raise Refused('count')
        if wo == 0:
            out.append((None, cnt))
        else:
            d = 0
            for k in range(wo):
                d |= b[p + 1 + wc + k] << (8 * k)
            if b[p + wc + wo] & 0x80:
                d -= 1 << (8 * wo)
            cur += d
            if cur < 0:
                raise Refused('negative')
            if cur == 0 and out:
                raise Refused('unallocated')
            out.append((cur, cnt))
        p += 1 + wc + wo


def decode(buf):
    return [tuple(x) for x in MFT.DecodeMappingPairs(buf)]


def rnd_runs(rng, n, big=True):
    runs = []
    for i in range(n):
        k = rng.random()
        bits = rng.choice([1, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 55, 56, 62]) if big else 10
        cnt = rng.randint(1, (1 << bits)) if k < 0.8 else rng.choice([1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 62)])
        if not big:
            cnt = rng.randint(1, 100)
        if rng.random() < 0.2:
            runs.append((None, cnt))
        else:
            bits = rng.choice([3, 7, 8, 15, 16, 23, 24, 31, 32, 39, 47, 55, 60]) if big else 12
            lcn = rng.randint(1, 1 << bits)
            if i == 0 and rng.random() < 0.1:
                lcn = 0
            runs.append((lcn, cnt))
    return runs


def case_encode(rng, mon):
    runs = rnd_runs(rng, rng.choice([0, 1, 1, 2, 3, 5, 10, 50]))
    enc = ntfs.encode_runs(runs, rng if rng.random() < 0.7 else None)
    tail = ntfs.rnd_bytes(rng, rng.randint(0, 7)) if rng.random() < 0.5 else b''
    buf = enc + tail
    arg = buf if rng.random() < 0.5 else bytearray(buf)
    mon.equal(reference(buf), runs, 'harness-self-check')
    mon.equal(decode(arg), runs, 'decoded-runs', lambda: 'encoding=%s' % buf.hex())
    mon.equal(bytes(arg), buf, 'input-changed')
    mon.count('encoded')
    prev = 0
    for lcn, cnt in runs:
        if lcn is None:
            mon.count('sparse_runs')
        else:
            if lcn < prev:
                mon.count('negative_deltas')
            prev = lcn
    if any(c > (1 << 40) for __, c in runs):
        mon.count('wide_fields')
    for k in range(len(enc)):  # every strict prefix lacks something
        p = enc[:k]
        try:
            want = reference(p)
        except Refused:
            want = None
        if want is None:
            mon.raises(MFT.MappingPairsException, lambda: decode(p), 'prefix-refused', p.hex())
        else:
            mon.equal(decode(p), want, 'prefix', p.hex())
        mon.count('prefixes')
        if k > 120:
            break
    mon.sig(enc)
    mon.sample('runs=%s encoding=%s' % (clip(runs, 200), enc.hex()))


def case_arbitrary(rng, mon):
    for __ in range(20):
        k = rng.random()
        if k < 0.3:
            b = ntfs.rnd_bytes(rng, rng.randint(0, 24))
        elif k < 0.6:
            b = bytearray(ntfs.encode_runs(rnd_runs(rng, rng.randint(1, 6)), rng))
            for __ in range(rng.randint(1, 3)):
                i = rng.randrange(len(b))
                b[i] = rng.choice([b[i] ^ (1 << rng.randint(0, 7)), 0, 0xFF, 0x80, rng.getrandbits(8)])
            b = bytes(b)
        else:
            b = b''
            for __ in range(rng.randint(1, 4)):
                wc, wo = rng.randint(0, 9) if rng.random() < 0.3 else rng.randint(1, 3), rng.randint(0, 9) if rng.random() < 0.3 else rng.randint(0, 3)
                cnt = bytearray(ntfs.rnd_bytes(rng, wc))
                if cnt and rng.random() < 0.8:
                    cnt[-1] &= 0x7f
                b += bytes([(min(wo, 15) << 4) | min(wc, 15)]) + bytes(cnt) + ntfs.rnd_bytes(rng, wo)
            b += b'\x00' if rng.random() < 0.8 else b''
        try:
            want = reference(b)
        except Refused as e:
            want = None
            if str(e) == 'negative':
                mon.count('negative_lcn_refused')
        if want is None:
            mon.raises(MFT.MappingPairsException, lambda: decode(b), 'malformed-refused', b.hex())
            mon.count('refused_malformed')
        else:
            mon.equal(decode(b), want, 'arbitrary-decoded', lambda: b.hex())
            if want:
                mon.count('accepted_arbitrary')
        mon.sig(b)


def case_split(rng, mon):
    """One stream described by several attribute records in one or more file record segments."""
    pieces = rng.randint(1, 6)
    typ = rng.choice([ntfs.DATA, ntfs.DATA, ntfs.IDXALLOC])
    name = rng.choice([None, 'strm']) if typ == ntfs.DATA else '$I30'
    parts = []
    vcn = 0
    allruns = []
    for i in range(pieces):
        runs = rnd_runs(rng, rng.randint(1, 5), big=False)
        n = sum(c for __, c in runs)
        parts.append((vcn, runs))
        vcn += n
        allruns += runs
    size = rng.randint(1, vcn * 4096)
    segs = {}
    order = list(range(pieces))
    slots = [rng.randint(0, 3) for __ in order]
    slots[0] = 0 if rng.random() < 0.7 else slots[0]
    bodies = {0: [ntfs.attr_resident(ntfs.SI, ntfs.si_value())]}
    decoy = ntfs.attr_nonresident(ntfs.DATA, [(77, 5)], 100, name='decoy' if typ != ntfs.DATA or name != 'decoy' else 'd2')
    rng.shuffle(order)
    for i in order:
        v, runs = parts[i]
        a = ntfs.attr_nonresident(typ, runs, size if v == 0 else 0, name=name, lowest_vcn=v, allocated=vcn * 4096 if v == 0 else 0, rng=rng)
        bodies.setdefault(slots[i], []).append(a)
    bodies.setdefault(rng.randint(0, 3), []).append(decoy)
    missing = None
    try:
        segs = dict((s, ntfs.frs(b, number=50 + s, seq=2, base=0 if s == 0 else ntfs.ref(50, 2))) for s, b in bodies.items())
    except ValueError:
        mon.count('overflow_skipped')
        return
    kids = [s for s in segs if s != 0]
    rng.shuffle(kids)
    rec = MFT.FileRecord(MFT.FileRecordSegment(segs[0]), [MFT.FileRecordSegment(segs[s]) for s in kids])
    got = rec.get_data_runs(name if name is not None else rng.choice([None, '']), typ == ntfs.IDXALLOC)
    mon.equal([tuple(x) for x in got], allruns, 'split-runs', lambda: 'parts=%s' % clip(parts))
    mon.equal(rec.get_data_size(name, typ == ntfs.IDXALLOC), size, 'split-size')
    merged = [a for a in rec.attributes(True) if a.type_code == typ and a.name == name and type(a) is MFT.AttributeRecordNonresident]
    mon.equal(len(merged), 1, 'merged-once')
    mon.equal([tuple(x) for x in merged[0].data_runs], allruns, 'merged-runs', lambda: 'parts=%s' % clip(parts))
    mon.equal((merged[0].lowest_vcn, merged[0].highest_vcn, merged[0].file_size), (0, vcn - 1, size), 'merged-extent')
    dec = [a for a in rec.attributes(True) if a.name == 'decoy']
    mon.equal([[tuple(x) for x in a.data_runs] for a in dec], [[(77, 5)]], 'decoy-runs')
    mon.count('split_attributes' if pieces > 1 else 'single_attributes')
    if pieces > 1:
        mon.count('merged_attributes')
        # A missing middle piece must not be papered over.
        i = rng.randrange(pieces - 1)
        b2 = {}
        for j, s in enumerate(slots):
            if j != i:
                v, runs = parts[j]
                b2.setdefault(s, []).append(ntfs.attr_nonresident(typ, runs, size if v == 0 else 0, name=name, lowest_vcn=v, allocated=vcn * 4096 if v == 0 else 0))
        b2.setdefault(0, []).append(ntfs.attr_resident(ntfs.SI, ntfs.si_value()))
        s2 = dict((s, ntfs.frs(b, number=50 + s, seq=2, base=0 if s == 0 else ntfs.ref(50, 2))) for s, b in b2.items())
        rec2 = MFT.FileRecord(MFT.FileRecordSegment(s2[0]), [MFT.FileRecordSegment(s2[s]) for s in s2 if s])
        mon.raises(MFT.MasterFileTableException, lambda: rec2.get_data_runs(name, typ == ntfs.IDXALLOC), 'gap-refused', 'missing piece %d of %s' % (i, clip(parts)))
        mon.count('gaps_refused')
        # Pieces that overlap contradict each other.
        i = rng.randrange(1, pieces)
        b2 = {}
        for j, s in enumerate(slots):
            v, runs = parts[j]
            low = v - rng.randint(1, max(1, min(3, v - parts[j - 1][0] - 1))) if j == i else v
            if low <= (parts[j - 1][0] if j else -1):
                break
            b2.setdefault(s, []).append(ntfs.attr_nonresident(typ, runs, size if v == 0 else 0, name=name, lowest_vcn=low, highest_vcn=v + sum(n for __, n in runs) - 1, allocated=vcn * 4096 if v == 0 else 0))
        else:
            b2.setdefault(0, []).append(ntfs.attr_resident(ntfs.SI, ntfs.si_value()))
            s2 = dict((s, ntfs.frs(b, number=50 + s, seq=2, base=0 if s == 0 else ntfs.ref(50, 2))) for s, b in b2.items())
            rec2 = MFT.FileRecord(MFT.FileRecordSegment(s2[0]), [MFT.FileRecordSegment(s2[s]) for s in s2 if s])
            mon.raises(MFT.MasterFileTableException, lambda: rec2.get_data_runs(name, typ == ntfs.IDXALLOC), 'overlap-refused', 'piece %d of %s' % (i, clip(parts)))
            mon.count('overlaps_refused')
    mon.equal(rec.get_data_runs('no such stream'), None, 'absent-stream')
    mon.sig(parts, slots)
    mon.sample('pieces=%s in segments %s' % (clip(parts, 300), slots))


def case_record_malformed(rng, mon):
    """A malformed run list inside an attribute record is refused when the record's attributes are read."""
    bad = None
    while bad is None:
        b = bytearray(ntfs.encode_runs(rnd_runs(rng, rng.randint(1, 4)), rng))
        b[rng.randrange(len(b))] = rng.getrandbits(8)
        b += b'\x00' * (-len(b) % 8)
        try:
            reference(b)
        except Refused:
            bad = bytes(b)
    if len(bad) > 400:
        return
    f = ntfs.frs([ntfs.attr_nonresident(ntfs.DATA, [(1, 1)], 1, mapping=bad)], number=60)
    rec = MFT.FileRecord(MFT.FileRecordSegment(f), [])
    mon.raises(MFT.MasterFileTableException, lambda: rec.get_data_runs(), 'malformed-in-record', bad.hex())
    mon.raises(MFT.MasterFileTableException, lambda: list(rec.attributes()), 'malformed-in-record-attributes', bad.hex())
    mon.sig(bad)


FAMILIES = [('encode', case_encode, 12000, 300000), ('arbitrary', case_arbitrary, 12000, 400000), ('split', case_split, 6000, 120000), ('malformed_record', case_record_malformed, 2000, 40000)]
