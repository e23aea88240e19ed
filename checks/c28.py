"""C28: nothing is read from outside its declared bounds."""
import io, struct
from lib.harness import clip, MonFile
from lib import ntfs
from dfir_ntfs import MFT, Attributes
from dfir_ntfs.addons import FAT, exFAT

PROPERTY = 'C28'
RULE = ('each case builds file records whose record or attribute headers have been given hostile sizes, offsets, lengths, forms, cluster ranges and file sizes (around every boundary: the header, the name, the attribute, the used part, the record), walks them with an '
        'independent model of the byte ranges a header declares, and compares: ranges inside the bounds are reported byte for byte, ranges outside are refused with the library\'s own error after the attributes before them were reported. '
        'Streams, lists and cluster chains are read from volumes that end before, inside and after their clusters. Distinct = distinct (structure, field, kind of value, outcome).')
REQUIRED = ['records', 'attributes_reported', 'attributes_refused', 'refused_length', 'refused_name', 'refused_value', 'refused_pairs', 'refused_range', 'refused_sizes', 'refused_form', 'at_the_bound', 'header_refused', 'header_accepted',
            'stream_reads', 'stream_refused', 'uncovered_refused', 'list_refused', 'list_read', 'chain_read', 'chain_refused', 'chain_cut', 'bad_cluster', 'resident_index_refused']
ASSUMPTIONS = ['Values in bounds but not aligned as Windows writes them may be refused or reported as declared.']

OWN = (MFT.MasterFileTableException,)
SIZES = (1024, 4096)


# --- Attributes ------------------------------------------------------------------------

def model(b, mon):
    """Walk the attributes of an unprotected record: ([(kind, fields)], end) with end 'ok', 'refused' or 'either'."""
    out = []
    pos, = struct.unpack_from('<H', b, 20)
    free, = struct.unpack_from('<L', b, 24)
    while pos < free:
        if pos + 4 > len(b):
            return out, 'refused', 'length'
        t, = struct.unpack_from('<L', b, pos)
        if t == 0xFFFFFFFF:
            return out, 'ok', None
        if pos + 16 > len(b):
            return out, 'refused', 'length'
        t, rl, form, nl, no, fl, inst = struct.unpack_from('<LLBBHHH', b, pos)
        either = False
        if rl == 0 or pos + rl > free:
            return out, 'refused', 'length'
        if rl % 8:
            either = True
        if form not in (0, 1):
            return out, 'refused', 'form'
        fixed = 64 if form else 24
        if rl < fixed:
            return out, 'refused', 'length'
        if pos + fixed > len(b):
            return out, 'refused', 'length'
        name = None
        after = fixed
        if nl:
            if no < fixed or no + 2 * nl > rl:
                return out, 'refused', 'name'
            if no % 2:
                either = True
            name = bytes(b[pos + no:pos + no + 2 * nl]).decode('utf-16le', 'replace')
            after = no + 2 * nl
        if form == 0:
            vl, vo = struct.unpack_from('<LH', b, pos + 16)
            if vo < after or vo + vl > rl:
                return out, 'refused', 'value'
            if vo % 8:
                either = True
            item = ('resident', t, name, bytes(b[pos + vo:pos + vo + vl]))
        else:
            lo, hi, mo, cu, __, alloc, size, valid = struct.unpack_from('<QQHB5sqqq', b, pos + 16)
            if lo > hi:
                return out, 'refused', 'range'
            if mo < after or mo >= rl:
                return out, 'refused', 'pairs'
            if valid < 0 or valid > size or alloc < size:
                return out, 'refused', 'sizes'
            pairs = bytes(b[pos + mo:pos + rl])
            item = ('nonresident', t, name, lo, hi, size, pairs)
            if not plain_pairs(pairs):
                either = True
        if either:
            out.append(item)
            return out, 'either', None
        out.append(item)
        pos += rl
    return out, 'ok', None


def plain_pairs(p):
    """A run list with a proper end and sane runs (others are judged elsewhere)."""
    i = 0
    lcn = 0
    while i < len(p):
        if p[i] == 0:
            return True
        a, o = p[i] & 15, p[i] >> 4
        if not 1 <= a <= 7 or o > 7 or i + 1 + a + o > len(p):
            return False
        c = int.from_bytes(p[i + 1:i + 1 + a], 'little', signed=True)
        if c <= 0 or not o:
            return False
        d = int.from_bytes(p[i + 1 + a:i + 1 + a + o], 'little', signed=True)
        lcn += d
        if d == 0 or lcn <= 0:
            return False
        i += 1 + a + o
    return False


def seen(a):
    if type(a) is MFT.AttributeRecordResident:
        return ('resident', a.type_code, a.name, bytes(a.value))
    return ('nonresident', a.type_code, a.name, a.lowest_vcn, a.highest_vcn, a.file_size, bytes(a.mapping_pairs))


def rnd_attr(rng):
    t = rng.choice([0x10, 0x30, 0x80, 0x80, 0x90, 0xB0, 0x100, 0xC0, 0xE0])
    name = rng.choice([None, None, 'a', 'stream', 'näme', 'x' * 20])
    pad = rng.choice([b'\x00', b'\xaa', b'\x11'])
    if rng.random() < 0.5:
        return ntfs.attr_resident(t, ntfs.rnd_bytes(rng, rng.choice([0, 1, 7, 8, 24, 60])), name, rng.getrandbits(16), rng.choice([0, 0x4000]), pad=pad, extra_gap=rng.choice([0, 0, 8]))
    runs = [(rng.randrange(1, 1 << 20), rng.randrange(1, 200)) for __ in range(rng.randrange(1, 4))]
    n = sum(c for __, c in runs)
    lo = rng.choice([0, 0, 5, 1 << 33])
    return ntfs.attr_nonresident(t, runs, rng.randrange(n * 4096 + 1), name, rng.getrandbits(16), 0, lo, lo + n - 1, n * 4096, None, extra_gap=rng.choice([0, 0, 8]), pad=pad)


def near(rng, *bounds):
    v = rng.choice(bounds) + rng.choice([-16, -8, -2, -1, 0, 0, 0, 1, 2, 8, 16])
    return v if rng.random() < 0.85 else rng.choice([0, 8, 16, 0xFF, 0x7FFF, 0xFFFF, rng.getrandbits(16)])


def spoil(rng, b, pos, end, mon):
    """Give one field of the attribute at pos (used part ends at end) another value; returns the name of the field."""
    t, rl, form, nl, no = struct.unpack_from('<LLBBH', b, pos)
    fields = ['rl', 'name_off', 'name_len', 'form', 'both']
    fields += ['vo', 'vl', 'vl', 'vo'] if form == 0 else ['lo', 'mo', 'mo', 'size', 'alloc', 'valid']
    f = rng.choice(fields)
    if f == 'rl':
        v = rng.choice([0, 8, 16, 24, 32, 40, 56, 64, rl - 8, rl + 8, end - pos, end - pos + 8, end - pos - 8, 0x10000, 0xFFFFFFF8, 0x80000000, rl + 4, rl - 1])
        struct.pack_into('<L', b, pos + 4, v & 0xFFFFFFFF)
    elif f in ('name_off', 'name_len', 'both'):
        if f != 'name_len':
            no = max(0, min(0xFFFF, near(rng, 24, 64, rl, rl - 2 * nl, end - pos, end - pos - 2 * nl)))
        if f != 'name_off':
            nl = rng.choice([1, 2, 3, 255, 128, max(0, min(255, (near(rng, rl, end - pos) - no) // 2))])
        elif nl == 0:
            nl = rng.choice([1, 4])
        struct.pack_into('<BH', b, pos + 9, nl, no)
    elif f == 'form':
        b[pos + 8] = rng.choice([0, 1, 2, 3, 0x80, 0xFF])
    elif f == 'vo':
        struct.pack_into('<H', b, pos + 20, max(0, min(0xFFFF, near(rng, 24, rl, 0, 24 + 2 * nl, end - pos))))
    elif f == 'vl':
        vo, = struct.unpack_from('<H', b, pos + 20)
        struct.pack_into('<L', b, pos + 16, max(0, near(rng, rl - vo, end - pos - vo, len(b) - pos - vo)) if rng.random() < 0.8 else rng.choice([0xFFFFFFFF, 0x80000000, 0x10000]))
    elif f == 'mo':
        struct.pack_into('<H', b, pos + 32, max(0, min(0xFFFF, near(rng, 64, rl, 64 + 2 * nl, end - pos))))
    elif f == 'lo':
        lo, hi = struct.unpack_from('<QQ', b, pos + 16)
        lo = rng.choice([hi + 1, hi, hi - 1, (1 << 64) - 1, 1 << 63, hi + (1 << 32)])
        struct.pack_into('<Q', b, pos + 16, lo & (1 << 64) - 1)
    else:
        alloc, size, valid = struct.unpack_from('<qqq', b, pos + 40)
        if f == 'size':
            size = rng.choice([alloc, alloc + 1, alloc + 8, valid - 1, valid, -1, 1 << 62, -(1 << 63)])
        elif f == 'alloc':
            alloc = rng.choice([size, size - 1, size + 1, 0, -1, 1 << 62])
        else:
            valid = rng.choice([size, size + 1, -1, 0, 1 << 62, -(1 << 63)])
        struct.pack_into('<qqq', b, pos + 40, *[max(-1 << 63, min((1 << 63) - 1, x)) for x in (alloc, size, valid)])
    return f


def case_attributes(rng, mon):
    size = rng.choice(SIZES)
    usa = rng.choice([48, 48, 42])
    room = ntfs.attrs_room(size, usa)
    attrs = []
    while len(attrs) < rng.randrange(1, 8):
        a = rnd_attr(rng)
        if len(a) + sum(map(len, attrs)) > room - 16:
            break
        attrs.append(a)
    if rng.random() < 0.5 and attrs:  # Fill the record to its very end.
        left = room - sum(map(len, attrs))
        if left >= 24:
            attrs.append(ntfs.attr_resident(0x80, ntfs.rnd_bytes(rng, left - 24 - rng.choice([0, 0, 3])) if left > 27 else b''))
    b, usa_off = ntfs.frs_plain(attrs, number=30, seq=3, size=size, usa_off=usa, slack=ntfs.rnd_bytes(rng, 400))
    b = bytearray(b)
    first, = struct.unpack_from('<H', b, 20)
    end, = struct.unpack_from('<L', b, 24)
    starts = []
    p = first
    for a in attrs:
        starts.append(p)
        p += len(a)
    what = []
    for __ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        if not starts:
            break
        what.append(spoil(rng, b, rng.choice(starts), end, mon))
    if rng.random() < 0.2:
        # The used part ends elsewhere: inside an attribute, at its end, without an end mark.
        v = rng.choice([rng.choice(starts + [p]) + rng.choice([0, 0, 4, 8, 16, 24]), size, size - 8, p, p + 4])
        struct.pack_into('<L', b, 24, max(42, min(size, v)))
        what.append('free')
    if rng.random() < 0.1:  # No end mark: the attributes go on to the end of the used part.
        b[p:p + 8] = bytes(8) if rng.random() < 0.5 else ntfs.rnd_bytes(rng, 8)
        what.append('end')
    want, outcome, why = model(b, mon)
    raw = bytes(ntfs.usa_protect(b, usa_off, b'\x21\x43'))
    r = MFT.FileRecordSegment(raw, suggested_mft_number=30)
    mon.count('records')
    ctx = 'size=%d used=%d attributes at %s spoiled %s, declared: %s' % (size, struct.unpack_from('<L', b, 24)[0], starts, what, why or outcome)
    got = []
    error = None
    try:
        for a in r.attributes():
            got.append(seen(a))
            if len(got) > 200:
                mon.fail('endless-attributes', ctx)
    except OWN as e:
        error = e
    if outcome == 'either' and error is not None:
        want = want[:-1] if len(got) < len(want) else want
    mon.equal([clip(x) for x in got[:len(want)]], [clip(x) for x in want], 'attributes', ctx)
    mon.check(got[:len(want)] == want, 'attribute-bytes', lambda: ctx)
    if outcome != 'either':
        mon.check(len(got) == len(want), 'out-of-bounds-reported', lambda: '%s reported %s; %s' % (why, clip(got[len(want):]), ctx))
        if outcome == 'refused':
            mon.check(error is not None, 'not-refused:' + why, lambda: ctx)
            mon.count('attributes_refused')
            mon.count('refused_' + why)
        else:
            mon.check(error is None, 'refused-in-bounds', lambda: '%s: %r' % (ctx, error))
            if what:
                mon.count('at_the_bound')
    mon.count('attributes_reported', len(want))
    mon.count('checks')
    mon.sig(size, what, outcome, why, len(want))
    mon.sample(ctx)


def case_header(rng, mon):
    """Record headers: the first attribute, the used part and the record size."""
    size = rng.choice(SIZES)
    a = [ntfs.attr_resident(0x80, ntfs.rnd_bytes(rng, 60), rng.choice([None, 'n'])) for __ in range(rng.randrange(3))]
    b, usa_off = ntfs.frs_plain(a, number=40, seq=2, size=size)
    b = bytearray(b)
    first, = struct.unpack_from('<H', b, 20)
    end, = struct.unpack_from('<L', b, 24)
    n_usa = size // 512 + 1
    f = rng.choice(['first', 'free', 'size', 'none', 'signature'])
    bad = False
    if f == 'first':
        v = rng.choice([0, 8, 40, usa_off, usa_off + 2 * n_usa, first, first - 8, first + 8, size - 24, size - 16, size - 8, size, size + 8, 0xFFF8, 16, 32])
        struct.pack_into('<H', b, 20, v)
        bad = v < usa_off + 2 * n_usa or v > size - 24
        if v % 8:
            return mon.count('checks')
        if not bad and v != first:
            b[v:v + 8] = ntfs.END_MARK
            struct.pack_into('<L', b, 24, v + 8)
    elif f == 'free':
        v = rng.choice([size, size + 1, size + 8, size * 2, 0xFFFFFFFF, 0x80000000, 0, 8, 41, end, size - 1, 1 << 16])
        struct.pack_into('<L', b, 24, v)
        bad = v > size or v < 42
    elif f == 'size':
        v = rng.choice([0, 512, 1024, 2048, 4096, 8192, size + 1, size * 2, size // 2, 0xFFFFFFFF, 65536])
        struct.pack_into('<L', b, 28, v)
        bad = v > size or v not in SIZES or v < end
        if v < size and not bad:
            return mon.count('checks')
        if v < size and v in SIZES:  # A smaller record at the start of the buffer is a matter of taste unless its used part does not fit.
            bad = end > v
            if not bad:
                return mon.count('checks')
    elif f == 'signature':
        s = rng.choice([b'FILE', b'BAAD', b'INDX', b'RCRD', b'file', b'FILA', b'\0\0\0\0'])
        b[0:4] = s
        bad = s not in (b'FILE', b'BAAD')
    raw = bytes(ntfs.usa_protect(b, usa_off, b'\x07\x00'))
    ctx = 'size=%d field=%s first=%d used=%d declared=%d' % (size, f, *struct.unpack_from('<H', b, 20), *struct.unpack_from('<LL', b, 24))
    if bad:
        mon.raises(OWN, lambda: MFT.FileRecordSegment(raw), 'record-header', ctx)
        mon.count('header_refused')
    else:
        r = MFT.FileRecordSegment(raw)
        want, outcome, why = model(b, mon)
        if outcome == 'ok':
            mon.equal([seen(x) for x in r.attributes()], want, 'attributes', ctx)
        mon.count('header_accepted')
    mon.count('checks')
    mon.sig(size, f, bad, len(a))
    mon.sample(ctx)


# --- Streams ---------------------------------------------------------------------------

def case_stream(rng, mon):
    """Streams and lists on volumes that end early, or with run lists that end early."""
    cs = rng.choice([512, 1024, 4096])
    off = rng.choice([0, 0, 512, 4096])
    runs = []
    at = 1
    for __ in range(rng.randrange(1, 6)):
        n = rng.randrange(1, 5)
        if rng.random() < 0.25:
            runs.append((None, n))
        else:
            at += rng.randrange(3)
            runs.append((at, n))
            at += n
    total = at + rng.randrange(2)
    if rng.random() < 0.5:
        order = [r for r in runs if r[0] is not None]
        rng.shuffle(order)
        it = iter(order)
        runs = [r if r[0] is None else next(it) for r in runs]
    vol = ntfs.rnd_bytes(rng, total * cs)
    cut = rng.choice([0, 0, 1, cs - 1, cs, cs + 1, rng.randrange(len(vol))])
    disk = vol[:len(vol) - cut]
    junk = ntfs.rnd_bytes(rng, off)
    clusters = sum(n for __, n in runs)
    size = rng.choice([clusters * cs, clusters * cs - 1, clusters * cs - rng.randrange(cs), clusters * cs + 1, clusters * cs + cs])
    lcns = [None if o is None else o + i for o, n in runs for i in range(n)]

    def part(v):
        """The bytes of a cluster of the stream, or None if they are not there."""
        if v >= len(lcns):
            return None
        if lcns[v] is None:
            return bytes(cs)
        d = disk[lcns[v] * cs:lcns[v] * cs + cs]
        return d if len(d) == cs else None
    f = MonFile(junk + disk)
    s = MFT.FragmentedFile(f, off, cs, [tuple(r) for r in runs], size)
    ctx = 'cluster=%d offset=%d runs=%s size=%d volume cut by %d of %d' % (cs, off, runs, size, cut, len(vol))
    for __ in range(12):
        pos = rng.choice([0, rng.randrange(size + 1), max(0, size - rng.randrange(1, 2 * cs))])
        n = rng.choice([1, cs, cs + 1, rng.randrange(1, 3 * cs), -1])
        s.seek(pos)
        end = size if n < 0 else min(size, pos + n)
        need = [part(v) for v in range(pos // cs, (end + cs - 1) // cs)] if end > pos else []
        if any(x is None for x in need):
            mon.raises(OWN, lambda: s.read(n), 'missing-data', 'read(%d) at %d; %s' % (n, pos, ctx))
            mon.count('stream_refused')
            if end > len(lcns) * cs:
                mon.count('uncovered_refused')
        else:
            b = b''.join(need)
            mon.equal(bytes(s.read(n)), b[pos % cs:pos % cs + end - pos], 'stream-bytes', 'read(%d) at %d; %s' % (n, pos, ctx))
            mon.count('stream_reads')
    # An attribute list kept in clusters.
    n = sum(c for __, c in runs)
    a = MFT.AttributeRecordNonresident(0x20, None, ntfs.encode_runs(runs), 0, n - 1, min(size, n * cs))
    whole = [part(v) for v in range(n)]
    if any(o is None for o, __ in runs) or any(x is None for x in whole):
        mon.raises(OWN, lambda: a.value_decoded(f, off, cs), 'missing-list-data', ctx)
        mon.count('list_refused')
    else:
        mon.equal(bytes(a.value_decoded(f, off, cs).value), b''.join(whole)[:min(size, n * cs)], 'list-bytes', ctx)
        mon.count('list_read')
    x = MFT.AttributeRecordResident(Attributes.ATTR_TYPE_INDEX_ALLOCATION, None, ntfs.rnd_bytes(rng, 4096))
    mon.raises(OWN, lambda: x.value_decoded(), 'resident-index-allocation', ctx)
    mon.count('resident_index_refused')
    mon.count('checks')
    mon.sig(cs, off, runs, size, cut)
    mon.sample(ctx)


class FATOn(FAT.FileSystemParser):
    def __init__(self, vol, off, size, cs, area, fat):
        self.volume_object, self.volume_offset, self.volume_size = vol, off, size
        self.cluster_size, self.data_area_offset, self.fat = cs, area, fat


class exFATOn(exFAT.FileSystemParser):
    def __init__(self, vol, off, size, cs, area, fat):
        self.volume_object, self.volume_offset, self.volume_size = vol, off, size
        self.cluster_size, self.data_area_offset, self.fat = cs, area, fat
        self.last_valid_cluster = fat.last_valid_cluster


def case_chain(rng, mon):
    """FAT and exFAT chains with clusters beyond the volume, missing or marked bad."""
    ex = rng.random() < 0.5
    bits = 32 if ex else rng.choice([16, 32])
    cs = rng.choice([512, 1024, 4096])
    off = rng.choice([0, 512, 2048])
    last = rng.randrange(6, 30)
    fatsz = 512
    bad = 0xFFFFFFF7 if ex else {16: 0xFFF7, 32: 0x0FFFFFF7}[bits]
    eoc = 0xFFFFFFFF if ex else {16: 0xFFFF, 32: 0x0FFFFFFF}[bits]
    chain = rng.sample(range(2, last + 1), rng.randrange(1, min(10, last - 1)))
    t = [0] * (fatsz // (bits // 8))
    ends_bad = rng.random() < 0.3
    for a, b in zip(chain, chain[1:]):
        t[a] = b
    t[chain[-1]] = bad if ends_bad else rng.choice([eoc, eoc, 0])
    table = struct.pack('<%d%s' % (len(t), 'H' if bits == 16 else 'L'), *t)
    area = fatsz + rng.choice([0, 512, 1536])
    data = ntfs.rnd_bytes(rng, (last - 1) * cs)
    full = table.ljust(area, b'\xee') + data
    cut = rng.choice([0, 0, 0, 1, cs, cs + 1, rng.randrange(len(data))])
    disk = full[:len(full) - cut]
    given = rng.choice([None, None, len(disk), len(full)])
    tail = b'' if given is None or given > len(disk) else ntfs.rnd_bytes(rng, rng.choice([0, cs * 3]))
    f = MonFile(ntfs.rnd_bytes(rng, off) + disk + tail)
    cls = exFAT if ex else FAT
    fat = exFAT.FAT(f, off, fatsz, last) if ex else FAT.FAT(f, off, fatsz, last, bits)
    p = (exFATOn if ex else FATOn)(f, off, given, cs, area, fat)
    contiguous = ex and rng.random() < 0.4
    size = rng.choice([None, rng.randrange(1, (len(chain) + 2) * cs), len(chain) * cs, len(chain) * cs - 1])
    if contiguous:
        if size is None:
            size = rng.randrange(1, 4 * cs)
        first = chain[0]
        clusters = [c for c in range(first, first + (size + cs - 1) // cs) if c <= last]
    else:
        clusters = list(chain) + ([None] if ends_bad else [])
    if size is not None:
        clusters = clusters[:(size + cs - 1) // cs]
    want = b''
    for c in clusters:
        if c is None:
            want += bytes(cs)
            mon.count('bad_cluster')
            continue
        o = area + (c - 2) * cs
        d = disk[o:o + cs]
        if len(d) != cs:
            want = None
            break
        want += d
    ctx = '%s bits=%d cluster=%d chain=%s ends_bad=%s size=%r contiguous=%s cut=%d given=%r' % (cls.__name__, bits, cs, chain, ends_bad, size, contiguous, cut, given)
    args = (chain[0], size) + ((True,) if contiguous else ())
    if want is None:
        mon.raises((ValueError, FAT.FileSystemException, exFAT.FileSystemException), lambda: p.read_chain(*args), 'beyond-the-volume', ctx)
        mon.count('chain_refused')
    else:
        w = want if size is None else want[:size]
        mon.equal(bytes(p.read_chain(*args)), w, 'chain-bytes', ctx)
        mon.count('chain_read')
        if size is not None and len(w) < size:
            mon.count('chain_cut')
    mon.count('checks')
    mon.sig(cls.__name__, bits, cs, len(chain), ends_bad, size is None, contiguous, cut > 0, given is None, want is None)
    mon.sample(ctx)


FAMILIES = [
    ('attributes', case_attributes, 120000, 1500000),
    ('header', case_header, 15000, 200000),
    ('stream', case_stream, 20000, 200000),
    ('chain', case_chain, 30000, 400000),
]
