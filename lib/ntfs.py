"""Independent builders of NTFS structures (from the on-disk format, not from the code under test)."""
import struct, datetime, math

SI, ATTRLIST, FN, OBJID, SECDESC, VOLNAME, VOLINFO, DATA, IDXROOT, IDXALLOC, BITMAP, REPARSE, EAINFO, EA, LUS = (
    0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0x100)

IN_USE, IS_DIR = 1, 2

EPOCH_1601 = datetime.datetime(1601, 1, 1)
EPOCH_1582 = datetime.datetime(1582, 10, 15)
MAX_US_1601 = (datetime.datetime.max - EPOCH_1601) // datetime.timedelta(microseconds=1)


def ref(number, seq):
    return (seq << 48) | number


def filetime_model(t):
    """The instant denoted by a FILETIME: exact floor to microseconds, or None when not representable."""
    us = t // 10
    if us > MAX_US_1601:
        return None
    return EPOCH_1601 + datetime.timedelta(microseconds=us)


def guidtime_model(t):
    us = t // 10
    try:
        return EPOCH_1582 + datetime.timedelta(microseconds=us)
    except OverflowError:
        return None


def near(got, want, tol_us=1):
    """Equal instants up to tol_us microseconds (both None is equal)."""
    if got is None or want is None:
        return got is want
    return abs(got - want) <= datetime.timedelta(microseconds=tol_us)


def instant_ok(got, ticks, epoch=EPOCH_1601, per_us=10):
    """`got` denotes ticks/per_us microseconds after epoch to 1 microsecond, or to half the spacing of double-precision numbers
    where that is larger (the repository's own tests fix values obtained through that conversion); None exactly when not representable."""
    max_us = (datetime.datetime.max - epoch) // datetime.timedelta(microseconds=1)
    if got is None:
        return ticks > (max_us - 40) * per_us
    if ticks > (max_us + 40) * per_us:
        return False
    d = got - epoch
    us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    tol = max(1, int(math.ulp(ticks / per_us) / 2 + 0.5))
    return abs(us * per_us - ticks) <= tol * per_us


def align8(n):
    return (n + 7) & ~7


# --- Run lists ---------------------------------------------------------------------

def min_signed_width(v):
    w = 1
    while not (-(1 << (8 * w - 1)) <= v < (1 << (8 * w - 1))):
        w += 1
    return w


def encode_runs(runs, rng=None):
    """Encode [(lcn or None, count)] as mapping pairs. With rng, field widths are padded at random."""
    out = b''
    prev = 0
    for lcn, count in runs:
        cw = min_signed_width(count)
        if rng is not None and rng.random() < 0.3:
            cw = rng.randint(cw, 8)
        if lcn is None:
            out += bytes([cw]) + count.to_bytes(cw, 'little', signed=True)
            continue
        delta = lcn - prev
        prev = lcn
        ow = min_signed_width(delta)
        if rng is not None and rng.random() < 0.3:
            ow = rng.randint(ow, 8)
        out += bytes([(ow << 4) | cw]) + count.to_bytes(cw, 'little', signed=True) + delta.to_bytes(ow, 'little', signed=True)
    return out + b'\x00'


# --- Attribute records -------------------------------------------------------------

def attr_resident(type_code, value, name=None, instance=0, flags=0, resident_flags=0, pad=b'\x00', extra_gap=0):
    nm = b'' if name is None else name.encode('utf-16le', 'surrogatepass')
    name_off = 24 if nm else (24 if extra_gap == 0 else 0)
    value_off = align8(24 + len(nm)) + extra_gap
    total = align8(value_off + len(value))
    h = struct.pack('<LLBBHHH', type_code, total, 0, len(nm) // 2, name_off, flags, instance)
    h += struct.pack('<LHBB', len(value), value_off, resident_flags, 0)
    b = h + nm
    b += pad * (value_off - len(b)) + value
    b += pad * (total - len(b))
    return b


def attr_nonresident(type_code, runs, file_size, name=None, instance=0, flags=0, lowest_vcn=0, highest_vcn=None,
                     allocated=None, valid=None, cluster_size=4096, rng=None, mapping=None, extra_gap=0, pad=b'\x00'):
    nm = b'' if name is None else name.encode('utf-16le', 'surrogatepass')
    clusters = sum(c for __, c in runs)
    if highest_vcn is None:
        highest_vcn = lowest_vcn + clusters - 1 if clusters else lowest_vcn
    if allocated is None:
        allocated = max(clusters * cluster_size, file_size)
    if valid is None:
        valid = file_size
    mp = encode_runs(runs, rng) if mapping is None else mapping
    mp_off = align8(64 + len(nm)) + extra_gap
    total = align8(mp_off + len(mp))
    h = struct.pack('<LLBBHHH', type_code, total, 1, len(nm) // 2, 64, flags, instance)
    h += struct.pack('<QQHB5sqqq', lowest_vcn, highest_vcn, mp_off, 0, b'\x00' * 5, allocated, file_size, valid)
    b = h + nm
    b += b'\x00' * (mp_off - len(b)) + mp
    b += pad * (total - len(b))
    return b


END_MARK = b'\xff\xff\xff\xff\x82\x79\x47\x11'


def usa_protect(buf, usa_off, stamp):
    """Return buf (bytearray, true content) with its update sequence array filled and sector tails stamped."""
    b = bytearray(buf)
    n = len(b) // 512
    b[usa_off:usa_off + 2] = stamp
    for i in range(1, n + 1):
        o = i * 512 - 2
        b[usa_off + 2 * i:usa_off + 2 * i + 2] = b[o:o + 2]
        b[o:o + 2] = stamp
    return b


def frs_plain(attrs, number=0, seq=1, flags=IN_USE, base=0, lsn=0, size=1024, links=1, next_instance=0, signature=b'FILE',
              short=False, slack=None, first_free=None, usa_off=None, end=END_MARK):
    """An unprotected file record segment. `slack` fills the bytes after the end marker."""
    n_usa = size // 512 + 1
    if usa_off is None:
        usa_off = 42 if short else 48
    first_attr = align8(usa_off + 2 * n_usa)
    body = b''.join(attrs) + end
    used = first_attr + len(body)
    if used > size:
        raise ValueError('record overflow')
    if first_free is None:
        first_free = used
    h = struct.pack('<4sHHQHHHHLLQH', signature, usa_off, n_usa, lsn, seq, links, first_attr, flags, first_free, size, base, next_instance)
    b = bytearray(h)
    if not short:
        b += struct.pack('<HL', number >> 32, number & 0xFFFFFFFF)
    b += b'\x00' * (first_attr - len(b))
    b += body
    rest = size - len(b)
    if slack is not None:
        b += (slack + b'\x00' * rest)[:rest]
    else:
        b += b'\x00' * rest
    return b, usa_off


def frs(attrs, stamp=b'\x01\x00', **kw):
    b, usa_off = frs_plain(attrs, **kw)
    return bytes(usa_protect(b, usa_off, stamp))


def attrs_room(size=1024, usa_off=48):
    """Bytes available for attribute records in a segment."""
    return size - align8(usa_off + 2 * (size // 512 + 1)) - 8


# --- Attribute values --------------------------------------------------------------

def si_value(c=0, m=0, e=0, a=0, attrs=0, maxver=0, extra=0, cls=0, owner=None, secid=None, quota=None, usn=None):
    b = struct.pack('<QQQQLLLL', c, m, e, a, attrs, maxver, extra, cls)
    if owner is not None:
        b += struct.pack('<LLQQ', owner, secid or 0, quota or 0, usn or 0)
    return b


def dup_info(c=0, m=0, e=0, a=0, alloc=0, size=0, attrs=0, ea=0, ea2=0):
    return struct.pack('<QQQQqqLHH', c, m, e, a, alloc, size, attrs, ea, ea2)


def fn_value(parent, name, flags=3, **kw):
    nm = name.encode('utf-16le', 'surrogatepass') if isinstance(name, str) else name
    return struct.pack('<Q', parent) + dup_info(**kw) + bytes([len(nm) // 2, flags]) + nm


def volinfo_value(major=3, minor=1, flags=0):
    return b'\x00' * 8 + struct.pack('<BBH', major, minor, flags)


def attrlist_entry(type_code, name, lowest_vcn, reference, instance, rng=None):
    nm = b'' if name is None else name.encode('utf-16le')
    off = 26
    rl = align8(26 + len(nm))
    b = struct.pack('<LHBBQQH', type_code, rl, len(nm) // 2, off, lowest_vcn, reference, instance) + nm
    return b + b'\x00' * (rl - len(b))


def index_entry(reference, key, flags=0, vcn=None, length=None):
    if vcn is not None:
        flags |= 1
    klen = len(key)
    total = align8(16 + klen) + (8 if vcn is not None else 0)
    if length is not None:
        total = length
    b = struct.pack('<QHHHH', reference, total, klen, flags, 0) + key
    b += b'\x00' * (total - len(b) - (8 if vcn is not None else 0))
    if vcn is not None:
        b += struct.pack('<Q', vcn)
    return b


def index_end(vcn=None):
    if vcn is None:
        return struct.pack('<QHHHH', 0, 16, 0, 2, 0)
    return struct.pack('<QHHHHQ', 0, 24, 0, 3, 0, vcn)


def index_root_value(entries, indexed=FN, rule=1, buf_size=4096, blocks=1, flags=0, end=None, first=16, alloc_extra=0):
    body = b''.join(entries) + (index_end() if end is None else end)
    hdr = struct.pack('<LLLL', indexed, rule, buf_size, blocks)
    hdr += struct.pack('<LLLB3s', first, first + len(body), first + len(body) + alloc_extra, flags, b'\x00' * 3)
    return hdr + b'\x00' * (first - 16) + body


def index_buffer_plain(entries, size=4096, vcn=0, lsn=0, flags=0, end=None, slack=None, usa_off=40):
    n_usa = size // 512 + 1
    first = align8(usa_off + 2 * n_usa) - 24
    body = b''.join(entries) + (index_end() if end is None else end)
    used = first + len(body)
    if 24 + used > size:
        raise ValueError('index buffer overflow')
    b = bytearray(struct.pack('<4sHHQQ', b'INDX', usa_off, n_usa, lsn, vcn))
    b += struct.pack('<LLLB3s', first, used, size - 24, flags, b'\x00' * 3)
    b += b'\x00' * (24 + first - len(b))
    b += body
    rest = size - len(b)
    b += b'\x00' * rest if slack is None else (slack + b'\x00' * rest)[:rest]
    return b


def index_buffer(entries, stamp=b'\x07\x00', **kw):
    usa_off = kw.get('usa_off', 40)
    return bytes(usa_protect(index_buffer_plain(entries, **kw), usa_off, stamp))


def ea_entry(name, flags, value, last):
    b = bytes([flags, len(name)]) + struct.pack('<H', len(value)) + name + b'\x00' + value
    total = 4 + len(b)
    aligned = (total + 3) & ~3
    return struct.pack('<L', 0 if last else aligned) + b + b'\x00' * (aligned - total)


def boot_sector(bytes_per_sector=512, sectors_per_cluster=8, total_sectors=1 << 20, mft=4, mftmirr=2, frs_code=-10, idx_code=1,
                serial=0x1122334455667788, signature=b'NTFS    ', spc_code=None):
    b = bytearray(512)
    b[0:3] = b'\xeb\x52\x90'
    b[3:11] = signature
    b[11:13] = struct.pack('<H', bytes_per_sector)
    b[13] = sectors_per_cluster if spc_code is None else spc_code
    b[21] = 0xF8
    b[40:48] = struct.pack('<Q', total_sectors)
    b[48:56] = struct.pack('<Q', mft)
    b[56:64] = struct.pack('<Q', mftmirr)
    b[64] = frs_code & 0xFF
    b[68] = idx_code & 0xFF
    b[72:80] = struct.pack('<Q', serial)
    b[510:512] = b'\x55\xaa'
    return bytes(b)


# --- Random material ---------------------------------------------------------------

NAME_ALPHABET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-$~()[]{}&\u00e9\u0416\u4e2d\u03a9\u00df'

def rnd_name(rng, lo=1, hi=24, alphabet=NAME_ALPHABET, astral=True):
    n = rng.randint(lo, hi)
    s = ''.join(rng.choice(alphabet) for __ in range(n))
    if astral and rng.random() < 0.05 and n + 2 < 255:
        s += '\U0001F4BE'
    if s in ('.', '..'):
        s = s + 'x'
    return s


def rnd_filetime(rng, modern=False):
    r = rng.random()
    if modern or r < 0.75:
        return rng.randint(125911584000000000, 140000000000000000)
    if r < 0.85:
        return rng.choice([0, 1, 9, 10, 2650467743999999999, 2650467744000000000, (1 << 64) - 1, 1 << 63])
    return rng.getrandbits(64) if r < 0.92 else rng.randint(0, 2650467743999999999)


def rnd_bytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


def system_records(rng=None, size=1024, extra_fn=True, stamp=b'\x05\x00'):
    """Minimal records 0..15 of a master file table (dict number -> protected segment)."""
    recs = {}
    names = ['$MFT', '$MFTMirr', '$LogFile', '$Volume', '$AttrDef', '.', '$Bitmap', '$Boot', '$BadClus', '$Secure', '$UpCase', '$Extend']
    for n, nm in enumerate(names):
        flags = IN_USE | (IS_DIR if nm in ('.', '$Extend') else 0)
        attrs = [attr_resident(SI, si_value(owner=0)), attr_resident(FN, fn_value(ref(5, 5), nm))]
        if n == 3:
            attrs.append(attr_resident(VOLNAME, 'vol'.encode('utf-16le')))
            attrs.append(attr_resident(VOLINFO, volinfo_value()))
        recs[n] = frs(attrs, number=n, seq=(n if n else 1), flags=flags, size=size, stamp=stamp)
    return recs
