"""Generated change journals."""
import struct
from lib import ntfs

REASONS = {0x8000: 'BASIC_INFO_CHANGE', 0x80000000: 'CLOSE', 0x20000: 'COMPRESSION_CHANGE', 2: 'DATA_EXTEND', 1: 'DATA_OVERWRITE', 4: 'DATA_TRUNCATION', 0x400: 'EA_CHANGE',
           0x40000: 'ENCRYPTION_CHANGE', 0x100: 'FILE_CREATE', 0x200: 'FILE_DELETE', 0x10000: 'HARD_LINK_CHANGE', 0x4000: 'INDEXABLE_CHANGE', 0x800000: 'INTEGRITY_CHANGE',
           0x20: 'NAMED_DATA_EXTEND', 0x10: 'NAMED_DATA_OVERWRITE', 0x40: 'NAMED_DATA_TRUNCATION', 0x80000: 'OBJECT_ID_CHANGE', 0x2000: 'RENAME_NEW_NAME', 0x1000: 'RENAME_OLD_NAME',
           0x100000: 'REPARSE_POINT_CHANGE', 0x800: 'SECURITY_CHANGE', 0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE'}
SOURCES = {2: 'AUXILIARY_DATA', 1: 'DATA_MANAGEMENT', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}


def resolve(code, table, prefix):
    left = code
    names = set()
    for k, v in table.items():
        if code & k:
            names.add(prefix + v)
            left &= ~k
    if left:
        names.add(hex(left))
    return names


def v23(rng, v3, usn=None, sane=False, raw=False):
    """A version 2 or 3 record and what it holds."""
    bits = 128 if v3 else 64
    name = ntfs.rnd_name(rng, 1, rng.choice([1, 12, 40, 255]))
    nm = name.encode('utf-16le')[:510]
    if raw and rng.random() < 0.1:
        # Any code units, null ones and lone surrogates included.
        nm = b''.join(rng.choice([0, 0, 0x41, 0x20, 0xD800, 0xDC00, 0xFFFF, rng.randrange(65536)]).to_bytes(2, 'little') for __ in range(rng.randint(1, 12)))
    name = nm.decode('utf-16le', 'replace')
    hdr = 76 if v3 else 60
    extra = 0 if sane or rng.random() < 0.8 else rng.choice([2, 4, 8, 20])
    noff = hdr + extra
    length = (noff + len(nm) + 7) & ~7
    if not sane and rng.random() < 0.1:
        length += 8 * rng.randint(1, 20)
    minor = 0 if rng.random() < 0.9 else rng.randint(0, 65535)
    m = {'v': 3 if v3 else 2, 'minor': minor, 'len': length, 'ref': rng.getrandbits(bits), 'parent': rng.getrandbits(bits), 'usn': rng.getrandbits(63) if usn is None else usn,
         'ts': ntfs.rnd_filetime(rng), 'reason': rng.getrandbits(32) if rng.random() < 0.5 else 1 << rng.randint(0, 31), 'source': rng.choice([0, 1, 2, 4, 8, 3, rng.getrandbits(32)]), 'sid': rng.getrandbits(32),
         'attrs': rng.getrandbits(32), 'noff': noff, 'nlen': len(nm), 'name': name}
    b = struct.pack('<LHH', length, m['v'], minor) + m['ref'].to_bytes(bits // 8, 'little') + m['parent'].to_bytes(bits // 8, 'little')
    b += struct.pack('<QQLLLLHH', m['usn'], m['ts'], m['reason'], m['source'], m['sid'], m['attrs'], m['nlen'], noff)
    b += b'\x00' * (noff - len(b)) + nm
    b += b'\x00' * (length - len(b))
    return b, m


def v4(rng, usn=None, sane=False, raw=False):
    n = rng.choice([1, 1, 2, 5, 30]) if sane or rng.random() < 0.95 else rng.choice([252, 253, 300, 400, 500, 508])
    esize = 16 if sane or rng.random() < 0.8 else rng.choice([8, 24, 32])
    if 64 + n * esize > 8192:
        esize = 16
    ext = [(rng.getrandbits(62) if sane or rng.random() < 0.9 else rng.randint(-2 ** 63, 2 ** 63 - 1), rng.getrandbits(40)) if esize == 16 else ntfs.rnd_bytes(rng, esize) for __ in range(n)]
    odd = raw and rng.random() < 0.1
    raw = b''.join(struct.pack('<qq', *e) if esize == 16 else e for e in ext)
    if n * esize > 400 and not sane and rng.random() < 0.5:
        # Extents that look like a record of their own.
        fake, __ = v23(rng, False)
        if len(fake) <= len(raw):
            o = rng.choice([0, 8, 4096 - 64, 4096, rng.randrange(len(raw))]) & ~7
            o = min(o, (len(raw) - len(fake)) & ~7)
            raw = raw[:o] + fake + raw[o + len(fake):]
            ext = [struct.unpack('<qq', raw[i:i + 16]) if esize == 16 else raw[i:i + esize] for i in range(0, len(raw), esize)]
    length = max(80, (64 + len(raw) + 7) & ~7)
    if odd and length + 16 <= 8192:
        # More extents announced than the record has room for, or none at all: the whole ones that are there count.
        raw += ntfs.rnd_bytes(rng, rng.choice([0, 8, 8, 16]))
        length = max(80, (64 + len(raw) + 7) & ~7)
        n = rng.choice([0, n + 1, n + 2, 65535])
        body = raw + b'\x00' * (length - 64 - len(raw))
        whole = [body[i:i + esize] for i in range(0, len(body) - esize + 1, esize)][:n]
        ext = [struct.unpack('<qq', e) if esize == 16 else e for e in whole]
    minor = 0 if rng.random() < 0.9 else rng.randint(0, 65535)
    m = {'v': 4, 'minor': minor, 'len': length, 'ref': rng.getrandbits(128), 'parent': rng.getrandbits(128), 'usn': rng.getrandbits(63) if usn is None else usn,
         'reason': rng.getrandbits(32), 'source': rng.choice([0, 1, 2, 4, 8, 3, rng.getrandbits(32)]), 'remaining': rng.getrandbits(32), 'n': n, 'esize': esize, 'extents': ext}
    b = struct.pack('<LHH', length, 4, minor) + m['ref'].to_bytes(16, 'little') + m['parent'].to_bytes(16, 'little')
    b += struct.pack('<QLLLHH', m['usn'], m['reason'], m['source'], m['remaining'], n, esize) + raw
    b += b'\x00' * (length - len(b))
    return b, m


def valid_at(buf, pos):
    """The length of the valid record at pos of buf, or None (independent statement of validity)."""
    if pos + 8 > len(buf):
        return None
    length, major, __ = struct.unpack_from('<LHH', buf, pos)
    need = {2: 64, 3: 80, 4: 80}.get(major)
    if need is None or length < need or length % 8 or pos + length > len(buf):
        return None
    return length


def record(rng, kind=None, **kw):
    kind = kind or rng.choice([2, 2, 2, 3, 4])
    return v4(rng, **kw) if kind == 4 else v23(rng, kind == 3, **kw)


def observe(r):
    """Everything the record object reports."""
    from dfir_ntfs import USN
    o = {'v': r.get_major_version(), 'minor': r.get_minor_version(), 'len': r.get_record_length(), 'ref': r.get_file_reference_number(), 'parent': r.get_parent_file_reference_number(),
         'usn': r.get_usn(), 'reason': r.get_reason(), 'source': r.get_source_info()}
    if type(r) is USN.USN_RECORD_V4:
        o.update(remaining=r.get_remaining_extents(), n=r.get_number_of_extents(), esize=r.get_extent_size(), extents=[e if type(e) is tuple else bytes(e) for e in r.extents()])
    else:
        o.update(ts=r.get_timestamp(), sid=r.get_security_id(), attrs=r.get_file_attributes(), noff=r.get_file_name_offset(), nlen=r.get_file_name_length())
        try:
            o['name'] = r.get_file_name()
        except ValueError:
            o['name'] = ValueError
    return o


def journal(rng, mon, pages, damage=True, sane=False, tweak=None, raw=False):
    """A journal of about `pages` 4-KiB pages: (bytes, [(offset, model)])."""
    out = bytearray()
    model = []
    size = pages * 4096 - (0 if not damage or rng.random() < 0.6 else rng.choice([1, 3, 8, 40, 500]))
    dense = rng.random()
    while len(out) < size:
        r = rng.random()
        room = size - len(out)
        if r < 0.72 + 0.2 * dense:
            b, m = record(rng, sane=sane, raw=raw)
            if tweak is not None:
                b, m = tweak(b, m)
            to_page = 4096 - len(out) % 4096
            if len(b) > to_page and rng.random() < 0.7:
                out += b'\x00' * min(to_page, room)     # Windows starts a record that does not fit on a new page
                mon.count('page_fill')
                continue
            if len(b) > room:
                if damage and rng.random() < 0.5:
                    out += b[:room]
                    mon.count('truncated_tail')
                else:
                    out += b'\x00' * room
                break
            if len(out) // 8192 != (len(out) + len(b) - 1) // 8192:
                mon.count('straddles_8k')
            if len(out) // 4096 != (len(out) + len(b) - 1) // 4096:
                mon.count('straddles_4k')
            model.append((len(out), m))
            out += b
        elif r < 0.97 or not damage:
            n = rng.choice([8, 16, 24, 64, 512, 4096, 8184, 8192, 8200, 16384, 20000 & ~7])
            out += b'\x00' * min(n, room)
            mon.count('zero_gap')
        else:
            kind = rng.choice(['garbage', 'version', 'unaligned', 'short', 'huge', 'shifted'])
            b, __ = record(rng)
            b = bytearray(b)
            if kind == 'garbage':
                b = bytearray(ntfs.rnd_bytes(rng, 8 * rng.randint(1, 40)))
            elif kind == 'version':
                b[4:6] = struct.pack('<H', rng.choice([0, 1, 5, 255]))
            elif kind == 'unaligned':
                b[0:4] = struct.pack('<L', len(b) + rng.choice([-4, -1, 1, 4]))
            elif kind == 'short':
                b[0:4] = struct.pack('<L', rng.choice([0, 1, 7, 8, 56]))
            elif kind == 'huge':
                b[0:4] = struct.pack('<L', rng.choice([1 << 31, (1 << 32) - 8, 1 << 20]))
            else:
                b = bytearray(4) + b + bytearray(4)
            out += b[:room & ~7] if len(b) > room else b
            mon.count('damaged_' + kind)
    # The damaged parts must not hold a valid record by accident.
    starts = dict((o, m['len']) for o, m in model)
    pos = 0
    while pos < len(out):
        v = valid_at(out, pos)
        if v is not None and pos not in starts:
            out[pos + 4:pos + 6] = b'\x00\x00'
            v = None
        pos += starts[pos] if pos in starts else 8
    return bytes(out), model
