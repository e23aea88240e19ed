"""Builders: partition tables and link-tracking logs."""
import struct, uuid, zlib
from lib import ntfs


def gpt_entry(rng, used=True, size=128):
    if not used:
        b = b'\x00' * 16 + (b'\x00' * 112 if rng.random() < 0.6 else ntfs.rnd_bytes(rng, 112))
        return b + ntfs.rnd_bytes(rng, size - 128), None
    t = ntfs.rnd_bytes(rng, 16)
    r = rng.random()
    if r < 0.1:
        t = uuid.UUID('C12A7328-F81F-11D2-BA4B-00A0C93EC93B').bytes_le
    elif r < 0.2:
        t = b'\x00' * 15 + b'\x01'
    elif r < 0.25:
        t = b'\x01' + b'\x00' * 15
    u = ntfs.rnd_bytes(rng, 16)
    s, e, a = rng.getrandbits(rng.choice([10, 34, 64])), rng.getrandbits(rng.choice([10, 34, 64])), rng.getrandbits(64)
    n = rng.choice([0, 1, 5, 20, 35, 36])
    name = ''.join(rng.choice(ntfs.NAME_ALPHABET) for __ in range(n))
    raw = name.encode('utf-16le')
    if n < 36:
        raw += b'\x00\x00'
        if n < 35 and rng.random() < 0.3:
            raw += 'zz'.encode('utf-16le')
    raw = (raw + b'\x00' * 72)[:72]
    if rng.random() < 0.03:
        raw = b'\x00\xd8' + raw[2:]       # an unpaired surrogate: not a name
        name = ''
    b = t + u + struct.pack('<QQQ', s, e, a) + raw
    return b + ntfs.rnd_bytes(rng, size - 128), (uuid.UUID(bytes_le=t), uuid.UUID(bytes_le=u), s, e, a, name)


def gpt_header(my, alt, first, last, guid, entry_lba, n, esize, ecrc, revision=0x10000, hsize=92, tail=b''):
    h = bytearray(struct.pack('<8sLLLLQQQQ16sQLLL', b'EFI PART', revision, hsize, 0, 0, my, alt, first, last, guid, entry_lba, n, esize, ecrc))
    h += tail[:hsize - 92]
    h += b'\x00' * (hsize - len(h))
    h[16:20] = struct.pack('<L', zlib.crc32(bytes(h)) & 0xFFFFFFFF)
    return bytes(h)


def gpt_disk(rng, sector=512):
    """A disk with both copies of a table; returns (bytearray, info)."""
    n = rng.choice([128, 128, 128, 1, 4, 16, 200, 256, 0, 513, 1024]) if sector == 512 else rng.choice([128, 128, 4])
    esize = rng.choice([128, 128, 128, 256, 512, 384, 4096])
    if n * esize > 262144:
        esize = 128
    ents, model = [], []
    dens = rng.choice([0.05, 0.3, 1.0])
    for i in range(n):
        b, m = gpt_entry(rng, rng.random() < dens or (i == n - 1 and rng.random() < 0.3), esize)
        ents.append(b)
        if m:
            model.append(m)
    arr = b''.join(ents)
    arr_sec = max(-(-len(arr) // sector), 16384 // sector)
    gap = rng.choice([0, 0, 1, 5])
    e1 = 2 + gap
    first = e1 + arr_sec
    total = first + rng.choice([10, 40, 200]) + arr_sec + 1
    beyond = rng.choice([0, 0, 0, 7])          # the table was made for a smaller drive
    e2 = total - 1 - arr_sec
    last = e2 - 1
    guid = ntfs.rnd_bytes(rng, 16)
    crc = zlib.crc32(arr) & 0xFFFFFFFF
    hsize = rng.choice([92, 92, 96, 128, 512, sector - 4, sector])
    tail = ntfs.rnd_bytes(rng, hsize - 92)
    disk = bytearray(ntfs.rnd_bytes(rng, 512)[:440] + b'\x00' * 72)
    disk[446:462] = struct.pack('<B3sB3sLL', 0, b'\x00\x02\x00', 0xEE, b'\xff\xff\xff', 1, min(total - 1, 0xFFFFFFFF))
    disk[510:512] = b'\x55\xaa'
    disk += b'\x00' * (sector * (total + beyond) - len(disk))
    disk[sector:sector + hsize] = gpt_header(1, total - 1, first, last, guid, e1, n, esize, crc, hsize=hsize, tail=tail)
    disk[e1 * sector:e1 * sector + len(arr)] = arr
    disk[(total - 1) * sector:(total - 1) * sector + hsize] = gpt_header(total - 1, 1, first, last, guid, e2, n, esize, crc, hsize=hsize, tail=tail)
    disk[e2 * sector:e2 * sector + len(arr)] = arr
    return disk, {'n': n, 'esize': esize, 'first': first, 'last': last, 'guid': uuid.UUID(bytes_le=guid), 'e1': e1, 'e2': e2, 'crc': crc, 'alt': total - 1, 'end': total + beyond - 1,
                  'model': model, 'arr': arr, 'hsize': hsize}


class Far(object):
    """A huge read-only file: pieces at given offsets, zero bytes elsewhere."""

    def __init__(self, size):
        self.size, self.pos, self.pieces = size, 0, {}

    def put(self, at, data):
        self.pieces[at] = bytes(data)

    def seek(self, off, whence=0):
        off += (0, self.pos, self.size)[whence]
        if off < 0:
            raise ValueError('negative seek')
        if off >= 1 << 63:
            raise OverflowError('seek too far')
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def read(self, n=-1):
        left = max(0, self.size - self.pos)
        n = left if n is None or n < 0 else min(n, left)
        if n > 1 << 26:
            raise MemoryError('read of %d bytes' % n)
        out = bytearray(n)
        for at, d in self.pieces.items():
            lo, hi = max(at, self.pos), min(at + len(d), self.pos + n)
            if lo < hi:
                out[lo - self.pos:hi - self.pos] = d[lo - at:hi - at]
        self.pos += n
        return bytes(out)


def mbr_part(boot, chs1, t, chs2, lba, size):
    return struct.pack('<B3sB3sLL', boot, chs1, t, chs2, lba, size)


# --- Link-tracking log -------------------------------------------------------------

MT_SIG = bytes.fromhex('ECA74366FEEFD111B2AE00C04FB9386D')


def guid_raw(rng):
    if rng.random() < 0.5:
        t = rng.getrandbits(60) if rng.random() < 0.3 else rng.randint(0x01D00000000000, 0x01F00000000000) * 16
        t &= (1 << 60) - 1
        return uuid.UUID(fields=(t & 0xFFFFFFFF, (t >> 32) & 0xFFFF, ((t >> 48) & 0x0FFF) | 0x1000, 0x80 | rng.getrandbits(6), rng.getrandbits(8), rng.getrandbits(48))).bytes_le
    if rng.random() < 0.1:
        return b'\x00' * 16
    return ntfs.rnd_bytes(rng, 16)


def machine(rng):
    n = rng.choice([0, 1, 8, 15, 16])
    if rng.random() < 0.8:
        raw = bytes(rng.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-') for __ in range(n))
    else:
        raw = bytes(rng.randint(1, 255) for __ in range(n))
    field = raw + (b'\x00' if n < 16 else b'')
    field += ntfs.rnd_bytes(rng, 16 - len(field)) if rng.random() < 0.3 else b'\x00' * (16 - len(field))
    return raw, field


def mt_entry(rng, index, used):
    raw, field = machine(rng)
    word = lambda: rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(300), rng.getrandbits(32), rng.getrandbits(32)])
    m = {'next': word(), 'prev': word(), 'type': 2 if used else 1, 'index': index, 'u16': word(), 'oid': guid_raw(rng), 'dv': guid_raw(rng), 'do': guid_raw(rng),
         'mraw': raw, 'bv': guid_raw(rng), 'bo': guid_raw(rng), 'ts': rng.randint(29300000, 32000000) if rng.random() < 0.8 else rng.getrandbits(32), 'u120': word()}
    b = struct.pack('<LLLLL', m['next'], m['prev'], m['type'], index, m['u16']) + m['oid'] + m['dv'] + m['do'] + field + m['bv'] + m['bo'] + struct.pack('<LL', m['ts'], m['u120'])
    assert len(b) == 124
    return b, m


def move_table(rng, sector, nsec=None, dens=None):
    hraw, hfield = machine(rng)
    hv = guid_raw(rng)
    ext = [rng.getrandbits(64) for __ in range(3)] + [rng.getrandbits(32) for __ in range(9)]
    u16, flags, u24, lo, hi, fsz = [rng.getrandbits(32) for __ in range(6)]
    hdr = MT_SIG + struct.pack('<LLLLLL', u16, flags, u24, lo, hi, fsz) + hfield + hv + struct.pack('<QQQLLLLLLLLL', *ext)
    out = bytearray(hdr + b'\x00' * (sector - len(hdr)))
    nsec = rng.choice([0, 1, 2, 5, 12] * 6 + [70, 140]) if nsec is None else nsec
    dens = rng.choice([0.0, 0.2, 0.7, 1.0]) if dens is None else dens
    per = (sector - 16) // 124
    entries, footers, idx = [], [], 0
    for s in range(nsec):
        b = b''
        for __ in range(per):
            e, m = mt_entry(rng, idx, rng.random() < dens)
            idx += 1
            b += e
            entries.append((s, m))
        b += b'\x00' * (sector - 16 - len(b))
        f = (rng.getrandbits(32), rng.getrandbits(32), ntfs.rnd_bytes(rng, 8))
        footers.append(f)
        out += b + struct.pack('<LL', f[0], f[1]) + f[2]
    tail = rng.choice([0, 0, 1, 100, sector - 1])
    if tail and nsec:
        e, __ = mt_entry(rng, 999, True)
        out += (e * (sector // 124 + 1))[:tail]
    return bytes(out), {'u16': u16, 'flags': flags, 'u24': u24, 'exp': (lo, hi, fsz), 'mraw': hraw, 'vol': hv, 'ext': ext, 'entries': entries, 'footers': footers, 'nsec': nsec, 'tail': tail}
