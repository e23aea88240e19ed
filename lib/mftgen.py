"""Generated master file tables with their model."""
import struct
from lib import ntfs
from lib.ntfs import ref


def rnd_attr(rng, types=None, max_value=120):
    """One random attribute record: (bytes, model tuple)."""
    t = rng.choice(types or [ntfs.SI, ntfs.FN, ntfs.OBJID, ntfs.SECDESC, ntfs.DATA, ntfs.DATA, ntfs.BITMAP, ntfs.REPARSE, ntfs.EAINFO, ntfs.LUS])
    name = None
    if t in (ntfs.DATA, ntfs.LUS, ntfs.BITMAP) and rng.random() < 0.5:
        name = ntfs.rnd_name(rng, 1, 12)
    if t in (ntfs.DATA, ntfs.BITMAP, ntfs.SECDESC) and rng.random() < 0.4:
        runs = []
        for i in range(rng.randint(1, 4)):
            runs.append((None if rng.random() < 0.2 else rng.randint(1, 1 << 24), rng.randint(1, 300)))
        n = sum(c for __, c in runs)
        low = 0 if rng.random() < 0.8 else rng.randint(1, 1000)
        size = rng.randint(0, n * 4096)
        return (ntfs.attr_nonresident(t, runs, size, name=name, lowest_vcn=low, rng=rng, instance=rng.randint(0, 99)),
                (t, name, 'nonresident', tuple(runs), low, low + n - 1, size))
    if t == ntfs.FN:
        v = ntfs.fn_value(ref(rng.randint(5, 60), rng.randint(1, 3)), ntfs.rnd_name(rng), flags=rng.choice([0, 1, 2, 3]), c=ntfs.rnd_filetime(rng), size=rng.randint(0, 1 << 40))
    elif t == ntfs.SI:
        v = ntfs.si_value(c=ntfs.rnd_filetime(rng), owner=rng.choice([None, 7]))
    elif t == ntfs.OBJID:
        v = ntfs.rnd_bytes(rng, rng.choice([16, 64]))
    else:
        v = ntfs.rnd_bytes(rng, rng.randint(0, max_value))
    return ntfs.attr_resident(t, v, name=name, instance=rng.randint(0, 99)), (t, name, 'resident', bytes(v))


def attr_obs(a):
    """What is observed of an attribute at the API."""
    from dfir_ntfs import MFT
    if type(a) is MFT.AttributeRecordResident:
        return (a.type_code, a.name, 'resident', bytes(a.value))
    return (a.type_code, a.name, 'nonresident', tuple(tuple(x) for x in a.data_runs), a.lowest_vcn, a.highest_vcn, a.file_size)


def rnd_attrs(rng, room, maxn=6, types=None):
    out, model = [], []
    used = 0
    for __ in range(rng.randint(0, maxn)):
        b, m = rnd_attr(rng, types)
        if used + len(b) > room:
            break
        used += len(b)
        out.append(b)
        model.append(m)
    return out, model


class Slot(object):
    kind = 'empty'      # base, ext, empty, garbage, torn, foreign
    raw = None
    number = None
    seq = 0             # stored
    in_use = False
    flags = 0
    lsn = 0
    attrs = None
    base = 0
    links = 0
    bad_attr = False

    def real_seq(self):
        """The sequence number the record had while its content was current."""
        if self.in_use:
            return self.seq
        if self.seq == 0:
            return 0xFFFF
        if self.seq == 1:
            return 1
        return self.seq - 1


def build(rng, total, size=1024, damage=True, short=False):
    """A table of `total` slots; slots 0..15 are system records. Returns (bytes, slots)."""
    sysrecs = ntfs.system_records(size=size)
    slots = []
    room = ntfs.attrs_room(size)
    for n in range(total):
        s = Slot()
        s.number = n
        slots.append(s)
    # Plan.
    crowd = rng.random() < 0.08      # One file with very many extension records.
    free = [n for n in range(24, total)]
    for n in range(total):
        s = slots[n]
        s.is_sys = n < 16
        r = rng.random()
        if n in sysrecs or n in (12, 13, 14, 15):
            s.kind = 'base'
            s.in_use = True
            s.seq = n if n else 1
            s.flags = 1 | (2 if n in (5, 11) else 0)
        elif not (crowd and 0.15 < r < 0.9) and (r < 0.55 or (r < 0.75 and total < 30)):
            s.kind = 'base'
            s.in_use = rng.random() < 0.7
            s.seq = rng.choice([1, 2, 3, rng.randint(1, 65535), 65535]) if s.in_use or rng.random() < 0.8 else rng.choice([0, 1, 2])
            s.flags = (1 if s.in_use else 0) | (2 if rng.random() < 0.3 else 0) | (rng.choice([4, 8, 12]) if rng.random() < 0.1 else 0)
        elif r < (0.9 if crowd else 0.8):
            s.kind = 'ext'
            s.in_use = rng.random() < 0.85
            s.seq = rng.choice([1, 2, 7, rng.randint(1, 65535)] + ([0, 0] if not s.in_use else []))
            s.flags = 1 if s.in_use else 0
        elif damage:
            s.kind = rng.choice(['empty', 'garbage', 'torn', 'foreign', 'badhdr'])
        else:
            s.kind = 'empty'
    bases = [s for s in slots if s.kind == 'base' and (s.number >= 16 or s.number == 9)]
    ordering = list(slots)
    for s in slots:
        if s.kind == 'ext':
            r = rng.random()
            if crowd and bases and rng.random() < 0.85:
                s.base = ref(bases[0].number, bases[0].real_seq())
            elif bases and r < 0.75:
                b = rng.choice(bases[:max(1, len(bases) // 3)] if rng.random() < 0.5 else bases)
                s.base = ref(b.number, b.real_seq())
            elif bases and r < 0.9:   # the base was reused since
                b = rng.choice(bases)
                s.base = ref(b.number, (b.real_seq() + rng.choice([1, 5, 65535])) & 0xFFFF)
            else:
                s.base = ref(rng.randint(1, total * 3), rng.randint(1, 9))
            if s.base == 0:
                s.base = ref(1000000, 9)
    out = bytearray()
    for s in slots:
        n = s.number
        stamp = rng.choice([b'\x01\x00', b'\x02\x00', ntfs.rnd_bytes(rng, 2)])
        s.lsn = rng.getrandbits(40)
        if n in sysrecs:
            s.raw = sysrecs[n]
            s.lsn = 0
            s.links = 1
            s.attrs = None       # filled by the caller through a plain parse of the builder's input
            s.attrs = system_attrs(n)
        elif s.kind in ('base', 'ext', 'torn', 'badhdr'):
            b, m = rnd_attrs(rng, room, types=None)
            s.attrs = m
            s.links = rng.randint(0, 5)
            sh = short and rng.random() < 0.3
            sig = b'FILE' if rng.random() < 0.95 else rng.choice([b'BAAD', b'CHKD'])
            if s.kind in ('torn', 'badhdr') and rng.random() < 0.5 and bases:
                s.base = ref(rng.choice(bases).number, rng.choice(bases).real_seq())
            s.signature = sig
            plain, uo = ntfs.frs_plain(b, number=n, seq=s.seq, flags=s.flags if s.kind in ('base', 'ext') else 1, base=s.base, lsn=s.lsn, size=size, links=s.links, short=sh,
                                       signature=sig, slack=ntfs.rnd_bytes(rng, size) if rng.random() < 0.3 else None)
            if s.kind == 'badhdr':
                k = rng.randint(0, 3)
                if k == 0:
                    plain[28:32] = struct.pack('<L', rng.choice([0, 512, 2048, 8192]))
                elif k == 1:
                    plain[24:28] = struct.pack('<L', rng.choice([0, 41, size + 1, 0xFFFFFFFF]))
                elif k == 2:
                    plain[20:22] = struct.pack('<H', rng.choice([0, 4, 41, size - 16, 57]))
                else:
                    plain[4:6] = struct.pack('<H', rng.choice([0, 40, 508, 0xFFFF]))
            if s.kind in ('base', 'ext') and n >= 16 and damage and rng.random() < 0.06 and b:
                # A structurally invalid attribute record: reading this record's attributes fails, and nothing else.
                fa = struct.unpack('<H', plain[20:22])[0]
                plain[fa + 4:fa + 8] = struct.pack('<L', rng.choice([0, 3, 4, 0x7FFFFFFF, size]))
                s.bad_attr = True
            prot = ntfs.usa_protect(plain, struct.unpack('<H', plain[4:6])[0] if s.kind != 'badhdr' else uo, stamp)
            if s.kind == 'torn':
                k = 0
                o = (k + 1) * 512 - 2
                prot[o:o + 2] = bytes([prot[o] ^ 1, prot[o + 1]])
            s.raw = bytes(prot)
        elif n in (12, 13, 14, 15):
            s.raw = ntfs.frs([], number=n, seq=n, flags=1, size=size, links=0)
            s.attrs = []
            s.lsn = 0
        elif s.kind == 'empty':
            s.raw = b'\x00' * size
        elif s.kind == 'garbage':
            s.raw = ntfs.rnd_bytes(rng, size)
            if s.raw[:4] in (b'FILE', b'BAAD', b'CHKD'):
                s.raw = b'\x00' * size
        elif s.kind == 'foreign':
            s.raw = (rng.choice([b'INDX', b'RCRD', b'FILX', b'\xff\xff\xff\xff']) + ntfs.rnd_bytes(rng, size))[:size]
        assert len(s.raw) == size, (s.kind, len(s.raw))
        out += s.raw
    return bytes(out), slots


def system_attrs(n):
    names = ['$MFT', '$MFTMirr', '$LogFile', '$Volume', '$AttrDef', '.', '$Bitmap', '$Boot', '$BadClus', '$Secure', '$UpCase', '$Extend']
    a = [(ntfs.SI, None, 'resident', ntfs.si_value(owner=0)), (ntfs.FN, None, 'resident', ntfs.fn_value(ref(5, 5), names[n]))]
    if n == 3:
        a.append((ntfs.VOLNAME, None, 'resident', 'vol'.encode('utf-16le')))
        a.append((ntfs.VOLINFO, None, 'resident', ntfs.volinfo_value()))
    return a
