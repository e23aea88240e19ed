"""Hand-made hostile volumes: directories sharing clusters, very deep directories, very deep stacks of shadow copies, absurd declared sizes."""
import random, struct, uuid
from . import fatgen, exfatgen, vssgen, ntfs
from .harness import Mon


def fat_entry(name, cluster):
    b = bytearray(32)
    b[0:11] = name.ljust(11).encode()
    b[11] = 0x10
    b[26:28] = struct.pack('<H', cluster)
    return bytes(b)


def fat16(dirs, clusters=4200):
    """A FAT16 volume; dirs: {cluster (0 is the root): [(name, cluster)]}."""
    g = fatgen.Geometry(16, 512, 1, 1, 1, 512, clusters)
    img = bytearray(g.size)
    img[0:3] = b'\xeb\x3c\x90'
    img[3:11] = b'MSDOS5.0'
    img[11:13] = struct.pack('<H', 512)
    img[13] = 1
    img[14:16] = struct.pack('<H', 1)
    img[16] = 1
    img[17:19] = struct.pack('<H', 512)
    img[19:21] = struct.pack('<H', g.total)
    img[21] = 0xF8
    img[22:24] = struct.pack('<H', g.fatsz)
    img[510:512] = b'\x55\xaa'
    fat = [0xFFF8, 0xFFFF] + [0] * clusters
    for c, children in dirs.items():
        if c == 0:
            o = (1 + g.fatsz) * 512
            b = b''
        else:
            fat[c] = 0xFFFF
            o = g.data_off + (c - 2) * 512
            b = fat_entry('.', c) + fat_entry('..', 0)
        b += b''.join(fat_entry(*x) for x in children)
        img[o:o + len(b)] = b
    img[512:512 + 2 * len(fat)] = struct.pack('<%dH' % len(fat), *fat)
    return bytes(img)


class Plain(exfatgen.Geometry):
    def __init__(self, count):
        self.bps, self.spc, self.cs, self.nfats, self.active, self.count, self.fatoff = 512, 1, 512, 1, 0, count, 24
        self.fatlen = -(-(count + 2) * 4 // 512)
        self.heap = self.fatoff + self.fatlen
        self.vlen = self.heap + count
        self.size = self.vlen * 512
        self.root = None


def exfat(dirs, count=4200, bitmap_size=None, tail=b''):
    """An exFAT volume; dirs as above (cluster 0 is the root), with clusters from 100."""
    rng = random.Random(1)
    g = Plain(count)
    g.root = 40
    img = bytearray(g.size)
    br = exfatgen.boot_region(rng, g)
    img[0:len(br)] = br
    img[len(br):2 * len(br)] = br
    nb = -(-count // 8)
    bits = bytearray(nb)
    fat = [0xFFFFFFF8, 0xFFFFFFFF] + [0] * count

    def use(cl):
        for a in cl:
            bits[(a - 2) // 8] |= 1 << ((a - 2) % 8)
        for a, b in zip(cl, cl[1:]):
            fat[a] = b
        fat[cl[-1]] = 0xFFFFFFFF
    use(list(range(2, 2 + -(-nb // 512))))
    use([40])
    m = bytearray(32)
    m[0] = 0x81
    struct.pack_into('<LQ', m, 20, 2, nb if bitmap_size is None else bitmap_size)
    up = bytearray(32)
    up[0] = 0x82
    struct.pack_into('<LQ', up, 20, 50, 512)
    use([50])
    for c, children in dirs.items():
        b = bytes(m) + bytes(up) if c == 0 else b''
        for name, k in children:
            b += exfatgen.entry_set(rng, exfatgen.Meta(rng, True, k, 512), name)
        if c == 0:
            b += tail
            c = 40
        else:
            use([c])
        assert len(b) <= 512
        img[g.off(c):g.off(c) + len(b)] = b
    img[g.off(2):g.off(2) + nb] = bits
    o = g.fatoff * 512
    img[o:o + 4 * len(fat)] = struct.pack('<%dL' % len(fat), *fat)
    return bytes(img)


def diamonds(depth, first=100):
    """Every directory but the last has two entries for the same subdirectory."""
    d = {0: [('A', first), ('B', first)]}
    for i in range(depth):
        d[first + i] = [('A', first + i + 1), ('B', first + i + 1)] if i + 1 < depth else []
    return d


def nested(depth, first=100):
    d = {0: [('A', first)]}
    for i in range(depth):
        d[first + i] = [('A', first + i + 1)] if i + 1 < depth else []
    return d


def many_shadows(n):
    """A volume with a stack of n shadow copies (all of them share the blocks of their stores)."""
    BS = vssgen.BS
    for seed in range(100):
        rng = random.Random(seed)
        s = vssgen.Simulation(rng, Mon(), snapshots=1, ops=3)
        v, __ = s.files()
        cats = [k for k, b in v.blocks.items() if k >= s.store_lo and b[:16] == vssgen.GUID and struct.unpack('<L', b[20:24])[0] == 2]
        if len(cats) == 1:
            break
    at = cats[0]
    body = v.blocks[at][0x80:]
    items = [body[i:i + 0x80] for i in range(0, len(body), 0x80)]
    i2 = [x for x in items if x[0] == 2][0]
    i3 = [x for x in items if x[0] == 3][0]
    out = []
    for k in range(n):
        g = uuid.UUID(int=k + 1).bytes_le
        out.append(i2[:16] + g + struct.pack('<Q', k + 1) + i2[40:])
        out.append(i3[:16] + g + i3[32:])
    places = [at]
    x = s.store_lo + 2000
    groups = [out[i:i + 126] for i in range(0, len(out), 126)]
    places += list(range(x, x + len(groups) - 1))
    for i, grp in enumerate(groups):
        b = b''.join(grp)
        v.blocks[places[i]] = vssgen.header(2, i * BS, places[i] * BS, places[i + 1] * BS if i + 1 < len(places) else 0, rng) + b + b'\x00' * (BS - 0x80 - len(b))
    return v


def sparse_table(clusters=1 << 40):
    """An NTFS volume: the data of $MFT goes on with a sparse run of an absurd length."""
    cs = 4096
    recs = [bytes(r) for __, r in sorted(ntfs.system_records().items())]
    n = -(-len(recs) * 1024 // cs)
    attrs = [ntfs.attr_resident(ntfs.SI, ntfs.si_value()), ntfs.attr_resident(ntfs.FN, ntfs.fn_value(ntfs.ref(5, 5), '$MFT')),
             ntfs.attr_nonresident(ntfs.DATA, [(4, n), (None, clusters)], (n + clusters) * cs, cluster_size=cs)]
    recs[0] = ntfs.frs(attrs, number=0, seq=1, flags=1)
    img = bytearray((4 + n + 4) * cs)
    b = ntfs.boot_sector(512, 8, len(img) // 512, 4, 2, -10, 1)
    img[:512] = b
    t = b''.join(recs)
    img[4 * cs:4 * cs + len(t)] = t
    return bytes(img)


def sparse_index(clusters=1 << 40):
    """A volume (one index buffer in cluster 2) and a record with an index that goes on with an absurd sparse run."""
    cs = 4096
    buf = ntfs.index_buffer([ntfs.index_entry(ntfs.ref(30, 1), ntfs.fn_value(ntfs.ref(5, 5), 'x'))], size=4096)
    img = bytes(2 * cs) + bytes(buf) + bytes(cs)
    at = ntfs.attr_nonresident(ntfs.INDEX_ALLOC if hasattr(ntfs, 'INDEX_ALLOC') else 0xA0, [(2, 1), (None, clusters)], (1 + clusters) * cs, name='$I30', cluster_size=cs)
    rec = ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.si_value()), at], number=40, seq=1, flags=3)
    return img, bytes(rec)
