"""Damage done to images (property C19)."""
import struct, binascii


def interesting(rng, width, size):
    top = (1 << (8 * width)) - 1
    return rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 23, 24, 31, 32, 48, 64, 127, 128, 255, 256, 511, 512, 513, 1023, 1024, 4095, 4096, 0x4000, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x7fffffffffffffff, 1 << 63, top, top - 1,
                       top - 7, size, size - 1, size + 1, max(0, size // 2), size // 512, size // 4096, rng.getrandbits(8 * width), rng.getrandbits(8), rng.getrandbits(16)]) & top


def spots(data):
    """Offsets of bytes that carry information (a sample)."""
    res = []
    step = max(1, len(data) // 4096)
    i = 0
    while i < len(data):
        chunk = data[i:i + 64]
        if chunk.strip(b'\x00') and chunk.strip(b'\xff'):
            res.append(i)
        i += 64 if step == 1 else 64 * max(1, step // 64)
    return res or [0]


def mutate(rng, data, n=None, focus=None, where=None):
    """A damaged copy of data and a description. where = offsets to prefer."""
    b = bytearray(data)
    if not b:
        return b, []
    sp = where or spots(b)
    if focus is None:
        focus = rng.random() < 0.5
    if focus:
        sp = [rng.choice(sp)]
    what = []
    for __ in range(n or rng.choice([1, 1, 1, 2, 3, 5, 10, 30])):
        k = rng.random()
        i = min(len(b) - 1, rng.choice(sp) + rng.randrange(64))
        if not b:
            break
        if k < 0.25:
            b[i] ^= 1 << rng.randrange(8)
            what.append('bit %d' % i)
        elif k < 0.75:
            w = rng.choice([1, 2, 2, 4, 4, 8])
            i -= i % w
            if i + w <= len(b):
                if rng.random() < 0.3:
                    v = (int.from_bytes(b[i:i + w], 'little') + rng.choice([1, -1, 2, -2, 8, -8, 16, 512])) & ((1 << (8 * w)) - 1)
                else:
                    v = interesting(rng, w, len(b))
                b[i:i + w] = v.to_bytes(w, 'little')
                what.append('u%d %d=%d' % (8 * w, i, v))
        elif k < 0.83:
            ln = rng.choice([1, 2, 4, 8, 32, 64, 128, 512, 1024, 4096])
            j = rng.choice(sp)
            i -= i % min(ln, 8)
            c = b[j:j + ln]
            b[i:i + len(c)] = c[:max(0, len(b) - i)]
            what.append('copy %d from %d to %d' % (ln, j, i))
        elif k < 0.9:
            ln = rng.choice([1, 2, 8, 32, 512])
            v = rng.choice([0, 0xff, 0x41])
            ln = min(ln, len(b) - i)
            b[i:i + ln] = bytes([v]) * ln
            what.append('fill %d at %d with %d' % (ln, i, v))
        elif k < 0.94:
            ln = rng.choice([512, 1024, 4096])
            if len(b) > 2 * ln:
                x, y = (rng.randrange(len(b) // ln) * ln for __ in range(2))
                b[x:x + ln], b[y:y + ln] = b[y:y + ln], b[x:x + ln]
                what.append('swap %d: %d, %d' % (ln, x, y))
        elif k < 0.97:
            cut = rng.choice([len(b) - 1, len(b) // 2, rng.randrange(len(b)), i])
            del b[max(1, cut):]
            what.append('cut to %d' % len(b))
            sp = [x for x in sp if x < len(b)] or [0]
        else:
            b += bytes(rng.choice([1, 10, 512]))
            what.append('extend')
    return b, what


# --- Damage that knows the format ---

def u(b, i, w):
    return int.from_bytes(b[i:i + w], 'little')


def put(b, i, w, v):
    if 0 <= i and i + w <= len(b):
        b[i:i + w] = (v & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')


def rewire(rng, get, set_, starts, count, limit):
    """Bend a cluster chain: make it end in a cycle that joins it anywhere (not only at its start), or scatter every link."""
    if rng.random() < 0.25:
        n = min(count + 2, 4000)
        k = rng.choice([3, 10, n])
        for c in range(2, n):
            if get(c) or rng.random() < 0.3:
                set_(c, rng.randrange(2, max(3, min(n, k))) if rng.random() < 0.95 else limit)
        return 'links scattered over %d clusters' % k
    chain = [rng.choice(starts)]
    while len(chain) < 50:
        n = get(chain[-1]) if 2 <= chain[-1] < count + 2 else 0
        if not 2 <= n < count + 2 or n in chain:
            break
        chain.append(n)
    for __ in range(rng.choice([0, 1, 3]) if len(chain) > 2 else rng.choice([2, 3, 5])):
        n = rng.randrange(2, max(3, count + 2))
        if n not in chain:
            set_(chain[-1], n)
            chain.append(n)
    j = rng.randrange(len(chain)) if rng.random() < 0.3 else rng.randrange(len(chain) - 1, len(chain)) if rng.random() < 0.3 else rng.randrange(min(1, len(chain) - 1), len(chain))
    set_(chain[-1], chain[j])
    return 'chain of %d from %d joins itself at %d' % (len(chain), chain[0], j)


def fat(rng, data):
    b = bytearray(data)
    bps, spc, rsvd, nf, rootent, fs16 = u(b, 11, 2), b[13], u(b, 14, 2), b[16], u(b, 17, 2), u(b, 22, 2)
    fsz = fs16 or u(b, 36, 4)
    typ32 = fs16 == 0
    root = (rsvd + nf * fsz) * bps
    start = root + (rootent * 32 + bps - 1) // bps * bps
    tot = u(b, 19, 2) or u(b, 32, 4)
    count = (tot * bps - start) // (bps * spc)
    wide = 32 if typ32 else 16 if count >= 4085 else 12
    entries = [i for i in range(root, min(len(b), root + (1 << 20)), 32) if b[i] not in (0, 0xE5) and b[i + 11:i + 12] and b[i + 11] & 0x3F != 0xF]
    dirs = [i for i in entries if b[i + 11] & 0x10]
    clusters = [u(b, i + 26, 2) | (u(b, i + 20, 2) << 16 if typ32 else 0) for i in entries] or [2]
    dc = [u(b, i + 26, 2) | (u(b, i + 20, 2) << 16 if typ32 else 0) for i in dirs] or [2]
    what = []

    def link(c, target, copies=nf):
        for n in range(copies):
            at = (rsvd + n * fsz) * bps
            if wide == 32:
                put(b, at + 4 * c, 4, target)
            elif wide == 16:
                put(b, at + 2 * c, 2, target)
            else:
                i = at + c * 3 // 2
                if i + 2 <= len(b):
                    v = u(b, i, 2)
                    v = (v & 0xF) | (target & 0xFFF) << 4 if c & 1 else (v & 0xF000) | target & 0xFFF
                    put(b, i, 2, v)

    def linked(c):
        at = rsvd * bps
        if wide == 12:
            v = u(b, at + c * 3 // 2, 2)
            return v >> 4 if c & 1 else v & 0xFFF
        return u(b, at + c * wide // 8, wide // 8) & 0xFFFFFFF
    if rng.random() < 0.25:
        what.append(rewire(rng, linked, link, clusters + dc + ([u(b, 44, 4)] if typ32 else []), count, 0xFFFFFFF >> (28 - min(28, wide))))
        if rng.random() < 0.6:
            return b, what
    for __ in range(rng.choice([1, 2, 4, 10, 40])):
        k = rng.random()
        target = rng.choice([rng.choice(clusters), rng.choice(dc), rng.choice(dc), rng.randrange(2, max(3, count + 2)), count + 1, count + 2, 0, 1, 0xFFF7, 0xFFFFFF7])
        if k < 0.5 and dirs:
            i = rng.choice(dirs if rng.random() < 0.8 else entries)
            put(b, i + 26, 2, target)
            if typ32:
                put(b, i + 20, 2, target >> 16)
            if rng.random() < 0.2:
                b[i + 11] ^= 0x10
            what.append('entry %d -> %d' % (i, target))
        elif k < 0.85:
            c = rng.choice([rng.choice(clusters), rng.choice(dc), rng.randrange(2, max(3, count + 2))])
            link(c, target, nf if rng.random() < 0.9 else 1)
            what.append('fat %d = %d' % (c, target))
        elif k < 0.93:
            i, w = rng.choice([(11, 2), (13, 1), (14, 2), (16, 1), (17, 2), (19, 2), (22, 2), (24, 2), (28, 4), (32, 4), (36, 4), (40, 2), (42, 2), (44, 4), (48, 2), (50, 2), (66, 1), (38, 1), (21, 1), (0, 1), (510, 2)])
            v = interesting(rng, w, len(b))
            put(b, i, w, v)
            what.append('bpb %d = %d' % (i, v))
        elif entries:
            i = rng.choice(entries)
            j = rng.choice([0, 11, 12, 13, 26, 28])
            b[i + j] = rng.randrange(256)
            what.append('entry byte %d' % (i + j))
    return b, what


def exfat_sets(b, start, limit=1 << 20):
    i = start
    while i + 32 <= len(b) and i < start + limit:
        if b[i] in (0x85, 0x05):
            n = b[i + 1] + 1
            if n >= 3 and i + 32 * n <= len(b) and b[i + 32] & 0x7F == 0x40:
                yield i, n
                i += 32 * n
                continue
        i += 32


def exfat(rng, data):
    from lib import exfatgen
    b = bytearray(data)
    bps, spc = 1 << min(b[108], 12), 1 << min(b[109], 8)
    cs = bps * spc
    fat_at, fat_len, heap, count, root = u(b, 80, 4) * bps, u(b, 84, 4) * bps, u(b, 88, 4) * bps, u(b, 92, 4), u(b, 96, 4)
    sets = list(exfat_sets(b, heap))
    dirs = [x for x in sets if b[x[0] + 4] & 0x10]
    cl = [u(b, i + 32 + 20, 4) for i, __ in sets] or [root]
    dc = [u(b, i + 32 + 20, 4) for i, __ in dirs] + [root]
    what = []
    changed = set()

    def link(c, target):
        put(b, fat_at + 4 * c, 4, target)
        if fat_len:
            put(b, fat_at + fat_len + 4 * c, 4, target)
    if rng.random() < 0.3:
        if rng.random() < 0.5:
            for i, n in sets:           # chained files only
                if b[i + 33] & 2 and rng.random() < 0.7:
                    b[i + 33] &= 0xFD
                    changed.add((i, n))
        what.append(rewire(rng, lambda c: u(b, fat_at + 4 * c, 4), link, cl + dc, count, 0xFFFFFFFF))
        if rng.random() < 0.6:
            for i, n in changed:
                b[i:i + 32 * n] = exfatgen.fix_checksum(b[i:i + 32 * n])
            return b, what
    for __ in range(rng.choice([1, 2, 4, 10, 40])):
        k = rng.random()
        target = rng.choice([rng.choice(cl), rng.choice(dc), rng.choice(dc), rng.randrange(2, max(3, count + 2)), count + 1, count + 2, 0, 1, 0xFFFFFFF7])
        if k < 0.45 and sets:
            i, n = rng.choice(dirs or sets)
            put(b, i + 52, 4, target)
            changed.add((i, n))
            what.append('set %d -> %d' % (i, target))
        elif k < 0.7:
            c = rng.choice([rng.choice(cl), rng.choice(dc), rng.randrange(2, max(3, count + 2))])
            link(c, target)
            what.append('fat %d = %d' % (c, target))
        elif k < 0.85 and sets:
            i, n = rng.choice(sets)
            j, w = rng.choice([(1, 1), (4, 2), (33, 1), (35, 1), (40, 8), (56, 8), (56, 8), (64, 1), (66, 2), (32 * n, 1), (20, 1), (22, 1), (12, 4)])
            v = rng.choice([interesting(rng, w, len(b)), cs * rng.randrange(5), cs * count, cs * count + 1])
            put(b, i + j, w, v)
            changed.add((i, b[i + 1] + 1))
            what.append('set %d field %d = %d' % (i, j, v))
        elif k < 0.95:
            i, w = rng.choice([(64, 8), (72, 8), (80, 4), (84, 4), (88, 4), (92, 4), (96, 4), (104, 2), (106, 2), (108, 1), (109, 1), (110, 1), (112, 1), (510, 2), (3, 8), (11, 1)])
            v = interesting(rng, w, len(b))
            put(b, i, w, v)
            what.append('boot %d = %d' % (i, v))
            if rng.random() < 0.9:
                for base in (0, 12 * bps):
                    if base:
                        b[base:base + 512] = b[:512]
                    s = exfatgen.rot_sum(bytes(b[base:base + 11 * bps]), (106, 107, 112), 32)
                    b[base + 11 * bps:base + 12 * bps] = struct.pack('<L', s) * (bps // 4)
        else:
            prim = [i for i in range(heap, min(len(b), heap + (1 << 20)), 32) if b[i] in (0x81, 0x82, 0x83)]
            if prim:
                i = rng.choice(prim)
                j, w = rng.choice([(1, 1), (4, 4), (20, 4), (24, 8)])
                v = rng.choice([interesting(rng, w, len(b)), target, cs, 1])
                put(b, i + j, w, v)
                what.append('primary %d field %d = %d' % (i, j, v))
    for i, n in changed:
        if rng.random() < 0.95 and i + 32 * n <= len(b):
            b[i:i + 32 * n] = exfatgen.fix_checksum(b[i:i + 32 * n])
    return b, what


def gpt(rng, data, sector):
    b = bytearray(data)
    what = []
    for at in ([sector, len(b) - sector] if rng.random() < 0.7 else [sector]):
        if b[at:at + 8] != b'EFI PART':
            continue
        for __ in range(rng.choice([1, 1, 2, 4])):
            i, w = rng.choice([(8, 4), (12, 4), (24, 8), (32, 8), (40, 8), (48, 8), (72, 8), (80, 4), (84, 4), (88, 4)])
            v = rng.choice([interesting(rng, w, len(b)), len(b) // sector - 1, 128, 256, 1 << 28])
            put(b, at + i, w, v)
            what.append('header %d field %d = %d' % (at, i, v))
        if rng.random() < 0.5:
            lba, n, es = u(b, at + 72, 8), u(b, at + 80, 4), u(b, at + 84, 4)
            if n * es < 1 << 22:
                put(b, at + 88, 4, binascii.crc32(bytes(b[lba * sector:lba * sector + n * es])))
        hs = u(b, at + 12, 4)
        put(b, at + 16, 4, 0)
        put(b, at + 16, 4, binascii.crc32(bytes(b[at:at + min(hs, sector)])))
    return b, what


def vss(rng, files):
    """Rewrite links between blocks and fields of the tables; in place."""
    what = []
    from lib import vssgen
    BS = vssgen.BS
    blocks = [(f, k) for f in files for k, d in f.blocks.items() if d[:16] == vssgen.GUID]
    every = [k for __, k in blocks] or [1]
    if blocks and rng.random() < 0.4:
        # A list of blocks made longer, ending in a cycle that joins it anywhere.
        typ = rng.choice(sorted({u(f.blocks[k], 20, 4) for f, k in blocks}))
        f, k = rng.choice([x for x in blocks if u(x[0].blocks[x[1]], 20, 4) == typ])
        free = [x for x in range(max(f.blocks) + 1 if rng.random() < 0.2 else 3, f.size // BS) if x not in f.blocks][:400]
        new = [k] + rng.sample(free, min(len(free), rng.choice([1, 2, 3])))
        for i, x in enumerate(new):
            b = bytearray(f.blocks[k])
            put(b, 32, 8, x * BS)
            put(b, 40, 8, (new[i + 1] if i + 1 < len(new) else rng.choice(new[1:] or new)) * BS)
            f.blocks[x] = bytes(b)
        what.append('list of type %d blocks from %d: %d blocks, ends in a cycle' % (typ, k, len(new)))
        if rng.random() < 0.6:
            return what
    for __ in range(rng.choice([1, 1, 2, 5, 15])):
        f, k = rng.choice(blocks) if rng.random() < 0.9 else (rng.choice(files), 0)
        b = bytearray(f.blocks[k])
        typ = u(b, 20, 4)
        target = rng.choice([k, rng.choice(every), rng.choice(every), 0, 1 << 40, (1 << 50) - 1]) * BS
        r = rng.random()
        same = [x for g, x in blocks if g is f and u(f.blocks[x], 20, 4) == typ] or [k]
        if k == 0:
            i = 7680 + rng.choice([16, 20, 24, 32, 40, 48, 56, 64, 80])
            put(b, i, 8, rng.choice([target, rng.getrandbits(64), 0]))
            what.append('start block')
        elif r < 0.5:
            target = rng.choice([k, rng.choice(same), rng.choice(same), rng.choice(every)]) * BS
            put(b, 40, 8, target)
            what.append('block %d type %d next = %d' % (k, typ, target // BS))
        elif r < 0.6:
            i, w = rng.choice([(16, 4), (20, 4), (24, 8), (32, 8), (40, 8)])
            put(b, i, w, interesting(rng, w, len(b)))
            what.append('block %d field %d' % (k, i))
        elif typ == 2:
            i = 0x80 * rng.randrange(1, 10)
            j, w = rng.choice([(0, 4), (8, 8), (16, 16), (32, 8), (40, 8), (48, 8), (56, 8), (64, 8), (72, 8)])
            put(b, i + j, w, rng.choice([target, rng.getrandbits(8 * w), interesting(rng, w, len(b))]))
            what.append('catalog %d item %d field %d' % (k, i, j))
        elif typ == 3:
            i = 0x80 + 32 * rng.randrange(0, 12)
            j, w = rng.choice([(0, 8), (8, 8), (16, 8), (24, 4), (28, 4)])
            put(b, i + j, w, rng.choice([target, u(b, 0x80 + 32 * rng.randrange(12), 8), interesting(rng, w, len(b)), rng.randrange(64)]))
            what.append('table %d entry %d field %d' % (k, i, j))
        else:
            b, w = mutate(rng, b)
            b = bytearray(bytes(b).ljust(BS, b'\x00')[:BS])
            what += w
        f.blocks[k] = bytes(b)
    return what


def mft(rng, data, size):
    """Rewrite fields of records and attributes."""
    b = bytearray(data)
    what = []
    n = len(b) // size
    if not n:
        return b, what
    for __ in range(rng.choice([1, 2, 5, 20])):
        base = rng.choice([rng.randrange(n), rng.randrange(n), 0, min(5, n - 1)]) * size
        offs = []
        i = u(b, base + 20, 2)
        while i + 16 <= size and u(b, base + i, 4) != 0xFFFFFFFF and len(offs) < 40:
            ln = u(b, base + i + 4, 4)
            offs.append((i, ln))
            if ln < 16:
                break
            i += ln
        if not offs or rng.random() < 0.2:
            j, w = rng.choice([(4, 2), (6, 2), (16, 2), (18, 2), (20, 2), (22, 2), (24, 4), (28, 4), (32, 8), (40, 2), (44, 4)])
            v = interesting(rng, w, size)
            put(b, base + j, w, v)
            what.append('record %d field %d = %d' % (base // size, j, v))
            continue
        i, ln = rng.choice(offs)
        k = rng.random()
        at = base + i
        if k < 0.45:
            j, w = rng.choice([(0, 4), (4, 4), (8, 1), (9, 1), (10, 2), (12, 2), (14, 2), (16, 4), (20, 2), (16, 8), (24, 8), (32, 2), (34, 2), (40, 8), (48, 8), (56, 8)])
            v = rng.choice([interesting(rng, w, size), interesting(rng, w, ln), rng.choice([0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0x100]) if j == 0 else 0])
        else:
            vo = u(b, at + 20, 2) if b[at + 8] == 0 else u(b, at + 32, 2)
            j, w = vo + rng.choice([0, 1, 2, 4, 6, 8, 12, 16, 20, 24, 26, 28, 32, 40, 48, 56, 64, 65, 66, rng.randrange(0, 200)]), rng.choice([1, 2, 4, 8])
            v = rng.choice([interesting(rng, w, size), interesting(rng, w, ln), rng.randrange(n), (1 << 48) | rng.randrange(n), (1 << 48) | base // size])
        put(b, at + j, w, v)
        what.append('record %d attribute %d field %d/%d = %d' % (base // size, i, j, w, v))
        if rng.random() < 0.1:
            m = rng.randrange(n)
            b[m * size:(m + 1) * size] = b[base:base + size]
            what.append('record %d copied to %d' % (base // size, m))
    return b, what


def logfile(rng, data):
    b = bytearray(data)
    what = []
    pages = [i for i in range(0, len(b), 4096) if b[i:i + 4] in (b'RSTR', b'RCRD', b'CHKD')] or [0]
    for __ in range(rng.choice([1, 2, 5, 20])):
        p = rng.choice(pages)
        k = rng.random()
        if b[p:p + 4] == b'RSTR' or k < 0.3:
            j, w = rng.choice([(4, 2), (6, 2), (8, 8), (16, 4), (20, 4), (20, 2), (24, 2), (24, 8), (26, 2), (28, 2), (32, 8)] + ([(48 + x, y) for x, y in ((0, 8), (8, 2), (10, 2), (12, 2), (14, 2), (16, 4), (20, 2), (22, 2), (24, 8), (32, 4), (36, 2), (38, 2), (64, 8), (72, 8), (80, 2), (92, 4))] if p < 8192 else []))
        else:
            j, w = rng.choice([64, 72, 80, 88, 92, 96, 100, 104, 112, 114, 116, 118, 120, 122, 124, 126, 128, 136, 144] + [8 * rng.randrange(8, 500) for __ in range(10)]), rng.choice([2, 4, 8])
        v = rng.choice([interesting(rng, w, 4096), u(b, rng.choice(pages) + 8, 8), u(b, p + 64, 8), interesting(rng, w, len(b))])
        put(b, p + j, w, v)
        what.append('page %d field %d/%d = %d' % (p, j, w, v))
        if rng.random() < 0.1:
            q = rng.choice(pages)
            b[q:q + 4096] = b[p:p + 4096]
            what.append('page %d copied to %d' % (p, q))
    return b, what
