"""A copy-on-write simulator that leaves Volume Shadow Copy structures behind (local or on a second volume)."""
import struct, uuid, io
from lib import ntfs

BS = 0x4000
GUID = bytes.fromhex('6b87083876c1484eb7ae04046e6cc752')
F400 = 0x400


def pattern(b, tag):
    """Default content of block b (cheap, distinct for every 512-byte part)."""
    return b''.join(struct.pack('<LLQ', b & 0xFFFFFFFF, i, tag) * 32 for i in range(32))


class Sparse(object):
    strict = False
    """A file of 16-KiB blocks with default content; records the range read."""

    def __init__(self, size, tag, offset=0, junk=b'', limit=None):
        self.size, self.tag, self.offset = size, tag, offset
        self.blocks = {}
        self.pos = 0
        self.junk = junk or b'\xAA'
        self.total = offset + size + (limit or 0)
        self.outside = []
        self.writes = []
        self.reads = 0
        self.cache = {}

    def block(self, b):
        r = self.blocks.get(b)
        if r is None:
            r = self.cache.get(b)
            if r is None:
                if len(self.cache) > 300:
                    self.cache.clear()
                r = self.cache[b] = pattern(b, self.tag)
        return r

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += self.total
        if off < 0:
            raise ValueError('negative seek')
        if self.strict and off >= 1 << 63:
            io.BytesIO().seek(off)
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.total - self.pos
        n = max(0, min(n, self.total - self.pos))
        self.reads += 1
        out = []
        p = self.pos
        end = p + n
        while p < end:
            if p < self.offset:
                k = min(end, self.offset) - p
                out.append((self.junk * (k // len(self.junk) + 1))[:k])
                self.outside.append(p)
            elif p >= self.offset + self.size:
                k = end - p
                out.append((self.junk * (k // len(self.junk) + 1))[:k])
                self.outside.append(p)
            else:
                q = p - self.offset
                o = q % BS
                k = min(BS - o, end - p, self.offset + self.size - p)
                out.append(self.block(q // BS)[o:o + k])
            p += k
        self.pos = end
        return b''.join(out)

    def write(self, *a):
        self.writes.append('write')
        raise io.UnsupportedOperation('write')

    truncate = writelines = write

    def close(self):
        pass


def header(typ, o1, o2, o3, rng):
    return GUID + struct.pack('<LLQQQ', 1, typ, o1, o2, o3) + ntfs.rnd_bytes(rng, 0x80 - 48)


class Store(object):
    def __init__(self, rng, index):
        self.index = index
        self.guid = uuid.UUID(int=rng.getrandbits(128))
        self.time = ntfs.rnd_filetime(rng, True) if rng.random() < 0.9 else rng.getrandbits(64)
        self.entries = []        # (original block, value of the second field (bytes), data block or None, flags, allocation bitmap)
        self.done = set()        # original blocks already preserved in this store
        self.targets = {}        # active forward target -> original block
        self.ever_targets = set()
        self.overlays = {}       # block -> {sub-block: bytes}
        self.touched = set()     # blocks named by any entry
        self.free_overlay = set()


class Simulation(object):
    def __init__(self, rng, mon, two=False, hot=None, snapshots=None, ops=None, big=False, fixed_end=False):
        self.rng, self.mon, self.two = rng, mon, two
        self.big = big
        self.base_blocks = rng.choice([198, 200, 254, 256, 257, 400, 1000, 1006]) if not big else rng.choice([130048 + 64, 130048 * 2 + 10, 140000])
        self.store_lo = self.base_blocks + 8
        self.nblocks = self.store_lo + 4010
        self.tail = rng.choice([0, 0, 512, 4096, 8192, BS - 512])       # the volume need not be a whole number of 16-KiB blocks
        self.size = self.nblocks * BS + self.tail
        total = self.nblocks + (1 if self.tail else 0)
        self.total = total
        pool = [0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 65, 127, total - 1, self.base_blocks - 1, self.base_blocks]
        if big:
            pool += [130047, 130048, 130049, 130055, 130056]
        pool = sorted(set(pool + [rng.randrange(3, self.base_blocks) for __ in range(10)]))
        if fixed_end:        # nothing happens to the last blocks
            pool = [x for x in pool if x < self.base_blocks + 1]
        rng.shuffle(pool)
        self.hot = sorted(set(pool[:hot or rng.choice([6, 10, 18])]) | {0})
        self.live = {}
        self.used = {}
        for b in self.hot:
            self.used[b] = b == 0 or rng.random() < 0.6
        self.store_next = self.store_lo
        self.storage = {}
        self.stores = []
        self.seq = 0
        self.vguid = ntfs.rnd_bytes(rng, 16)
        self.sguid = ntfs.rnd_bytes(rng, 16) if two else self.vguid
        self.tag = rng.getrandbits(64)
        self.stag = rng.getrandbits(64)
        self.catalog_at = self.alloc()
        self.vol_catalog_at = self.catalog_at if not two else rng.randrange(3, 100) * 0 + self.store_lo + 3990
        self.live[0] = self.boot_block()
        self.bitmap_mode = rng.random()
        self.history = []
        self.run(snapshots or rng.choice([1, 2, 3, 4, 5]), ops or rng.choice([3, 10, 30]))
        self.finish()

    # content
    def boot_block(self):
        rng = self.rng
        b = bytearray(ntfs.rnd_bytes(rng, BS))
        b[3:11] = b'NTFS    '
        b[7680:8192] = self.start_block(self.vol_catalog_at, self.vguid, self.sguid)
        return bytes(b)

    def start_block(self, first, vg, sg):
        b = GUID + struct.pack('<LLQQQ', 1, 1, 7680, 7680, 0) + struct.pack('<QQ', first * BS, 1 << 40) + vg + sg
        return b + b'\x00' * (512 - len(b))

    def content(self, b):
        if b == 0:
            return self.boot_block()
        self.seq += 1
        return pattern(self.seq, self.tag ^ 0x5555555555555555)

    def get_live(self, b):
        r = self.live.get(b)
        return pattern(b, self.tag) if r is None else r

    def alloc(self):
        b = self.store_next
        self.store_next += self.rng.choice([1, 1, 1, 2])
        assert b < self.store_lo + 3980
        return b

    # events
    def snapshot(self):
        rng = self.rng
        s = Store(rng, len(self.stores))
        s.flag400 = rng.random() < 0.6
        s.flags = (F400 if s.flag400 else 0) | rng.choice([0, 1, 4, 0x80, 0x24])
        s.size = self.size
        s.free = set(b for b in self.hot if not self.used[b])
        if self.stores:
            p = self.stores[-1]
            s.prev = set(p.unused) - set(p.targets)
            s.has_prev = True
            s.unused = s.free & s.prev
        else:
            s.has_prev = rng.random() < 0.3
            s.prev = set(self.hot) if s.has_prev else None
            s.unused = set(s.free)
        s.view = dict((b, self.get_live(b)) for b in self.hot)
        s.reg_target_seen = set()
        self.stores.append(s)
        self.history.append('snapshot')
        self.mon.count('snapshots')
        for __ in range(rng.choice([0, 0, 1, 3])):
            self.overlay()

    def entry(self, s, orig, second, data, flags, bits=0):
        s.entries.append((orig, second, data, flags, bits))

    def store_data(self, content):
        b = self.alloc()
        self.storage[b] = content
        return b

    def regular(self, s, orig, content):
        rng = self.rng
        flags = rng.choice([0, 0, 0, 8, 0x10, 0x20, 0x40, 0x80, 0x18, 0xF8])
        d = self.store_data(content)
        self.entry(s, orig, rng.randrange(0, 5000) * BS, d, flags)
        s.touched.add(orig)
        self.mon.count('regular_entries')

    def write(self, b=None):
        rng = self.rng
        b = rng.choice(self.hot) if b is None else b
        if self.stores:
            s = self.stores[-1]
            if b in s.targets:
                a = s.targets.pop(b)
                self.regular(s, b, self.get_live(b))
                s.touched.add(a)
                self.mon.count('forward_targets_overwritten')
            elif b in s.done:
                self.mon.count('repeated_writes')
            elif b in s.unused:
                self.mon.count('writes_to_unused')
            else:
                if rng.random() < 0.1 and b not in s.ever_targets:
                    self.regular(s, b, self.content(b))
                    for __ in range(rng.choice([0, 1])):
                        self.ignored(s)
                    self.entry(s, b, b * BS, self.store_data(self.get_live(b)), 1)
                    self.mon.count('replaced_entries')
                else:
                    self.regular(s, b, self.get_live(b))
                s.touched.add(b)
                s.done.add(b)
        self.live[b] = self.content(b)
        self.used[b] = True
        self.history.append('w%d' % b)

    def move(self):
        rng = self.rng
        if not self.stores:
            return
        s = self.stores[-1]
        src = [b for b in self.hot if (b in s.targets or (b not in s.done and b not in s.unused)) and b != 0 and self.used[b]]
        dst = [b for b in self.hot if b in s.unused and b not in s.targets and b not in s.ever_targets and b not in s.free_overlay and b != 0 and b not in s.done and b not in s.touched]
        if self.tail:       # a partial block cannot be moved
            src, dst = [x for x in src if x != self.total - 1], [x for x in dst if x != self.total - 1]
        if not src or not dst:
            return
        a, f = rng.choice(src), rng.choice(dst)
        if a in s.targets and rng.random() < 0.7:
            pass
        if a == f:
            return
        self.entry(s, a, f * BS, rng.choice([None, self.alloc()]), 1)
        if a in s.targets:
            s.targets[f] = s.targets.pop(a)
            s.touched.add(s.targets[f])
            self.mon.count('forward_chains')
        else:
            s.targets[f] = a
            s.done.add(a)
        s.touched.update((a, f))
        s.ever_targets.add(f)
        self.live[f] = self.get_live(a)
        self.used[f], self.used[a] = True, False
        self.mon.count('forwarders')
        self.history.append('m%d>%d' % (a, f))

    def overlay(self):
        rng = self.rng
        if not self.stores:
            return
        s = self.stores[-1]
        cand = [b for b in self.hot if b not in s.ever_targets and (b not in s.unused or rng.random() < 0.3)]
        if not cand:
            return
        b = rng.choice(cand)
        bits = rng.choice([1, 0x80000000, 0xFFFFFFFF, 0, rng.getrandbits(32), rng.getrandbits(32) & rng.getrandbits(32)])
        data = self.content(b) if b else ntfs.rnd_bytes(rng, BS)
        self.entry(s, b, rng.randrange(5000) * BS, self.store_data(data), 2 | rng.choice([0, 0, 8]), bits)
        ov = s.overlays.setdefault(b, {})
        for i in range(32):
            if bits >> i & 1:
                ov[i] = data[512 * i:512 * i + 512]
        if b in s.unused:
            s.free_overlay.add(b)
        s.touched.add(b)
        self.mon.count('overlays')
        self.history.append('o%d' % b)

    def ignored(self, s=None):
        s = s or (self.stores[-1] if self.stores else None)
        if s is None:
            return
        rng = self.rng
        b = rng.choice(self.hot)
        self.entry(s, b, rng.choice(self.hot) * BS, self.store_data(self.content(1)), rng.choice([4, 5, 6, 0xC, 0x14]), rng.getrandbits(32))
        self.mon.count('ignored_entries')

    def release(self):
        b = self.rng.choice(self.hot)
        if b:
            self.used[b] = False
            self.history.append('f%d' % b)

    def run(self, snapshots, ops):
        rng = self.rng
        for __ in range(snapshots):
            for ___ in range(rng.randint(0, ops)):
                rng.choice([self.write, self.write, self.write, self.move, self.move, self.overlay, self.ignored, self.release, self.release])()
            self.snapshot()
        for ___ in range(rng.randint(0, ops)):
            rng.choice([self.write, self.write, self.write, self.move, self.overlay, self.ignored, self.release])()

    # on-disk structures
    def chain(self, typ, bodies, put, rng, stale_tail=True):
        """Write a chain of blocks; returns the first block number (0 if there is none)."""
        if not bodies:
            return 0
        at = [self.alloc() for __ in bodies]
        for i, body in enumerate(bodies):
            nxt = at[i + 1] * BS if i + 1 < len(at) else 0
            if nxt == 0 and stale_tail and rng.random() < 0.2:
                # The chain goes on into a block that has been moved elsewhere (its own offset differs): it ends here.
                st = self.alloc()
                put(st, header(typ, 0, (st + 7) * BS, 0, rng) + ntfs.rnd_bytes(rng, BS - 0x80))
                nxt = st * BS
                self.mon.count('stale_tails')
            put(at[i], header(typ, i * BS, at[i] * BS, nxt, rng) + body + b'\x00' * (BS - 0x80 - len(body)))
        return at[0]

    def bitmap_bodies(self, blocks, storage_unused):
        n = -(-self.total // 8)
        b = bytearray(n)
        for x in blocks:
            b[x // 8] |= 1 << (x % 8)
        if storage_unused:
            for x in range(self.store_lo, self.store_lo + 4000):
                b[x // 8] |= 1 << (x % 8)
        b = bytes(b)
        step = BS - 0x80
        return [b[i:i + step] for i in range(0, n, step)]

    def finish(self):
        rng = self.rng
        items2, items3 = [], []
        base = rng.choice([1, 1, 2, 7, 1000])
        put = self.storage.__setitem__
        for k, s in enumerate(self.stores):
            s.pos = base + k
            s.storage_unused = rng.random() < 0.7
            per = rng.choice([508, 508, 3, 1, 10])
            if per == 508 and s.entries and rng.random() < 0.25:
                # a full table: entries to be ignored, then real ones up to the very last place
                keep = rng.choice([1, 2, len(s.entries)])
                fill = [(rng.choice(self.hot), rng.randrange(5000) * BS, None, 4, 0)] * max(0, 508 - len(s.entries))
                if len(s.entries) < 508:
                    s.entries[-keep:-keep] = fill
                    self.mon.count('full_tables')
            bodies = []
            for i in range(0, max(1, len(s.entries)), per):
                body = b''
                for o, second, d, fl, bits in s.entries[i:i + per]:
                    body += struct.pack('<QQQLL', o * BS, second, 0 if d is None else d * BS, fl, bits)
                bodies.append(body)
            diff = self.chain(3, bodies, put, rng)
            s.diff_at = diff
            if len(bodies) > 1:
                self.mon.count('table_chains')
            bm = self.chain(6, self.bitmap_bodies(s.free, s.storage_unused), put, rng)
            pbm = 0
            if s.has_prev:
                pbm = self.chain(6, self.bitmap_bodies(s.prev, True), put, rng)
                self.mon.count('previous_bitmaps')
            s.locs = [(rng.randrange(1, 1 << 20) * BS, rng.randrange(1 << 20) * BS, rng.randrange(1, 50) * BS) for __ in range(rng.choice([0, 1, 5]))]
            loc = self.chain(5, [b''.join(struct.pack('<QQQ', *x) for x in s.locs)], put, rng, False)
            s.app = ntfs.rnd_bytes(rng, BS - 0x80)
            app = self.chain(4, [s.app], put, rng, False) if rng.random() < 0.8 else 0
            if not app:
                s.app = b''
            i2 = struct.pack('<LLQ', 2, rng.randrange(256), s.size) + s.guid.bytes_le + struct.pack('<QQQH', s.pos, s.flags, s.time, 0x40)
            i3 = struct.pack('<LLQ', 3, 0, diff * BS) + s.guid.bytes_le + struct.pack('<QQQQQQL', app * BS, loc * BS, bm * BS, rng.getrandbits(64), 1 << 20, pbm * BS, 0)
            items2.append((s, i2 + b'\x00' * (0x80 - len(i2))))
            items3.append((s, i3 + b'\x00' * (0x80 - len(i3))))
        unused = struct.pack('<L', 1) + ntfs.rnd_bytes(rng, 0x7C)
        if self.two:
            vol_items = [x for x in items2]
            sto_items = [x for x in items3] + [(None, struct.pack('<LLQ', 3, 0, BS) + ntfs.rnd_bytes(rng, 16) + b'\x00' * 0x60) for __ in range(rng.choice([0, 2]))]
            rng.shuffle(sto_items)
        else:
            vol_items = items2 + items3
            sto_items = None
        if rng.random() < 0.5:
            rng.shuffle(vol_items)
        self.order = [x[0] for x in vol_items if x[1][0] == 2]
        volput = self.live.__setitem__ if self.two else put
        self.write_catalog(self.vol_catalog_at, vol_items, unused, volput, self.vol_catalog_at + 1 if self.two else None)
        if self.two:
            self.write_catalog(self.catalog_at, sto_items, unused, put, None)

    def write_catalog(self, first, items, unused, put, more):
        rng = self.rng
        raw = []
        for __, it in items:
            while rng.random() < 0.2:
                raw.append(unused)
            raw.append(it)
        per = rng.choice([127, 127, 2, 1, 5])
        groups = [raw[i:i + per] for i in range(0, len(raw), per)] or [[]]
        at = [first]
        for i in range(1, len(groups)):
            if more:
                at.append(more)
                more += 1
            else:
                at.append(self.alloc())
        if len(groups) > 1:
            self.mon.count('catalog_chains')
        for i, g in enumerate(groups):
            body = b''.join(g)
            put(at[i], header(2, i * BS, at[i] * BS, at[i + 1] * BS if i + 1 < len(at) else 0, rng) + body + b'\x00' * (BS - 0x80 - len(body)))

    def files(self, offset=0, soffset=0):
        rng = self.rng
        v = Sparse(self.size, self.tag, offset, ntfs.rnd_bytes(rng, 64), rng.choice([0, 100000]))
        v.blocks.update(self.live)
        if not self.two:
            v.blocks.update(self.storage)
            return v, None
        s = Sparse(self.store_lo * BS + 4000 * BS, self.stag, soffset, ntfs.rnd_bytes(rng, 64), 0)
        s.blocks.update(self.storage)
        b = bytearray(ntfs.rnd_bytes(rng, BS))
        b[3:7] = rng.choice([b'NTFS', b'ReFS'])
        b[7680:8192] = self.start_block(self.catalog_at, self.sguid, ntfs.rnd_bytes(rng, 16))
        s.blocks[0] = bytes(b)
        return v, s

    # truth
    def current(self, b):
        if not self.two and b in self.storage:
            return self.storage[b]
        return self.get_live(b)

    def expect(self, k, b):
        """List of 32 expected 512-byte parts of block b as of store k (None = the volume held no data there: not judged)."""
        s = self.stores[k]
        if b in s.view:
            if b not in s.unused:
                full = s.view[b]
                parts = [full[512 * i:512 * i + 512] for i in range(32)]
            else:
                parts = self.unused_parts(k, b)
        elif self.store_lo <= b < self.store_lo + 4000:
            un = s.storage_unused
            if not un:
                # used according to the bitmap; older/newer bitmaps may differ
                if all(not x.storage_unused for x in self.stores[k:]) or k == len(self.stores) - 1:
                    full = self.current(b)
                    parts = [full[512 * i:512 * i + 512] for i in range(32)]
                else:
                    parts = [None] * 32
            else:
                parts = self.unused_parts(k, b)
        else:
            full = self.current(b)
            parts = [full[512 * i:512 * i + 512] for i in range(32)]
        if b in s.overlays:
            parts = list(parts)
            for i, d in s.overlays[b].items():
                parts[i] = d
        return parts

    def unused_parts(self, k, b):
        s = self.stores[k]
        newer = any(b in x.touched for x in self.stores[k + 1:])
        if newer or (b in s.touched and b not in s.free_overlay and b not in s.ever_targets):
            return [None] * 32
        if b in s.ever_targets and not s.flag400:
            return [None] * 32
        if s.flag400:
            return [b'\x00' * 512] * 32
        if all(not x.flag400 for x in self.stores[k:]):
            full = self.current(b)
            return [full[512 * i:512 * i + 512] for i in range(32)]
        return [None] * 32
