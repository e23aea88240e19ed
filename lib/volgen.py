"""Generated NTFS volumes of any geometry around a given master file table (sparse, so that clusters can be large)."""
import io, struct
from lib import ntfs
from lib.ntfs import ref


class Pieces(object):
    """A read-only sparse file: the volume at `offset`, placed among other bytes; records what is read outside."""

    def __init__(self, size, offset=0, after=0, fill=b'\xd7', junk=b'\x39'):
        self.size, self.offset, self.total = size, offset, offset + size + after
        self.fill, self.junk = fill, junk
        self.parts = []          # (start, bytes), not overlapping
        self.pos = 0
        self.outside = []
        self.writes = []
        self.reads = 0
        self.sorted = False

    def put(self, start, data):
        self.parts.append((start, bytes(data)))
        self.sorted = False

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += self.total
        if off < 0:
            raise ValueError('negative seek')
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.total - self.pos
        n = max(0, min(n, self.total - self.pos))
        self.reads += 1
        lo, hi = self.pos, self.pos + n
        if n and (lo < self.offset or hi > self.offset + self.size):
            self.outside.append((lo, n))
        assert n < 1 << 28, 'unreasonably large read'
        out = bytearray(self.fill * n)
        if lo < self.offset:
            k = min(hi, self.offset) - lo
            out[:k] = self.junk * k
        if hi > self.offset + self.size:
            k = max(lo, self.offset + self.size)
            out[k - lo:] = self.junk * (hi - k)
        if not self.sorted:
            self.parts.sort(key=lambda x: x[0])
            self.starts = [x[0] for x in self.parts]
            self.sorted = True
        import bisect
        i = max(0, bisect.bisect_right(self.starts, lo - self.offset) - 1)
        while i < len(self.parts):
            s, d = self.parts[i]
            a, b = s + self.offset, s + self.offset + len(d)
            if a >= hi:
                break
            x, y = max(a, lo), min(b, hi)
            if x < y:
                out[x - lo:y - lo] = d[x - a:y - a]
            i += 1
        self.pos = hi
        return bytes(out)

    def write(self, *a):
        self.writes.append('write')
        raise io.UnsupportedOperation('write')

    truncate = writelines = write

    def close(self):
        pass


def geometry(rng, small=False):
    """(bytes per sector, sectors per cluster, code of it, record size, code of it)."""
    while True:
        bps = rng.choice([512, 512, 512, 1024, 2048, 4096])
        if small:
            spc, code = rng.choice([(1, 1), (2, 2), (8, 8)])
        elif rng.random() < 0.75:
            spc = rng.choice([1, 2, 4, 8, 8, 16, 32, 64, 128])
            code = spc
        else:
            k = rng.choice([1, 3, 8, 9, 10, 11, 12])
            spc, code = 1 << k, 256 - k
        cs = bps * spc
        if cs > 2 << 20:
            continue
        frs = rng.choice([1024, 1024, 4096])
        codes = [256 - (10 if frs == 1024 else 12)]
        if frs % cs == 0 and frs // cs < 128:
            codes.append(frs // cs)
        return bps, spc, code, frs, rng.choice(codes)


class Volume(object):
    """Places `table` (records after number 0 may be replaced by extension records in `ext_slots`) on a volume."""

    def __init__(self, rng, mon, records, geo=None, fragments=None, list_kind=None, offset=0, after=0, far=True, max_ext=6):
        self.rng = rng
        self.bps, self.spc, self.spc_code, self.frs, self.frs_code = geo or geometry(rng)
        self.cs = cs = self.bps * self.spc
        records = [bytes(r) for r in records]
        n = len(records)
        size = n * self.frs
        nclus = -(-size // cs)
        self.file_size = size
        # The first part of the run list covers at least the first 16 records.
        head = -(-16 * self.frs // cs)
        head = min(head, nclus)
        fragments = rng.choice([1, 2, 5, 20, 60, nclus]) if fragments is None else fragments
        one = -(-self.frs // cs)       # record 0 is contiguous
        cuts = sorted(rng.sample(range(one, nclus), min(fragments, nclus - one + 1) - 1)) if nclus > one and fragments > 1 else []
        if far and rng.random() < 0.15:
            base = rng.choice([1 << 31, (1 << 32) + 5, 1 << 40]) // max(1, cs // 512)
        else:
            base = rng.choice([4, 16, 1000])
        lens = [b - a for a, b in zip([0] + cuts, cuts + [nclus])]
        # Physical places: fragments in shuffled order with gaps (some adjacent to each other).
        order = list(range(len(lens)))
        if rng.random() < 0.8:
            rng.shuffle(order)
        at = base
        place = {}
        for i in order:
            place[i] = at
            at += lens[i] + rng.choice([0, 1, 1, 2, 7])
        self.runs = [(place[i], lens[i]) for i in range(len(lens))]
        # Split the run list into parts.
        room = self.frs - 48 - 2 * (self.frs // 512 + 1) - 120 - 8 * 8
        room0 = self.frs - (48 + 2 * (self.frs // 512 + 1) + 8) - 8 - 24 - 48 - 24 - 80 - 80
        free_slots = self.ext_slots = [i for i in range(16, n)]
        parts = []
        want = rng.choice([1, 1, 2, 3, max_ext]) if list_kind is None else max_ext
        cur, cur_cl, done_cl = [], 0, 0
        target = max(1, len(self.runs) // want)
        for r in self.runs:
            mp = len(ntfs.encode_runs(cur + [r]))
            limit = room0 - (400 if list_kind != 'none' else 0) if not parts else room
            covered = done_cl + cur_cl
            if cur and (mp + 80 > limit or (len(cur) >= target and covered >= head and len(parts) < want)):
                if covered < head and mp + 80 > limit:
                    raise Skip('the first records do not fit in the first part')
                parts.append(cur)
                done_cl = covered
                cur, cur_cl = [], 0
            cur = cur + [r]
            cur_cl += r[1]
        parts.append(cur)
        self.parts = parts
        # Where the extension records live: covered by the parts before them.
        self.ext = []
        covered = sum(c for __, c in parts[0])
        low = covered
        used = set()
        for k in range(1, len(parts)):
            limit = covered * cs // self.frs
            cand = [i for i in list(range(16, min(limit, n))) + [15] if i not in used]
            if not cand:
                raise Skip('no room for extension records')
            slot = rng.choice(cand)
            used.add(slot)
            self.ext.append((slot, rng.choice([1, 1, 3, 65535]), low))
            covered += sum(c for __, c in parts[k])
            low = covered
        mon.count('extension_records', len(self.ext))
        si = ntfs.attr_resident(ntfs.SI, ntfs.si_value(owner=0))
        fn = ntfs.attr_resident(ntfs.FN, ntfs.fn_value(ref(5, 5), '$MFT'))
        data0 = ntfs.attr_nonresident(ntfs.DATA, parts[0], size, cluster_size=cs, highest_vcn=sum(c for __, c in parts[0]) - 1, allocated=nclus * cs, rng=rng)
        self.blobs = []
        attrs = [si]
        al = b''
        self.list_kind = 'none'
        if self.ext:
            e = [ntfs.attrlist_entry(ntfs.SI, None, 0, ref(0, 1), 0), ntfs.attrlist_entry(ntfs.FN, None, 0, ref(0, 1), 1)]
            d = [ntfs.attrlist_entry(ntfs.DATA, None, 0, ref(0, 1), 2)]
            for slot, sq, lo in self.ext:
                d.append(ntfs.attrlist_entry(ntfs.DATA, None, lo, ref(slot, sq), 0))
            if rng.random() < 0.2:
                rng.shuffle(d)
                mon.count('unsorted_lists')
            if rng.random() < 0.2:
                d.insert(rng.randrange(len(d) + 1), ntfs.attrlist_entry(ntfs.DATA, 'ads', 0, ref(0, 1), 9))
            if rng.random() < 0.5:
                d.append(ntfs.attrlist_entry(ntfs.BITMAP, None, 0, ref(0, 1), 3))
            al = b''.join(e + d)
            if list_kind == 'nonresident' or (list_kind is None and rng.random() < 0.5) or len(al) > 300:
                self.list_kind = 'nonresident'
                c = -(-len(al) // cs)
                pieces = [c] if c < 2 or rng.random() < 0.5 else [1, c - 1]
                lruns = []
                q = 0
                for k in pieces:
                    at += rng.choice([0, 1, 3])
                    lruns.append((at, k))
                    self.blobs.append((at, (al + b'\x5a' * (c * cs))[q * cs:(q + k) * cs]))
                    at += k
                    q += k
                attrs.append(ntfs.attr_nonresident(ntfs.ATTRLIST, lruns, len(al), cluster_size=cs, allocated=c * cs, rng=rng))
            else:
                self.list_kind = 'resident'
                attrs.append(ntfs.attr_resident(ntfs.ATTRLIST, al))
            mon.count('attribute_list_' + self.list_kind)
        attrs += [fn, data0]
        if rng.random() < 0.5:
            attrs.append(ntfs.attr_nonresident(ntfs.BITMAP, [(at + 1, 1)], 8, cluster_size=cs, rng=rng))
        try:
            records[0] = ntfs.frs(attrs, number=0, seq=1, flags=1, size=self.frs, stamp=ntfs.rnd_bytes(rng, 2))
        except ValueError:
            raise Skip('record 0 does not fit')
        for k, (slot, sq, lo) in enumerate(self.ext):
            for r in (rng, None):      # rng: mapping pairs of more than minimal widths, if there is room
                a = ntfs.attr_nonresident(ntfs.DATA, parts[k + 1], 0, lowest_vcn=lo, highest_vcn=lo + sum(c for __, c in parts[k + 1]) - 1, allocated=0, valid=0, cluster_size=cs, rng=r)
                if len(a) <= ntfs.attrs_room(self.frs):
                    break
            records[slot] = ntfs.frs([a], number=slot, seq=sq, flags=1, base=ref(0, 1), size=self.frs, stamp=ntfs.rnd_bytes(rng, 2))
        self.records = records
        self.table = b''.join(records)
        at += rng.choice([0, 2, 50])
        self.clusters = at
        self.size = at * cs
        self.first = self.runs[0][0]
        self.boot = ntfs.boot_sector(self.bps, self.spc if self.spc < 256 else 0, self.size // self.bps, self.first, 2, self.frs_code, 1, spc_code=self.spc_code, serial=rng.getrandbits(64))
        self.file = Pieces(self.size, offset, after)
        self.fill(self.file)

    def fill(self, f):
        f.put(0, self.boot)
        pos = 0
        slack = b'\x77' * self.cs
        for lcn, n in self.runs:
            piece = self.table[pos:pos + n * self.cs]
            f.put(lcn * self.cs, (piece + slack)[:n * self.cs] if len(piece) < n * self.cs else piece)
            pos += n * self.cs
        for lcn, d in self.blobs:
            f.put(lcn * self.cs, d)


class Skip(Exception):
    """This random choice has no valid volume."""
