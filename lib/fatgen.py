"""Independent builders of FAT12/16/32 directories and volumes."""
import struct, datetime
from lib import ntfs

RO, HID, SYS, VOL, DIR, ARC = 1, 2, 4, 8, 16, 32
LFN = 15
BASE_CHARS = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&\'()-@^_`{}~+'
HIGH_CHARS = bytes(range(0x80, 0xE5)) + bytes(range(0xE6, 0x100))
BAD_CHARS = bytes([1, 8, 0x1F, 0x22, 0x2A, 0x2C, 0x2E, 0x2F, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F, 0x5B, 0x5C, 0x5D, 0x7C]) + b'abcxyz'


def checksum(raw):
    s = 0
    for c in raw:
        s = (((s & 1) << 7) + (s >> 1) + c) & 0xFF
    return s


def rnd_short(rng, high=True):
    """A valid 11-byte name."""
    nb = rng.choice([1, 2, 8, rng.randint(1, 8)])
    ne = rng.choice([0, 3, rng.randint(0, 3)])
    chars = BASE_CHARS + (HIGH_CHARS[:rng.choice([0, 0, 40])] if high else b'')
    base = bytes(rng.choice(chars) for __ in range(nb))
    if nb > 2 and rng.random() < 0.1:
        base = base[:1] + b' ' + base[2:]
    if high and rng.random() < 0.05:
        base = b'\x05' + base[1:]
    ext = bytes(rng.choice(chars) for __ in range(ne))
    return base.ljust(8) + ext.ljust(3)


def short_text(raw, ntbyte=0, encoding='ascii', deleted=False):
    """(text, bytes) under which a valid short name is reported."""
    b = bytearray(raw)
    if deleted:
        b[0] = 0x5F
    elif b[0] == 5:
        b[0] = 0xE5
    if bytes(raw) in (b'.          ', b'..         '):
        t = bytes(raw).rstrip(b' ')
        return t.decode(), t
    base, ext = bytes(b[:8]).rstrip(b' '), bytes(b[8:]).rstrip(b' ')
    t, e = base.decode(encoding, 'replace'), ext.decode(encoding, 'replace')
    if ntbyte & 8:
        t = t.lower()
    if ntbyte & 16:
        e = e.lower()
    return (t + '.' + e if ext else t), (base + b'.' + ext if ext else base)


def fat_date(v):
    try:
        return datetime.date(1980 + (v >> 9), (v >> 5) & 15, v & 31)
    except ValueError:
        return None


def fat_time(v):
    h, m, s = v >> 11, (v >> 5) & 63, (v & 31) * 2
    if h > 23 or m > 59 or s > 59:
        return None
    return datetime.time(h, m, s)


def rnd_fat_date(rng):
    if rng.random() < 0.8:
        return (rng.choice([0, 127, rng.randint(0, 127)]) << 9) | (rng.randint(1, 12) << 5) | rng.randint(1, 28)
    return rng.choice([0, 1, 0x21, 0xFFFF, rng.getrandbits(16)])


def rnd_fat_time(rng):
    if rng.random() < 0.85:
        return (rng.choice([0, 23, rng.randint(0, 23)]) << 11) | (rng.choice([0, 59, rng.randint(0, 59)]) << 5) | rng.choice([0, 29, rng.randint(0, 29)])
    return rng.choice([0, 0xFFFF, 30, 60 << 5, 24 << 11, rng.getrandbits(16)])


class Meta(object):
    """Stored metadata of a short entry."""

    def __init__(self, rng, attrs=None, size=None, cluster=None, plain=False):
        self.attrs = rng.choice([0, RO, ARC, ARC | RO | HID | SYS, HID]) if attrs is None else attrs
        self.upper = 0 if plain or rng.random() < 0.9 else rng.choice([0x40, 0x80, 0xC0])     # reserved bits of the attribute byte
        self.nt = 0 if plain or rng.random() < 0.6 else rng.choice([8, 16, 24, 1, 3, rng.getrandbits(8)])
        self.tenth = rng.choice([0, 100, 199, rng.randint(0, 199), 200, 255])
        self.ct, self.cd, self.ad, self.mt, self.md = rnd_fat_time(rng), rnd_fat_date(rng), rnd_fat_date(rng), rnd_fat_time(rng), rnd_fat_date(rng)
        self.size = rng.getrandbits(rng.choice([4, 16, 32])) if size is None else size
        self.cluster = rng.getrandbits(rng.choice([8, 16, 28])) if cluster is None else cluster
        self.ea = None

    def pack(self, raw):
        hi = self.cluster >> 16 if self.ea is None else self.ea
        return struct.pack('<11sBBBHHHHHHHL', bytes(raw), self.attrs | self.upper, self.nt, self.tenth, self.ct, self.cd, self.ad, hi, self.mt, self.md, self.cluster & 0xFFFF, self.size)

    def times(self):
        a = fat_date(self.ad)
        md, mt = fat_date(self.md), fat_time(self.mt)
        m = datetime.datetime.combine(md, mt) if md is not None and mt is not None else None
        cd, ct = fat_date(self.cd), fat_time(self.ct)
        c = None
        if cd is not None and ct is not None:
            c = datetime.datetime.combine(cd, ct) + datetime.timedelta(milliseconds=10 * (self.tenth if self.tenth <= 199 else 0))
        return a, m, c


def expect(meta, raw, long_name, deleted, is_fat32, encoding='ascii', label=False):
    """The tuple a FileEntry must equal."""
    if label:
        b = bytearray(raw)
        if deleted:
            b[0] = 0x5F
        elif b[0] == 5:
            b[0] = 0xE5
        rawn = bytes(b).rstrip(b' ')
        name = rawn.decode(encoding, 'replace')
    else:
        name, rawn = short_text(raw, meta.nt, encoding, bool(raw[0] in (0, 0xE5)) or deleted is True)
    a, m, c = meta.times()
    clus = meta.cluster if is_fat32 else meta.cluster & 0xFFFF
    return (deleted, bool(meta.attrs & DIR), name, rawn, long_name, a, m, c, meta.size, meta.attrs, meta.nt, clus, bool(meta.nt & 1))


def lfn_pieces(name):
    """The 26-byte pieces of a long name, first piece first."""
    raw = name.encode('utf-16le', 'surrogatepass') if isinstance(name, str) else name
    if len(raw) % 26:
        raw += b'\x00\x00'
        raw += b'\xff' * (-len(raw) % 26)
    return [raw[i:i + 26] for i in range(0, len(raw), 26)]


def lfn_entry(order, chk, piece, typ=0, attr=LFN, clus=0):
    return bytes([order]) + piece[0:10] + bytes([attr, typ, chk]) + piece[10:22] + struct.pack('<H', clus) + piece[22:26]


def lfn_run(name, chk, deleted=None):
    """Entries in stored order (last piece first). deleted: the mark byte replacing the order."""
    p = lfn_pieces(name)
    out = []
    for i in range(len(p), 0, -1):
        order = i | (0x40 if i == len(p) else 0)
        out.append(lfn_entry(order if deleted is None else deleted, chk, p[i - 1]))
    return out


def rnd_long(rng, hi=None):
    n = rng.choice([1, 5, 12, 13, 14, 26, 27, 39, 100, 254, 255]) if hi is None else rng.randint(1, hi)
    s = ''.join(rng.choice(ntfs.NAME_ALPHABET) for __ in range(n)).strip(' .') or 'n'
    if rng.random() < 0.1 and len(s) < 250:
        k = rng.randint(0, len(s))
        s = s[:k] + '\U0001F4BE' + s[k:]
    return s


# --- Volumes -----------------------------------------------------------------------

class Geometry(object):
    def __init__(self, typ, bps, spc, rsvd, nfats, rootents, clusters, fatsz=None, extra=0):
        self.typ, self.bps, self.spc, self.rsvd, self.nfats, self.rootents, self.clusters = typ, bps, spc, rsvd, nfats, rootents, clusters
        bits = {12: 12, 16: 16, 32: 32}[typ]
        need = -(-((clusters + 2) * bits) // 8)
        self.fatsz = -(-need // bps) if fatsz is None else fatsz
        self.rootsec = -(-rootents * 32 // bps)
        self.cs = bps * spc
        self.data_off = (rsvd + nfats * self.fatsz + self.rootsec) * bps
        self.total = rsvd + nfats * self.fatsz + self.rootsec + clusters * spc + extra
        self.size = self.total * bps


def rnd_geometry(rng, typ=None, big=False):
    typ = rng.choice([12, 12, 16, 32]) if typ is None else typ
    bps = rng.choice([512, 512, 512, 1024, 2048, 4096])
    nf = rng.choice([1, 2, 2, 2, 3])
    if typ == 12:
        n = rng.choice([rng.randint(20, 400), rng.randint(20, 400), rng.randint(400, 1200)])
        if rng.random() < 0.06:
            n = rng.choice([4084, 4083, 4078])
            bps = 512
        elif rng.random() < 0.06:
            n, bps = 1022, 512                 # The table has room for exactly the clusters there are.
        spc = rng.choice([1, 1, 2, 4]) if n < 1300 else 1
        if spc * bps > 4096:
            spc = 1
        return Geometry(12, bps, spc, rng.choice([1, 1, 2, 5]), nf, rng.choice([16, 112, 128, 224, 512]) if bps == 512 else bps // 32 * rng.choice([1, 2]) if rng.random() < 0.5 else rng.choice([16, 48, 112, 240, 528]), n, extra=rng.choice([0, 0, spc - 1]))
    if typ == 16:
        n = rng.choice([4085, 4086, 4087, rng.randint(4087, 5000)])
        bps = 512 if rng.random() < 0.9 else 1024
        if big:
            n = rng.choice([65524, 65523])
            bps = 512
        return Geometry(16, bps, 1, rng.choice([1, 2, 8]), nf, rng.choice([16, 112, 512]) if bps == 512 else 64, n)
    n = rng.choice([rng.randint(30, 500), rng.randint(500, 2000)])
    if rng.random() < 0.1:
        n = -(-(n + 2) // (bps // 4)) * (bps // 4) - 2
    if big:
        n = rng.choice([65525, 65526, 66000])
        bps = 512
    spc = rng.choice([1, 1, 2, 4]) if n < 2001 else 1
    if spc * bps > 4096:
        spc = 1
    return Geometry(32, bps, spc, rng.choice([2, 32, 9]), nf, 0, n, extra=rng.choice([0, spc - 1]))


class Node(object):
    __slots__ = ('raw', 'long', 'meta', 'is_dir', 'deleted', 'children', 'content', 'clusters', 'state', 'label', 'path', 'bad_tail', 'target', 'dots')

    def __init__(self):
        self.children = []
        self.content = b''
        self.clusters = []
        self.deleted = False
        self.state = 'live'
        self.label = False
        self.long = None
        self.bad_tail = False
        self.dots = None


class FATVolume(object):
    """Generates a volume; self.image, self.geo, self.expected (list of tuples) and self.files [(first cluster, size, bytes)]."""

    def __init__(self, rng, mon, geo=None, encoding='ascii', maxfiles=40, damage=True, sane=False, scan=False, ghosts=True):
        self.rng, self.mon, self.encoding = rng, mon, encoding
        self.geo = g = rnd_geometry(rng) if geo is None else geo
        self.sane, self.scan, self.ghosts = sane, scan, ghosts
        self.fat = {}
        self.free = self.usable()
        rng.shuffle(self.free)
        self.data = {}
        self.frag = rng.random()
        self.expected, self.files, self.allocated, self.orphan_ok = [], [], set(), True
        self.budget = maxfiles
        self.late = []
        self.eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[g.typ]
        self.bad = {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}[g.typ]
        self.top = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[g.typ]
        self.root_cluster = None
        self.build(damage)

    def usable(self):
        return list(range(2, self.geo.clusters + 2))

    # allocation
    def take(self, n, contiguous=False):
        rng = self.rng
        if n > len(self.free) - 4:
            return None
        out = []
        fs = None
        if contiguous:
            fs = set(self.free)
            for __ in range(50):
                s = rng.choice(self.free)
                if all(s + i in fs for i in range(n)):
                    out = [s + i for i in range(n)]
                    self.free = [c for c in self.free if c not in set(out)]
                    return out
            return None
        if rng.random() < self.frag:
            out = [self.free.pop() for __ in range(n)]
        else:
            self.free.sort()
            k = rng.randint(0, len(self.free) - n)
            out = self.free[k:k + n]
            del self.free[k:k + n]
            rng.shuffle(self.free)
        return out

    def link(self, cl, bad_tail=False):
        for a, b in zip(cl, cl[1:]):
            self.fat[a] = b
        if cl:
            self.fat[cl[-1]] = self.bad if bad_tail else self.rng.randint(self.eoc, self.top)
        self.allocated.update(cl)

    def store(self, cl, content):
        cs = self.geo.cs
        for i, c in enumerate(cl):
            piece = content[i * cs:(i + 1) * cs]
            self.data[c] = piece + (ntfs.rnd_bytes(self.rng, cs - len(piece)) if len(piece) < cs else b'')

    def new_node(self, is_dir):
        rng = self.rng
        n = Node()
        n.is_dir = is_dir
        n.raw = rnd_short(rng, high=not self.sane)
        n.long = rnd_long(rng, 40 if rng.random() < 0.8 else None) if rng.random() < 0.6 else None
        n.meta = Meta(rng, attrs=(DIR | rng.choice([0, 0, HID])) if is_dir else None, size=0, cluster=0, plain=self.sane)
        return n

    def emit(self, n, deleted_mark=None):
        raw = bytearray(n.raw)
        ents = []
        if n.long is not None:
            ents = lfn_run(n.long, checksum(n.raw), deleted_mark)
        if deleted_mark is not None:
            raw[0] = deleted_mark
        return b''.join(ents) + n.meta.pack(raw)

    def dir_bytes(self, children, dots=None, filler=True):
        out = b''
        for n in children:
            e = self.emit(n, 0xE5 if n.deleted else None)
            out += e
            if filler and self.rng.random() < 0.1:
                out += b'\xe5' * 32 * self.rng.randint(1, 3)
        return (dots or b'') + out

    def make_tree(self, depth, ndir=None):
        rng = self.rng
        children = []
        for __ in range(rng.choice([0, 1, 3, 6, 12])):
            if self.budget <= 0:
                break
            self.budget -= 1
            is_dir = depth < 5 and rng.random() < 0.35
            n = self.new_node(is_dir)
            r = rng.random()
            n.deleted = r < 0.2
            n.state = 'live' if not n.deleted else rng.choice(['free', 'free', 'reused', 'open'])
            if is_dir:
                n.children = self.make_tree(depth + 1)
                if n.deleted and rng.random() < 0.7:
                    self.mark_deleted(n)
            else:
                size = rng.choice([0, 1, self.geo.cs - 1, self.geo.cs, self.geo.cs + 1, rng.randint(0, 5 * self.geo.cs), rng.randint(0, 20 * self.geo.cs)])
                n.content = ntfs.rnd_bytes(rng, size)
            children.append(n)
        return children

    def mark_deleted(self, n):
        for c in n.children:
            if not c.deleted:
                c.deleted = True
                c.state = 'free'
            if c.is_dir:
                self.mark_deleted(c)

    def place(self, n, path, parent_cluster, root=False, dead=False):
        """Allocate a node, recursively; returns False when it had to be dropped."""
        rng, g = self.rng, self.geo
        n.path = path + '/' + (n.long if n.long is not None else short_text(n.raw, n.meta.nt, self.encoding, n.deleted)[0])
        if n.state == 'ghost':
            return True
        if n.is_dir:
            count = 2 + sum(1 + (len(lfn_pieces(c.long)) if c.long else 0) for c in n.children)
            need = max(1, -(-(count * 32) // g.cs))
            if self.scan and need == 1 and (count + 1) * 32 > g.cs:
                need = 2
            lost = n.deleted and n.state in ('free', 'reused')
            if lost:
                # Only the first cluster (and a directly following matching one) of a deleted directory can be recovered: keep it in one cluster that is not full.
                while n.children and (count + 1) * 32 > g.cs:
                    n.children.pop()
                    count = 2 + sum(1 + (len(lfn_pieces(c.long)) if c.long else 0) for c in n.children)
                    need = max(1, -(-(count * 32) // g.cs))
            slack = 1 if rng.random() < 0.3 and not lost else 0
            cl = self.take(need + slack)
            if cl is None:
                return False
            n.clusters = cl
            n.meta.cluster = cl[0]
            n.meta.size = 0
            kids = [c for c in n.children if self.place(c, n.path, cl[0], dead=dead or n.deleted)]
            n.children = kids
            dm = Meta(rng, attrs=DIR, size=0, cluster=cl[0], plain=True)
            pm = Meta(rng, attrs=DIR, size=0, cluster=parent_cluster, plain=True)
            n.content = (dm, pm)
        else:
            n.meta.size = len(n.content)
            need = -(-len(n.content) // g.cs)
            if need == 0:
                n.meta.cluster = 0
            else:
                if need > 1 and rng.random() < 0.06:
                    # The table marks the last cluster as bad: null bytes are read in its place.
                    need -= 1
                    n.bad_tail = True
                    n.content = n.content[:need * g.cs] + b'\x00' * (len(n.content) - need * g.cs)
                cl = self.take(need)
                if cl is None:
                    return False
                n.clusters = cl
                n.meta.cluster = cl[0]
                self.store(cl, n.content)
        return True

    def resolve(self, nodes):
        """Ghosts take the first cluster of the directory they were."""
        out = []
        for n in nodes:
            if n.state == 'ghost':
                if not n.target.clusters:
                    continue
                n.clusters = n.target.clusters[:1]
                n.meta.cluster = n.clusters[0]
            out.append(n)
        return out

    def write(self, n):
        """Store the entries of a directory, recursively."""
        if not n.is_dir or n.state == 'ghost':
            return
        n.children = self.resolve(n.children)
        dm, pm = n.content
        body = self.dir_bytes(n.children, dm.pack(b'.          ') + pm.pack(b'..         '), filler=False)
        left = len(n.clusters) * self.geo.cs - len(body)
        fill = b'\x00'
        if self.scan and len(n.clusters) > 1 and self.rng.random() < 0.5:
            fill = b'\xe5'        # full to its end, and a free cluster with remnants may come next
            c = n.clusters[0] + 1
            if c in self.free and c not in self.data:
                self.data[c] = b''.join(Meta(self.rng, attrs=ARC, size=9, cluster=0, plain=True).pack(b'\xe5' + rnd_short(self.rng, False)[1:]) for __ in range(self.geo.cs // 32))
                self.mon.count('full_before_remnants')
        self.store(n.clusters, body + fill * left)
        for c in n.children:
            self.write(c)

    def add_ghosts(self, top):
        """Deleted entries left behind by renaming or moving a directory."""
        rng = self.rng
        live, hosts = [], [(top, ())]

        def visit(lst, up, ok):
            for n in lst:
                if n.is_dir:
                    hosts.append((n.children, up + (n,)))
                    if ok and not n.deleted:
                        live.append((n, lst))
                    visit(n.children, up + (n,), ok and not n.deleted)
        visit(top, (), True)
        if not live or rng.random() < 0.4:
            return
        for __ in range(rng.choice([1, 1, 2, 4])):
            t, lst = rng.choice(live)
            if rng.random() < 0.5:
                host, at = lst, lst.index(t) if rng.random() < 0.7 else rng.randint(0, len(lst))
                self.mon.count('renamed_dirs')
            else:
                host, up = rng.choice(hosts)
                if t in up or host is lst:
                    continue
                at = len(host) if rng.random() < 0.7 else rng.randint(0, len(host))
                self.mon.count('moved_dirs')
            g = self.new_node(True)
            g.deleted, g.state, g.target = True, 'ghost', t
            host.insert(at, g)

    def settle(self, n, dead):
        """Link the FAT chain of live nodes; free those of deleted ones; remember clusters to be reused."""
        if n.state == 'ghost':
            return
        keep = not n.deleted or n.state == 'open'
        if keep and n.clusters:
            self.link(n.clusters, n.bad_tail)
            if n.bad_tail and not n.deleted:
                self.mon.count('bad_tail_files')
        elif n.clusters and n.state == 'reused':
            self.late.append(n)
        for c in n.children:
            self.settle(c, dead or n.deleted)

    def tup(self, n, path):
        deleted = True if n.deleted else False
        raw = bytearray(n.raw)
        e = list(expect(n.meta, raw, n.long, deleted, self.geo.typ == 32, self.encoding, n.label))
        e[2] = path + '/' + e[2]
        if e[4] is not None:
            e[4] = path + '/' + e[4]
        return tuple(e)

    def expect_dir(self, children, path):
        for n in children:
            self.expected.append(self.tup(n, path))
            self.mon.count('deleted_entries' if n.deleted else ('live_dirs' if n.is_dir else 'live_files'))
            if not n.deleted and not n.is_dir and not n.label:
                self.files.append((n.meta.cluster, n.meta.size, n.content))
            if n.is_dir:
                first = n.clusters[0]
                if n.deleted and first in self.allocated:
                    if n.state == 'open':
                        self.orphans.append(n)
                        self.mon.count('orphan_dirs')
                    else:
                        self.mon.count('reused_dirs')
                    continue
                if n.deleted:
                    self.mon.count('deleted_dirs_descended')
                self.expect_inside(n, path + '/' + (n.long if n.long is not None else short_text(n.raw, n.meta.nt, self.encoding, n.deleted)[0]))

    def expect_inside(self, n, path):
        dm, pm = n.content
        for m, raw in ((dm, b'.          '), (pm, b'..         ')):
            e = list(expect(m, raw, None, False, self.geo.typ == 32, self.encoding))
            e[2] = path + '/' + e[2]
            self.expected.append(tuple(e))
        self.expect_dir(n.children, path)

    def build(self, damage):
        rng, g = self.rng, self.geo
        top = self.make_tree(0)
        if self.ghosts:
            self.add_ghosts(top)
        if rng.random() < 0.5:
            lab = Node()
            lab.is_dir = False
            lab.label = True
            lab.raw = rng.choice([b'MY VOLUME  ', b'a.b c lower', b'X          '])
            lab.meta = Meta(rng, attrs=VOL | rng.choice([0, ARC]), size=0, cluster=0, plain=True)
            top.insert(rng.randint(0, len(top)), lab)
        placed = []
        if g.typ == 32:
            self.root_cluster = rng.choice(self.free[:50]) if rng.random() < 0.5 else 2
            self.free.remove(self.root_cluster)
            reserve = self.take(min(12, max(1, len(self.free) // 3)))
            room = (1 + len(reserve)) * g.cs
        limit = g.rootents * 32 if g.typ != 32 else None
        used = 0
        for n in top:
            if n.label:
                placed.append(n)
                used += 32
                continue
            sz = 32 * (1 + (len(lfn_pieces(n.long)) if n.long else 0)) + 96
            if used + sz > (limit if limit is not None else room - 2 * g.cs):
                continue
            if self.place(n, '', 0, root=True):
                placed.append(n)
                used += sz
        placed = self.resolve(placed)
        for n in placed:
            if not n.label:
                self.write(n)
                self.settle(n, False)
        body = self.dir_bytes(placed, filler=limit is not None and used + 96 * len(placed) + 1024 < limit)
        if limit is not None and len(body) > limit:
            body = self.dir_bytes(placed, filler=False)
        if g.typ == 32:
            need = max(1, -(-len(body) // g.cs)) + (1 if rng.random() < 0.2 else 0)
            cl = [self.root_cluster] + reserve[:need - 1]
            self.free.extend(reserve[need - 1:])
            self.store(cl, body + b'\x00' * (need * g.cs - len(body)))
            self.link(cl)
            rootbuf = b''
        else:
            rootbuf = body + b'\x00' * (limit - len(body))
            left = g.rootsec * g.bps - limit
            if left:
                self.mon.count('root_part_of_sector')
                rootbuf += b''.join(Meta(rng, plain=True).pack(rnd_short(rng, False)) for __ in range(left // 32))
        # Clusters of deleted nodes that are now used by other files.
        for n in self.late:
            if n.clusters[0] in self.allocated:
                continue
            self.link([n.clusters[0]])
            if not self.scan:
                self.data[n.clusters[0]] = ntfs.rnd_bytes(rng, g.cs)
                continue
            # Now a part of another directory.
            n.dots = []
            for __ in range(rng.choice([0, 1, 3, 8])):
                raw = rnd_short(rng, False)
                gone = rng.random() < 0.5
                n.dots.append((Meta(rng, attrs=ARC, size=None, cluster=0, plain=True), b'\xe5' + raw[1:] if gone else raw, gone))
            b = b''.join(m.pack(x) for m, x, __ in n.dots)
            self.data[n.clusters[0]] = b + b'\x00' * (g.cs - len(b))
        # Some free clusters look used by nothing; bad clusters.
        for c in self.free[:rng.randint(0, 3)]:
            self.fat[c] = self.bad
        self.orphans = []
        self.expect_dir(placed, '')
        for n in list(self.orphans):       # one level: deleted directories inside them are listed, not descended into
            self.expect_inside(n, '<Orphan directory %d>' % n.clusters[0])
        self.optional = set()
        if self.scan:
            self.expected = []
            root = set([self.root_cluster]) if g.typ == 32 else set()
            self.expect_scan(placed, '', root)
        self.rootbuf = rootbuf
        self.image = self.assemble(rootbuf)

    def expect_scan(self, children, path, stack):
        """What is reported when reallocated deleted directories are scanned, too."""
        for n in children:
            t = self.tup(n, path)
            if n.is_dir and n.clusters[0] in stack:
                self.optional.add(t)
                continue
            self.expected.append(t)
            if not n.is_dir:
                continue
            inner = n.target if n.state == 'ghost' else n
            if n.state == 'reused' and n.clusters[0] in self.allocated:
                p = path + '/' + (n.long if n.long is not None else short_text(n.raw, n.meta.nt, self.encoding, n.deleted)[0])
                for m, raw, gone in n.dots or []:
                    e = list(expect(m, raw, None, gone, self.geo.typ == 32, self.encoding))
                    e[2] = p + '/' + e[2]
                    self.expected.append(tuple(e))
                    self.mon.count('scanned_reused')
                continue
            self.mon.count('scanned_' + n.state)
            p = path + '/' + (n.long if n.long is not None else short_text(n.raw, n.meta.nt, self.encoding, n.deleted)[0])
            for m, raw in zip(inner.content, (b'.          ', b'..         ')):
                e = list(expect(m, raw, None, False, self.geo.typ == 32, self.encoding))
                e[2] = p + '/' + e[2]
                self.expected.append(tuple(e))
            self.expect_scan(inner.children, p, stack | set(n.clusters[:1]))

    def fat_bytes(self, mapping):
        g = self.geo
        n = g.clusters + 2
        vals = [0] * n
        vals[0] = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[g.typ]
        vals[1] = self.top
        for k, v in mapping.items():
            vals[k] = v
        if g.typ == 16:
            b = struct.pack('<%dH' % n, *vals)
        elif g.typ == 32:
            b = struct.pack('<%dL' % n, *[v | (self.rng.getrandbits(4) << 28 if v else 0) for v in vals])
        else:
            if n % 2:
                vals.append(0)
            b = b''.join(bytes((a & 255, (a >> 8) | ((c & 15) << 4), c >> 4)) for a, c in zip(vals[0::2], vals[1::2]))
        size = g.fatsz * g.bps
        return (b + b'\x00' * (size - len(b)))[:size]

    def assemble(self, rootbuf):
        rng, g = self.rng, self.geo
        bs = bytearray(512)
        bs[0:3] = b'\xeb\x3c\x90'
        bs[3:11] = b'MSDOS5.0'
        bs[11:13] = struct.pack('<H', g.bps)
        bs[13] = g.spc
        bs[14:16] = struct.pack('<H', g.rsvd)
        bs[16] = g.nfats
        bs[17:19] = struct.pack('<H', g.rootents)
        bs[21] = 0xF8
        if g.typ != 32 and g.total < 65536 and rng.random() < 0.7:
            bs[19:21] = struct.pack('<H', g.total)
        elif g.typ == 32 and rng.random() < 0.1:
            bs[66] = 0x29
            bs[82:90] = struct.pack('<Q', g.total)      # the count of sectors in the 64-bit field
        else:
            bs[32:36] = struct.pack('<L', g.total)
        self.active = 0
        mirror = True
        if g.typ == 32:
            bs[36:40] = struct.pack('<L', g.fatsz)
            bs[44:48] = struct.pack('<L', self.root_cluster)
            bs[48:50] = struct.pack('<H', 1)
            bs[50:52] = struct.pack('<H', 6)
            if g.nfats > 1 and rng.random() < 0.4:
                mirror = False
                self.active = rng.randrange(g.nfats)
                bs[40:42] = struct.pack('<H', 0x80 | self.active)
                self.mon.count('active_fat_%s' % ('first' if self.active == 0 else 'other'))
        else:
            bs[22:24] = struct.pack('<H', g.fatsz)
        bs[510:512] = b'\x55\xaa'
        img = bytearray(g.size)
        img[0:512] = bs
        good = self.fat_bytes(self.fat)
        for i in range(g.nfats):
            o = (g.rsvd + i * g.fatsz) * g.bps
            img[o:o + len(good)] = good if i == self.active or (mirror and rng.random() < 0.5) else ntfs.rnd_bytes(rng, len(good))
        o = (g.rsvd + g.nfats * g.fatsz) * g.bps
        img[o:o + len(rootbuf)] = rootbuf
        for c, b in self.data.items():
            o = g.data_off + (c - 2) * g.cs
            img[o:o + g.cs] = b
        return bytes(img)


class FarVolume(FATVolume):
    """A FAT32 volume of gigabytes and more: a sparse file."""

    def usable(self):
        g, rng = self.geo, self.rng
        out = set([2, 3, 4, 5, g.clusters + 1, g.clusters])
        lines = [x // g.cs for x in (1 << 31, 1 << 32, 1 << 33, 1 << 40)] + [1 << 16, 1 << 24, g.clusters // 2]
        for c in lines:
            out.update(x for x in range(c - 6, c + 6) if 2 <= x < g.clusters + 2)
        while len(out) < 160:
            a = rng.randint(2, g.clusters)
            out.update(x for x in range(a, a + 6) if x < g.clusters + 2)
        return sorted(out)

    def assemble(self, rootbuf):
        from lib import parts
        rng, g = self.rng, self.geo
        bs = bytearray(512)
        bs[0:3] = b'\xeb\x58\x90'
        bs[3:11] = b'MSDOS5.0'
        bs[11:13] = struct.pack('<H', g.bps)
        bs[13] = g.spc
        bs[14:16] = struct.pack('<H', g.rsvd)
        bs[16] = g.nfats
        bs[21] = 0xF8
        if g.total >= 1 << 32:
            bs[66] = 0x29
            bs[82:90] = struct.pack('<Q', g.total)
        else:
            bs[32:36] = struct.pack('<L', g.total)
        bs[36:40] = struct.pack('<L', g.fatsz)
        bs[44:48] = struct.pack('<L', self.root_cluster)
        bs[48:52] = struct.pack('<HH', 1, 6)
        self.active = rng.randrange(g.nfats)
        if self.active or rng.random() < 0.5:
            bs[40:42] = struct.pack('<H', 0x80 | self.active)
        bs[510:512] = b'\x55\xaa'
        self.offset = rng.choice([0, 512 * 63, 1 << 20, (1 << 32) + 512])
        f = parts.Far(self.offset + g.size + rng.choice([0, 4096]))
        f.put(self.offset, bs)
        base = self.offset + (g.rsvd + self.active * g.fatsz) * g.bps
        f.put(base, struct.pack('<LL', 0x0FFFFFF8, self.top))
        for c, v in self.fat.items():
            f.put(base + 4 * c, struct.pack('<L', v | rng.getrandbits(4) << 28))
        for c, b in self.data.items():
            f.put(self.offset + g.data_off + (c - 2) * g.cs, b)
        return f


def far_geometry(rng):
    bps = rng.choice([512, 512, 4096])
    spc = rng.choice([8, 16, 64, 128]) if bps == 512 else rng.choice([1, 4, 8])
    limit = ((1 << 32) - (1 << 22)) // spc
    n = min(rng.choice([(1 << 20) + rng.randint(0, 9999), (1 << 23) + rng.randint(0, 9999), (1 << 27) + rng.randint(0, 9999), 0x0FFFFFF5 - 2]), limit)
    if rng.random() < 0.1:
        n = 0x0FFFFFF5 - 2
    return Geometry(32, bps, spc, rng.choice([2, 32, 9]), rng.choice([1, 2, 2, 3]), 0, n)
