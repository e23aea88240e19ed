"""C14: FAT12/16/32 volumes: the walk, chains, contents."""
import collections, warnings
from lib.harness import MonFile, clip
from lib import ntfs, fatgen
from dfir_ntfs.addons import FAT

PROPERTY = 'C14'
RULE = ('each case formats a volume (FAT type, sector/cluster size, number and activity of allocation tables, reserved sectors, edge cluster counts), fills it with a random tree of files and directories (fragmented chains, '
        'long and short names, labels, deleted entries whose clusters are free, reused or still chained) and compares the log of the walk, every file content and chain with the generated tree. Distinct = distinct volumes.')
REQUIRED = ['live_files', 'live_dirs', 'deleted_entries', 'deleted_dirs_descended', 'reused_dirs', 'orphan_dirs', 'fat12', 'fat16', 'fat32', 'active_fat_other', 'contents', 'fragmented_files', 'chains', 'at_offset', 'edge_count',
            'bad_tail', 'bad_tail_files', 'fat_elements', 'two_cluster_deleted_dir', 'next_cluster_next', 'next_cluster_other', 'next_cluster_null', 'next_cluster_notfull', 'next_cluster_taken', 'next_cluster_live',
            'renamed_dirs', 'moved_dirs', 'root_part_of_sector', 'scanned_ghost', 'scanned_reused', 'full_before_remnants', 'scanned_open', 'scanned_free', 'beyond_4g', 'long_chains', 'damaged_beyond', 'damaged_reserved', 'damaged_bad-start', 'damaged_chain-beyond', 'damaged_cut', 'damaged_loop', 'damaged_not-first', 'damaged_beyond-deleted']
ASSUMPTIONS = ['Directories hold at most what the format allows; the number of root directory entries is a multiple of 16 (other counts are refused by the reader).']


def quiet():
    warnings.simplefilter('ignore')


def compare_walk(mon, p, v, ctx, optional=(), **kw):
    log = list(p.walk(v.encoding, **kw))
    got = [tuple(e) for e in log if type(e) is FAT.FileEntry]
    mon.equal([e for e in log if type(e) is not FAT.FileEntry], [], 'walk-orphan-names', ctx)
    want = collections.Counter(v.expected)
    have = collections.Counter(e for e in got if e not in optional)
    if want != have:
        missing, extra = want - have, have - want
        mon.fail('walk-log', 'missing %s; unexpected %s; %s' % (clip(list(missing.elements())[:3], 900), clip(list(extra.elements())[:3], 900), ctx))
    mon.count('checks')


def open_volume(rng, mon, v, image=None):
    off = rng.choice([0, 0, 512, 512 * 63, 1 << 20 if len(v.image) < 1 << 20 else 512])
    data = ntfs.rnd_bytes(rng, off) + v.image + ntfs.rnd_bytes(rng, rng.choice([0, 4096]))
    if off:
        mon.count('at_offset')
    return FAT.FileSystemParser(MonFile(data), off, len(v.image) if rng.random() < 0.7 else None)


def run_volume(rng, mon, v):
    quiet()
    g = v.geo
    p = open_volume(rng, mon, v)
    ctx = 'FAT%d bps=%d spc=%d fats=%d clusters=%d' % (g.typ, g.bps, g.spc, g.nfats, g.clusters)
    mon.equal(p.fat_type, g.typ, 'fat-type', ctx)
    mon.count('fat%d' % g.typ)
    compare_walk(mon, p, v, ctx)
    for cl, size, content in v.files:
        mon.equal(p.read_chain(cl, size), content, 'file-content', ctx)
        mon.count('contents')
    # Chains and the state of single table elements.
    for a in list(v.fat)[:60]:
        mon.equal(p.fat.get_element(a), v.fat[a], 'fat-element', ctx)
        mon.equal(p.fat.is_allocated(a), True, 'allocated', ctx)
        mon.count('fat_elements')
    for a in v.free[-20:]:
        if a not in v.fat:
            mon.equal(p.fat.is_allocated(a), False, 'unallocated', ctx)
            mon.equal(p.fat.get_element(a), 0, 'fat-element-free', ctx)
    for a in (g.clusters + 2, g.clusters + 3, g.clusters + 100000):
        mon.equal(p.fat.is_allocated(a), None, 'cluster-beyond-volume', ctx)
    mon.equal(p.fat.is_allocated(g.clusters + 1), v.fat.get(g.clusters + 1, 0) != 0, 'last-cluster', ctx)
    heads = set(v.fat) - set(v.fat.values())
    for a in list(heads)[:20]:
        want, c = [a], a
        while v.fat.get(c, 0) not in (0, v.bad) and v.fat[c] < v.eoc:
            c = v.fat[c]
            want.append(c)
        if v.fat.get(c) == v.bad:
            want.append(None)
        mon.equal(p.fat.chain(a), want, 'chain', ctx)
        mon.count('chains')
        if len(want) > 1 and any(x is not None and y is not None and y != x + 1 for x, y in zip(want, want[1:])):
            mon.count('fragmented_files')
    mon.equal((p.fat.chain(0), p.fat.chain(1), p.read_chain(0)), ([], [], b''), 'empty-chain', ctx)
    if g.clusters in (4084, 4085, 4086, 65524, 65525):
        mon.count('edge_count')
    mon.sig(ctx, v.expected[:4], len(v.expected))
    mon.sample('%s: %d entries, %d files, e.g. %s' % (ctx, len(v.expected), len(v.files), clip([e[4] or e[2] for e in v.expected[:5]], 300)))
    return p, ctx


def case_volume(rng, mon):
    enc = rng.choice(['ascii', 'ascii', 'cp437', 'cp866', 'latin-1'])
    run_volume(rng, mon, fatgen.FATVolume(rng, mon, encoding=enc, maxfiles=rng.choice([3, 15, 40, 80])))


def case_scan(rng, mon):
    """Asked to look into deleted directories whose clusters are in use."""
    quiet()
    enc = rng.choice(['ascii', 'cp437'])
    v = fatgen.FATVolume(rng, mon, geo=fatgen.rnd_geometry(rng, rng.choice([12, 12, 12, 32])), encoding=enc, maxfiles=rng.choice([15, 40, 80]), scan=True)
    g = v.geo
    p = open_volume(rng, mon, v)
    ctx = 'scan_reallocated, FAT%d bps=%d spc=%d clusters=%d' % (g.typ, g.bps, g.spc, g.clusters)
    compare_walk(mon, p, v, ctx, v.optional - set(v.expected), scan_reallocated=True)
    mon.sig(ctx, v.expected[:4], len(v.expected))


def case_far(rng, mon):
    """Volumes of gigabytes and terabytes."""
    quiet()
    g = fatgen.far_geometry(rng)
    v = fatgen.FarVolume(rng, mon, geo=g, maxfiles=rng.choice([6, 12]))
    ctx = 'far FAT32 bps=%d spc=%d fats=%d clusters=%d' % (g.bps, g.spc, g.nfats, g.clusters)
    p = FAT.FileSystemParser(v.image, v.offset, g.size if rng.random() < 0.7 else None)
    mon.equal(p.fat_type, 32, 'fat-type', ctx)
    compare_walk(mon, p, v, ctx)
    for cl, size, content in v.files:
        mon.equal(p.read_chain(cl, size), content, 'file-content', ctx)
    for a in list(v.fat)[:40]:
        mon.equal((p.fat.get_element(a), p.fat.is_allocated(a)), (v.fat[a], True), 'fat-element', ctx)
    for a in v.free[-10:]:
        if a not in v.fat:
            mon.equal(p.fat.is_allocated(a), False, 'unallocated', ctx)
    mon.equal(p.fat.is_allocated(g.clusters + 2), None, 'cluster-beyond-volume', ctx)
    mon.count('far')
    if any((c - 2) * g.cs >= 1 << 32 for c in v.data):
        mon.count('beyond_4g')
    mon.sig(ctx, v.expected[:4], len(v.expected))


def case_long(rng, mon):
    """A chain of many thousand clusters."""
    quiet()
    typ = rng.choice([16, 32])
    n = rng.choice([4200, 5000, 6500, 9000])
    ids = list(range(2, n + 2))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    k = rng.randint(4100, n - 10)
    c = ids[:k]
    top = {16: 0xFFFF, 32: 0x0FFFFFFF}[typ]
    vals = dict(zip(c, c[1:] + [top]))

    class V(object):
        geo = fatgen.Geometry(typ, 512, 1, 1, 1, 16 if typ != 32 else 0, n)
    v = V()
    v.rng, v.top = rng, top
    table = fatgen.FATVolume.fat_bytes(v, vals)
    f = FAT.FAT(MonFile(table), 0, len(table), n + 1, typ)
    got = f.chain(c[0])
    if got != c:
        mon.fail('chain', 'a chain of %d clusters: got %d, FAT%d' % (len(c), len(got), typ))
    mon.count('checks')
    mon.count('long_chains')
    mon.sig(typ, c[:20], k)


def case_big(rng, mon):
    run_volume(rng, mon, fatgen.FATVolume(rng, mon, geo=fatgen.rnd_geometry(rng, rng.choice([16, 32]), big=True), maxfiles=40))


def case_chain(rng, mon):
    """Allocation tables by themselves: chains that cross sectors, end in bad, free or reserved elements, or loop."""
    quiet()
    typ = rng.choice([12, 16, 32])
    n = rng.choice([20, 340, 341, 342, 400, 700, 1500]) if typ == 12 else rng.choice([20, 128, 256, 300, 1100])
    g = fatgen.Geometry(typ, 512, 1, 1, 1, 16 if typ != 32 else 0, n)
    eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[typ]
    bad = eoc - 1
    top = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[typ]
    vals = [0] * (n + 2)
    ids = list(range(2, n + 2))
    if rng.random() < 0.7:
        rng.shuffle(ids)
    chains = []
    while ids:
        k = min(len(ids), rng.choice([1, 1, 2, 5, 40, 200]))
        c, ids = ids[:k], ids[k:]
        for a, b in zip(c, c[1:]):
            vals[a] = b
        end = rng.choice(['eoc', 'eoc', 'bad', 'free', 'one', 'loop'])
        vals[c[-1]] = {'eoc': rng.randint(eoc, top), 'bad': bad, 'free': 0, 'one': 1, 'loop': rng.choice(c)}[end]
        if end == 'bad':
            mon.count('bad_tail')
        chains.append((c, end))

    class V(object):
        pass
    v = V()
    v.geo, v.rng, v.top = g, rng, top
    table = fatgen.FATVolume.fat_bytes(v, dict((i, x) for i, x in enumerate(vals) if i > 1))
    off = rng.choice([0, 512, 4096])
    f = FAT.FAT(MonFile(ntfs.rnd_bytes(rng, off) + table), off, len(table), n + 1, typ)
    for c, end in chains:
        mon.equal(f.chain(c[0]), c + ([None] if end == 'bad' else []), 'chain', 'FAT%d end=%s' % (typ, end))
        mon.count('chains')
        k = rng.randrange(len(c))
        if end != 'loop':
            mon.equal(f.chain(c[k]), c[k:] + ([None] if end == 'bad' else []), 'chain-from-middle', 'FAT%d end=%s' % (typ, end))
    for i in range(2, n + 2):
        mon.equal((f.get_element(i), f.is_allocated(i)), (vals[i], vals[i] != 0), 'fat-element', 'FAT%d element %d' % (typ, i))
        mon.count('fat_elements')
    mon.equal(f.is_allocated(n + 2), None, 'beyond-table')
    mon.raises((FAT.FileAllocationTableException,), lambda: f.chain(bad), 'bad-start')
    mon.sig(typ, vals)


def case_deleted_dir(rng, mon):
    """A deleted directory of two adjacent free clusters, the first one full."""
    quiet()
    v = fatgen.FATVolume(rng, mon, geo=fatgen.rnd_geometry(rng, rng.choice([12, 32])), maxfiles=4)
    g = v.geo
    pair = None
    fs = set(v.free) - set(v.fat)
    for c in sorted(fs):
        if c + 1 in fs:
            pair = c
            break
    if pair is None:
        return
    if g.typ != 32:
        root, rest = bytearray(v.rootbuf[:g.rootents * 32]), v.rootbuf[g.rootents * 32:]
        end = len(root)
        while end >= 32 and not any(root[end - 32:end]):
            end -= 32
        if end + 32 > g.rootents * 32:
            return
    else:
        return case_deleted_dir32(rng, mon, v, pair)
    put_deleted_dir(rng, mon, v, pair, root, end)
    v.rootbuf = bytes(root) + rest
    v.image = v.assemble(v.rootbuf)
    run_walk_only(rng, mon, v)


def put_deleted_dir(rng, mon, v, pair, root, end, before=b''):
    g = v.geo
    m = fatgen.Meta(rng, attrs=fatgen.DIR, size=0, cluster=pair, plain=True)
    raw = b'\xe5' + fatgen.rnd_short(rng, False)[1:]
    root[end:end + 32] = m.pack(raw)
    e = list(fatgen.expect(m, raw, None, True, g.typ == 32, v.encoding))
    name = '/' + e[2]
    e[2] = name
    v.expected.append(tuple(e))
    per = g.cs // 32
    kind = rng.choice(['next', 'next', 'next', 'other', 'null', 'notfull', 'taken', 'live'])
    earlier = before + bytes(root[:end])
    if kind == 'live' and any(earlier[i] == 0 for i in range(0, len(earlier), 32)):
        kind = 'next'  # There is an end mark already, an entry after it cannot be a live one.
    dm = [fatgen.Meta(rng, attrs=fatgen.DIR, size=0, cluster=x, plain=True) for x in (pair, 0)]
    body = dm[0].pack(b'.          ') + dm[1].pack(b'..         ')
    ents = [(mm, r, False) for mm, r in zip(dm, (b'.          ', b'..         '))]

    def some(n, live=False):
        out = []
        for __ in range(n):
            mm = fatgen.Meta(rng, attrs=fatgen.ARC, size=None, cluster=0, plain=True)
            r = fatgen.rnd_short(rng, False)
            out.append((mm, r if live else b'\xe5' + r[1:], not live))
        return out
    first = some(per - 2 - (1 if kind == 'notfull' else 0), kind == 'live' and rng.random() < 0.5)
    second = some(rng.randint(1, per - 1))
    pack = lambda l: b''.join(mm.pack(r) for mm, r, __ in l)
    one = body + pack(first)
    one += b'\x00' * (g.cs - len(one))
    two = pack(second)
    ents += first
    if kind == 'next':
        ents += second
    elif kind == 'other':
        # The next free cluster holds the beginning of another directory, it does not belong here.
        two = dm[0].pack(b'.          ') + dm[1].pack(b'..         ') + two[:g.cs - 64]
    elif kind == 'null':
        two = b'\x00' * 32 + two
    elif kind == 'taken':
        v.fat[pair + 1] = rng.randint(v.eoc, v.top)
    elif kind == 'live':
        # Not deleted at all: its chain is known, the remnants in the free cluster after it are not part of it.
        v.fat[pair] = rng.randint(v.eoc, v.top)
        raw = fatgen.rnd_short(rng, False)
        root[end:end + 32] = m.pack(raw)
        e = list(fatgen.expect(m, raw, None, False, g.typ == 32, v.encoding))
        name = '/' + e[2]
        e[2] = name
        v.expected[-1] = tuple(e)
    two = (two + b'\x00' * g.cs)[:g.cs]
    v.data[pair], v.data[pair + 1] = one, two
    for mm, r, d in ents:
        x = list(fatgen.expect(mm, r, None, d, g.typ == 32, v.encoding))
        x[2] = name + '/' + x[2]
        v.expected.append(tuple(x))
    mon.count('next_cluster_' + kind)
    mon.count('two_cluster_deleted_dir')


def case_deleted_dir32(rng, mon, v, pair):
    g = v.geo
    rc = v.root_cluster
    b = bytearray(v.data[rc])
    c = rc
    before = b''
    while v.fat[c] < v.eoc and v.fat[c] != v.bad:
        before += v.data[c]
        c = v.fat[c]
    b = bytearray(v.data[c])
    end = len(b)
    while end >= 32 and not any(b[end - 32:end]):
        end -= 32
    if end + 32 > len(b):
        return
    put_deleted_dir(rng, mon, v, pair, b, end, before)
    v.data[c] = bytes(b)
    v.image = v.assemble(v.rootbuf)
    run_walk_only(rng, mon, v)


def run_walk_only(rng, mon, v):
    p = open_volume(rng, mon, v)
    compare_walk(mon, p, v, 'deleted directory of two clusters, FAT%d cs=%d' % (v.geo.typ, v.geo.cs))
    mon.sig('two', v.expected[-3:])


def case_damaged_dir(rng, mon):
    """A directory that cannot be read hides nothing but its own content."""
    quiet()
    v = fatgen.FATVolume(rng, mon, geo=fatgen.rnd_geometry(rng, rng.choice([12, 32, 16] if rng.random() < 0.1 else [12, 32])), maxfiles=6)
    g = v.geo
    fs = sorted(set(v.free) - set(v.fat))
    if not fs:
        return
    before, c = b'', None
    if g.typ != 32:
        root = bytearray(v.rootbuf)[:g.rootents * 32]
    else:
        c = v.root_cluster
        while v.fat[c] < v.eoc and v.fat[c] != v.bad:
            before += v.data[c]
            c = v.fat[c]
        root = bytearray(v.data[c])
    end = len(root)
    while end >= 32 and not any(root[end - 32:end]):
        end -= 32
    if end + 64 > len(root):
        return
    earlier = before + bytes(root[:end])
    live = not any(earlier[i] == 0 for i in range(0, len(earlier), 32)) and rng.random() < 0.7
    kind = rng.choice(['beyond', 'beyond', 'reserved', 'bad-start', 'chain-beyond', 'cut', 'loop', 'not-first'])
    last = g.clusters + 1
    cl = fs[-1] if kind == 'cut' else rng.choice(fs)
    if kind == 'beyond':
        cl = min(last + rng.choice([1, 2, 50]), {12: 0xFEF, 16: 0xFFEF, 32: 0x0FFFFFEF}[g.typ])
        if cl <= last:
            return
    elif kind == 'reserved':
        cl = 1
    elif kind == 'bad-start':
        cl = v.bad
        if cl <= last:
            return
    elif kind == 'chain-beyond':
        if last + 1 >= v.bad:
            return
        v.fat[cl] = last + 1
        if not live:
            kind = 'beyond-deleted'
    elif kind == 'loop':
        if g.typ != 32:
            return
        cl = v.root_cluster
    elif kind == 'not-first':
        # The cluster of a deleted directory holds something else now.
        live = False
        v.data[cl] = bytes([rng.choice([0x2E, 0x41])]) + ntfs.rnd_bytes(rng, 31) + b'\x41' + ntfs.rnd_bytes(rng, 10) + b'\x20' + ntfs.rnd_bytes(rng, g.cs - 44)
    else:
        if cl != last:
            return
        if live:
            v.fat[cl] = rng.randint(v.eoc, v.top)
    exp = []
    for i, (attrs, cluster) in enumerate(((fatgen.DIR, cl), (fatgen.ARC, 0))):
        m = fatgen.Meta(rng, attrs=attrs, size=0, cluster=cluster, plain=True)
        raw = fatgen.rnd_short(rng, False)
        if not live:
            raw = b'\xe5' + raw[1:]
        root[end:end + 32] = m.pack(raw)
        end += 32
        e = list(fatgen.expect(m, raw, None, not live, g.typ == 32, v.encoding))
        e[2] = '/' + e[2]
        exp.append(tuple(e))
    optional = exp[:1] if kind == 'loop' else []
    v.expected += exp[1:] if kind == 'loop' else exp
    if g.typ == 32:
        v.data[c] = bytes(root)
    else:
        v.rootbuf = bytes(root)
    if kind in ('chain-beyond', 'beyond-deleted'):
        v.data[cl] = b'\x00' * g.cs
    image = v.assemble(v.rootbuf)
    if kind == 'cut':
        image = image[:g.data_off + (cl - 2) * g.cs + rng.choice([0, 1, g.cs - 1])]
    p = FAT.FileSystemParser(MonFile(image), 0, len(image) if rng.random() < 0.5 else None)
    compare_walk(mon, p, v, 'damaged directory (%s, %s), FAT%d cs=%d' % (kind, 'live' if live else 'deleted', g.typ, g.cs), optional)
    mon.count('damaged_dir')
    mon.count('damaged_' + kind)
    mon.sig('damaged', kind, exp)


FAMILIES = [('volume', case_volume, 4000, 60000), ('chain', case_chain, 2500, 40000), ('deleted_dir', case_deleted_dir, 2000, 30000), ('damaged_dir', case_damaged_dir, 3000, 40000), ('big', case_big, 40, 500), ('scan', case_scan, 1500, 20000), ('far', case_far, 150, 3000), ('long', case_long, 12, 120)]
