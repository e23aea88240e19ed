"""C16: exFAT volumes: the walk, chained and contiguous contents, the allocation state."""
import collections
from lib.harness import MonFile, clip
from lib import ntfs, exfatgen as X
from dfir_ntfs.addons import exFAT

PROPERTY = 'C16'
RULE = ('each case formats an exFAT volume (sector and cluster size, number and activity of allocation tables and bitmaps, edge cluster counts, heap alignment), fills it with a random tree (chained and contiguous files and directories, '
        'names of 1 to 255 UTF-16 units, vendor entries, labels, deleted sets whose clusters are free, reused or still allocated) and compares the log of the walk, every file content and the allocation state of every cluster with the generated volume. '
        'Distinct = distinct volumes.')
REQUIRED = ['live_files', 'live_dirs', 'deleted_entries', 'deleted_dirs_descended', 'reused_dirs', 'orphan_dirs', 'contiguous_files', 'chained_files', 'contents', 'clusters_compared', 'second_fat', 'labels', 'bps_512', 'bps_4096', 'at_offset',
            'chains', 'bad_tail', 'bad_tail_files', 'small_table', 'grown_before_deletion', 'backup_used', 'big_heap_offset', 'same_cluster_twice', 'odd_dir_size', 'damaged_beyond', 'damaged_reserved', 'damaged_bad-start', 'damaged_chain-beyond', 'damaged_empty', 'damaged_loop', 'cut_judged', 'loops', 'orphan_names', 'renamed_dirs', 'moved_dirs', 'beyond_4g', 'long_chains', 'short_directories']
ASSUMPTIONS = ['A deleted directory is a candidate for descent when its first cluster is free; its further clusters have not been reused in the generated histories.']


def open_volume(rng, mon, image):
    off = rng.choice([0, 0, 512, 512 * 63, 4096])
    data = ntfs.rnd_bytes(rng, off) + image + ntfs.rnd_bytes(rng, rng.choice([0, 4096]))
    if off:
        mon.count('at_offset')
    return exFAT.FileSystemParser(MonFile(data), off, len(image) if rng.random() < 0.7 else None)


def compare_walk(mon, p, expected, label, ctx, orphans=(), optional=(), **kw):
    log = list(p.walk(**kw))
    got = [tuple(e) for e in log if type(e) is exFAT.FileEntry]
    names = [e.name_partial for e in log if type(e) is exFAT.OrphanEntry]
    labels = [e.volume_label for e in log if type(e) is exFAT.VolumeLabelEntry]
    mon.equal(len(got) + len(names) + len(labels), len(log), 'walk-unknown-items', ctx)
    mon.equal(sorted(names), sorted(orphans), 'walk-orphan-names', ctx)
    mon.equal(labels, [label] if label else [], 'walk-label', ctx)
    if label:
        mon.count('labels')
    want, have = collections.Counter(expected), collections.Counter(e for e in got if e not in optional)
    if want != have:
        missing, extra = want - have, have - want
        mon.fail('walk-log', 'missing %s; unexpected %s; %s' % (clip(list(missing.elements())[:3], 900), clip(list(extra.elements())[:3], 900), ctx))
    mon.count('checks')


def describe(g):
    return 'bps=%d spc=%d fats=%d active=%d clusters=%d heap=%d' % (g.bps, g.spc, g.nfats, g.active, g.count, g.heap)


def case_volume(rng, mon):
    v = X.Volume(rng, mon, maxfiles=rng.choice([3, 15, 40, 80]))
    g = v.g
    ctx = describe(g)
    image = v.image
    if g.bps in (512, 4096) and rng.random() < 0.15:
        image = ntfs.rnd_bytes(rng, 512) + image[512:]
        mon.count('backup_used')
    p = open_volume(rng, mon, image)
    mon.equal(p.backup_used, image is not v.image, 'backup-used', ctx)
    mon.equal(p.cluster_size, g.cs, 'cluster-size', ctx)
    mon.count('bps_%d' % g.bps)
    if g.active:
        mon.count('second_fat')
    if g.active and g.fatlen == 1:
        mon.count('small_table')
    if g.heap > g.count * g.spc:
        mon.count('big_heap_offset')
    compare_walk(mon, p, v.expected, v.label, ctx, v.names)
    compare_walk(mon, p, v.expected_scan, v.label, ctx + ' scan_reallocated', v.names_scan, v.optional - set(v.expected_scan), scan_reallocated=True)
    mon.count('orphan_names', len(v.names))
    for cl, size, nofat, content in v.files:
        mon.equal(p.read_chain(cl, size, nofat), content, 'file-content', '%s nofat=%s' % (ctx, nofat))
        mon.count('contents')
    for c in range(2, g.count + 2):
        mon.equal(p.bm.is_allocated(c), c in v.alloc, 'allocation-state', '%s cluster %d' % (ctx, c))
    mon.count('clusters_compared', g.count)
    for c in (0, 1, g.count + 2, g.count + 3, 0xFFFFFFFF):
        mon.equal(p.bm.is_allocated(c), None, 'cluster-beyond-volume', '%s cluster %d' % (ctx, c))
    mon.equal((p.read_chain(0), p.read_chain(1), p.read_chain(0, 0, True), p.read_chain(0, 100, True)), (b'',) * 4, 'empty-chain', ctx)
    # Any prefix of a chained or contiguous object.
    for cl, size, nofat, content in v.files[:5]:
        k = rng.randint(0, size)
        mon.equal(p.read_chain(cl, k, nofat), content[:k], 'prefix-content', ctx)
        if not nofat and cl:
            b = p.read_chain(cl)
            mon.equal((len(b), b[:size]), (-(-size // g.cs) * g.cs, content), 'whole-chain', ctx)
    mon.sig(ctx, v.expected[:4], len(v.expected))
    mon.sample('%s: %d entries, %d files, e.g. %s' % (ctx, len(v.expected), len(v.files), clip([e[2] for e in v.expected[:5]], 300)))


def case_far(rng, mon):
    """Volumes of gigabytes and terabytes."""
    g = X.FarGeometry(rng)
    v = X.FarVolume(rng, mon, geo=g, maxfiles=rng.choice([6, 12]))
    ctx = 'far ' + describe(g)
    p = exFAT.FileSystemParser(v.image, v.offset, g.size if rng.random() < 0.7 else None)
    compare_walk(mon, p, v.expected, v.label, ctx, v.names)
    for cl, size, nofat, content in v.files:
        mon.equal(p.read_chain(cl, size, nofat), content, 'file-content', '%s nofat=%s' % (ctx, nofat))
    for c in list(v.alloc)[:40] + v.free[:40]:
        mon.equal(p.bm.is_allocated(c), c in v.alloc, 'allocation-state', '%s cluster %d' % (ctx, c))
    for c in (0, 1, g.count + 2, 0xFFFFFFFF):
        mon.equal(p.bm.is_allocated(c), None, 'cluster-beyond-volume', '%s cluster %d' % (ctx, c))
    if any(g.off(c) >= 1 << 32 for c in v.data):
        mon.count('beyond_4g')
    mon.sig(ctx, v.expected[:4], len(v.expected))


def case_long(rng, mon):
    """A chain of many thousand clusters."""
    n = rng.choice([4200, 5000, 6500, 9000])
    ids = list(range(2, n + 2))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    c = ids[:rng.randint(4100, n - 10)]
    vals = [0xFFFFFFF8, X.EOC] + [0] * n
    for a, b in zip(c, c[1:] + [X.EOC]):
        vals[a] = b
    tab = b''.join(x.to_bytes(4, 'little') for x in vals)
    tab += b'\x00' * (-len(tab) % 512)
    f = exFAT.FAT(MonFile(tab), 0, len(tab), n + 1)
    got = f.chain(c[0])
    if got != c:
        mon.fail('chain', 'a chain of %d clusters: got %d' % (len(c), len(got)))
    mon.count('checks')
    mon.count('long_chains')
    mon.sig(c[:20], len(c))


def case_chain(rng, mon):
    n = rng.choice([20, 126, 127, 128, 300, 1100])
    vals = [0xFFFFFFF8, X.EOC] + [0] * n
    ids = list(range(2, n + 2))
    if rng.random() < 0.7:
        rng.shuffle(ids)
    chains = []
    while ids:
        k = min(len(ids), rng.choice([1, 1, 2, 5, 40, 200]))
        c, ids = ids[:k], ids[k:]
        for a, b in zip(c, c[1:]):
            vals[a] = b
        end = rng.choice(['eoc', 'eoc', 'bad', 'free', 'one', 'loop'])
        vals[c[-1]] = {'eoc': X.EOC, 'bad': X.BAD, 'free': 0, 'one': 1, 'loop': rng.choice(c)}[end]
        if end == 'bad':
            mon.count('bad_tail')
        if end == 'loop':
            mon.count('loops')
        chains.append((c, end))
    tab = b''.join(x.to_bytes(4, 'little') for x in vals)
    tab += ntfs.rnd_bytes(rng, -len(tab) % 512)
    off = rng.choice([0, 512, 4096])
    f = exFAT.FAT(MonFile(ntfs.rnd_bytes(rng, off) + tab), off, len(tab), n + 1)
    for c, end in chains:
        mon.equal(f.chain(c[0]), c + ([None] if end == 'bad' else []), 'chain', end)
        mon.count('chains')
        k = rng.randrange(len(c))
        if end != 'loop':
            mon.equal(f.chain(c[k]), c[k:] + ([None] if end == 'bad' else []), 'chain-from-middle', end)
    for i in range(n + 2):
        mon.equal(f.get_element(i), vals[i], 'fat-element', i)
    for i in (n + 2, n + 3, 1 << 20):
        mon.raises((exFAT.FileAllocationTableException,), lambda: f.get_element(i), 'element-beyond-table')
    mon.raises((exFAT.FileAllocationTableException,), lambda: f.chain(X.BAD), 'bad-start')
    # A bitmap by itself.
    bits = ntfs.rnd_bytes(rng, -(-n // 8) + rng.choice([0, 1, 512]))
    bm = exFAT.Bitmap(bits, n + 1)
    for i in range(2, n + 2):
        mon.equal(bm.is_allocated(i), bool(bits[(i - 2) // 8] & (1 << ((i - 2) % 8))), 'bitmap-bit', i)
    mon.count('clusters_compared', n)
    mon.sig(vals)


def add_to_root(v, raw):
    """Append raw entries to the root directory (False if there is no room)."""
    g = v.g
    buf = bytearray(b''.join(v.data[c] for c in v.root_clusters))
    end = len(buf)
    while end >= 32 and not any(buf[end - 32:end]):
        end -= 32
    if end + len(raw) > len(buf):
        return False
    buf[end:end + len(raw)] = raw
    v.store(v.root_clusters, bytes(buf))
    return True


def case_reallocated(rng, mon):
    """Several deleted directories that once owned the same, still allocated, cluster; directories with unusable sizes."""
    v = X.Volume(rng, mon, maxfiles=6)
    g = v.g
    ctx = describe(g)
    c = v.take(2, False)
    if c is None:
        return
    optional = []
    kind = rng.choice(['twice', 'twice', 'odd', 'damaged', 'damaged'])
    if kind == 'twice':
        child = X.Meta(rng)
        cname = X.rnd_name(rng, 20)
        inner = X.delete(X.entry_set(rng, child, cname))
        v.store(c[:1], inner + b'\x00' * (g.cs - len(inner)))
        v.alloc.add(c[0])
        v.fat[c[0]] = X.EOC
        raw = b''
        exp = []
        grown = rng.random() < 0.5
        if grown:
            # The directory had one cluster when it was moved away and two, not adjacent in general, when it was deleted.
            v.fat[c[0]] = c[1]
            v.fat[c[1]] = X.EOC
            v.alloc.add(c[1])
            v.store(c[:1], inner + (b'\x05\x01' + b'\x00' * 30) * (g.cs // 32 - len(inner) // 32))
            child2 = X.Meta(rng)
            cname2 = X.rnd_name(rng, 20)
            inner2 = X.delete(X.entry_set(rng, child2, cname2))
            v.store(c[1:2], inner2 + b'\x00' * (g.cs - len(inner2)))
        order = rng.sample([0, 1, 2], rng.choice([2, 2, 3]))
        for k in order:
            m = X.Meta(rng, True, cluster=c[0], size=g.cs)
            if grown:
                m.mt = ((20 + 10 * k) << 25) | (1 << 21) | (1 << 16) | rng.randint(0, 23) << 11
                m.nofat = k != max(order)
                m.size = m.vdl = g.cs * (2 if k == max(order) else 1)
            else:
                if rng.random() < 0.5:
                    m.mt = rng.choice([0, X.rnd_ts(rng), X.rnd_ts(rng)])
                m.nofat = rng.random() < 0.5
            name = X.rnd_name(rng, 15)
            raw += X.delete(X.entry_set(rng, m, name))
            exp.append(m.expect('/' + name, True))
        if not add_to_root(v, raw):
            return
        exp.append(child.expect('<Orphan directory %d>/%s' % (c[0], cname), True))
        if grown:
            exp.append(child2.expect('<Orphan directory %d>/%s' % (c[0], cname2), True))
            mon.count('grown_before_deletion')
        v.expected += exp
        mon.count('same_cluster_twice')
    elif kind == 'damaged':
        # A directory that cannot be read, or is empty, hides nothing but its own content.
        last = g.count + 1
        how = rng.choice(['beyond', 'reserved', 'bad-start', 'chain-beyond', 'empty', 'cut', 'loop'])
        first = {'beyond': last + rng.choice([1, 2, 1000]), 'reserved': 1, 'bad-start': X.BAD, 'cut': last, 'loop': v.root_clusters[0]}.get(how, c[0])
        deleted = rng.random() < 0.4
        m = X.Meta(rng, True, cluster=first, size=g.cs)
        m.nofat = how in ('beyond', 'cut') and rng.random() < 0.5
        if how == 'empty':
            m.size = m.vdl = 0
            m.nofat = rng.random() < 0.5
        v.data[c[0]] = b'\x00' * g.cs
        if how == 'cut':
            if last not in v.free and last not in c:
                return
        elif how == 'chain-beyond':
            m.size = 2 * g.cs
            v.fat[c[0]] = last + rng.choice([1, 5, 1 << 24])
        if first <= last and not deleted:
            v.alloc.add(first)
        if how in ('empty', 'cut'):
            v.fat[first] = X.EOC
        name, name2 = X.rnd_name(rng, 10), X.rnd_name(rng, 10)
        m2 = X.Meta(rng)
        raw = X.entry_set(rng, m, name)
        if deleted:
            raw = X.delete(raw)
        if not add_to_root(v, raw + X.entry_set(rng, m2, name2)):
            return
        v.expected += [m.expect('/' + name, deleted)] * (how != 'loop') + [m2.expect('/' + name2, False)]
        optional = [m.expect('/' + name, deleted)] if how == 'loop' else []
        mon.count('damaged_' + how)
        if how == 'cut':
            v.assemble()
            v.image = v.image[:g.off(last) + rng.choice([0, 1, g.cs - 1])]
            if len(v.image) < 1 << 20:
                return
            p = exFAT.FileSystemParser(MonFile(v.image), 0, len(v.image) if rng.random() < 0.5 else None)
            compare_walk(mon, p, v.expected, v.label, ctx + ' cut', v.names)
            mon.sig(kind, v.expected[-3:])
            mon.count('cut_judged')
            return
        kind = how
    else:
        # A directory whose stored size is not a whole number of sectors; the entries after it must still be reported.
        m = X.Meta(rng, True, cluster=c[0], size=rng.choice([1, 100, 511, 513, g.cs - 1]))
        m.nofat = True
        name, name2 = X.rnd_name(rng, 10), X.rnd_name(rng, 10)
        m2 = X.Meta(rng)
        deleted = rng.random() < 0.5
        raw = X.entry_set(rng, m, name)
        if deleted:
            raw = X.delete(raw)
        raw += X.entry_set(rng, m2, name2)
        if not add_to_root(v, raw):
            return
        if not deleted:
            v.alloc.add(c[0])
        v.data[c[0]] = b'\x00' * g.cs
        v.data[c[1]] = b'\x00' * g.cs
        v.expected += [m.expect('/' + name, deleted), m2.expect('/' + name2, False)]
        mon.count('odd_dir_size')
    v.assemble()
    p = open_volume(rng, mon, v.image)
    compare_walk(mon, p, v.expected, v.label, ctx + ' ' + kind, v.names, optional)
    mon.sig(kind, v.expected[-3:])


FAMILIES = [('volume', case_volume, 1600, 25000), ('chain', case_chain, 1200, 20000), ('reallocated', case_reallocated, 1000, 12000), ('far', case_far, 60, 1000), ('long', case_long, 12, 120)]
