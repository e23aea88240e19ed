"""C12: shadow copies equal the volume at snapshot time."""
import os, stat, uuid
from lib.harness import clip
from lib import ntfs, vssgen, cli
from lib.vssgen import BS
from dfir_ntfs import ShadowCopy as SC

PROPERTY = 'C12'
RULE = ('each case runs a history of snapshots, writes, block moves (forwarders), writes into a snapshot (overlays), deletions and ignored or replaced table entries in a copy-on-write simulator which records the content of the volume at every snapshot, '
        'leaves the on-disk structures (catalog, block tables, bitmaps, previous bitmaps; on the volume itself or on a second one) in a sparse image and compares the listing and every read of every shadow copy with the recorded content. '
        'Ranges are read whole, in parts and through random seek/tell/read histories, and through the operations of the mounted file system (with and without the alternate fill). Distinct = distinct histories.')
REQUIRED = ['snapshots', 'regular_entries', 'forwarders', 'forward_chains', 'forward_targets_overwritten', 'overlays', 'ignored_entries', 'replaced_entries', 'writes_to_unused', 'previous_bitmaps', 'stale_tails', 'table_chains',
            'catalog_chains', 'blocks_compared', 'op_reads', 'two_volumes', 'partial_tail', 'unused_zero', 'unused_live', 'at_offset', 'end_of_volume', 'negative_seek', 'refused', 'bitmap_chunks', 'resized', 'listing', 'mounted', 'mounted_alt', 'mounted_two', 'mounted_reads', 'empty_patterns', 'original_patterns', 'stored_parts', 'full_tables']
ASSUMPTIONS = ['Blocks that were unused at snapshot time and that newer stores mention are not judged (the volume held no data there).', 'llfuse is replaced by a stand-in that calls the file system operations.']


def parsers(rng, mon, sim):
    off = rng.choice([0, 0, 512, 63 * 512, 1 << 20])
    soff = rng.choice([0, 0, 512, 4096])
    v, s = sim.files(off, soff)
    size = rng.choice([None, sim.size])
    if off:
        mon.count('at_offset')
    if sim.two:
        mon.count('two_volumes')
        p = SC.ShadowParserTwoVolumes(v, s, off, size, soff)
    else:
        p = SC.ShadowParser(v, off, size)
    return p, v, s, size


def check_listing(mon, sim, p):
    got = list(p.shadows())
    mon.equal([(x.stack_position, x.store_guid, x.volume_size) for x in got], [(s.pos, s.guid, s.size) for s in sim.order], 'listing')
    for x, s in zip(got, sim.order):
        mon.check(ntfs.instant_ok(x.timestamp, s.time), 'snapshot-time', lambda: '%r for %d' % (x.timestamp, s.time))
        mon.count('listing')


def check_block(mon, sim, k, b, data, ctx, lo=0):
    """data = what was read from byte lo of block b."""
    parts = sim.expect(k, b)
    for i in range(32):
        want = parts[i]
        if want is None:
            continue
        a = i * 512 - lo
        piece = data[max(0, a):max(0, a + 512)]
        if not piece:
            continue
        w = want[max(0, -a):]
        w = w[:len(piece)]
        if piece != w:
            s = sim.stores[k]
            mon.fail('snapshot-content', 'store %d of %d, block %d part %d: got %s, expected %s; unused=%s done=%s overlay=%s target=%s; history %s; %s'
                     % (k, len(sim.stores), b, i, clip(piece[:24]), clip(w[:24]), b in s.unused, b in s.done, b in s.overlays, b in s.ever_targets, clip(' '.join(sim.history), 700), ctx))
    if parts[0] is not None and b in sim.stores[k].unused:
        mon.count('unused_zero' if sim.stores[k].flag400 else 'unused_live')
    mon.count('blocks_compared')
    mon.count('checks')


def check_store(rng, mon, sim, p, k, size, ctx):
    s = sim.stores[k]
    p.select_shadow(s.guid if rng.random() < 0.5 else s.pos)
    vs = s.size if size is None else min(s.size, size)
    mon.equal(p.current_volume_size, s.size, 'snapshot-size', ctx)
    mon.equal([tuple(x) for x in p.current_location_description_items], s.locs, 'location-items', ctx)
    mon.equal(p.current_application_information, s.app, 'application-information', ctx)
    mon.equal(p.tell(), 0, 'initial-position', ctx)
    blocks = list(sim.hot) + [b + 1 for b in sim.hot[:3]] + [sim.catalog_at, sim.store_lo + 3000, sim.total - 1]
    rng.shuffle(blocks)
    for b in blocks:
        if b >= sim.total or b * BS >= vs:
            continue
        n = min(BS, vs - b * BS)
        mon.equal(p.seek(b * BS), b * BS, 'seek-result', ctx)
        data = p.read(n)
        mon.equal(len(data), n, 'read-length', '%s block %d' % (ctx, b))
        mon.equal(p.tell(), b * BS + n, 'position-after-read', ctx)
        check_block(mon, sim, k, b, data, ctx)
    # Histories of seek, tell and read.
    pos = 0
    p.seek(0)
    for __ in range(25):
        op = rng.choice(['read', 'read', 'read', 'seek0', 'seek0', 'seek1', 'seek2', 'tell', 'neg'])
        if op == 'tell':
            mon.equal(p.tell(), pos, 'tell', ctx)
        elif op == 'seek0':
            pos = rng.choice([rng.choice(sim.hot) * BS + rng.choice([0, 1, 511, 512, BS - 1, rng.randrange(BS)]), vs, vs - 1, vs + 5, vs - 600])
            mon.equal(p.seek(pos), pos, 'seek-result', ctx)
        elif op == 'seek1':
            d = rng.choice([0, 1, 512, BS, -1, -512])
            if pos + d < 0:
                continue
            pos += d
            mon.equal(p.seek(d, 1), pos, 'seek-result', ctx)
        elif op == 'seek2':
            d = rng.choice([0, -1, -512, -BS, -BS - 1, 1])
            pos = vs + d
            mon.equal(p.seek(d, 2), pos, 'seek-end', ctx)
        elif op == 'neg':
            mon.raises((ValueError,), lambda: p.seek(-1 - pos, 1), 'negative-seek', ctx)
            mon.equal(p.tell(), pos, 'position-after-refused-seek', ctx)
            mon.count('negative_seek')
        else:
            n = rng.choice([0, 1, 511, 512, 513, BS, BS + 1, 3 * BS, rng.randrange(1, 2 * BS), -1 if vs - pos < 5 * BS else 1, None if vs - pos < 5 * BS else 7])
            want = max(0, vs - pos) if n is None or n < 0 else max(0, min(n, vs - pos))
            data = p.read(n)
            mon.equal(len(data), want, 'read-length', '%s at %d size %r of %d' % (ctx, pos, n, vs))
            q = 0
            while q < len(data):
                b, o = divmod(pos + q, BS)
                piece = data[q:q + BS - o]
                check_block(mon, sim, k, b, piece, ctx + ' read(%r) at %d' % (n, pos), o)
                q += len(piece)
            pos += want
            mon.equal(p.tell(), pos, 'position-after-read', ctx)
            mon.count('op_reads')
            if pos >= vs:
                mon.count('end_of_volume')


def run(rng, mon, sim):
    p, v, s, size = parsers(rng, mon, sim)
    ctx = 'two=%s stores=%d size=%d tail=%d' % (sim.two, len(sim.stores), sim.size, sim.tail)
    if sim.tail:
        mon.count('partial_tail')
    check_listing(mon, sim, p)
    ks = list(range(len(sim.stores)))
    rng.shuffle(ks)
    for k in ks[:4]:
        check_store(rng, mon, sim, p, k, size, ctx)
    check_listing(mon, sim, p)
    for bad in (uuid.UUID(int=rng.getrandbits(128)), sim.stores[0].pos - 1, sim.stores[-1].pos + 1):
        mon.raises((SC.ShadowCopyNotFoundException,), lambda: p.select_shadow(bad), 'absent-shadow', ctx)
        mon.count('refused')
    mon.equal(v.writes + (s.writes if s else []), [], 'write-attempt', ctx)
    if sim.two:
        q = SC.ShadowParser(v, v.offset)
        mon.raises((NotImplementedError,), lambda: q.select_shadow(sim.stores[0].guid), 'remote-storage-local-parser', ctx)
    mon.sig(sim.two, sim.base_blocks, sim.tail, sim.history)
    mon.sample('%s: %s' % (ctx, clip(' '.join(sim.history), 300)))


def case_local(rng, mon):
    run(rng, mon, vssgen.Simulation(rng, mon, False))


def case_two(rng, mon):
    run(rng, mon, vssgen.Simulation(rng, mon, True))


def case_moves(rng, mon):
    """Few blocks, many moves and snapshots."""
    run(rng, mon, vssgen.Simulation(rng, mon, rng.random() < 0.4, hot=rng.choice([4, 5, 8]), snapshots=rng.choice([2, 3, 6]), ops=40))


def case_big(rng, mon):
    sim = vssgen.Simulation(rng, mon, rng.random() < 0.4, big=True, snapshots=rng.choice([1, 2]))
    mon.count('bitmap_chunks')
    run(rng, mon, sim)


def case_resized(rng, mon):
    """The volume has grown or shrunk since the snapshot."""
    sim = vssgen.Simulation(rng, mon, rng.random() < 0.3, snapshots=rng.choice([1, 2]), fixed_end=True)
    off = rng.choice([0, 512])
    v, s = sim.files(off, 0)
    shrink = rng.random() < 0.5
    new = sim.size - rng.choice([512, BS, 5 * BS, 5000]) // 512 * 512 if shrink else sim.size + rng.choice([512, BS, 100 * BS])
    v.size = new
    v.total = off + new
    p = SC.ShadowParserTwoVolumes(v, s, off, new, 0) if sim.two else SC.ShadowParser(v, off, new)
    for k in range(len(sim.stores)):
        check_store(rng, mon, sim, p, k, new, 'resized to %d from %d' % (new, sim.size))
    mon.count('resized')
    mon.sig('resize', new, sim.history)


def case_refuse(rng, mon):
    """No shadow copies, foreign volumes, invalid catalogs, unselected parsers."""
    sim = vssgen.Simulation(rng, mon, rng.random() < 0.3, snapshots=1, ops=3)
    v, s = sim.files(0, 0)
    mk = (lambda: SC.ShadowParserTwoVolumes(v, s)) if sim.two else (lambda: SC.ShadowParser(v))
    b = bytearray(v.blocks[0])
    kind = rng.choice(['guid', 'type', 'offsets', 'fs', 'unselected', 'wrongparser', 'catalog', 'duplicate', 'align'])
    errs = (SC.ShadowCopiesDisabledException,)
    if kind == 'guid':
        b[7680 + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif kind == 'type':
        b[7700] = rng.choice([0, 2, 3])
    elif kind == 'offsets':
        b[rng.choice([7704, 7712, 7720])] ^= rng.randint(1, 255)
    elif kind == 'fs':
        b[3:7] = rng.choice([b'FAT ', b'\x00' * 4, b'ntfs'])
        errs = (SC.InvalidVolume,)
    elif kind == 'align':
        b[7728] = 1
        errs = (SC.ShadowCopyException,)
    if kind in ('guid', 'type', 'offsets', 'fs', 'align'):
        v.blocks[0] = bytes(b)
        mon.raises(errs, mk, 'start-block-' + kind)
    elif kind == 'unselected':
        p = mk()
        for f in (lambda: p.read(1), lambda: p.seek(0), lambda: p.tell(), lambda: p.translate_exact_offset(0)):
            mon.raises((ValueError,), f, 'unselected')
    elif kind == 'wrongparser':
        if sim.two:
            q = SC.ShadowParser(v)
            mon.raises((NotImplementedError,), lambda: q.select_shadow(sim.stores[0].pos), 'wrong-parser')
        else:
            mon.raises((NotImplementedError,), lambda: SC.ShadowParserTwoVolumes(v, v), 'wrong-parser')
    elif kind == 'catalog':
        at = sim.vol_catalog_at
        c = bytearray(v.blocks[at])
        c[20] = rng.choice([1, 3, 6])
        v.blocks[at] = bytes(c)
        mon.raises((SC.ShadowCopyException,), mk, 'control-block-type')
    else:
        at = sim.vol_catalog_at
        c = bytearray(v.blocks[at])
        item = bytes(c[0x80:0x100])
        i = 0x80
        while c[i] != 0 and i < BS:
            if c[i] == 2:
                item = bytes(c[i:i + 0x80])
            i += 0x80
        if item[0] == 2 and i + 0x80 <= BS:
            c[i:i + 0x80] = item
            v.blocks[at] = bytes(c)
            p = mk()
            mon.raises((SC.ShadowCopyException,), lambda: p.select_shadow(sim.stores[0].guid), 'ambiguous-shadow')
    mon.count('refused')
    mon.sig(kind, sim.history)


EMPTY, ORIGINAL = b'EMPTY           ' * 32, b'ORIGINAL        ' * 32


def check_altfill(mon, sim, k, b, data, ctx, lo=0):
    """Alternate fill: stored data is shown as it is; the patterns stand only for null blocks and for blocks with original data."""
    parts = sim.expect(k, b)
    cur = sim.current(b)
    plain = b not in sim.stores[k].view and not sim.store_lo <= b < sim.store_lo + 4000 and b not in sim.stores[k].overlays
    for i in range(32):
        want = parts[i]
        a = i * 512 - lo
        piece = data[max(0, a):max(0, a + 512)]
        if want is None or not piece:
            continue
        cut = lambda x: x[max(0, -a):][:len(piece)]
        allowed = [want]
        if want == bytes(512):
            allowed.append(EMPTY)
        if want == cur[512 * i:512 * i + 512]:
            allowed.append(ORIGINAL)
        if plain:
            allowed = [ORIGINAL]
        if piece not in [cut(x) for x in allowed]:
            mon.fail('altfill-content', 'store %d of %d, block %d part %d: got %s, expected one of %s; %s' % (k, len(sim.stores), b, i, clip(piece[:24]), [clip(cut(x)[:24]) for x in allowed], ctx))
        if piece == cut(EMPTY):
            mon.count('empty_patterns')
        elif piece == cut(ORIGINAL):
            mon.count('original_patterns')
        else:
            mon.count('stored_parts')
    mon.count('checks')


def case_mounted(rng, mon):
    """The same content through the mounted file system (the FUSE library is replaced by a stand-in that calls the operations)."""
    fuse = cli.stub()
    sim = vssgen.Simulation(rng, mon, rng.random() < 0.35, snapshots=rng.choice([1, 2, 3]), ops=rng.choice([5, 15, 30]))
    off, soff = rng.choice([0, 512, 4096]), rng.choice([0, 512])
    v, s = sim.files(off, soff)
    k = rng.randrange(len(sim.stores))
    st = sim.stores[k]
    alt = not sim.two and rng.random() < 0.4
    seen = []

    def client(ops):
        root = fuse.ROOT_INODE
        fh = ops.opendir(root, None)
        names = list(ops.readdir(fh, 0))
        mon.equal(len(names), 1, 'mount:entries')
        name, attr, nxt = names[0]
        mon.equal(list(ops.readdir(fh, nxt)), [], 'mount:entries-after-last')
        mon.check(stat.S_ISDIR(ops.getattr(root, None).st_mode), 'mount:root')
        for a in (attr, ops.lookup(root, name, None), ops.getattr(attr.st_ino, None)):
            mon.equal((a.st_ino, a.st_size, stat.S_ISREG(a.st_mode)), (attr.st_ino, st.size, True), 'mount:attributes')
        h = ops.open(attr.st_ino, os.O_RDONLY, None)
        blocks = list(sim.hot) + [sim.catalog_at, sim.total - 1, rng.choice(sim.hot) + 1]
        for __ in range(rng.choice([6, 20])):
            b = rng.choice(blocks)
            pos = b * BS + rng.choice([0, 0, 1, 512, rng.randrange(BS)])
            if rng.random() < 0.1:
                pos = st.size - rng.choice([0, 1, 512, 600])
            n = rng.choice([1, 512, 4096, BS, BS + 1, 2 * BS])
            data = ops.read(h, pos, n)
            mon.equal(len(data), max(0, min(n, st.size - pos)), 'mount:read-length', 'at %d size %d of %d' % (pos, n, st.size))
            q = 0
            while q < len(data):
                b, o = divmod(pos + q, BS)
                piece = data[q:q + BS - o]
                (check_altfill if alt else check_block)(mon, sim, k, b, piece, 'mounted, read(%d) at %d' % (n, pos), o)
                q += len(piece)
            mon.count('mounted_reads')
        ops.release(h)
        seen.append(1)

    def opener(path, mode='r', *a, **kw):
        mon.equal(mode, 'rb', 'mount:mode')
        return {'V': v, 'S': s}[path]

    with cli.Scratch() as d:
        argv = ['--mount-altfill' if alt else '--mount', 'V', off, st.pos, d.dir] if not sim.two else ['--mount-two', 'V', 'S', off, soff, st.pos, d.dir]
        fuse.client = client
        del fuse.mounted[:]
        try:
            r = cli.run('vsc_mount', argv, extra={'open': opener}, transparent=True)
        finally:
            fuse.client = None
    mon.check(r.error is None and seen, 'mount:failed', lambda: '%s; %s' % (r.error, argv))
    mon.count('mounted_alt' if alt else 'mounted_two' if sim.two else 'mounted')
    mon.sig('mounted', alt, sim.two, sim.history)


FAMILIES = [('local', case_local, 2000, 30000), ('two', case_two, 1000, 15000), ('moves', case_moves, 1600, 25000), ('big', case_big, 80, 1000), ('resized', case_resized, 400, 5000), ('refuse', case_refuse, 400, 4000), ('mounted', case_mounted, 700, 9000)]
