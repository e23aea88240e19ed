"""C23: results do not depend on where a volume lies."""
import warnings, struct, zlib
from lib.harness import clip
from lib import ntfs, fatgen, exfatgen, vssgen, volgen, mftgen
from lib.volgen import Pieces
from dfir_ntfs import MFT, ShadowCopy as SC
from dfir_ntfs.addons import FAT, exFAT

PROPERTY = 'C23'
RULE = ('each case generates a volume (FAT12/16/32, exFAT, NTFS with a fragmented table and a large directory index, a volume with shadow copies on itself or on a second volume), intact or damaged in random bytes, and records everything the parsers report (entries, contents, records, attributes, index entries, '
        'every block of every shadow copy, raised errors) when it is alone at offset 0 and when it lies at other offsets (from one sector to terabytes) among other bytes. The logs must be equal although the surrounding bytes differ (random, or copies of the volume itself); the file object counts accesses and refuses writes. Distinct = distinct volume and offset pairs.')
REQUIRED = ['fat', 'exfat', 'ntfs', 'index', 'vss', 'vss_two', 'damaged', 'offsets', 'far_offset', 'unaligned_to_4096', 'entries_compared', 'reads_monitored', 'sized', 'unsized', 'hostile_surroundings', 'fragmented_file', 'attribute_list']
ASSUMPTIONS = ['For damaged volumes, references that leave the volume see the same following bytes in both placements (the extent is unknown to the parser unless a size was given).']

OFFSETS = [512, 1024, 63 * 512, 4096, 12 * 512, 12 * 4096, 7680, 0x4000, 1 << 20, 1 << 20, (1 << 32) + 512, 5 << 40]


def pick_offset(rng, mon):
    o = rng.choice(OFFSETS + [rng.randrange(1, 1 << 25) * 512])
    mon.count('offsets')
    if o > 1 << 31:
        mon.count('far_offset')
    if o % 4096:
        mon.count('unaligned_to_4096')
    return o


class Surrounded(Pieces):
    """Surroundings that look like volumes of their own."""

    def __init__(self, image, offset, after, before=b''):
        Pieces.__init__(self, len(image), offset, len(after))
        self.image, self.tail, self.before = image, after, before

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.total - self.pos
        n = max(0, min(n, self.total - self.pos))
        lo, hi = self.pos, self.pos + n
        self.reads += 1
        self.pos = hi
        if not n:
            return b''
        if lo < self.offset or hi > self.offset + self.size:
            self.outside.append((lo - self.offset, n))
        out = []
        if lo < self.offset:
            k = min(hi, self.offset) - lo
            b = (self.before * (k // len(self.before) + 2)) if self.before else b'\x39' * k
            out.append(b[:k])
        a, b = max(lo - self.offset, 0), max(hi - self.offset, 0)
        out.append(self.image[a:b])
        a, b = max(lo - self.offset - self.size, 0), max(hi - self.offset - self.size, 0)
        out.append(self.tail[a:b])
        return b''.join(out)


def guarded(log, what, f):
    """Append the result of f or the error it raised."""
    try:
        log.append((what, f()))
    except (ArithmeticError, LookupError, ValueError, TypeError, AttributeError, NotImplementedError, struct.error, RecursionError, MemoryError) as e:
        log.append((what, 'raised', type(e).__name__))
    except Exception as e:
        if type(e).__module__.startswith('dfir_ntfs') or 'dfir_ntfs' in type(e).__module__:
            log.append((what, 'raised', type(e).__name__))
        else:
            raise


def iterate(gen, limit=4000):
    out = []
    try:
        for e in gen:
            out.append(tuple(e) if isinstance(e, tuple) else str(e))
            if len(out) >= limit:
                break
    except RecursionError:
        out.append('recursion')
    except Exception as e:
        out.append('raised ' + type(e).__name__)
    return out


def log_fat(f, off, size, extra):
    log = []
    def go():
        p = FAT.FileSystemParser(f, off, size)
        log.append((p.fat_type, p.cluster_size, p.data_area_offset))
        log.append(iterate(p.walk('cp866', False)))
        log.append(iterate(p.walk('ascii', True)))
        for c, n in extra:
            guarded(log, 'chain', lambda: p.fat.chain(c)[:2000])
            guarded(log, 'read', lambda: p.read_chain(c, n))
            guarded(log, 'element', lambda: (p.fat.get_element(c), p.fat.is_allocated(c)))
    guarded(log, 'all', go)
    return log


def log_exfat(f, off, size, extra):
    log = []
    def go():
        p = exFAT.FileSystemParser(f, off, size)
        log.append((p.backup_used, p.cluster_size, p.data_area_offset, p.last_valid_cluster))
        log.append(iterate(p.walk(False)))
        log.append(iterate(p.walk(True)))
        for c, n in extra:
            guarded(log, 'chain', lambda: p.fat.chain(c)[:2000])
            guarded(log, 'read', lambda: p.read_chain(c, n, False))
            guarded(log, 'readnofat', lambda: p.read_chain(c, min(n, 100000), True))
            guarded(log, 'bitmap', lambda: p.bm.is_allocated(c))
    guarded(log, 'all', go)
    return log


def compare(mon, a, b, what, ctx):
    if a == b:
        mon.count('checks')
        mon.count('entries_compared', sum(len(x) for x in a if isinstance(x, (list, tuple))))
        return
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    x, y = (a + [None])[i], (b + [None])[i]
    if isinstance(x, list) and isinstance(y, list):
        j = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        x, y = (x + [None])[j], (y + [None])[j]
    mon.fail('different-' + what, 'alone: %s; placed: %s; %s' % (clip(x, 400), clip(y, 400), ctx))


def damage(rng, image, spots):
    b = bytearray(image)
    for __ in range(rng.choice([1, 1, 3, 10])):
        o = rng.choice(spots)() if rng.random() < 0.8 else rng.randrange(len(b))
        if o < len(b):
            b[o] = rng.choice([0, 0xFF, b[o] ^ (1 << rng.randrange(8)), rng.randrange(256)])
    return bytes(b)


def both(rng, mon, what, image, logger, extra, damaged, ctx, before=b''):
    after = ntfs.rnd_bytes(rng, rng.choice([0, 512, 70000])) if damaged else b''
    sized = rng.random() < 0.5
    size = len(image) if sized else None
    mon.count('sized' if sized else 'unsized')
    f = Surrounded(image, 0, after)
    a = logger(f, 0, size, extra)
    for __ in range(2):
        off = pick_offset(rng, mon)
        junk = before if rng.random() < 0.5 and before else ntfs.rnd_bytes(rng, 700)
        if junk is before and before:
            mon.count('hostile_surroundings')
        post = after if damaged else rng.choice([b'', ntfs.rnd_bytes(rng, 1000), ntfs.rnd_bytes(rng, 200000), image[:100000]])
        g = Surrounded(image, off, post, junk)
        b = logger(g, off, size, extra)
        compare(mon, a, b, what, '%s at %d size %r' % (ctx, off, size))
        mon.count('outside_reads', len(g.outside))
        mon.equal(g.writes, [], 'write', ctx)
        mon.count('reads_monitored', g.reads)
        mon.sig(what, zlib.crc32(image), off, sized)
    mon.sample('%s: %d log items equal at offset %d' % (ctx, len(a), off))


def case_fat(rng, mon):
    warnings.simplefilter('ignore')
    v = fatgen.FATVolume(rng, mon, encoding='ascii')
    image = v.image
    if len(image) > 12 << 20:
        return
    dam = rng.random() < 0.4
    if dam:
        g = v.geo
        rs = g.rsvd * g.bps
        image = damage(rng, image, [lambda: rng.randrange(64), lambda: rs + rng.randrange(4096), lambda: rng.randrange(min(len(image), 1 << 20)), lambda: rs + rng.randrange(len(image) - rs)])
        mon.count('damaged')
    mon.count('fat')
    extra = [(c, n) for c, n, __ in v.files[:6]] + [(2, 3000), (v.geo.clusters + 1, 600), (v.geo.clusters + 2, 600)]
    both(rng, mon, 'fat', image, log_fat, extra, dam, 'FAT%d damaged=%s' % (v.geo.typ, dam), image[:65536])


def case_exfat(rng, mon):
    v = exfatgen.Volume(rng, mon)
    image = bytes(v.image)
    if len(image) > 12 << 20:
        return
    dam = rng.random() < 0.4
    if dam:
        image = damage(rng, image, [lambda: rng.randrange(24 * v.g.bps), lambda: rng.randrange(min(len(image), 200000)), lambda: rng.randrange(len(image))])
        mon.count('damaged')
    mon.count('exfat')
    extra = [(rng.randrange(2, v.g.count + 4), rng.randrange(1, 50000)) for __ in range(4)]
    both(rng, mon, 'exfat', image, log_exfat, extra, dam, 'exFAT damaged=%s' % dam, image[:12 * v.g.bps])


def ntfs_log(f, off, cs, entry_runs, index_size):
    log = []
    def go():
        p = MFT.FileSystemParser(f, off)
        log.append((p.file_size, p.cluster_size, list(p.data_runs)))
        log.append(('table', p.read()))
        m = MFT.MasterFileTableParser(p)
        for r in m.file_records(True):
            guarded(log, 'record', lambda: (r.get_master_file_table_number(), r.get_flags(), [mftgen.attr_obs(a) for a in r.attributes()]))
        for r in m.file_records(False):
            for a in iterate_attrs(r):
                if type(a) is MFT.AttributeRecordNonresident and a.type_code in (ntfs.IDXALLOC, ntfs.ATTRLIST):
                    guarded(log, 'decoded', lambda: decoded(a.value_decoded(f, off, cs)))
        fr = MFT.FragmentedFile(f, off, cs, entry_runs, index_size)
        guarded(log, 'stream', fr.read)
    guarded(log, 'all', go)
    return log


def iterate_attrs(r):
    try:
        for a in r.attributes():
            yield a
    except MFT.AttributeException:
        return


def decoded(x):
    if hasattr(x, 'entries'):
        return [tuple(e) for e in x.entries()]
    out = []
    for b in x.index_buffers():
        if b is None:
            out.append(None)
            continue
        out.append((b.get_this_block(), [(e.get_file_reference(), bytes(e.get_attribute() or b'')) for e in b.index_entries()], bytes(b.get_slack())))
    return out


def case_ntfs(rng, mon):
    for __ in range(60):
        geo = volgen.geometry(rng)
        if geo[0] * geo[1] > 65536:
            continue
        n = rng.choice([24, 40, 90])
        raw, slots = mftgen.build(rng, n, geo[3], damage=True)
        recs = [raw[i * geo[3]:(i + 1) * geo[3]] for i in range(n)]
        # A directory with index buffers and a file with a nonresident attribute list.
        cs = geo[0] * geo[1]
        nb = rng.choice([1, 3, 6])
        bufs = b''
        for k in range(nb):
            ents = [ntfs.index_entry(ntfs.ref(50 + i, 1), ntfs.fn_value(ntfs.ref(5, 5), ntfs.rnd_name(rng))) for i in range(rng.randint(0, 12))]
            bufs += ntfs.index_buffer(ents, size=4096, vcn=k, slack=ntfs.rnd_bytes(rng, 600))
        c = -(-len(bufs) // cs)
        base = 3000000
        runs = [(base, c)] if c < 2 else [(base + c + 3, c // 2), (base, c - c // 2)]
        al = b''.join(ntfs.attrlist_entry(ntfs.DATA, None, 0, ntfs.ref(17, 1), i) for i in range(rng.randint(1, 60)))
        alc = -(-len(al) // cs)
        alruns = [(base + 5000, alc)]
        recs[20] = ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.si_value(owner=0)), ntfs.attr_nonresident(ntfs.ATTRLIST, alruns, len(al), cluster_size=cs),
                             ntfs.attr_nonresident(ntfs.IDXALLOC, runs, len(bufs), name='$I30', cluster_size=cs)], number=20, seq=1, flags=3, size=geo[3])
        try:
            v = volgen.Volume(rng, mon, recs, geo=geo, far=False)
        except volgen.Skip:
            continue
        if 20 in [s for s, __, ___ in v.ext]:
            continue
        break
    else:
        raise RuntimeError('no volume')
    mon.count('ntfs')
    mon.count('index')
    mon.count('fragmented_file')
    mon.count('attribute_list')
    size = (base + 6000) * cs
    def fill(f):
        v.fill(f)
        pos = 0
        for lcn, k in runs:
            f.put(lcn * cs, (bufs + b'\x66' * cs)[pos:pos + k * cs])
            pos += k * cs
        f.put(alruns[0][0] * cs, (al + b'\x55' * (alc * cs))[:alc * cs])
        return f
    ctx = 'NTFS bps=%d cs=%d frs=%d runs=%d' % (v.bps, cs, v.frs, len(v.runs))
    f = fill(Pieces(size))
    a = ntfs_log(f, 0, cs, runs, len(bufs))
    mon.check(len([x for x in a if x[0] == 'decoded']) >= 2, 'nothing-decoded', ctx)
    for __ in range(2):
        off = pick_offset(rng, mon)
        g = fill(Pieces(size, off, rng.choice([0, 1 << 20]), fill=b'\xd7', junk=rng.choice([b'\x39', b'\x00', b'N'])))
        b = ntfs_log(g, off, cs, runs, len(bufs))
        compare(mon, a, b, 'ntfs', '%s at %d' % (ctx, off))
        mon.count('outside_reads', len(g.outside))
        mon.count('reads_monitored', g.reads)
        mon.sig('ntfs', v.runs, off)
    mon.sample(ctx)


def case_vss(rng, mon):
    two = rng.random() < 0.4
    sim = vssgen.Simulation(rng, mon, two, snapshots=rng.choice([1, 2, 3]))
    mon.count('vss_two' if two else 'vss')
    size = rng.choice([None, sim.size])
    blocks = sorted(set(list(sim.hot) + [sim.catalog_at, sim.total - 1, sim.total - 2, 5]))

    def go(off, soff):
        v, s = sim.files(off, soff)
        for x in (v, s):
            if x is not None:
                x.junk = ntfs.rnd_bytes(rng, 97)
                x.total += rng.choice([0, 0x4000, 1 << 20])
        log = []
        p = SC.ShadowParserTwoVolumes(v, s, off, size, soff) if two else SC.ShadowParser(v, off, size)
        log.append([tuple(x) for x in p.shadows()])
        for x in sim.stores:
            p.select_shadow(x.guid)
            log.append([tuple(i) for i in p.current_location_description_items])
            log.append(('app', p.current_application_information))
            for b in blocks:
                p.seek(b * vssgen.BS + rng.choice([0]))
                log.append(('block', b, p.read(vssgen.BS)))
        return log, v, s
    ctx = 'VSS two=%s stores=%d' % (two, len(sim.stores))
    a, v, s = go(0, 0)
    for __ in range(2):
        off, soff = pick_offset(rng, mon), pick_offset(rng, mon)
        b, v, s = go(off, soff)
        compare(mon, a, b, 'vss', '%s at %d and %d' % (ctx, off, soff))
        mon.count('outside_reads', len(v.outside))
        mon.count('reads_monitored', v.reads)
        mon.sig('vss', sim.history, off, soff)
    mon.sample(ctx)


FAMILIES = [('fat', case_fat, 350, 5000), ('exfat', case_exfat, 350, 5000), ('ntfs', case_ntfs, 400, 6000), ('vss', case_vss, 300, 5000)]
