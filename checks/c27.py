"""C27: answers depend on the input only, not on what was asked before."""
import itertools, io, types, warnings, zlib, uuid, datetime, struct, contextlib
from lib.harness import clip
from lib import ntfs, subjects, mutate, treegen, volgen, vssgen, mftgen, fatgen, exfatgen
from lib.harness import Mon
from lib.subjects import public, HEAVY
from checks import c25
from dfir_ntfs import MFT, Attributes, USN, LogFile, BootSector, ShadowCopy as SC, PartitionTable, MoveTable, WSL
from dfir_ntfs.addons import FAT, exFAT

PROPERTY = 'C27'
RULE = ('each case generates an input (MFT, NTFS, FAT or exFAT volume, journal, log, shadow copies, partition table, tracking log, memory image, file record, index, attribute value; intact or damaged), '
        'records the answer of each query on a fresh parser over a fresh file object, and then puts a random schedule of the same queries to one or two parsers sharing one file object: repeated, in any order, iterations advanced step by step in parallel, abandoned half-way, and with '
        'another user moving the position of the file between any two steps. Every finished answer must equal the fresh one and every abandoned iteration a prefix of it. Distinct = distinct (input, schedule) pairs.')
REQUIRED = ['mft', 'volume', 'index', 'usn', 'logfile', 'vss', 'fat', 'exfat', 'gpt', 'mbr', 'move', 'mem', 'value', 'frs', 'directory', 'steps', 'abandoned', 'parallel', 'moved', 'two_parsers', 'answers', 'items', 'damaged', 'raised', 'reselected', 'failed_select', 'log_modes', 'parsed_objects', 'mixed_blocks']
ASSUMPTIONS = ['Recovering log data (parse_ntfs_records with its default) is one query: the parser holds one modified copy of the log at a time, so parses of the same log parser are not run in parallel with each other.',
               'Selecting a shadow copy is meant to change what the parser reads from then on; queries state the shadow copy they select.']

PLAIN = (int, float, str, bytes, bytearray, type(None), bool, uuid.UUID, datetime.datetime, datetime.date, datetime.timedelta)


def canon(x, depth=3):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, PLAIN):
        return x
    if isinstance(x, (list, tuple)):
        return tuple(canon(e, depth) for e in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(x))
    if isinstance(x, dict):
        return tuple(sorted((k, canon(v, depth)) for k, v in x.items()))
    if isinstance(x, MFT.FragmentedFile):
        return ('file', x.file_size, canon(x.data_runs))
    if isinstance(x, types.GeneratorType):
        return tuple(steps(lambda: x, depth - 1))
    cls = type(x)
    if not cls.__module__.startswith('dfir_ntfs') or depth <= 0 or isinstance(x, HEAVY):
        return cls.__name__
    out = [cls.__name__]
    for a in ('type_code', 'name', 'value', 'data_runs', 'file_size', 'lsn', 'buf', 'volume_label'):
        if hasattr(x, a) and isinstance(getattr(x, a), PLAIN + (list, tuple)):
            out.append((a, canon(getattr(x, a))))
    for n in public(cls):
        out.append((n, ask(lambda: getattr(x, n)(), depth - 1, n)))
    return tuple(out)


def ask(f, depth=3, name=''):
    try:
        with contextlib.redirect_stdout(io.StringIO()) as o:
            r = f()
        if name == 'print_information':
            return o.getvalue()
        return canon(r, depth)
    except RecursionError:
        return ('raised', 'RecursionError')
    except Exception as e:
        return ('raised', type(e).__name__)


def steps(f, depth=3, limit=3000):
    """The canonical items of an iteration, a raised error being the last one."""
    try:
        n = 0
        for x in f():
            yield canon(x, depth)
            n += 1
            if n >= limit:
                return
    except RecursionError:
        yield ('raised', 'RecursionError')
    except Exception as e:
        yield ('raised', type(e).__name__)


class Query(object):
    """name; func(parser) -> result, or an iterator when stepped."""

    def __init__(self, name, func, stepped=False, alone=False):
        self.name, self.func, self.stepped, self.alone = name, func, stepped, alone

    def run(self, p):
        if self.stepped:
            return steps(lambda: self.func(p))
        return ask(lambda: self.func(p))


def play(rng, mon, what, make, queries, files=None, ctx='', n=None, two=True):
    """make() -> (parser, file objects). The schedule."""
    fresh = {}

    def want(i):
        if i not in fresh:
            try:
                p, __ = make()
            except Exception as e:
                return None
            r = queries[i].run(p)
            fresh[i] = list(r) if queries[i].stepped else r
            if queries[i].stepped and fresh[i] and isinstance(fresh[i][-1], tuple) and fresh[i][-1][:1] == ('raised',) or not queries[i].stepped and isinstance(r, tuple) and r[:1] == ('raised',):
                mon.count('raised')
        return fresh[i]
    try:
        p, fs = make()
    except Exception:
        mon.count('refused')
        return
    ps = [p]
    if two and rng.random() < 0.4:
        try:
            ps.append(make(fs)[0])
            mon.count('two_parsers')
        except TypeError:
            raise
    mon.count(what)
    live = []
    trace = []

    def move():
        for f in fs:
            if rng.random() < 0.7:
                f.seek(rng.choice([0, 1, 511, 4096, rng.randrange(1 << 20)]))
                mon.count('moved')

    def judge(q, got, full):
        w = fresh[q]
        if full:
            mon.count('answers')
        if got == w if full else got == w[:len(got)]:
            mon.count('checks')
            if isinstance(got, list):
                mon.count('items', len(got))
            return
        if isinstance(w, list):
            j = next((j for j, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
            a, b = (got + ['(end)'])[j], (w + ['(end)'])[j]
            a, b = differ(a, b)
            mon.fail('history-' + what, 'query %s item %d: got %s, a fresh parser gives %s; after %s; %s' % (queries[q].name, j, clip(a, 300), clip(b, 300), trace[-12:], ctx))
        a, b = differ(got, w)
        mon.fail('history-' + what, 'query %s: got %s, a fresh parser gives %s; after %s; %s' % (queries[q].name, clip(a, 300), clip(b, 300), trace[-12:], ctx))
    for __ in range(n or rng.choice([4, 8, 16, 30])):
        k = rng.random()
        if live and k < 0.6:
            s = rng.choice(live)
            for __ in range(rng.choice([1, 1, 2, 5])):
                move()
                mon.count('steps')
                try:
                    s[2].append(next(s[1]))
                except StopIteration:
                    judge(s[0], s[2], True)
                    live.remove(s)
                    break
            trace.append('+' + queries[s[0]].name)
            if s in live and rng.random() < 0.1:
                judge(s[0], s[2], False)
                s[1].close()
                live.remove(s)
                mon.count('abandoned')
        else:
            i = rng.randrange(len(queries))
            q = queries[i]
            if want(i) is None:
                continue
            target = rng.choice(ps)
            if q.alone and any(s[3] is target and queries[s[0]].alone for s in live):
                continue
            move()
            trace.append(q.name)
            if q.stepped and rng.random() < 0.8 and not q.alone:
                live.append([i, q.run(target), [], target])
                if len(live) > 1:
                    mon.count('parallel')
            else:
                r = q.run(target)
                judge(i, list(r) if q.stepped else r, True)
    for s in list(live):
        for x in s[1]:
            s[2].append(x)
            move()
        judge(s[0], s[2], True)
    mon.sig(what, ctx, tuple(trace))
    mon.sample('%s: %d queries, schedule %s' % (what, len(queries), ' '.join(trace[:8])))


def differ(a, b):
    """The first differing parts."""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
        j = next((j for j in range(len(a)) if a[j] != b[j]), None)
        if j is None:
            break
        if a[j] is a or not isinstance(a[j], tuple) or not isinstance(b[j], tuple):
            return (a[:2], a[j]), (b[:2], b[j])
        a, b = a[j], b[j]
    return a, b


def maker(image, cls, *args):
    def make(fs=None):
        fs = fs or [io.BytesIO(image)]
        return cls(fs[0], *args), fs
    return make


def spoil(rng, mon, image, p=0.3):
    if rng.random() < p:
        mon.count('damaged')
        return bytes(mutate.mutate(rng, image)[0])
    return bytes(image)


def rec(r):
    """A record with everything that can be asked of it."""
    out = [r.get_master_file_table_number(), r.get_sequence_number(), r.get_flags(), ask(r.get_data_runs), ask(r.get_data_size), ask(lambda: r.get_file_names()), ask(lambda: r.get_standard_information())]
    out.append(tuple(steps(r.attributes, 2)))
    out.append(tuple(steps(r.slack, 1)))
    return tuple(out)


def mft_queries(rng, m, image):
    n = len(image) // m.file_record_segment_size
    qs = [Query('records', lambda p: (rec(r) for r in p.file_records()), True), Query('in-use', lambda p: (rec(r) for r in p.file_records(True)), True)]
    nums = [5, 0] + [rng.randrange(max(1, n)) for __ in range(8)] + [n, n + 5]
    for i in nums:
        seq, kid, inc = rng.choice([None, None, 1, 5, 2]), rng.random() < 0.5, rng.random() < 0.5
        qs.append(Query('number(%d,%r,%r)' % (i, seq, kid), lambda p, i=i, s=seq, k=kid: rec(p.get_file_record_by_number(i, s, k))))
        qs.append(Query('paths(%d)' % i, lambda p, i=i, inc=inc: p.build_full_paths(p.get_file_record_by_number(i), inc)))
        qs.append(Query('segment(%d)' % i, lambda p, i=i: p.get_file_record_segment_by_number(i)))
    names = []
    try:
        for r in m.file_records():
            names += m.build_full_paths(r)
    except Exception:
        pass
    for p in rng.sample(names, min(len(names), 4)) + ['/', '/no/such']:
        cs = rng.random() < 0.5
        qs.append(Query('path(%s)' % p, lambda o, p=p, cs=cs: (lambda r: None if r is None else rec(r))(o.get_file_record_by_path(p, cs))))
    return qs


def case_mft(rng, mon):
    image = spoil(rng, mon, subjects.mft(rng)[0])
    try:
        m = MFT.MasterFileTableParser(io.BytesIO(image))
    except Exception:
        return
    play(rng, mon, 'mft', maker(image, MFT.MasterFileTableParser), mft_queries(rng, m, image), ctx='MFT of %d bytes %08x' % (len(image), zlib.crc32(image)))


def case_volume(rng, mon):
    image, func = subjects.volume(rng)
    off = 0 if image[3:7] == b'NTFS' else 512
    image = spoil(rng, mon, image)

    def make(fs=None):
        fs = fs or [io.BytesIO(image)]
        v = MFT.FileSystemParser(fs[0], off)
        return MFT.MasterFileTableParser(v), fs + [v]
    try:
        m, __ = make()
    except Exception:
        mon.count('refused')
        return
    qs = mft_queries(rng, m, m.file_object.read())
    qs.append(Query('table', lambda p: (p.file_object.seek(0), p.file_object.read())))
    for __ in range(4):
        a, b = rng.randrange(1, 40000), rng.randrange(1, 9000)
        qs.append(Query('bytes(%d,%d)' % (a, b), lambda p, a=a, b=b: (p.file_object.seek(a), p.file_object.read(b), p.file_object.tell())))
    cs = m.file_object.cluster_size
    streams = []
    try:
        for r in m.file_records():
            for i, a in enumerate(r.attributes()):
                if type(a) is MFT.AttributeRecordNonresident and len(streams) < 4:
                    streams.append((r.get_master_file_table_number(), i))
    except Exception:
        pass

    def stream(p, num, i, how):
        a = list(p.get_file_record_by_number(num).attributes())[i]
        v = a.value_decoded(p.file_object.volume_object, off, cs)
        if isinstance(v, Attributes.IndexAllocation):
            return [canon(b) for b in v.index_buffers()]
        if isinstance(v, MFT.FragmentedFile):
            v.seek(how)
            return v.read(2000)
        return v
    for num, i in streams:
        qs.append(Query('stream(%d,%d)' % (num, i), lambda p, num=num, i=i, h=rng.randrange(5000): stream(p, num, i, h)))

    def make2(fs=None):
        return make([fs[0]] if fs else None)
    play(rng, mon, 'volume', make2, qs, ctx='volume of %d bytes %08x' % (len(image), zlib.crc32(image)), two=True)


def case_index(rng, mon):
    """An index allocation and views of fragmented files."""
    nb, bs, cs = rng.choice([1, 2, 5]), rng.choice([1024, 4096]), rng.choice([512, 1024, 4096])
    bufs = []
    for i in range(nb):
        es = [ntfs.index_entry(rng.getrandbits(60), ntfs.fn_value(ntfs.ref(5, 5), ntfs.rnd_name(rng)[:40])) for __ in range(rng.choice([0, 1, 3]))]
        bufs.append(ntfs.index_buffer(es, size=bs, vcn=i * max(1, bs // cs), stamp=struct.pack('<H', 1 + i)))
    data = b''.join(bufs)
    data += b'\x00' * (-len(data) % cs)
    cl = len(data) // cs
    pos = list(range(cl + 6))
    rng.shuffle(pos)
    image = bytearray(ntfs.rnd_bytes(rng, len(pos) * cs))
    runs = []
    for i in range(cl):
        image[pos[i] * cs:(pos[i] + 1) * cs] = data[i * cs:(i + 1) * cs]
        runs.append((pos[i], 1))
    image = spoil(rng, mon, bytes(image), 0.2)

    def make(fs=None):
        fs = fs or [io.BytesIO(image)]
        f = MFT.FragmentedFile(fs[0], 0, cs, list(runs), len(data))
        return Attributes.IndexAllocation(f), fs
    def slack(p):
        return [(bytes(s), [canon(x, 2) for x in MFT.SlackSpace(s).carve(True)]) for s in p.get_slack()]
    qs = [Query('buffers', lambda p: p.index_buffers(), True), Query('slack', slack), Query('entries', lambda p: (e for b in p.index_buffers() for e in b.index_entries()), True),
          Query('information', lambda p: p.print_information())]
    for __ in range(4):
        a, b = rng.randrange(len(data) + 100), rng.choice([None, 1, 600, 5000])
        qs.append(Query('bytes(%d,%r)' % (a, b), lambda p, a=a, b=b: (p.fragmented_file.seek(a), p.fragmented_file.read(b), p.fragmented_file.tell())))
        qs.append(Query('end(%d)' % a, lambda p, a=a: (p.fragmented_file.seek(-min(a, len(data)), 2), p.fragmented_file.read(77))))

    def make2(fs=None):
        p, f = make([fs[0]] if fs else None)
        return p, f + [p.fragmented_file]
    play(rng, mon, 'index', make2, qs, ctx='index %d x %d, clusters of %d, %08x' % (nb, bs, cs, zlib.crc32(image)))


def case_usn(rng, mon):
    image = spoil(rng, mon, subjects.usn(rng)[0])
    qs = [Query('records', lambda p: p.usn_records(), True)]
    play(rng, mon, 'usn', maker(image, USN.ChangeJournalParser), qs, ctx='journal of %d bytes %08x' % (len(image), zlib.crc32(image)))


def first(g, n):
    """The first items of an iteration that is then abandoned."""
    res = [canon(x, 2) for x in itertools.islice(g, n)]
    g.close()
    return res


def case_log(rng, mon):
    image = spoil(rng, mon, subjects.logfile(rng)[0])
    def name(r):
        return (canon(r, 2), ask(r.calculate_mft_target_number), ask(r.calculate_offset_in_target), ask(r.calculate_mft_target_reference_and_name)) if type(r) is LogFile.NTFSLogRecord else canon(r, 2)
    qs = [Query('recovered', lambda p: [name(r) for r in list(p.parse_ntfs_records())], False, True), Query('as-is', lambda p: [name(r) for r in list(p.parse_ntfs_records(False))], False, True),
          Query('recovered-one-by-one', lambda p: [name(r) for r in p.parse_ntfs_records()], False, True),
          Query('recovered-first', lambda p: first(p.parse_ntfs_records(), 3), False, True), Query('as-is-first', lambda p: first(p.parse_ntfs_records(False), 3), False, True),
          Query('pages', lambda p: p.log_record_pages(1), True), Query('circular', lambda p: p.log_record_pages(0), True), Query('restart1', lambda p: p.restart_page_1), Query('restart2', lambda p: p.restart_page_2)]
    qs += [Query('page(%d)' % i, lambda p, i=i: p.get_log_record_page_by_number(i)) for i in (2, 3, 4, 5, rng.randrange(40))]
    mon.count('log_modes')
    play(rng, mon, 'logfile', maker(image, LogFile.LogFileParser), qs, ctx='log of %d bytes %08x' % (len(image), zlib.crc32(image)), n=rng.choice([4, 8, 12]))


class Damaged(object):
    """A volume on which one block turns into zero bytes."""

    def __init__(self, f, where):
        self.f, self.where, self.on = f, where, False

    def read(self, *a):
        at = self.f.tell()
        d = self.f.read(*a)
        return b'\x00' * len(d) if self.on and at == self.where else d

    def __getattr__(self, n):
        return getattr(self.f, n)


def case_vss(rng, mon):
    sim = vssgen.Simulation(rng, Mon(), two=rng.random() < 0.3, snapshots=rng.choice([1, 2, 3, 4]), ops=rng.choice([3, 10, 20]))
    v, s = sim.files(0, 0)

    def make(fs=None):
        fs = fs or ([v] if s is None else [v, s])
        return (SC.ShadowParser(v) if s is None else SC.ShadowParserTwoVolumes(v, s)), fs
    p, __ = make()
    ids = list(p.shadows())
    hot = list(sim.hot) or [0]

    def sel(p, how, reads):
        p.select_shadow(how)
        out = []
        for a, n in reads:
            p.seek(a)
            out.append((p.read(n), p.tell()))
        p.seek(0, 2)
        return out, p.tell()
    qs = [Query('shadows', lambda p: p.shadows(), True)]
    for i in ids:
        reads = [(rng.choice(hot) * 0x4000 + rng.choice([0, 0, 3, 512]), rng.choice([1, 512, 0x4000, 40000])) for __ in range(rng.choice([1, 4]))]
        qs.append(Query('read(%d)' % i.stack_position, lambda p, h=i.store_guid, r=reads: sel(p, h, r)))
        qs.append(Query('at(%d)' % i.stack_position, lambda p, h=i.stack_position, r=reads: sel(p, h, r)))
        b = rng.choice(hot)
        qs.append(Query('translate(%d)' % i.stack_position, lambda p, h=i.stack_position, b=b: (p.select_shadow(h), p.translate_exact_offset(b * 0x4000))))
    mon.count('reselected', len(ids))
    qs.append(Query('unknown', lambda p, g=uuid.UUID(int=rng.getrandbits(128)): p.select_shadow(g)))
    play(rng, mon, 'vss', make, qs, ctx='%d shadow copies, two=%s' % (len(ids), s is not None))
    # A selection that fails must not leave a mixture of two shadow copies behind.
    if len(ids) < 2:
        return
    a, b = rng.sample(ids, 2)
    reads = [(h * 0x4000, 0x4000) for h in hot[:6]]
    cb = [x for c in (p.control_blocks if s is None else p.control_blocks_storage) for x in c.items() if type(x) is SC.ControlBlockItem3 and x.get_store_guid() == b.store_guid]
    where = [x for y in cb for x in (y.get_diff_area_block_offset(), y.get_bitmap_offset(), y.get_previous_bitmap_offset(), y.get_location_description_block_offset(), y.get_application_information_block_offset()) if x]
    if len(cb) != 1 or not where:
        return
    w = Damaged(v if s is None else s, rng.choice(where))
    p = SC.ShadowParser(w) if s is None else SC.ShadowParserTwoVolumes(v, w)
    before = sel(p, a.store_guid, reads)
    if rng.random() < 0.3:
        try:
            p.select_shadow(uuid.UUID(int=rng.getrandbits(128)))
        except SC.ShadowCopyException:
            pass
    w.on = True
    try:
        p.select_shadow(b.store_guid)
        failed = False
    except SC.ShadowCopyException:
        failed = True
    w.on = False
    if not failed:
        return
    mon.count('failed_select')
    try:
        out = []
        for o, n in reads:
            p.seek(o)
            out.append((p.read(n), p.tell()))
        p.seek(0, 2)
        got = (out, p.tell())
    except ValueError:
        mon.count('checks')
        return
    mon.check(got == before, 'history-failed-select', 'selecting %d failed, reads of %d changed' % (b.stack_position, a.stack_position))


def case_fat(rng, mon):
    warnings.simplefilter('ignore')
    image = spoil(rng, mon, subjects.fat(rng)[0])
    try:
        f = FAT.FileSystemParser(io.BytesIO(image))
    except Exception:
        mon.count('refused')
        return
    qs = [Query('walk-%s-%s' % (e, r), lambda p, e=e, r=r: p.walk(e, r), True) for e in ('ascii', 'cp866') for r in (False, True)]
    cl = []
    try:
        for e in f.walk('ascii', True):
            if type(e) is FAT.FileEntry:
                cl.append((e.first_cluster, min(e.size, 1 << 18)))
    except Exception:
        pass
    for c, n in rng.sample(cl, min(5, len(cl))) + [(2, 3000), (rng.randrange(2, 4000), None)]:
        qs += [Query('read(%d,%r)' % (c, n), lambda p, c=c, n=n: p.read_chain(c, n)), Query('chain(%d)' % c, lambda p, c=c: p.fat.chain(c)), Query('element(%d)' % c, lambda p, c=c: p.fat.get_element(c)), Query('allocated(%d)' % c, lambda p, c=c: p.fat.is_allocated(c))]
    qs.append(Query('bpb', lambda p: p.bsbpb))
    play(rng, mon, 'fat', maker(image, FAT.FileSystemParser), qs, ctx='FAT volume of %d bytes %08x' % (len(image), zlib.crc32(image[:1 << 20])))


def case_exfat(rng, mon):
    image = spoil(rng, mon, subjects.exfat(rng)[0])
    try:
        f = exFAT.FileSystemParser(io.BytesIO(image))
    except Exception:
        mon.count('refused')
        return
    qs = [Query('walk-%s' % r, lambda p, r=r: p.walk(r), True) for r in (False, True)]
    cl = []
    try:
        for e in f.walk(True):
            if type(e) is exFAT.FileEntry:
                cl.append((e.first_cluster, min(e.size, 1 << 18), e.no_fat_chain))
    except Exception:
        pass
    for c, n, nf in rng.sample(cl, min(5, len(cl))) + [(2, 3000, False), (rng.randrange(2, 4000), 5000, True)]:
        qs += [Query('read(%d,%r,%r)' % (c, n, nf), lambda p, c=c, n=n, nf=nf: p.read_chain(c, n, nf)), Query('chain(%d)' % c, lambda p, c=c: p.fat.chain(c)), Query('element(%d)' % c, lambda p, c=c: p.fat.get_element(c)), Query('allocated(%d)' % c, lambda p, c=c: p.bm.is_allocated(c))]
    play(rng, mon, 'exfat', maker(image, exFAT.FileSystemParser), qs, ctx='exFAT volume of %d bytes %08x' % (len(image), zlib.crc32(image[:1 << 20])))


def case_parts(rng, mon):
    if rng.random() < 0.5:
        image, __ = subjects.gpt(rng)
        image = spoil(rng, mon, image)

        def parts(p):
            h = p.read_gpt_header()
            return tuple(h), p.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
        qs = [Query('header', lambda p: tuple(p.read_gpt_header())), Query('partitions', parts)]
        play(rng, mon, 'gpt', maker(image, PartitionTable.GPT, 512 if image[512:520] == b'EFI PART' else 4096), qs, ctx='GPT %08x' % zlib.crc32(image))
        return
    image, __ = subjects.mbr(rng)
    image = spoil(rng, mon, image)
    qs = [Query('mbr', lambda p: p.read_mbr()), Query('primary', lambda p: p.read_mbr_partitions()), Query('logical', lambda p: p.read_ebr_partitions())]
    play(rng, mon, 'mbr', maker(image, PartitionTable.MBR, rng.choice([512, 4096])), qs, ctx='MBR %08x' % zlib.crc32(image))


def case_move(rng, mon):
    image, __ = subjects.move(rng)
    image = spoil(rng, mon, image)
    qs = [Query('header', lambda p: p.get_header()), Query('entries', lambda p: p.log_entries(), True), Query('sectors', lambda p: p.log_sectors(), True)]
    play(rng, mon, 'move', maker(image, MoveTable.MoveTableParser, rng.choice([None, 512, 4096])), qs, ctx='tracking log %08x' % zlib.crc32(image))


def mixed_blocks(rng):
    """Just enough control blocks to guess their layout, a few of which have another one."""
    dup, at = rng.choice([(40, 104), (24, 96), (64, 160)])
    other = rng.choice([(48, 112), (72, 136), (32, 120)])
    n = rng.choice([25, 26, 30])
    lay = [other] * rng.randint(1, 5) + [(dup, at)] * n
    lay = lay[:n]
    rng.shuffle(lay)
    page, out = bytearray(4096), b''
    pos = 0
    for d, a in lay:
        b = c25.block(rng, d, a, [c25.ts(rng) for __ in range(5)], c25.rnd_ref(rng), False)
        if pos + len(b) > 4096:
            out += bytes(page)
            page, pos = bytearray(4096), 0
        page[pos:pos + len(b)] = b
        pos += len(b) + rng.choice([0, 64])
    return out + bytes(page)


def case_mem(rng, mon):
    if rng.random() < 0.3:
        image = mixed_blocks(rng)
        mon.count('mixed_blocks')
    else:
        image, __ = subjects.mem(rng)
        image = spoil(rng, mon, image)
    qs = [Query('carve', lambda p: p.carve_fcb_timestamps(), True)]
    play(rng, mon, 'mem', maker(image, MFT.MetadataCarver), qs, ctx='memory %08x' % zlib.crc32(image), n=rng.choice([3, 6]), two=True)


def objects(rng, mon):
    """A maker of one object of the library and its name."""
    k = rng.choice(['frs', 'frs', 'value', 'value', 'wsl', 'boot', 'usn', 'log', 'page', 'restart', 'vss', 'entry', 'bpb', 'slack', 'directory', 'xdirectory', 'names', 'table', 'attrlist'])
    if k == 'frs':
        b = spoil(rng, mon, subjects.frs(rng)[0])
        return 'frs', lambda: MFT.FileRecordSegment(b), k
    if k == 'value':
        kind = rng.choice(subjects.VALUES)
        b = None
        for __ in range(80):
            v, f = subjects.value(rng)
            if f.__closure__[0].cell_contents == kind:
                b = v
                break
        if b is None:
            return None
        b = spoil(rng, mon, b)
        code = [c for c, x in Attributes.AttributeTypes.items() if x[1] is getattr(Attributes, kind)][0]
        return 'value', lambda: MFT.AttributeRecordResident(code, None, b).value_decoded(), kind
    if k == 'wsl':
        b, f = subjects.wsl(rng)
        b = spoil(rng, mon, b)
        cls = getattr(WSL, f.__code__.co_consts[1])
        return 'value', lambda: cls(b), cls.__name__
    if k == 'boot':
        b = spoil(rng, mon, subjects.boot(rng)[0])
        return 'value', lambda: BootSector.BootSector(b), k
    if k == 'usn':
        d = subjects.usn(rng)[0]
        rs = list(USN.ChangeJournalParser(io.BytesIO(d)).usn_records())
        if not rs:
            return None
        r = rng.choice(rs)
        b = bytes(r.record_raw)
        return 'value', lambda: USN.GetUsnRecord(b), k
    if k in ('log', 'page', 'restart'):
        d = subjects.logfile(rng)[0]
        p = LogFile.LogFileParser(io.BytesIO(d))
        if k == 'restart':
            i = rng.randrange(2)
            return 'value', lambda: LogFile.RestartPage(d[i * 4096:i * 4096 + 4096]), k
        if k == 'page':
            i = rng.randrange(2, len(d) // 4096)
            return 'value', lambda: LogFile.LogRecordPage(d[i * 4096:i * 4096 + 4096], i, p.log_page_data_offset), k
        rs = [r for r in p.parse_ntfs_records()]
        if not rs:
            return None
        i = rng.randrange(len(rs))
        return 'value', lambda: list(LogFile.LogFileParser(io.BytesIO(d)).parse_ntfs_records())[i], k
    if k == 'vss':
        sim = vssgen.Simulation(rng, Mon(), two=False, snapshots=2, ops=4)
        v, __ = sim.files(0, 0)
        p = SC.ShadowParser(v)
        b = bytes(p.control_blocks[0].shadow_block_data)
        return 'value', lambda: SC.ControlBlock(b), k
    if k == 'entry':
        es = [ntfs.index_entry(rng.getrandbits(60), ntfs.fn_value(ntfs.ref(5, 5), ntfs.rnd_name(rng)), vcn=rng.choice([None, 5])) for __ in range(rng.randrange(5))]
        b = spoil(rng, mon, ntfs.index_buffer(es))
        return 'value', lambda: Attributes.IndexBuffer(Attributes.VerifyAndUnprotectIndexSectors(bytearray(b)) or bytearray(b)), k
    if k == 'bpb':
        b = subjects.fat(rng)[0][:512]
        return 'value', lambda: FAT.BSBPB(b) if hasattr(FAT, 'BSBPB') else None, k
    if k == 'slack':
        b = ntfs.rnd_bytes(rng, 40) + b''.join(ntfs.fn_value(ntfs.ref(5, 5), ntfs.rnd_name(rng), **treegen.dup(rng)) + ntfs.rnd_bytes(rng, rng.randrange(20)) for __ in range(3))
        return 'value', lambda: MFT.SlackSpace(bytearray(b)), k
    if k == 'directory':
        v = fatgen.FATVolume(rng, Mon(), geo=fatgen.rnd_geometry(rng, 12), maxfiles=15)
        d = v.rootbuf or b''
        d = d[:len(d) // 512 * 512]
        if not d:
            return None
        d = spoil(rng, mon, d)
        return 'directory', lambda: FAT.DirectoryEntries(d, True), k
    if k == 'xdirectory':
        v = exfatgen.Volume(rng, Mon(), maxfiles=8)
        f = exFAT.FileSystemParser(io.BytesIO(bytes(v.image)))
        d = spoil(rng, mon, f.read_chain(f.br.get_firstclusterofrootdirectory()))
        return 'directory', lambda: exFAT.DirectoryEntries(d, True), k
    if k == 'names':
        d, p = b'', []
        for i in range(rng.randrange(1, 6)):
            nm = ntfs.rnd_name(rng)[:20].encode('utf-16le', 'surrogatepass')
            d += struct.pack('<HH', i * 40 + 24, len(nm)) + nm + b'\x00\x00'
        return 'value', lambda: LogFile.AttributeNamesDumpParser(d), k
    if k == 'attrlist':
        b = b''.join(ntfs.attrlist_entry(rng.choice([0x10, 0x30, 0x80]), rng.choice([None, 'abc']), rng.randrange(100), ntfs.ref(rng.randrange(100), 1), i) for i in range(rng.randrange(6)))
        return 'value', lambda: Attributes.AttributeList(b), k
    d = subjects.move(rng)[0]
    return 'value', lambda: MoveTable.LogSector(d[512:1024]), k


def case_object(rng, mon):
    """Getters and iterations of one object in any order."""
    r = objects(rng, mon)
    if r is None:
        return
    what, mk, name = r
    try:
        o = mk()
    except Exception:
        mon.count('refused')
        return
    if o is None or not type(o).__module__.startswith('dfir_ntfs'):
        return
    qs = []
    for n in public(type(o)):
        try:
            gen = isinstance(getattr(mk(), n)(), types.GeneratorType) if n != 'print_information' else False
        except Exception:
            gen = False
        if n == 'print_information':
            def info(p):
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    p.print_information()
                return out.getvalue()
            qs.append(Query(n, info))
        else:
            qs.append(Query(n, lambda p, n=n: getattr(p, n)(), gen))
    if type(o).__str__ is not object.__str__:
        qs.append(Query('str', lambda p: str(p)))
    if hasattr(o, 'find_name_by_index'):
        qs += [Query('name(%d)' % i, lambda p, i=i: p.find_name_by_index(i)) for i in (24, 64, 104, 7)]
    if hasattr(o, 'carve'):
        qs += [Query('carve(%r)' % x, lambda p, x=x: p.carve(x), True) for x in (True, False)]
    mon.count('parsed_objects')

    def make(fs=None):
        return mk(), fs or []
    play(rng, mon, what, make, qs, ctx='%s (%s)' % (type(o).__name__, name), two=False, n=rng.choice([8, 20, 40]))


FAMILIES = [('mft', case_mft, 400, 8000), ('volume', case_volume, 300, 6000), ('index', case_index, 1000, 20000), ('usn', case_usn, 600, 12000), ('log', case_log, 300, 6000), ('vss', case_vss, 300, 6000), ('fat', case_fat, 500, 10000),
            ('exfat', case_exfat, 300, 6000), ('parts', case_parts, 800, 15000), ('move', case_move, 600, 12000), ('mem', case_mem, 200, 4000), ('object', case_object, 4000, 80000)]
