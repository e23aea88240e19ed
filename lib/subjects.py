"""Whatever can be parsed: generators of inputs and the calls a user makes on them (properties C18 and C19)."""
import io, re, sys, struct, traceback, types, inspect, warnings, contextlib, uuid
from lib.harness import Mon, Violation
from lib import ntfs, mftgen, usngen, parts, fatgen, exfatgen, vssgen, volgen, lfsgen, treegen
from lib.ntfs import ref
from dfir_ntfs import MFT, Attributes, USN, LogFile, BootSector, ShadowCopy, PartitionTable, MoveTable, WSL
from dfir_ntfs.addons import FAT, exFAT

LIBRARY = (MFT.MasterFileTableException, LogFile.LogFileException, BootSector.BootSectorException, ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume, FAT.FileSystemException, exFAT.FileSystemException)
ALLOWED = LIBRARY + (ValueError, NotImplementedError)


def impossible_position(e):
    """The file object may refuse an impossible position."""
    return isinstance(e, OverflowError) and re.search(r'\.(seek|read)\(', traceback.extract_tb(e.__traceback__)[-1].line or '') is not None


class Log(object):
    """What the calls did: methods called, refusals, internal errors."""

    def __init__(self, allowed=ALLOWED):
        self.allowed = allowed
        self.calls = set()
        self.refused = 0
        self.errors = []         # (where, exception)
        self.items = 0

    def call(self, func, *a, **k):
        """The result of func, or None when it refuses."""
        try:
            return func(*a, **k)
        except self.allowed:
            self.refused += 1
        except Violation:
            raise
        except Exception as e:
            self.error(e)
        return None

    def error(self, e):
        if impossible_position(e):
            self.refused += 1
        else:
            self.errors.append(e)

    def each(self, func, *a, limit=1000000, **k):
        """The items func yields up to its end or refusal."""
        it = self.call(func, *a, **k)
        if it is None:
            return
        it = iter(it)
        for __ in range(limit):
            try:
                x = next(it)
            except StopIteration:
                return
            except self.allowed:
                self.refused += 1
                return
            except Violation:
                raise
            except Exception as e:
                self.error(e)
                return
            self.items += 1
            yield x


_public = {}


def public(cls):
    """Public methods of a class that need no argument."""
    if cls not in _public:
        res = []
        for n in dir(cls):
            if n.startswith('_') or n in ('close', 'discard_changes', 'prepare_for_writes', 'execute_first_pass'):
                continue
            f = getattr(cls, n)
            if not isinstance(f, types.FunctionType):
                continue
            ps = list(inspect.signature(f).parameters.values())[1:]
            if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
                res.append(n)
        _public[cls] = res
    return _public[cls]


HEAVY = (MFT.MasterFileTableParser, MFT.FragmentedFile, LogFile.LogFileParser, ShadowCopy.ShadowParser, FAT.FileSystemParser, exFAT.FileSystemParser, USN.ChangeJournalParser, MoveTable.MoveTableParser, MFT.MetadataCarver)


def crawl(log, obj, depth=2, limit=60):
    """Call every getter of an object of the library, and of what it returns."""
    cls = type(obj)
    if not getattr(cls, '__module__', '').startswith('dfir_ntfs') or issubclass(cls, tuple) or isinstance(obj, HEAVY):
        return
    for n in public(cls):
        log.calls.add(cls.__name__ + '.' + n)
        if n == 'print_information':
            with contextlib.redirect_stdout(io.StringIO()):
                log.call(getattr(obj, n))
            continue
        r = log.call(getattr(obj, n))
        if depth and r is not None:
            if isinstance(r, types.GeneratorType):
                for x in log.each(lambda: r, limit=limit):
                    crawl(log, x, depth - 1, limit)
            elif isinstance(r, (list, tuple)) and not isinstance(r, (str, bytes)):
                for x in r[:limit]:
                    crawl(log, x, depth - 1, limit)
            else:
                crawl(log, r, depth - 1, limit)
    log.call(str, obj)


# --- What is done with each kind of input ---

def do_record(log, rng, rec, volume=None, offset=0, cs=512, deep=True):
    for a in log.each(rec.attributes):
        do_attribute(log, rng, a, volume, offset, cs)
    if deep:
        crawl(log, rec, 0)
    if hasattr(rec, 'slack'):
        for sl in log.each(rec.slack):
            for x in log.each(sl.carve, rng.random() < 0.5):
                crawl(log, x, 0)
    for n in ('get_file_names', 'get_standard_information', 'get_data_runs', 'get_data_size'):
        f = getattr(rec, n, None)
        if f is not None:
            log.call(f)


def do_attribute(log, rng, a, volume=None, offset=0, cs=512):
    log.calls.add(type(a).__name__)
    log.call(a.type_str)
    if type(a) is MFT.AttributeRecordResident:
        v = log.call(a.value_decoded)
        if v is not None:
            crawl(log, v, 2)
        return
    if volume is None:
        return
    v = log.call(a.value_decoded, volume, offset, cs)
    if v is None:
        return
    if isinstance(v, Attributes.IndexAllocation):
        for b in log.each(v.index_buffers):
            crawl(log, b, 2)
        log.call(v.get_slack)
    elif isinstance(v, MFT.FragmentedFile):
        do_file(log, rng, v)
    else:
        crawl(log, v, 2)


def do_file(log, rng, f, sizes=(0, 1, 511, 4096)):
    for __ in range(6):
        w = rng.choice([0, 0, 0, 1, 2])
        off = rng.choice([0, 1, 512, 4096, 16384, 1 << 20, 1 << 40, rng.getrandbits(24), -1, -600])
        log.call(f.seek, off, w)
        log.call(f.tell)
        log.call(f.read, rng.choice(sizes))


def do_table(log, rng, f, volume=None, offset=0, cs=512):
    m = log.call(MFT.MasterFileTableParser, f)
    if m is None:
        return
    n = 0
    for rec in log.each(m.file_records, rng.random() < 0.2):
        n += 1
        do_record(log, rng, rec, volume, offset, cs, n < 40)
        paths = log.call(m.build_full_paths, rec, rng.random() < 0.5)
        if paths and rng.random() < 0.2:
            p = paths[0][0] if isinstance(paths[0], tuple) else paths[0]
            log.call(m.get_file_record_by_path, p, rng.random() < 0.5)
    for __ in range(5):
        num = rng.choice([0, 5, 3, rng.randrange(n + 20), 1 << 40, -1])
        rec = log.call(m.get_file_record_by_number, num, rng.choice([None, 1, 5]))
        if rec is not None:
            log.call(m.build_full_paths, rec)
    crawl_parser(log, m)
    log.call(m.get_file_record_by_path, rng.choice(['/', '', '/a/b/c', '$MFT', '/.', '//', 'a\\b']))


def crawl_parser(log, m):
    for n in ('check_ntfs_version',):
        f = getattr(m, n, None)
        if f is not None:
            log.call(f)


def do_usn(log, rng, f):
    p = log.call(USN.ChangeJournalParser, f)
    if p is None:
        return
    for r in log.each(p.usn_records):
        crawl(log, r, 1)
        if hasattr(r, 'get_reason'):
            log.call(USN.ResolveReasonCodes, r.get_reason())
            log.call(USN.ResolveSourceCodes, r.get_source_info())


def do_log(log, rng, f):
    p = log.call(LogFile.LogFileParser, f)
    if p is None:
        return
    for r in log.each(p.parse_ntfs_records, rng.random() < 0.7):
        crawl(log, r, 1)
    log.call(str, p)
    crawl(log, getattr(p, 'restart_area', None), 1)
    crawl(log, getattr(p, 'restart_page', None), 1)


def do_volume(log, rng, f, offset):
    fs = log.call(MFT.FileSystemParser, f, offset)
    if fs is None:
        return
    crawl(log, fs.boot, 0)
    do_file(log, rng, fs)
    do_table(log, rng, fs, f, offset, fs.cluster_size)


def do_vss(log, rng, f, offset, second=None, soffset=0, points=(0,)):
    args = (f, offset) if second is None else (f, second, offset, None, soffset)
    p = log.call(ShadowCopy.ShadowParser if second is None else ShadowCopy.ShadowParserTwoVolumes, *args)
    if p is None:
        return
    infos = list(log.each(p.shadows))
    for i in infos[:6]:
        try:
            p.select_shadow(rng.choice([i.store_guid, i.stack_position]))
        except log.allowed:
            log.refused += 1
            continue
        except Exception as e:
            log.error(e)
            continue
        do_file(log, rng, p, (0, 1, 512, 16384, 40000))
        for b in points:
            log.call(p.seek, b * 0x4000 + rng.choice([0, 5, 512]))
            log.call(p.read, rng.choice([512, 16384, 20000]))
            log.items += 1
            if second is None and rng.random() < 0.2:
                log.call(p.seek, b * 0x4000)
                log.call(p.read, 512, True)
    log.call(p.select_shadow, uuid.UUID(int=rng.getrandbits(128)))
    for b in p.control_blocks:
        crawl(log, b, 2)
    crawl(log, p.start_block, 1)


def do_fat(log, rng, f, offset, size=None):
    warnings.simplefilter('ignore')
    p = log.call(FAT.FileSystemParser, f, offset, size)
    if p is None:
        return
    n = 0
    for e in log.each(p.walk, rng.choice(['ascii', 'cp437']), rng.random() < 0.3):
        n += 1
        if type(e) is FAT.FileEntry and n < 60:
            log.call(p.read_chain, e.first_cluster, min(e.size, 1 << 20) if rng.random() < 0.8 else None)
            log.call(p.fat.chain, e.first_cluster)
            log.call(p.fat.is_allocated, e.first_cluster)
            log.call(FAT.ResolveFileAttributes, e.attributes)
    for n in ('bsbpb', 'fat', 'fsinfo'):
        crawl(log, getattr(p, n, None), 1)


def do_exfat(log, rng, f, offset, size=None):
    p = log.call(exFAT.FileSystemParser, f, offset, size)
    if p is None:
        return
    n = 0
    for e in log.each(p.walk, rng.random() < 0.3):
        n += 1
        if type(e) is exFAT.FileEntry and n < 60:
            log.call(p.read_chain, e.first_cluster, min(e.size, 1 << 20), e.no_fat_chain)
            log.call(p.bm.is_allocated, e.first_cluster)
            log.call(p.fat.chain, e.first_cluster)
    for n in ('br', 'bs', 'fat', 'bm'):
        crawl(log, getattr(p, n, None), 1)


def do_gpt(log, rng, f, sector):
    p = log.call(PartitionTable.GPT, f, sector)
    if p is None:
        return
    h = log.call(p.read_gpt_header)
    if h is not None:
        r = log.call(p.read_gpt_partitions, h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
        log.items += 1 + len(r or ())


def do_mbr(log, rng, f, sector):
    p = log.call(PartitionTable.MBR, f, sector)
    if p is None:
        return
    for func in (p.read_mbr, p.read_mbr_partitions, p.read_ebr_partitions):
        r = log.call(func)
        log.calls.add(func.__name__)
        if isinstance(r, list):
            log.items += len(r)


def do_move(log, rng, f, sector):
    p = log.call(MoveTable.MoveTableParser, f) if sector is None else log.call(MoveTable.MoveTableParser, f, sector)
    if p is None:
        return
    h = log.call(p.get_header)
    if h is not None:
        crawl(log, h, 1)
    for e in log.each(p.log_entries):
        crawl(log, e, 1)
    for s in log.each(p.log_sectors):
        crawl(log, s, 1)


def do_mem(log, rng, f):
    c = log.call(MFT.MetadataCarver, f)
    if c is not None:
        for x in log.each(c.carve_fcb_timestamps):
            pass


VALUES = ['StandardInformation', 'FileName', 'ObjectID', 'Data', 'AttributeList', 'SecurityDescriptor', 'VolumeName', 'VolumeInformation', 'IndexRoot', 'Bitmap', 'ReparsePoint', 'EAInformation', 'EA', 'LoggedUtilityStream']


def do_value(log, rng, f, kind):
    b = f.read()
    code = [k for k, x in Attributes.AttributeTypes.items() if x[1] is getattr(Attributes, kind)]
    v = log.call(MFT.AttributeRecordResident(code[0], None, bytearray(b) if rng.random() < 0.5 else b).value_decoded)
    if v is not None:
        crawl(log, v, 2)
        if kind == 'EA':
            for it in log.each(v.data_parsed):
                for w in (WSL.LXATTRB, WSL.LXXATTR):
                    x = log.call(w, it[2])
                    if x is not None:
                        crawl(log, x, 1)


def do_wsl(log, rng, f, kind):
    x = log.call(getattr(WSL, kind), f.read())
    if x is not None:
        crawl(log, x, 1)


def do_frs(log, rng, f):
    b = f.read()
    r = log.call(MFT.FileRecordSegment, bytearray(b) if rng.random() < 0.5 else b)
    if r is not None:
        do_record(log, rng, r)


def do_runs(log, rng, f):
    log.call(MFT.DecodeMappingPairs, f.read())


def do_boot(log, rng, f):
    b = log.call(BootSector.BootSector, f.read())
    if b is not None:
        crawl(log, b, 0)


# --- Generators: (name, image bytes or sparse file, function(log, rng, file)) ---

def mft(rng):
    if rng.random() < 0.7:
        t = treegen.Tree(rng, Mon(), rng.choice([2, 6, 15, 30]), hostile=rng.random() < 0.5, size=rng.choice([1024, 1024, 4096]))
        return t.table, do_table
    size = rng.choice([1024, 4096])
    raw, __ = mftgen.build(rng, rng.choice([17, 30, 60]), size, damage=rng.random() < 0.5)
    return bytes(raw), do_table


def usn(rng):
    d, __ = usngen.journal(rng, Mon(), rng.choice([1, 2, 4]), damage=rng.random() < 0.3)
    return d, do_usn


def logfile(rng):
    from checks import c11
    log = lfsgen.Log(rng, npages=rng.choice([4, 6, 10]))
    cl = c11.Client(rng, log)
    cl.ra_size = rng.choice([112, 128, 88, 64])
    r = cl.add(lfsgen.ntfs_restart(cl.major, 0, 0, 0, 0, 0, 0, size=cl.ra_size, cluster=cl.cluster), dict(kind='restart'), 2)
    log.restart_lsn = r.lsn
    for __ in range(rng.choice([5, 20, 50])):
        if log.abs >= log.circ * rng.choice([1, 2]) - 3:
            break
        red, und = rng.randrange(0, 0x26), rng.randrange(0, 0x26)
        if rng.random() < 0.3:
            red, und = rng.choice([(0x1c, 0), (0x1d, 0), (0x1e, 0)])
        data = lfsgen.ntfs_record(red, und, ntfs.rnd_bytes(rng, rng.choice([0, 8, 40, 44, 60, 200])), ntfs.rnd_bytes(rng, rng.choice([0, 8, 12, 56])), rng.choice([0, 24, 0x18, 0x50]), tuple(rng.randrange(1 << 30) for __ in range(rng.choice([0, 1, 3]))),
                                  rng.choice([0, 56]), rng.choice([0, 24]), rng.randrange(8), rng.choice([0, 2, 8]), rng.randrange(1 << 20), rng=rng)
        cl.add(data, dict(kind='x'))
        if rng.random() < 0.1:
            log.flush()
    log.flush()
    log.write_restart()
    if rng.random() < 0.5:
        log.move(True)
    return bytes(lfsgen.Capture(log, rng).image), do_log


def volume(rng):
    for __ in range(50):
        geo = volgen.geometry(rng, True)
        if geo[0] * geo[1] > 4096:
            continue
        t = treegen.Tree(rng, Mon(), rng.choice([4, 12]), hostile=rng.random() < 0.5, size=geo[3], cs=geo[0] * geo[1])
        n = max(t.ext, 17)
        try:
            v = volgen.Volume(rng, Mon(), [t.recs.get(i, b'\x00' * geo[3]) for i in range(n)], geo=geo, far=False, fragments=rng.choice([1, 3, 9]))
        except volgen.Skip:
            continue
        if v.size > 1 << 22:
            continue
        out = bytearray(v.size)
        for s, d in v.file.parts:
            out[s:s + len(d)] = d
        # index buffers
        if rng.random() < 0.5:
            b = ntfs.index_buffer([ntfs.index_entry(r, k) for r, k, __ in treegen.entries(rng, t.nodes, t.nodes[5], 3)])
            out += b
        off = rng.choice([0, 0, 512])
        return bytes(off) + bytes(out), lambda log, rng, f: do_volume(log, rng, f, off)
    raise RuntimeError('no volume')


def vss(rng):
    sim = vssgen.Simulation(rng, Mon(), two=rng.random() < 0.3, snapshots=rng.choice([1, 2, 3]), ops=rng.choice([3, 10]))
    v, s = sim.files(0, 0)
    pts = list(sim.hot)[:6]
    return (v, s), lambda log, rng, v, s=None: do_vss(log, rng, v, 0, s, 0, pts)


def fat(rng):
    v = fatgen.FATVolume(rng, Mon(), geo=fatgen.rnd_geometry(rng, rng.choice([12, 12, 32])), maxfiles=rng.choice([3, 15]))
    return v.image, lambda log, rng, f: do_fat(log, rng, f, 0)


def exfat(rng):
    v = exfatgen.Volume(rng, Mon(), maxfiles=rng.choice([3, 15]))
    return v.image, lambda log, rng, f: do_exfat(log, rng, f, 0)


def gpt(rng):
    sector = rng.choice([512, 4096])
    d = parts.gpt_disk(rng, sector)
    d = d[0] if isinstance(d, tuple) else d
    return bytes(d), lambda log, rng, f: do_gpt(log, rng, f, sector)


def mbr(rng):
    sector = rng.choice([512, 512, 4096])
    n = 40
    out = bytearray(sector * n)

    def put(at, ps):
        b = b''.join(parts.mbr_part(0, b'\x01\x02\x03', t, b'\x04\x05\x06', l, s) for t, l, s in ps)
        out[at * sector + 446:at * sector + 446 + len(b)] = b
        out[at * sector + 510:at * sector + 512] = b'\x55\xaa'
    chain = sorted(rng.sample(range(2, n), rng.choice([0, 1, 3, 8])))
    base = chain[0] if chain else 0
    prim = [(rng.choice([7, 0xC, 0x83, 0]), rng.randrange(1, 30), rng.randrange(1, 9)) for __ in range(rng.randrange(3))]
    if chain:
        prim.append((rng.choice([5, 0xF]), base, n - base))
    put(0, prim)
    for i, c in enumerate(chain):
        nxt = chain[i + 1] if i + 1 < len(chain) else (rng.choice(chain) if rng.random() < 0.3 else None)
        put(c, [(7, 1, 1)] + ([(5, nxt - base, 3)] if nxt is not None else []))
    return bytes(out), lambda log, rng, f: do_mbr(log, rng, f, sector)


def move(rng):
    sector = rng.choice([512, 4096])
    d, __ = parts.move_table(rng, sector)
    s = rng.choice([None, sector])
    return d, lambda log, rng, f: do_move(log, rng, f, s)


def mem(rng):
    from checks import c25
    for __ in range(50):
        r = c25.image(rng, Mon())
        if r is not None and len(r[0]) < 200000:
            return r[0], do_mem
    return bytes(8192), do_mem


def value(rng):
    kind = rng.choice(VALUES)
    mk = {
        'StandardInformation': lambda: ntfs.si_value(owner=rng.choice([None, 3]), **treegen.times(rng)),
        'FileName': lambda: ntfs.fn_value(ref(5, 5), ntfs.rnd_name(rng), **treegen.dup(rng)),
        'ObjectID': lambda: treegen.guid(rng) + ntfs.rnd_bytes(rng, rng.choice([0, 16, 48])),
        'AttributeList': lambda: b''.join(ntfs.attrlist_entry(rng.choice([0x10, 0x30, 0x80]), rng.choice([None, 'abc']), rng.randrange(100), ref(rng.randrange(100), 1), i) for i in range(rng.randrange(6))),
        'VolumeInformation': lambda: ntfs.volinfo_value(),
        'IndexRoot': lambda: ntfs.index_root_value([ntfs.index_entry(rng.getrandbits(60), ntfs.fn_value(ref(5, 5), ntfs.rnd_name(rng)), vcn=rng.choice([None, 5])) for __ in range(rng.randrange(5))]),
        'EA': lambda: b''.join([ntfs.ea_entry(rng.choice([b'LXATTRB', b'LXXATTR', b'A', b'$KERNEL']), 0, ntfs.rnd_bytes(rng, rng.choice([0, 5, 56])), False) for __ in range(rng.randrange(4))] + [ntfs.ea_entry(b'END', 0, b'v', True)]),
        'ReparsePoint': lambda: struct.pack('<LHH', rng.choice([0xA0000003, 0xA000000C, 0x80000013, 5, 0x12345678]), rng.randrange(60), 0) + ntfs.rnd_bytes(rng, rng.randrange(60)),
    }.get(kind, lambda: ntfs.rnd_bytes(rng, rng.randrange(100)))
    return mk(), lambda log, rng, f: do_value(log, rng, f, kind)


def wsl(rng):
    if rng.random() < 0.5:
        return struct.pack('<HHLLLLLLLQQQ', 0, 1, 0o100644, 0, 0, 0, *[rng.randrange(10 ** 9) for __ in range(3)], *[rng.getrandbits(33) for __ in range(3)]), lambda log, rng, f: do_wsl(log, rng, f, 'LXATTRB')
    b = struct.pack('<HH', 0, 1)
    n = rng.randrange(4)
    for i in range(n):
        v, nm = ntfs.rnd_bytes(rng, rng.randrange(20)), b'user.abc'
        ent = struct.pack('<HB', len(v), len(nm)) + nm + v
        b += struct.pack('<L', 0 if i == n - 1 else 4 + len(ent)) + ent
    return b, lambda log, rng, f: do_wsl(log, rng, f, 'LXXATTR')


def frs(rng):
    room = ntfs.attrs_room(1024)
    attrs, __ = mftgen.rnd_attrs(rng, room)
    return ntfs.frs(attrs, number=30, seq=2, size=1024), do_frs


def runs(rng):
    r = [(rng.choice([None, rng.getrandbits(rng.choice([8, 20, 40]))]), rng.randint(1, 1 << rng.choice([4, 16, 40]))) for __ in range(rng.randrange(8))]
    return ntfs.encode_runs(r), do_runs


def boot(rng):
    return ntfs.boot_sector(serial=rng.getrandbits(64)), do_boot


ALL = dict(mft=mft, usn=usn, logfile=logfile, volume=volume, vss=vss, fat=fat, exfat=exfat, gpt=gpt, mbr=mbr, move=move, mem=mem, value=value, wsl=wsl, frs=frs, runs=runs, boot=boot)
