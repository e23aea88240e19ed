"""C24: the master file table is found and reassembled."""
import io, struct
from lib.harness import clip
from lib import ntfs, mftgen, volgen
from dfir_ntfs import MFT, BootSector

PROPERTY = 'C24'
RULE = ('each case builds an NTFS volume of a random geometry (sector, cluster and record sizes, both encodings of each), scatters the master file table over it in up to hundreds of fragments, splits the run list over extension records listed in a resident or nonresident attribute list, '
        'and compares what FileSystemParser reads (whole, in parts, through random seeks) and what MasterFileTableParser enumerates with the table; boot sector fields are compared with a reference decoder over all codes. Distinct = distinct geometries and run lists.')
REQUIRED = ['volumes', 'fragmented', 'extension_records', 'attribute_list_resident', 'attribute_list_nonresident', 'far', 'at_offset', 'large_clusters', 'small_clusters', 'records_4096', 'op_reads', 'enumerated', 'boot_values', 'boot_refused', 'broken_refused', 'multi_extension', 'unsorted_lists', 'exact_end']


def make(rng, mon, **kw):
    for __ in range(60):
        geo = kw.pop('geo', None) or volgen.geometry(rng, kw.pop('small', False))
        n = rng.choice([17, 20, 33, 64, 120, 300])
        raw, slots = mftgen.build(rng, n, geo[3], damage=True)
        recs = [raw[i * geo[3]:(i + 1) * geo[3]] for i in range(n)]
        try:
            return volgen.Volume(rng, mon, recs, geo=geo, **kw)
        except volgen.Skip:
            mon.count('skipped')
    raise RuntimeError('no volume could be generated')


def notice(mon, v):
    mon.count('volumes')
    if len(v.runs) > 1:
        mon.count('fragmented')
    if v.first * v.cs > 1 << 32:
        mon.count('far')
    if v.file.offset:
        mon.count('at_offset')
    if v.cs > 65536:
        mon.count('large_clusters')
    if v.cs < v.frs:
        mon.count('small_clusters')
    if v.frs == 4096:
        mon.count('records_4096')
    if len(v.ext) > 1:
        mon.count('multi_extension')
    mon.sig(v.bps, v.spc, v.spc_code, v.frs, v.frs_code, v.runs, len(v.ext), v.list_kind)


def case_volume(rng, mon, **kw):
    off = rng.choice([0, 0, 0, 512, 4096, 1 << 20, 7 * 512])
    v = make(rng, mon, offset=off, after=rng.choice([0, 0, 5000]), **kw)
    notice(mon, v)
    ctx = 'bps=%d spc=%d frs=%d runs=%s parts=%d ext=%s list=%s' % (v.bps, v.spc, v.frs, clip(v.runs, 200), len(v.parts), v.ext, v.list_kind)
    f = MFT.FileSystemParser(v.file, off)
    mon.equal(f.tell(), 0, 'initial-position', ctx)
    got = f.read()
    if got != v.table:
        i = next((i for i in range(min(len(got), len(v.table))) if got[i] != v.table[i]), min(len(got), len(v.table)))
        mon.fail('table-bytes', 'lengths %d and %d, first difference at %d; %s' % (len(got), len(v.table), i, ctx))
    mon.count('checks')
    mon.equal(f.seek(0, 2), len(v.table), 'table-size', ctx)
    pos = len(v.table)
    for __ in range(12):
        pos = rng.choice([rng.randrange(len(v.table)), rng.randrange(len(v.table)) // v.frs * v.frs, 0, max(0, len(v.table) - 100), len(v.table) + 5])
        f.seek(pos)
        n = rng.choice([0, 1, v.frs, v.frs, v.cs if v.cs < 100000 else 70000, 3000])
        mon.equal(f.read(n), v.table[pos:pos + n], 'table-part', lambda: 'read(%d) at %d; %s' % (n, pos, ctx))
        mon.count('op_reads')
    if len(v.table) % v.cs == 0:
        mon.count('exact_end')
    # The enumeration through the volume equals the enumeration of the table alone.
    def obs(fo):
        m = MFT.MasterFileTableParser(fo)
        out = []
        for r in m.file_records(True):
            try:
                out.append((r.get_master_file_table_number(), r.get_sequence_number(), r.is_in_use(), r.get_flags(), [mftgen.attr_obs(a) for a in r.attributes()]))
            except MFT.AttributeException as e:
                out.append((r.get_master_file_table_number(), 'invalid attributes'))
        return out
    a = obs(f)
    mon.equal(a, obs(io.BytesIO(v.table)), 'enumeration', ctx)
    mon.count('enumerated', len(a))
    mon.equal(v.file.writes, [], 'write', ctx)
    mon.equal(v.file.outside, [], 'read-outside', ctx)
    b = f.boot
    mon.equal((b.get_bytes_per_sector(), b.get_sectors_per_cluster(), b.get_file_record_segment_size(), b.get_first_mft_cluster(), b.get_total_number_of_sectors(), b.get_serial_number()),
              (v.bps, v.spc, v.frs, v.first, v.size // v.bps, struct.unpack('<Q', v.boot[72:80])[0]), 'boot-fields', ctx)
    mon.sample(ctx)


def case_extreme(rng, mon):
    """Small clusters, as many fragments as clusters, several extension records."""
    case_volume(rng, mon, small=True, fragments=rng.choice([60, 200, 600]), list_kind=rng.choice([None, 'resident', 'nonresident']), max_ext=rng.choice([2, 4, 9]))


def case_boot(rng, mon):
    """All codes of the boot sector against a reference decoder."""
    for __ in range(60):
        b = bytearray(ntfs.rnd_bytes(rng, rng.choice([512, 512, 1024, 4096])))
        b[3:11] = b'NTFS    '
        if rng.random() < 0.8:
            b[11] = 0
        b[12] = rng.choice([2, 2, 4, 8, 16, 0, 1, 3, rng.randrange(256)])
        b[13] = rng.choice([0, 1, 8, 0x80, 0x81, 0xFF, 0xF4, rng.randrange(256)])
        for o in (40, 48, 56):
            if rng.random() < 0.2:
                b[o:o + 8] = bytes(8)
        b[64] = rng.choice([0xF6, 0xF4, 0, 1, 0x7F, 0x80, rng.randrange(256)])
        b[68] = rng.choice([0xF6, 0xF4, 0, 1, 0x7F, 0x80, rng.randrange(256)])
        if rng.random() < 0.3:
            b[0:2] = bytes(2)
        if rng.random() < 0.5:
            b[510:512] = b'\x55\xaa'
        s = BootSector.BootSector(bytes(b))
        bps = None if b[11] or b[12] < 2 or b[12] * 256 % 512 else b[12] * 256
        spc = None if b[13] == 0 else b[13] if b[13] <= 0x80 else 1 << (256 - b[13])
        q = lambda o: struct.unpack('<Q', b[o:o + 8])[0] or None

        def rec(o):
            c = struct.unpack('b', b[o:o + 1])[0]
            if c < 0:
                return 1 << -c
            if bps is None or spc is None:
                return None
            return c * bps * spc or None
        for name, want in (('get_bytes_per_sector', bps), ('get_sectors_per_cluster', spc), ('get_total_number_of_sectors', q(40)), ('get_first_mft_cluster', q(48)), ('get_first_mftmirr_cluster', q(56)),
                           ('get_file_record_segment_size', rec(64)), ('get_index_record_size', rec(68))):
            fn = getattr(s, name)
            ctx = '%s: bytes 11-13 %s, 64 %02x, 68 %02x' % (name, b[11:14].hex(), b[64], b[68])
            if want is None:
                mon.raises((BootSector.BootSectorException,), fn, 'boot-accepted', ctx)
                mon.count('boot_refused')
            else:
                mon.equal(fn(), want, 'boot-value', ctx)
                mon.count('boot_values')
        mon.equal(s.get_serial_number(), struct.unpack('<Q', b[72:80])[0], 'serial')
        mon.equal(s.is_boot_code_present(), b[0:2] != bytes(2) and b[510:512] == b'\x55\xaa', 'boot-code', b[:2].hex())
        mon.sig(bytes(b[11:14]), b[64], b[68])
    for n in (0, 100, 511, 513, 700):
        mon.raises((BootSector.BootSectorException,), lambda: BootSector.BootSector(bytes(ntfs.boot_sector().ljust(1024, b'\x00')[:n])), 'boot-size', n)
    x = bytearray(ntfs.boot_sector())
    x[3 + rng.randrange(8)] ^= 1 << rng.randrange(8)
    mon.raises((BootSector.BootSectorException,), lambda: BootSector.BootSector(bytes(x)), 'boot-signature')


ERR = (MFT.MasterFileTableException, MFT.FileRecordSegmentException, BootSector.BootSectorException)


def case_broken(rng, mon):
    """Volumes on which the table cannot be found or reassembled are refused (never a wrong table)."""
    v = make(rng, mon, far=False, max_ext=rng.choice([1, 3]))
    kind = rng.choice(['boot', 'mftcluster', 'frs0', 'extlost', 'nodata', 'geometry', 'nolist0', 'truncated'])
    f = v.file
    def parser():
        return MFT.FileSystemParser(f, 0)
    def over(start, data):
        # Replace bytes of the volume.
        g = volgen.Pieces(v.size)
        base = {}
        for s, d in f.parts:
            d = bytearray(d)
            for i in range(len(data)):
                if s <= start + i < s + len(d):
                    d[start + i - s] = data[i]
            g.put(s, d)
        return g
    if kind == 'boot':
        f = over(3, b'FAT32   ')
    elif kind == 'geometry':
        o, x = rng.choice([(11, b'\x01'), (12, b'\x00'), (12, b'\x03'), (12, b'\x01'), (13, b'\x00'), (64, b'\x00'), (48, bytes(8))])
        f = over(o, x)
    elif kind == 'mftcluster':
        f = over(48, struct.pack('<Q', v.clusters + 5))
    elif kind == 'frs0':
        f = over(v.first * v.cs, rng.choice([bytes(4), b'INDX', b'\xff\xff']))
    elif kind == 'truncated':
        last = max(range(len(v.runs)), key=lambda i: v.runs[i][0])
        lcn, n = v.runs[last]
        f = volgen.Pieces((lcn + n) * v.cs - 1)
        v.fill(f)
        x = None
        try:
            x = parser()
            x.seek(0)
            got = x.read()
        except ERR:
            got = None
        mon.check(got is None, 'truncated-volume', 'a table was read from a volume that lacks its last byte')
        mon.count('broken_refused')
        return
    elif kind == 'extlost' and v.ext:
        slot = rng.choice(v.ext)[0]
        p = slot * v.frs
        c, o = divmod(p, v.cs)
        for lcn, n in v.runs:
            if c < n:
                f = over((lcn + c) * v.cs + o, rng.choice([b'\x00\x00\x00\x00', b'RCRD']))
                break
            c -= n
    elif kind == 'nodata':
        r0 = ntfs.frs([ntfs.attr_resident(ntfs.SI, ntfs.si_value(owner=0)), ntfs.attr_resident(ntfs.DATA, b'abc')], number=0, size=v.frs)
        f = over(v.first * v.cs, r0[:v.runs[0][1] * v.cs])
        if v.runs[0][1] * v.cs < v.frs:
            return
    else:
        return
    mon.raises(ERR, parser, 'accepted-' + kind, 'runs %s' % clip(v.runs, 200))
    mon.count('broken_refused')
    mon.sig(kind, v.runs)


FAMILIES = [('volume', case_volume, 1200, 20000), ('extreme', case_extreme, 500, 8000), ('boot', case_boot, 150, 3000), ('broken', case_broken, 400, 6000)]
