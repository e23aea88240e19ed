"""C06: decoded attribute values vs. the generator's record, field by field."""
import struct, uuid
from lib.harness import clip
from lib import ntfs
from lib.ntfs import instant_ok, ref
from dfir_ntfs import MFT, Attributes, WSL

PROPERTY = 'C06'
RULE = ('each case generates the value of one attribute kind with random and boundary fields and every legal length (optional parts absent or present), decodes it both '
        'directly and through a file record, and compares every reported field with the generated one. Distinct = distinct values.')
REQUIRED = ['fn_not_text', 'si_full', 'si_short', 'si_partial', 'fn', 'fn_surrogates', 'objid', 'objid_v1', 'objid_short', 'attrlist', 'attrlist_named', 'attrlist_compacted', 'volname', 'volinfo', 'ea', 'ea_multi', 'ea_info',
            'reparse_ms', 'reparse_third', 'lxattrb', 'lxxattr', 'lx_refused', 'unknown_type', 'file_attribute_names', 'index_root_fields', 'nonresident_list']


def u(rng, bits):
    return rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.getrandbits(bits), rng.getrandbits(bits)])


def decode(rng, mon, type_code, value, cls):
    """Decode a value directly or through a file record segment."""
    if rng.random() < 0.4 or len(value) > 700:
        return cls(rng.choice([bytes, bytearray])(value))
    pre = ntfs.attr_resident(0x10 if type_code != 0x10 else 0x50, ntfs.rnd_bytes(rng, rng.choice([0, 8, 50])))
    post = ntfs.attr_resident(0x100, ntfs.rnd_bytes(rng, 5))
    f = MFT.FileRecordSegment(ntfs.frs([pre, ntfs.attr_resident(type_code, value), post], number=33, stamp=ntfs.rnd_bytes(rng, 2), slack=ntfs.rnd_bytes(rng, 300)))
    attrs = [a for a in f.attributes() if a.type_code == type_code]
    mon.equal(len(attrs), 1, 'attribute-count')
    v = attrs[0].value_decoded()
    mon.check(type(v) is cls, 'decoded-class', lambda: '%r for type %#x' % (type(v), type_code))
    mon.equal(bytes(attrs[0].value), bytes(value), 'attribute-value')
    return v


def times(mon, obj, stored, what):
    for name, t in stored.items():
        got = getattr(obj, name)()
        mon.check(instant_ok(got, t), what + '-' + name, lambda: 'stored %d, got %r, instant %r' % (t, got, ntfs.filetime_model(t)))


def fields(mon, obj, want, what):
    for name, v in want.items():
        mon.equal(getattr(obj, name)(), v, what + '-' + name)


def case_si(rng, mon):
    t = [ntfs.rnd_filetime(rng) for __ in range(4)]
    w = [u(rng, 32) for __ in range(4)]
    o = [u(rng, 32), u(rng, 32), u(rng, 64), u(rng, 64)]
    full = ntfs.si_value(*t, *w, *o)
    n = rng.choice([48, 72, 72, 72, 52, 56, 64, 49, 51, 55, 63, 71, 80])
    v = (full + ntfs.rnd_bytes(rng, 8))[:n]
    x = decode(rng, mon, ntfs.SI, v, Attributes.StandardInformation)
    times(mon, x, {'get_ctime': t[0], 'get_mtime': t[1], 'get_etime': t[2], 'get_atime': t[3]}, 'si')
    fields(mon, x, {'get_file_attributes': w[0], 'get_maximum_versions': w[1], 'get_version_number': w[2], 'get_extra_flags': w[2], 'get_class_id': w[3],
                    'get_owner_id': o[0] if n >= 52 else None, 'get_security_id': o[1] if n >= 56 else None,
                    'get_quota_charged': o[2] if n >= 64 else None, 'get_usn': o[3] if n >= 72 else None,
                    'get_storage_reserve_id': w[2] // 256 % 16, 'get_known_folder_information': w[2] // 2 % 8, 'get_trust_level': w[2] // 16 % 4}, 'si')
    mon.equal(bool(x.is_case_sensitive()), w[2] % 2 == 1, 'si-case-sensitive')
    mon.count('si_full' if n >= 72 else 'si_short')
    mon.sig('si', v)
    mon.sample('si length %d: %s' % (n, v.hex()))
    # The part of the value that a journal record carries.
    off = rng.choice([0, 0, 8, 16, 24, 4, 12, 20, 32, rng.randint(0, 71)])
    ln = rng.choice([0, 8, 16, 24, 32, rng.randint(0, 72 - off)])
    p = Attributes.StandardInformationPartial(full[off:off + ln], off)
    ln = len(full[off:off + ln])
    for i, name in enumerate(['get_ctime', 'get_mtime', 'get_etime', 'get_atime']):
        got = getattr(p, name)()
        if off <= i * 8 and off + ln >= i * 8 + 8:
            mon.check(instant_ok(got, t[i]), 'si-partial-' + name, lambda: 'offset %d length %d stored %d got %r' % (off, ln, t[i], got))
        else:
            mon.equal(got, None, 'si-partial-absent-' + name, 'offset %d length %d' % (off, ln))
    mon.count('si_partial')


def case_fn(rng, mon):
    t = [ntfs.rnd_filetime(rng) for __ in range(4)]
    parent = u(rng, 64)
    alloc, size = rng.randint(-2 ** 63, 2 ** 63 - 1), rng.randint(-2 ** 63, 2 ** 63 - 1)
    attrs, ea, ea2, flags = u(rng, 32), u(rng, 16), u(rng, 16), rng.choice([0, 1, 2, 3])
    name = ntfs.rnd_name(rng, 1, rng.choice([1, 12, 200, 255]), astral=False)
    if rng.random() < 0.2:
        name = name[:200] + '\U0001F600' * rng.randint(1, 5)
        mon.count('fn_surrogates')
    if rng.random() < 0.1:
        # Units which are not text are shown as replacement characters, never dropped.
        k = rng.randint(0, len(name))
        name = (name[:k] + rng.choice(['\ud800', '\udfff', '\ud912A', '\udc00\ud800']) + name[k:])[:200]
        mon.count('fn_not_text')
    v = ntfs.fn_value(parent, name, flags=flags, c=t[0], m=t[1], e=t[2], a=t[3], alloc=alloc, size=size, attrs=attrs, ea=ea, ea2=ea2)
    if rng.random() < 0.3:
        v += ntfs.rnd_bytes(rng, rng.randint(1, 10))
    x = decode(rng, mon, ntfs.FN, v, Attributes.FileName)
    times(mon, x, {'get_ctime': t[0], 'get_mtime': t[1], 'get_etime': t[2], 'get_atime': t[3]}, 'fn')
    fields(mon, x, {'get_parent_directory': parent, 'get_allocated_length': alloc, 'get_file_size': size, 'get_file_attributes': attrs, 'get_packed_ea_size': ea,
                    'get_unpacked_ea_size_difference': ea2, 'get_flags': flags, 'get_file_name': name.encode('utf-16le', 'surrogatepass').decode('utf-16le', 'replace'), 'get_file_name_length': len(name.encode('utf-16le', 'surrogatepass')) // 2}, 'fn')
    off = rng.choice([0, 8])
    d = Attributes.DuplicatedInformation(v[8 - off:], off)
    times(mon, d, {'get_ctime': t[0], 'get_mtime': t[1], 'get_etime': t[2], 'get_atime': t[3]}, 'dup')
    fields(mon, d, {'get_allocated_length': alloc, 'get_file_size': size, 'get_file_attributes': attrs}, 'dup')
    mon.count('fn')
    mon.sig('fn', v)


def case_objid(rng, mon):
    if rng.random() < 0.5:
        t = rng.choice([0, 1, (1 << 60) - 1, rng.randint(130000000000000000, 145000000000000000), rng.getrandbits(60)])
        g = uuid.UUID(fields=(t & 0xFFFFFFFF, (t >> 32) & 0xFFFF, ((t >> 48) & 0xFFF) | 0x1000, 0x80 | rng.getrandbits(6), rng.getrandbits(8), rng.getrandbits(48)))
    else:
        t = None
        g = uuid.UUID(int=rng.getrandbits(128))
        if g.version == 1:
            g = uuid.UUID(int=rng.getrandbits(128), version=4)
    extra = ntfs.rnd_bytes(rng, rng.choice([0, 0, 48, 48, 16, 7, 64, 100]))
    v = g.bytes_le + extra
    x = decode(rng, mon, ntfs.OBJID, v, Attributes.ObjectID)
    mon.equal(x.get_object_id(), g, 'object-id')
    mon.equal(bytes(x.get_extra_data()), extra, 'object-id-extra')
    got = x.get_timestamp()
    if t is None:
        mon.equal(got, None, 'object-id-no-time')
    else:
        mon.check(instant_ok(got, t, epoch=ntfs.EPOCH_1582), 'object-id-time', lambda: 'stored %d got %r want %r' % (t, got, ntfs.guidtime_model(t)))
        mon.count('objid_v1')
    mon.count('objid')
    s = decode(rng, mon, ntfs.OBJID, v[:rng.randint(0, 15)], Attributes.ObjectID)
    mon.equal((s.get_object_id(), s.get_timestamp()), (None, None), 'object-id-short')
    mon.count('objid_short')
    mon.sig('objid', v)


def case_attrlist(rng, mon):
    entries, b = [], b''
    compact = None
    n = rng.choice([0, 1, 2, 3, 8, 30])
    for i in range(n):
        t = rng.choice([0x10, 0x30, 0x80, 0x80, 0xA0, 0x100, u(rng, 32)])
        nm = ntfs.rnd_name(rng, 1, rng.choice([3, 20, 80])) if rng.random() < 0.4 and i > 0 else None
        lv, r, ins = u(rng, 64), u(rng, 64), u(rng, 16)
        raw = b'' if nm is None else nm.encode('utf-16le')
        off = 26 if rng.random() < 0.8 else rng.choice([28, 32])
        rl = off + len(raw)
        full = ntfs.align8(rl)
        if rng.random() < 0.85:
            rl = full
        e = struct.pack('<LHBBQQH', t, rl, len(raw) // 2, off, lv, r, ins)
        e += b'\x00' * (off - 26) + raw
        e += b'\x00' * (full - len(e))
        if i == 0 and rng.random() < 0.4:
            compact = u(rng, 32)
            e = e[:26] + b'DC' + struct.pack('<L', compact)
            mon.count('attrlist_compacted')
            if len(e) < full:
                e += b'\x00' * (full - len(e))
            elif len(e) > full:
                e = e[:4] + struct.pack('<H', 32) + e[6:32]
        b += e
        entries.append((t, nm, ins, lv, r))
        if nm:
            mon.count('attrlist_named')
    b += rng.choice([b'', b'', b'\x00' * rng.randint(1, 25), b'\x00' * 32])
    x = decode(rng, mon, ntfs.ATTRLIST, b, Attributes.AttributeList)
    got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in x.entries()]
    mon.equal(got, entries, 'attribute-list', lambda: b.hex())
    if n and (compact is not None or b[26:28] != b'DC'):
        mon.equal(x.get_last_compacted_size(), compact, 'compacted-size', lambda: b.hex())
    mon.count('attrlist')
    mon.sig('list', b)
    # The same list kept outside the record, in fragments.
    if entries:
        cs = rng.choice([512, 1024, 4096])
        from lib.harness import MonFile
        need = max(1, -(-len(b) // cs))
        chunks = [b[i * cs:(i + 1) * cs].ljust(cs, b'\xee') for i in range(need)]
        place = rng.sample(range(1, 40), need)
        base = rng.choice([0, 512])
        vol = bytearray(ntfs.rnd_bytes(rng, base + 40 * cs))
        for c, p in zip(chunks, place):
            vol[base + p * cs:base + (p + 1) * cs] = c
        a = ntfs.attr_nonresident(ntfs.ATTRLIST, [(p, 1) for p in place], len(b), cluster_size=cs, rng=rng)
        if len(a) < 800:
            f = MFT.FileRecordSegment(ntfs.frs([a], number=70))
            lst = next(iter(f.attributes())).value_decoded(MonFile(bytes(vol)), base, cs)
            got = [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in lst.entries()]
            mon.equal(got, entries, 'nonresident-attribute-list')
            mon.count('nonresident_list')


def case_volume(rng, mon):
    name = ntfs.rnd_name(rng, 0, 32) if rng.random() < 0.9 else ''
    x = decode(rng, mon, ntfs.VOLNAME, name.encode('utf-16le'), Attributes.VolumeName)
    mon.equal(x.get_name(), name, 'volume-name')
    if rng.random() < 0.2:
        # A unit that is no character is shown as such, it does not vanish.
        a, b = ntfs.rnd_name(rng, 0, 8), ntfs.rnd_name(rng, 1, 8)
        x = decode(rng, mon, ntfs.VOLNAME, a.encode('utf-16le') + struct.pack('<H', rng.randrange(0xDC00, 0xE000)) + b.encode('utf-16le'), Attributes.VolumeName)
        mon.equal(x.get_name(), a + '\ufffd' + b, 'volume-name-not-text')
    mon.count('volname')
    maj, mi, fl = u(rng, 8), u(rng, 8), u(rng, 16)
    x = decode(rng, mon, ntfs.VOLINFO, ntfs.rnd_bytes(rng, 8) + struct.pack('<BBH', maj, mi, fl) + ntfs.rnd_bytes(rng, rng.choice([0, 4])), Attributes.VolumeInformation)
    fields(mon, x, {'get_major_version': maj, 'get_minor_version': mi, 'get_flags': fl}, 'volume-info')
    mon.count('volinfo')
    a, b, c = u(rng, 16), u(rng, 16), u(rng, 32)
    x = decode(rng, mon, ntfs.EAINFO, struct.pack('<HHL', a, b, c), Attributes.EAInformation)
    fields(mon, x, {'get_packed_ea_size': a, 'get_need_ea_count': b, 'get_unpacked_ea_size': c}, 'ea-info')
    mon.count('ea_info')
    t = rng.choice([0x1000, 0x11, 0xF0, 0x200, 0x12345])
    f = MFT.FileRecordSegment(ntfs.frs([ntfs.attr_resident(t, name.encode('utf-16le'))], number=33))
    at = list(f.attributes())
    mon.equal([(y.type_code, bytes(y.value), bytes(y.value_decoded().value)) for y in at], [(t, name.encode('utf-16le'), name.encode('utf-16le'))], 'unknown-type')
    mon.count('unknown_type')
    # Index root header fields.
    w = [u(rng, 32) for __ in range(4)]
    h = [u(rng, 32) for __ in range(3)] + [u(rng, 8)]
    x = decode(rng, mon, ntfs.IDXROOT, struct.pack('<LLLL', *w) + struct.pack('<LLLB3s', *h, b'\x00\x00\x00'), Attributes.IndexRoot)
    fields(mon, x, {'get_indexed_attribute_type_code': w[0], 'get_collation_rule': w[1], 'get_bytes_per_index_buffer': w[2], 'get_blocks_per_index_buffer': w[3]}, 'index-root')
    fields(mon, x.get_index_header(), {'get_first_index_entry': h[0], 'get_first_free_byte': h[1], 'get_bytes_available': h[2], 'get_flags': h[3]}, 'index-header')
    mon.count('index_root_fields')
    mon.sig('vol', name, maj, mi, fl, a, b, c, t, w, h)


NAMES = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE', 0x40: 'DEVICE', 0x80: 'NORMAL', 0x100: 'TEMPORARY', 0x200: 'SPARSE', 0x400: 'REPARSE_POINT',
         0x800: 'COMPRESSED', 0x1000: 'OFFLINE', 0x2000: 'NOT_CONTENT_INDEXED', 0x4000: 'ENCRYPTED', 0x8000: 'INTEGRITY_STREAM', 0x10000: 'VIRTUAL', 0x20000: 'NO_SCRUB_DATA',
         0x40000: 'RECALL_ON_OPEN', 0x80000: 'PINNED', 0x100000: 'UNPINNED', 0x400000: 'RECALL_ON_DATA_ACCESS'}


def case_names(rng, mon):
    v = rng.choice([rng.getrandbits(32), 1 << rng.randint(0, 31), 0, 0xFFFFFFFF])
    got = [s for s in Attributes.ResolveFileAttributes(v).split(' | ') if s]
    mon.equal(sorted(got), sorted(n for b, n in NAMES.items() if v & b), 'file-attribute-names', '%#x' % v)
    mon.count('file_attribute_names')
    mon.sig('names', v)


def case_ea(rng, mon):
    n = rng.choice([0, 1, 1, 2, 3, 8])
    model, b = [], b''
    for i in range(n):
        nm = bytes(rng.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ$.0123456789') for __ in range(rng.randint(1, rng.choice([3, 12, 60, 255]))))
        v = ntfs.rnd_bytes(rng, rng.choice([0, 1, 2, 3, 4, 56, 200, 3000, rng.choice([200, 255, 256, 32767, 32768, 65000, 65535])]) if len(b) < 2000 else rng.randint(0, 9))
        fl = rng.choice([0, 0x80, u(rng, 8)])
        last = i == n - 1
        e = ntfs.ea_entry(nm, fl, v, last and rng.random() < 0.7)
        if last and rng.random() < 0.3:
            # trailing alignment not stored
            e = e[:8 + len(nm) + 1 + len(v)] if e[:4] == b'\x00' * 4 else e
        b += e
        model.append((nm + b'\x00', fl, v))
    if rng.random() < 0.2 and not n:
        b = b'\x00' * rng.randint(0, 8)
    x = decode(rng, mon, ntfs.EA, b, Attributes.EA)
    got = [(bytes(a), f, bytes(v)) for a, f, v in x.data_parsed()]
    mon.equal(got, model, 'extended-attributes', lambda: b.hex())
    mon.count('ea')
    if n > 1:
        mon.count('ea_multi')
    mon.sig('ea', b)


def case_reparse(rng, mon):
    tag = u(rng, 32)
    data = ntfs.rnd_bytes(rng, rng.choice([0, 1, 12, 60, 300, rng.choice([300, 16384, 40000, 65535])]))
    if tag & 0x80000000:
        v = struct.pack('<LHH', tag, len(data), 0) + data + ntfs.rnd_bytes(rng, rng.choice([0, 0, 5]))
        x = decode(rng, mon, ntfs.REPARSE, v, Attributes.ReparsePoint)
        mon.equal(x.get_reparse_guid(), None, 'reparse-guid-ms')
        mon.count('reparse_ms')
    else:
        g = uuid.UUID(int=rng.getrandbits(128))
        v = struct.pack('<LHH', tag, len(data), 0) + g.bytes_le + data + ntfs.rnd_bytes(rng, rng.choice([0, 0, 5]))
        x = decode(rng, mon, ntfs.REPARSE, v, Attributes.ReparsePoint)
        mon.equal(x.get_reparse_guid(), g, 'reparse-guid')
        mon.count('reparse_third')
    mon.equal((x.get_reparse_tag(), bool(x.is_reparse_tag_microsoft()), x.get_reparse_data_length(), bytes(x.get_reparse_buffer())), (tag, tag >= 0x80000000, len(data), data), 'reparse-fields')
    mon.sig('reparse', v)


def case_wsl(rng, mon):
    mode, uid, gid, rdev = (u(rng, 32) for __ in range(4))
    ns = [rng.choice([0, 999999999, rng.randint(0, 999999999)]) for __ in range(3)]
    sec = [rng.choice([0, 1, rng.randint(0, 1 << 32), 253402300799, rng.randint(0, 253402300799)]) for __ in range(3)]
    v = struct.pack('<HHLLLLLLLQQQ', 0, 1, mode, uid, gid, rdev, *ns, *sec)
    nm = b'LXATTRB'
    wrapped = rng.random() < 0.5
    if wrapped:   # as found: inside an $EA value
        ea = decode(rng, mon, ntfs.EA, ntfs.ea_entry(b'OTHER', 0, b'x' * 5, False) + ntfs.ea_entry(nm, 0, v, True), Attributes.EA)
        v2 = [y for a, f, y in ea.data_parsed() if a == nm + b'\x00'][0]
    else:
        v2 = v
    x = WSL.LXATTRB(v2)
    fields(mon, x, {'get_mode': mode, 'get_uid': uid, 'get_gid': gid, 'get_rdev': rdev}, 'lxattrb')
    import datetime
    ep = datetime.datetime(1970, 1, 1)
    for i, m in enumerate(['get_atime', 'get_mtime', 'get_chtime']):
        got = getattr(x, m)()
        mon.check(instant_ok(got, sec[i] * 10 ** 9 + ns[i], epoch=ep, per_us=1000), 'lxattrb-' + m, lambda: 'stored %d.%09d got %r' % (sec[i], ns[i], got))
    mon.count('lxattrb')
    bad = rng.choice([v[:-1], v + b'\x00', b'', struct.pack('<HH', 0, 2) + v[4:], struct.pack('<HH', 1, 1) + v[4:], struct.pack('<HH', 1, 0) + v[4:]])
    mon.raises(ValueError, lambda: WSL.LXATTRB(bad), 'lxattrb-refused', bad.hex())
    mon.count('lx_refused')
    # Linux extended attributes.
    n = rng.randint(1, 6)
    model, b = [], b''
    for i in range(n):
        k = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz._') for __ in range(rng.randint(2, rng.choice([8, 60, 255]))))
        val = ntfs.rnd_bytes(rng, rng.choice([0, 1, 5, 100, 1000]))
        e = struct.pack('<HB', len(val), len(k)) + k + val
        pad = rng.choice([0, 0, rng.randint(1, 7)])
        nxt = 4 + len(e) + pad if i < n - 1 else 0
        b += struct.pack('<L', nxt) + e + (ntfs.rnd_bytes(rng, pad) if i < n - 1 else b'')
        model.append((k, val))
    w = struct.pack('<HH', 0, 1) + b
    if len(w) >= 12:
        got = [(bytes(a), bytes(c)) for a, c in WSL.LXXATTR(w).extended_attributes()]
        mon.equal(got, model, 'lxxattr', lambda: w.hex())
        mon.count('lxxattr')
    bad = rng.choice([w[:rng.randint(0, 11)], struct.pack('<HH', 0, 2) + w[4:], struct.pack('<HH', 1, 1) + w[4:]])
    mon.raises(ValueError, lambda: WSL.LXXATTR(bad), 'lxxattr-refused', bad.hex())
    mon.sig('wsl', v, w)


FAMILIES = [(n, f, q, q * 20) for n, f, q in [('si', case_si, 5000), ('fn', case_fn, 4000), ('objid', case_objid, 2000), ('attrlist', case_attrlist, 4000), ('volume', case_volume, 2500),
                                              ('names', case_names, 1000), ('ea', case_ea, 4000), ('reparse', case_reparse, 3000), ('wsl', case_wsl, 4000)]]
