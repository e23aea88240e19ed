"""C08: file name structures planted in slack are recovered; slack is exactly the unused bytes."""
import struct
from lib.harness import MonFile, clip
from lib import ntfs
from lib.ntfs import ref, instant_ok
from dfir_ntfs import MFT, Attributes

PROPERTY = 'C08'
RULE = ('each case plants file name structures between garbage in slack areas (raw, behind the end marker of base and extension records, behind the used part of index buffers) and compares the '
        'carved log with what was planted: every complete structure once, in order, every field equal, nothing else; slack bytes are compared exactly. Distinct = distinct slack contents.')
REQUIRED = ['planted', 'recovered', 'garbage_before', 'zero_gap', 'adjacent', 'head_overwritten', 'partial_names', 'shortest_partial_names', 'record_slack', 'extension_slack', 'index_slack', 'tight_slack', 'used_names_not_reported', 'long_names', 'one_char_names', 'lists', 'nothing_planted', 'time_bounds']

LO, HI = 125911584000000000, 144000000000000000


def rnd_fn(rng, mon, ascii_only=False):
    n = rng.choice([1, 2, 5, 12, 12, 30, 255])
    name = ntfs.rnd_name(rng, n, n, astral=False)
    if rng.random() < 0.1 and n > 3:
        name = name[:n - 2] + '\U0001F4A9'
    if n == 255:
        mon.count('long_names')
    if n == 1:
        mon.count('one_char_names')
    t = [rng.randint(LO, HI) for __ in range(4)]
    if rng.random() < 0.1:
        t = [rng.choice([125000000000000000, 145000000000000000, LO]) for __ in range(4)]
        mon.count('time_bounds')
    alloc = rng.choice([0, 4096, rng.randint(0, 1 << 40) & ~7])
    attrs = rng.choice([0x20, 0x10000010, 0x26, 0, 0x2020, 0x10002016])
    parent = ref(rng.randint(5, 1 << 32), rng.choice([1, 2, 9, 444, 480, 515, rng.randint(1, 65535)]))
    fl = rng.choice([0, 1, 2, 3])
    d = dict(c=t[0], m=t[1], e=t[2], a=t[3], alloc=alloc, size=max(0, alloc - rng.randint(0, 4095)), attrs=attrs)
    return ntfs.fn_value(parent, name, flags=fl, **d), (parent, name, fl, t, d['alloc'], d['size'], attrs)


def compare(mon, items, planted, ctx):
    objs = [x for x in items if not isinstance(x, str)]
    mon.equal([x.get_file_name() for x in objs], [p[1] for p in planted], 'slack-names', ctx)
    for x, p in zip(objs, planted):
        mon.check(type(x) is Attributes.FileName, 'slack-type', ctx)
        mon.equal((x.get_parent_directory(), x.get_flags(), x.get_allocated_length(), x.get_file_size(), x.get_file_attributes()), (p[0], p[2], p[4], p[5], p[6]), 'slack-fields', ctx)
        for t, m in zip(p[3], (x.get_ctime, x.get_mtime, x.get_etime, x.get_atime)):
            mon.check(instant_ok(m(), t), 'slack-times', ctx)
        mon.count('recovered')


def garbage(rng, mon, n):
    """Bytes that cannot be mistaken for four plausible timestamps in a row."""
    k = rng.random()
    if k < 0.4:
        mon.count('zero_gap')
        return b'\x00' * n
    mon.count('garbage_before')
    b = bytearray(ntfs.rnd_bytes(rng, n))
    for i in range(len(b)):        # no 16-bit unit in 0x01BC..0x0203 (the top of plausible timestamps)
        if b[i] in (1, 2):
            b[i] = 0x7A
    return bytes(b)


def layout(rng, mon, nmax=5, room=100000, header=True):
    out = b''
    planted = []
    for __ in range(rng.randint(0, nmax)):
        v, p = rnd_fn(rng, mon)
        gap = rng.choice([0, 8, 16, 24, 40, 100, 2, 6])
        if gap == 0:
            mon.count('adjacent')
        h = b''
        if header and rng.random() < 0.5:
            h = rng.choice([struct.pack('<QHHHH', ref(rng.randint(24, 1000), 1), 16 + len(v), len(v), 0, 0),
                            struct.pack('<LLBBHHHLHBB', 0x30, ntfs.align8(24 + len(v)), 0, 0, 0x18, 0, 2, len(v), 0x18, 1, 0)])
        piece = garbage(rng, mon, gap) + h + v
        if rng.random() < 0.8:
            piece += b'\x00' * (-len(piece) % 8)
        if len(out) + len(piece) + 8 > room:
            break
        out += piece
        planted.append(p)
    tail = garbage(rng, mon, rng.choice([0, 2, 8, 40, 200]))
    out = (out + tail)[:room]
    mon.count('planted', len(planted))
    if not planted:
        mon.count('nothing_planted')
    return out, planted


def case_raw(rng, mon):
    b, planted = layout(rng, mon)
    head = None
    if rng.random() < 0.3:
        v, p = rnd_fn(rng, mon)
        cut = rng.choice([4, 8])
        b = v[cut:] + b'\x00' * (-len(v[cut:]) % 2) + b
        planted = [(0xFFFFFFFFFFFFFFFF,) + p[1:]] + planted
        mon.count('head_overwritten')
    if rng.random() < 0.15 and head is None and not (planted and planted[0][0] == 0xFFFFFFFFFFFFFFFF):
        b = b'\x5a' + b        # odd amount of slack: structures stay aligned to the end
    elif len(b) % 2:
        b += b'\x00'
    if planted and planted[0][0] != 0xFFFFFFFFFFFFFFFF and len(b) % 2 == 0 and b[:2] != b'' and False:
        pass
    val = rng.choice([bytes, bytearray])(b)
    ctx = b.hex() if len(b) < 600 else '%d bytes' % len(b)
    compare(mon, list(MFT.SlackSpace(val).carve()), planted, ctx)
    got = list(MFT.SlackSpace(val).carve(True))
    compare(mon, got, planted, ctx)
    mon.check(len([x for x in got if isinstance(x, str)]) <= 1, 'partial-names-once', ctx)
    mon.equal(bytes(val), b, 'slack-changed')
    mon.sig(b)
    mon.sample('%d bytes with %s' % (len(b), clip([p[1] for p in planted], 300)))
    # A list of slack areas is the concatenation of their results.
    b2, planted2 = layout(rng, mon, 2)
    if len(b2) % 2:
        b2 += b'\x00'
    lst = [b, b2, b'', b2[:7]]
    compare(mon, list(MFT.SlackSpace(lst).carve()), planted + planted2, ctx)
    mon.count('lists')


def case_partial_name(rng, mon):
    """Slack beginning with the rest of an overwritten name followed by a complete structure."""
    n = rng.choice([5, 5, 6, 7, 12, 40, rng.randint(5, 120), 200])
    name = ''.join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. !#$%&'()+,;=@[]^`{}~") for __ in range(n))
    if n == 5:
        mon.count('shortest_partial_names')
    v, p = rnd_fn(rng, mon)
    lead = rng.choice([b'\x05\x03', b'\xff\xff\xff\xff', b'\x00\x00\x01\x03', b'\x01\x02\x03\x04\x05\x06'])
    b = lead + name.encode('utf-16le')
    pad = -len(b) % 8 or 8
    b += b'\x00' * pad
    b += struct.pack('<QHHHH', ref(rng.randint(24, 0xFF) * 256 + 1, 1), 0x80 + 1, 0x81, 0, 0) if rng.random() < 0.7 else b''
    b += v
    b += b'\x00' * (-len(b) % 8)
    got = list(MFT.SlackSpace(b).carve(True))
    compare(mon, got, [p], b.hex())
    mon.equal([x for x in got if isinstance(x, str)], [name], 'partial-name', b.hex())
    mon.equal([x for x in MFT.SlackSpace(b).carve() if isinstance(x, str)], [], 'partial-name-not-requested')
    mon.count('partial_names')
    mon.sig('partial', b)


def case_record(rng, mon):
    size = rng.choice([1024, 1024, 4096])
    segs, expect, plain_slack = [], [], []
    for i in range(rng.choice([1, 1, 2, 3])):
        used_v, used_p = rnd_fn(rng, mon)
        attrs = [ntfs.attr_resident(ntfs.SI, ntfs.si_value(c=rng.randint(LO, HI), m=rng.randint(LO, HI), e=rng.randint(LO, HI), a=rng.randint(LO, HI)))]
        if rng.random() < 0.7 and len(used_v) < 300:
            attrs.append(ntfs.attr_resident(ntfs.FN, used_v))
            mon.count('used_names_not_reported')
        used = ntfs.align8(48 + 2 * (size // 512 + 1)) + sum(map(len, attrs)) + 8
        b, planted = layout(rng, mon, 5, room=size - used)
        # After the end marker comes 4 bytes of its fake length; the builder appends `b` right after them.
        raw, uo = ntfs.frs_plain(attrs, number=60 + i, seq=4, size=size, slack=b, base=0 if i == 0 else ref(60, 4), first_free=used if rng.random() < 0.8 else None)
        segs.append(MFT.FileRecordSegment(bytes(ntfs.usa_protect(raw, uo, ntfs.rnd_bytes(rng, 2)))))
        expect += planted
        plain_slack.append(bytes(raw[used - 4:]))
        if i:
            mon.count('extension_slack')
    fr = MFT.FileRecord(segs[0], segs[1:])
    slacks = list(fr.slack())
    mon.equal([bytes(s.value) for s in slacks], plain_slack, 'slack-bytes')
    items = [x for s in slacks for x in s.carve()]
    compare(mon, items, expect, 'record size %d' % size)
    mon.count('record_slack')
    mon.sig('record', plain_slack)


def case_index(rng, mon):
    size = 4096
    bufs, expect, slacks = [], [], []
    for v in range(rng.randint(1, 4)):
        ents = []
        for __ in range(rng.randint(0, 8)):
            fv, p = rnd_fn(rng, mon)
            if len(fv) < 200:
                ents.append(ntfs.index_entry(ref(rng.randint(24, 999), 1), fv))
                mon.count('used_names_not_reported')
        used = ntfs.align8(40 + 18) + sum(map(len, ents)) + 16
        if rng.random() < 0.1:
            # As little slack as one short name needs.
            pad = rng.choice([68, 70, 72, 80, 86, 88, 96])
            ents.append(ntfs.index_entry(ref(77, 1), ntfs.rnd_bytes(rng, 66) + b'Z' * 6, length=(size - pad - used) & ~7))
            used += len(ents[-1])
            mon.count('tight_slack')
        b, planted = layout(rng, mon, 6, room=size - used)
        raw = ntfs.index_buffer_plain(ents, size=size, vcn=v, slack=b)
        bufs.append(bytes(ntfs.usa_protect(raw, 40, ntfs.rnd_bytes(rng, 2))))
        slacks.append(bytes(raw[used:]))
        expect += planted
    st = b''.join(bufs)
    f = MFT.FragmentedFile(MonFile(st), 0, 4096, [(0, len(bufs))], len(st))
    ia = Attributes.IndexAllocation(f)
    mon.equal([bytes(b.get_slack()) for b in ia.index_buffers()], slacks, 'index-slack-bytes')
    lst = ia.get_slack()
    mon.equal([bytes(x) for x in lst], [s for s in slacks if len(s) > 8], 'index-slack-list')
    compare(mon, list(MFT.SlackSpace(lst).carve()), expect, 'index slack')
    mon.count('index_slack')
    mon.sig('index', slacks)


FAMILIES = [('raw', case_raw, 2500, 40000), ('partial_name', case_partial_name, 800, 15000), ('record', case_record, 2000, 30000), ('index', case_index, 1000, 15000)]
