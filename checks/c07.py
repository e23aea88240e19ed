"""C07: entries of directory indexes, exactly once and in stored order."""
import struct
from lib.harness import MonFile, clip
from lib import ntfs
from lib.ntfs import ref
from dfir_ntfs import MFT, Attributes

PROPERTY = 'C07'
RULE = ('each case generates an index root or a set of index buffers (leaf and intermediate nodes, stale entries after the end marker and in slack, unallocated, damaged and '
        'foreign buffers) stored through a random run list split over one or more attribute records; the log of yielded entries is compared with the stored ones. '
        'Distinct = distinct index contents.')
REQUIRED = ['root_entries', 'root_nodes', 'buffer_entries', 'buffers', 'skipped_buffers', 'stale_entries_hidden', 'straddling_buffers', 'split_allocation', 'empty_nodes', 'no_end_marker', 'entry_slack_free', 'truncated_entries', 'long_bad_stretches', 'large_buffers']


def rnd_key(rng):
    return ntfs.fn_value(ref(rng.randint(5, 1 << 30), rng.randint(1, 9)), ntfs.rnd_name(rng, 1, rng.choice([1, 12, 60, 255]), astral=False)[:255], flags=rng.choice([0, 1, 2, 3]),
                         c=ntfs.rnd_filetime(rng), size=rng.getrandbits(40))


def rnd_entries(rng, room, maxn, nodes):
    out, model = [], []
    used = 0
    for __ in range(rng.randint(0, maxn)):
        key = rnd_key(rng) if rng.random() < 0.9 else ntfs.rnd_bytes(rng, rng.choice([1, 4, 8, 13, 20, 66]))
        vcn = rng.getrandbits(rng.choice([4, 32, 64])) if nodes else None
        r = rng.getrandbits(64)
        length = None
        if vcn is None and rng.random() < 0.2 and len(key) % 8:
            length = 16 + len(key)       # stored unaligned length, the next entry is still aligned
        e = ntfs.index_entry(r, key, vcn=vcn, length=length)
        e += b'\x00' * (-len(e) % 8)
        if used + len(e) > room:
            break
        used += len(e)
        out.append(e)
        model.append((r, key, vcn, 1 if nodes else 0))
    return out, model


def obs(e):
    return (e.get_file_reference(), bytes(e.get_attribute()), e.get_vcn(), e.get_flags())


def case_root(rng, mon):
    nodes = rng.random() < 0.4
    ents, model = rnd_entries(rng, 600, 8, nodes)
    stale, __ = rnd_entries(rng, 200, 2, False)
    endless = rng.random() < 0.1
    end = b'' if endless else ntfs.index_end(rng.getrandbits(32) if nodes else None)
    cut = endless and rng.random() < 0.6
    if cut:       # the value ends inside the header of an entry
        end = ntfs.index_entry(rng.getrandbits(64), rnd_key(rng))[:rng.randint(1, 15)]
        mon.count('truncated_entries')
    first = rng.choice([16, 16, 16, 24])
    v = ntfs.index_root_value(ents, end=end, flags=1 if nodes else 0, buf_size=4096, first=first)
    if stale and not cut and rng.random() < 0.5:
        v += b''.join(stale)
        mon.count('stale_entries_hidden')
    rec = MFT.FileRecordSegment(ntfs.frs([ntfs.attr_resident(ntfs.IDXROOT, v, name='$I30')], number=90, flags=3, size=4096))
    root = [a for a in rec.attributes()][0].value_decoded()
    mon.equal([obs(e) for e in root.index_entries()], model, 'root-entries', lambda: v.hex())
    mon.equal([obs(e) for e in root.index_entries()], model, 'root-entries-again')
    mon.count('root_entries', len(model))
    if nodes:
        mon.count('root_nodes')
    if endless:
        mon.count('no_end_marker')
    if not model:
        mon.count('empty_nodes')
    mon.sig('root', v)
    mon.sample('root with %d entries: %s' % (len(model), clip([m[0] for m in model])))


def case_alloc(rng, mon):
    size = rng.choice([1024, 4096, 4096, 4096, 8192, 65536]) if rng.random() < 0.9 else rng.choice([1536, 2048, 16384, 66048, 119808])
    cs = rng.choice([512, 1024, 2048, 4096, 4096, 65536]) if size >= 4096 else rng.choice([512, 512, 1024])
    nbuf = rng.randint(1, 8) if size <= 8192 else rng.randint(1, 3)
    stretch = (0, 0)
    if size <= 4096 and rng.random() < 0.04:
        nbuf = rng.randint(20, 60)
        a = rng.randint(1, 3)
        stretch = (a, a + rng.randint(5, nbuf - 8))
        mon.count('long_bad_stretches')
    if size > 65536:
        mon.count('large_buffers')
    stamp = ntfs.rnd_bytes(rng, 2)
    room = size - ntfs.align8(40 + 2 * (size // 512 + 1)) - 32
    stream, model = b'', []
    for v in range(nbuf):
        kind = 'ok' if v == 0 or (rng.random() < 0.7 and not stretch[0] <= v < stretch[1]) else rng.choice(['zero', 'torn', 'foreign', 'garbage', 'badusa', 'wrongsize'])
        nodes = rng.random() < 0.3
        ents, m = rnd_entries(rng, room, rng.choice([0, 3, 12, 40]), nodes)
        stale, __ = rnd_entries(rng, 400, 4, False)
        endless = rng.random() < 0.05
        lsn = rng.getrandbits(63)
        sl = b''.join(stale) if rng.random() < 0.6 else ntfs.rnd_bytes(rng, 900)
        blk = v * size // cs if rng.random() < 0.8 else rng.getrandbits(64)
        flags = 1 if nodes else 0
        b = ntfs.index_buffer_plain(ents, size=size, vcn=blk, lsn=lsn, flags=flags, end=b'' if endless else ntfs.index_end(5 if nodes else None), slack=sl)
        ff = struct.unpack('<L', b[28:32])[0]
        slack = bytes(b[24 + ff:])
        raw = ntfs.usa_protect(b, 40, stamp if rng.random() < 0.5 else ntfs.rnd_bytes(rng, 2))
        if stale:
            mon.count('stale_entries_hidden')
        if kind == 'ok':
            model.append((blk, lsn, flags, m, slack))
            mon.count('buffers')
            mon.count('buffer_entries', len(m))
            if not m:
                mon.count('empty_nodes')
            if endless:
                mon.count('no_end_marker')
        else:
            mon.count('skipped_buffers')
            if kind == 'zero':
                raw = b'\x00' * size
            elif kind == 'torn':
                k = rng.randint(1, size // 512)
                raw[k * 512 - 2] ^= 0x5A
            elif kind == 'foreign':
                raw[0:4] = rng.choice([b'FILE', b'INDY', b'BAAD', b'\x00INX'])
            elif kind == 'garbage':
                raw = b'\x01' + ntfs.rnd_bytes(rng, size - 1)
            elif kind == 'badusa':
                raw[4:6] = struct.pack('<H', rng.choice([0, 39, 600]))
            else:
                raw[6:8] = struct.pack('<H', size // 512 + rng.choice([-1, 1, 2]) + 1)
        stream += bytes(raw)
    if rng.random() < 0.2:
        stream += bytes(ntfs.index_buffer_plain([], size=size))[:rng.choice([1, 100, 512])]
    # Store it.
    need = -(-len(stream) // cs)
    vol_clusters = need * 2 + 10
    vol = bytearray(ntfs.rnd_bytes(rng, vol_clusters * cs))
    runs, left = [], need
    free = list(range(1, vol_clusters))
    pos = 0
    cuts = []
    while left:
        n = rng.randint(1, min(left, 6))
        start = rng.choice(free)
        n2 = 0
        while n2 < n and start + n2 in free:
            free.remove(start + n2)
            n2 += 1
        for i in range(n2):
            c = stream[pos * cs:(pos + 1) * cs]
            vol[(start + i) * cs:(start + i) * cs + len(c)] = c
            pos += 1
        runs.append((start, n2))
        cuts.append(pos * cs)
        left -= n2
    if any(x % size and x < len(stream) for x in cuts):
        mon.count('straddling_buffers')
    off = rng.choice([0, 512, 1 << 15])
    image = MonFile(ntfs.rnd_bytes(rng, off) + bytes(vol))
    k = rng.randint(1, len(runs)) if len(runs) > 1 and rng.random() < 0.4 else None
    if k is None or k == len(runs):
        pieces = [(0, runs)]
    else:
        pieces = [(0, runs[:k]), (sum(c for __, c in runs[:k]), runs[k:])]
        mon.count('split_allocation')
    attrs = [ntfs.attr_nonresident(ntfs.IDXALLOC, r, len(stream) if v == 0 else 0, name='$I30', lowest_vcn=v, allocated=need * cs if v == 0 else 0, cluster_size=cs, rng=rng) for v, r in pieces]
    segs = [MFT.FileRecordSegment(ntfs.frs([a], number=91 + i, size=4096, base=0 if i == 0 else ref(91, 1))) for i, a in enumerate(attrs)]
    rec = MFT.FileRecord(segs[0], segs[1:])
    merged = [a for a in rec.attributes(True)]
    mon.equal(len(merged), 1, 'merged-allocation')
    ia = merged[0].value_decoded(image, off, cs)

    def observed():
        return [(b.get_this_block(), b.get_logfile_sequence_number(), b.get_index_header().get_flags(), [obs(e) for e in b.index_entries()], bytes(b.get_slack())) for b in ia.index_buffers()]
    ctx = 'size=%d cs=%d buffers=%d runs=%s' % (size, cs, nbuf, clip(runs, 200))
    got = observed()
    mon.equal([g[0:3] for g in got], [m[0:3] for m in model], 'buffer-headers', ctx)
    for g, m in zip(got, model):
        mon.equal(g[3], m[3], 'buffer-entries', ctx)
        mon.equal(g[4], m[4], 'buffer-slack', ctx)
    mon.equal(observed() == got, True, 'second-walk', ctx)
    mon.equal([bytes(s) for s in ia.get_slack()], [m[4] for m in model if len(m[4]) > 8], 'slack-list', ctx)
    mon.count('entry_slack_free')
    # Interleaved walks over the same object.
    log = []
    for b in ia.index_buffers():
        for e in b.index_entries():
            log.append(obs(e))
            if rng.random() < 0.05:
                next(ia.index_buffers(), None)
    mon.equal(log, [e for m in model for e in m[3]], 'interleaved-walk', ctx)
    mon.sig('alloc', size, cs, runs, [m[3] for m in model])
    mon.sample('%s: %d entries in %d readable buffers' % (ctx, len(log), len(model)))


FAMILIES = [('root', case_root, 3000, 60000), ('alloc', case_alloc, 2500, 50000)]
