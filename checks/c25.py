"""C25: timestamps carved from generated memory images."""
import struct
from lib.harness import MonFile, clip
from lib import ntfs
from dfir_ntfs import MFT

PROPERTY = 'C25'
ASSUMPTIONS = ['All control blocks of an image share one field layout, each lies inside one memory page, and at least sixty of the first hundred candidates have that layout (the layout is detected by majority).']
RULE = ('each case fills memory pages (zero, random, pointer-like and text noise) with control blocks of one randomly chosen field layout at random even positions, decoys that differ from a control block in one respect '
        '(signature, one time out of range, odd position, cut by a page end) and a cut last page; the carved log is compared with the planted blocks. Distinct = distinct planted sets.')
REQUIRED = ['planted', 'decoy_signature', 'decoy_time', 'decoy_atime', 'decoy_cut', 'decoy_odd', 'edge_low', 'edge_high', 'adjacent', 'at_page_start', 'at_page_end', 'cut_last_page', 'refused_few', 'second_pass', 'decoy_layout', 'refused_unclear_times', 'refused_unclear_access']

SIG = b'\x02\x07'
LO, HI = 123000000000000000, 135000000000000000


def ts(rng):
    r = rng.random()
    if r < 0.02:
        return LO
    if r < 0.04:
        return HI
    return rng.randint(LO + 1, HI - 1)


def block(rng, dup, at, times, ref, noise, sig=SIG):
    """A control block up to the end of its in-memory access time; filler that can not be taken for a time."""
    b = bytearray(at + 8)
    if noise:
        b[:] = bytes(rng.choice(b'\x00\x00\x00\xff\x80\xfa') for __ in range(len(b)))
    b[0:2] = sig
    b[2:4] = struct.pack('<H', at + 8)
    b[8:16] = struct.pack('<Q', ref)
    b[dup:dup + 32] = struct.pack('<QQQQ', *times[:4])
    b[dup + 32:dup + 56] = struct.pack('<qqLL', rng.getrandbits(30), rng.getrandbits(30), rng.getrandbits(12), 0)
    b[dup + 56:at] = b'\x00' * (at - dup - 56)
    b[at:at + 8] = struct.pack('<Q', times[4])
    return b


def rnd_ref(rng):
    return ntfs.ref(rng.getrandbits(rng.choice([8, 20, 32])), rng.randint(1, 300))


def image(rng, mon):
    dup = rng.choice([24, 32, 40, 48, 64, 72, 80, 96, 112, 142])
    at = min(dup + 56 + rng.choice([0, 8, 16, 24, 40, 62]), 206)
    few = rng.random() < 0.12
    want_n = rng.randint(0, 19) if few else rng.choice([25, 26, 40, 99, 100, 101, 130, 220])
    size = at + 8
    pages, planted, decoys = [], [], 0
    if not few and want_n >= 100 and rng.random() < 0.4:
        # blocks of other layouts first: the layout of the majority still is the one that counts
        pool = [(d, min(d + 56 + k, 206)) for d in (24, 32, 40, 48, 64, 72, 80, 96, 112, 142) for k in (0, 8, 16, 24, 40, 62)]
        pool = [x for x in pool if x[0] != dup and x[1] != at]
        rng.shuffle(pool)
        used = {}
        page, pos = bytearray(4096), rng.choice([0, 2, 64])
        for __ in range(rng.choice([5, 15, 25, 35])):
            d, a = rng.choice(pool)
            if max(used.get(('d', d), 0), used.get(('a', a), 0)) >= 12:
                continue
            used[('d', d)] = used.get(('d', d), 0) + 1
            used[('a', a)] = used.get(('a', a), 0) + 1
            b = block(rng, d, a, [ts(rng) for __ in range(5)], rnd_ref(rng), rng.random() < 0.5)
            while SIG in b[2:]:         # nothing else in it looks like a block
                b = block(rng, d, a, [ts(rng) for __ in range(5)], rnd_ref(rng), rng.random() < 0.5)
            if pos + len(b) > 4096:
                pages.append(page)
                page, pos = bytearray(4096), 0
            page[pos:pos + len(b)] = b
            pos += len(b) + rng.choice([0, 2, 64])
            mon.count('decoy_layout')
        pages.append(page)
        for page in pages:
            for x in range(0, 4096 - at - 8, 2):
                if page[x:x + 2] == SIG and all(LO <= t <= HI for t in struct.unpack('<QQQQ', page[x + dup:x + dup + 32]) + struct.unpack('<Q', page[x + at:x + at + 8])):
                    return      # two neighbours happen to make up a block of the real layout
    while len(planted) < want_n or (len(pages) < 3):
        style = rng.choice(['zero', 'zero', 'random', 'pointers', 'text', 'sigs' if len(planted) > 105 else 'zero'])
        if style == 'zero':
            page = bytearray(4096)
        elif style == 'random':
            page = bytearray(ntfs.rnd_bytes(rng, 4096))
        elif style == 'pointers':
            page = bytearray(b''.join(struct.pack('<Q', 0xFFFFFA8000000000 | rng.getrandbits(32)) for __ in range(512)))
        elif style == 'text':
            page = bytearray(b'The quick brown fox. '.ljust(32) * 128)
        else:
            page = bytearray(SIG * 2048)
        base = len(pages) * 4096
        pos = rng.choice([0, 0, 2, 16, 100, 1000])
        for __ in range(rng.choice([0, 1, 3, 8, 30])):
            if len(planted) >= want_n and not few:
                break
            kind = 'real' if rng.random() < 0.85 or few else rng.choice(['signature', 'time', 'atime', 'cut', 'odd'])
            if few and len(planted) >= want_n:
                break
            times = [ts(rng) for __ in range(5)]
            r = rnd_ref(rng)
            b = block(rng, dup, at, times, r, rng.random() < 0.5)
            if kind == 'cut':
                p = 4096 - rng.choice([4, 20, dup + 8, dup + 30, dup + 32, at, at + 6])
                p &= ~1
                if p < pos or p + len(b) <= 4096:
                    continue
                page[p:4096] = b[:4096 - p]
                pos = 4096
                mon.count('decoy_cut')
                break
            if pos + len(b) + 2 > 4096:
                break
            if kind == 'signature':
                b[0:2] = rng.choice([b'\x07\x02', b'\x02\x06', b'\x03\x07', b'\x01\x07'])
                mon.count('decoy_signature')
            elif kind == 'time':
                k = rng.randrange(4)
                b[dup + 8 * k:dup + 8 * k + 8] = struct.pack('<Q', rng.choice([0, LO - 1, HI + 1, (1 << 64) - 1]))
                mon.count('decoy_time')
            elif kind == 'atime':
                b[at:at + 8] = struct.pack('<Q', rng.choice([0, LO - 1, HI + 1, (1 << 63) + LO]))
                mon.count('decoy_atime')
            elif kind == 'odd':
                pos += 1
                mon.count('decoy_odd')
            if kind == 'real':
                planted.append((base + pos, r, times))
                if pos == 0:
                    mon.count('at_page_start')
                if LO in times:
                    mon.count('edge_low')
                if HI in times:
                    mon.count('edge_high')
            else:
                decoys += 1
            page[pos:pos + len(b)] = b
            pos += len(b)
            if kind == 'odd':
                pos += 1
            gap = rng.choice([0, 0, 2, 8, 64, 500])
            if gap == 0 and kind == 'real':
                mon.count('adjacent')
            pos += gap
        if rng.random() < 0.2 and pos <= 4096 - size - 2 and (len(planted) < want_n):
            p = (4096 - size) & ~1
            times = [ts(rng) for __ in range(5)]
            r = rnd_ref(rng)
            page[p:p + size] = block(rng, dup, at, times, r, False)
            planted.append((base + p, r, times))
            mon.count('at_page_end')
        pages.append(page)
        if len(pages) > 400:
            return
    data = b''.join(bytes(p) for p in pages)
    if rng.random() < 0.3:
        cut = rng.choice([512, 600, 2048, 4000])
        extra = bytearray(4096)
        if not few:
            times = [ts(rng) for __ in range(5)]
            r = rnd_ref(rng)
            extra[0:size] = block(rng, dup, at, times, r, False)
            planted.append((len(data), r, times))
        data += bytes(extra[:cut])
        mon.count('cut_last_page')
    ctx = 'layout dup=%d at=%d planted=%d decoys=%d pages=%d' % (dup, at, len(planted), decoys, len(pages))
    few = few and len(planted) < 20
    if not few and decoys * 3 > len(planted):
        return
    return data, planted, few, ctx, (dup, at)


def case_image(rng, mon):
    made = image(rng, mon)
    if made is None:
        return
    data, planted, few, ctx, layout = made
    f = MonFile(data)
    c = MFT.MetadataCarver(f)
    if few:
        mon.raises((ValueError,), lambda: list(c.carve_fcb_timestamps()), 'too-few-blocks', ctx)
        mon.count('refused_few')
        mon.sig(ctx, planted[:3])
        return
    got = list(c.carve_fcb_timestamps())
    mon.equal([(g.positions[0], g.possible_file_reference) for g in got], [(p, r) for p, r, __ in planted], 'carved-log', ctx)
    for g, (p, r, t) in zip(got, planted):
        # stored order: creation, modification, change, access; then the in-memory access time
        for v, w, n in ((g.ctime, t[0], 'ctime'), (g.mtime, t[1], 'mtime'), (g.etime, t[2], 'etime'), (g.atime, t[3], 'atime'), (g.atime_real, t[4], 'atime_real')):
            mon.check(ntfs.instant_ok(v, w), 'carved-' + n, lambda: '%r for %d; %s' % (v, w, ctx))
        mon.equal(tuple(g.positions[1:]), layout, 'carved-layout', ctx)
    mon.count('planted', len(planted))
    if rng.random() < 0.3:
        again = list(c.carve_fcb_timestamps())
        mon.equal(again == got, True, 'second-pass', ctx)
        mon.count('second_pass')
    mon.sig(ctx, planted[:3])
    mon.sample(ctx)


def case_unclear(rng, mon):
    """Candidates enough, but no layout that most of them share."""
    what = rng.choice(['times', 'access'])
    if what == 'times':
        pool = [(d, 206) for d in (24, 32, 40, 48, 64, 72, 80, 96, 112, 142)]
    else:
        pool = [(32, a) for a in (88, 96, 104, 120, 136, 160, 184, 206)]
    lay = [x for x in rng.sample(pool, rng.randint(4, len(pool))) for __ in range(rng.randint(7, 12))][:99]
    rng.shuffle(lay)
    pages, page, pos = [], bytearray(4096), 0
    for d, a in lay:
        b = SIG * 2
        while SIG in b[2:]:
            b = block(rng, d, a, [ts(rng) for __ in range(5)], rnd_ref(rng), rng.random() < 0.5)
        if pos + len(b) > 4096:
            pages.append(page)
            page, pos = bytearray(4096), 0
        page[pos:pos + len(b)] = b
        pos += len(b) + rng.choice([0, 2, 64])
    data = b''.join(bytes(p) for p in pages + [page])
    got = []

    def run():
        for g in MFT.MetadataCarver(MonFile(data)).carve_fcb_timestamps():
            got.append(g)
    mon.raises((ValueError,), run, 'unclear-layout', '%s: %d candidates' % (what, len(lay)))
    mon.equal(got, [], 'unclear-layout-reported')
    mon.count('refused_unclear_' + what)
    mon.sig(data)


FAMILIES = [('unclear', case_unclear, 300, 4000), ('image', case_image, 3000, 40000)]
