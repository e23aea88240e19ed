"""C09: change-journal records, exactly once, in order, as stored."""
from lib.harness import MonFile, clip
from lib import ntfs, usngen
from dfir_ntfs import USN, MFT

PROPERTY = 'C09'
RULE = ('each case writes a journal of version 2/3/4 records with page fill, sparse and zeroed regions of any 8-byte-aligned size, garbage, broken headers and a cut tail, '
        'reads it directly or through a fragmented and sparse stream, and compares the log of yielded records with the written ones field by field. Distinct = distinct journal bytes.')
REQUIRED = ['records_v2', 'records_v3', 'records_v4', 'zero_gap', 'page_fill', 'straddles_8k', 'straddles_4k', 'damaged_garbage', 'damaged_version', 'damaged_unaligned',
            'damaged_short', 'damaged_huge', 'damaged_shifted', 'truncated_tail', 'via_sparse_stream', 'single_valid', 'single_refused', 'two_iterators', 'name_outside', 'extents_cut', 'null_in_name', 'far']


def compare(mon, o, m, ctx):
    for k, v in m.items():
        if k == 'ts':
            mon.check(ntfs.instant_ok(o['ts'], v), 'timestamp', lambda: '%r for %d' % (o['ts'], v))
        else:
            mon.equal(o.get(k), v, 'field-' + k, ctx)
    mon.count('records_v%d' % m['v'])
    if m['v'] == 4 and m['n'] != len(m['extents']):
        mon.count('extents_cut')
    if '\x00' in m.get('name', ''):
        mon.count('null_in_name')


def case_journal(rng, mon):
    data, model = usngen.journal(rng, mon, rng.choice([1, 2, 3, 5, 9, 20]), raw=True)
    f = MonFile(data)
    if rng.random() < 0.3:
        cs = 4096
        clusters = [data[i:i + cs] for i in range(0, len(data), cs)]
        lead = rng.choice([0, 0, 1, 2, 3, 1000])
        vol = bytearray(ntfs.rnd_bytes(rng, cs * (2 * len(clusters) + 2)))
        runs = [(None, lead)] if lead else []
        free = list(range(1, 2 * len(clusters) + 1))
        rng.shuffle(free)
        for c in clusters:
            if not c.strip(b'\x00') and len(c) == cs and rng.random() < 0.8:
                runs.append((None, 1))
                continue
            n = free.pop()
            vol[n * cs:n * cs + len(c)] = c
            runs.append((n, 1))
        off = rng.choice([0, 512, 65536])
        f = MFT.FragmentedFile(MonFile(ntfs.rnd_bytes(rng, off) + bytes(vol)), off, cs, runs, lead * cs + len(data))
        mon.count('via_sparse_stream')
    p = USN.ChangeJournalParser(f)
    got = list(p.usn_records())
    obs = [usngen.observe(r) for r in got]
    ctx = lambda: 'records at %s' % clip([o for o, __ in model], 300)
    mon.equal([(o['v'], o['usn'], o['len']) for o in obs], [(m['v'], m['usn'], m['len']) for __, m in model], 'record-log', ctx)
    for o, (__, m) in zip(obs, model):
        compare(mon, o, m, ctx)
    # A second pass and two interleaved passes see the same records.
    a, b = p.usn_records(), p.usn_records()
    la, lb = [], []
    done = [False, False]
    while not all(done):
        k = rng.randint(0, 1)
        it, l = ((a, la), (b, lb))[k]
        try:
            l.append(usngen.observe(next(it)))
        except StopIteration:
            done[k] = True
    mon.equal(la == obs and lb == obs, True, 'interleaved-passes', ctx)
    mon.count('two_iterators')
    mon.sig(data)
    mon.sample('%d bytes, %d records of versions %s, offsets %s' % (len(data), len(model), sorted(set(m['v'] for __, m in model)), clip([o for o, __ in model], 200)))


def case_single(rng, mon):
    kind = rng.choice([2, 3, 4])
    b, m = usngen.record(rng, kind, raw=True)
    tail = ntfs.rnd_bytes(rng, rng.choice([0, 0, 8, 100]))
    r = rng.random()
    if r < 0.5:
        o = usngen.observe(USN.GetUsnRecord(b + tail))
        compare(mon, o, m, lambda: b.hex())
        mon.equal(set(filter(None, USN.ResolveReasonCodes(m['reason']).split(' | '))), usngen.resolve(m['reason'], usngen.REASONS, 'USN_REASON_'), 'reason-text')
        mon.equal(set(filter(None, USN.ResolveSourceCodes(m['source']).split(' | '))), usngen.resolve(m['source'], usngen.SOURCES, 'USN_SOURCE_'), 'source-text')
        mon.count('single_valid')
    elif r < 0.6 and kind != 4:
        # A name that does not lie inside the record is not made up from other bytes.
        x = bytearray(b)
        o = 76 if kind == 3 else 60
        pos = 72 if kind == 3 else 56
        what = rng.choice(['len', 'off'])
        if what == 'len':
            x[pos:pos + 2] = (len(b) - m['noff'] + 2 * rng.randint(1, 100)).to_bytes(2, 'little')
        else:
            x[pos + 2:pos + 4] = rng.choice([len(b) - m['nlen'] + 2, len(b) + 8, 65534]).to_bytes(2, 'little')
        rec = USN.GetUsnRecord(bytes(x) + tail + b'A\x00' * 600)
        mon.raises((ValueError,), rec.get_file_name, 'name-outside-record', bytes(x).hex())
        mon.count('name_outside')
    else:
        x = bytearray(b)
        k = rng.choice(['cut', 'len', 'version', 'empty'])
        if k == 'cut':
            x = x[:rng.randint(0, len(x) - 1)]
        elif k == 'len':
            x[0:4] = rng.choice([0, 7, 8, 16, 56, len(b) + 8, len(b) + 4, len(b) - 1, 1 << 31]).to_bytes(4, 'little')
        elif k == 'version':
            x[4:6] = rng.choice([0, 1, 5, 6, 0x0200, 65535]).to_bytes(2, 'little')
        else:
            x = bytearray(len(x))
        mon.raises((ValueError, NotImplementedError), lambda: USN.GetUsnRecord(bytes(x)), 'invalid-record', bytes(x).hex())
        mon.count('single_refused')
    mon.sig(kind, bytes(b))


class Lead(object):
    """A journal behind a long run of zeroes (the sparse front of a journal in use)."""

    def __init__(self, lead, data):
        self.lead, self.data, self.pos = lead, data, 0
        self.size = lead + len(data)

    def seek(self, offset, whence=0):
        self.pos = offset + {0: 0, 1: self.pos, 2: self.size}[whence]
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        p = self.pos
        if end <= p:
            return b''
        self.pos = end
        if end <= self.lead:
            return bytes(end - p)
        return bytes(max(0, self.lead - p)) + self.data[max(0, p - self.lead):end - self.lead]


def case_far(rng, mon):
    lead = rng.choice([1 << 26, (1 << 26) + 8, (1 << 27) + 8 * rng.randrange(1024)])
    data, model = usngen.journal(rng, mon, rng.choice([1, 2, 3, 5]), raw=True)
    obs = [usngen.observe(r) for r in USN.ChangeJournalParser(Lead(lead, data)).usn_records()]
    mon.equal([(o['v'], o['usn'], o['len']) for o in obs], [(m['v'], m['usn'], m['len']) for __, m in model], 'record-log', 'after %d zero bytes' % lead)
    for o, (__, m) in zip(obs, model):
        compare(mon, o, m, 'after %d zero bytes' % lead)
    mon.count('far')
    mon.sig(lead, data)


FAMILIES = [('far', case_far, 24, 200), ('journal', case_journal, 1500, 40000), ('single', case_single, 4000, 100000)]
