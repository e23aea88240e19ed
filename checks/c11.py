"""C11: journal operations are attributed to the right file and offset."""
import struct
from lib.harness import MonFile
from lib import lfsgen
from lib.lfsgen import PAGE
from dfir_ntfs import LogFile

PROPERTY = 'C11'
RULE = ('each case runs a history of attribute opens, closes, slot reuse, resident and nonresident updates, checkpoints with table dumps (interleaved with updates) and remounts of an NTFS client on top of the log simulator, captures the log (after several laps, with lost pages in some cases) '
        'and compares, for every yielded record, every decoded field, redo and undo data, the cluster list, the target and the offset with the ground truth of the history, both while iterating and afterwards. Distinct = distinct histories.')
REQUIRED = ['by_open_record', 'by_dump', 'unknown_required', 'reused_slots', 'resident', 'nonresident', 'checkpoints', 'interleaved_dumps', 'lcns', 'edge_names_dump', 'v0_tables', 'v1_tables', 'v2_tables',
            'cluster_sizes', 'frs_4096', 'unnamed', 'lost_open', 'free_slot', 'other_ops', 'undo_only', 'late_reads', 'restart_fields', 'shared_data', 'text', 'no_offsets', 'edge_bad_open', 'edge_lonely_names', 'edge_two_clients', 'edge_bad_table', 'tables_v0', 'tables_v1']
ASSUMPTIONS = ['Where the record that opened a slot is lost and an older record or table for that slot survives, no answer is judged (nothing in the log tells them apart).',
               'When one of the two tables of a checkpoint is lost, records that depend on tables are not judged; neither is attribution in a log where part of an opening record or table is lost, or (for the oldest client version) where no restart area survives.']

RES = [2, 3, 4, 5, 6, 7, 9, 0xb, 0xc, 0xd, 0x11, 0x13, 0x21, 0x23, 0x25]
NON = [8, 0xe, 0xf, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24]
OTHER = [0, 1, 0xa, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1f, 0x20]
NAMES = {0: 'Noop', 1: 'CompensationLogRecord', 2: 'InitializeFileRecordSegment', 3: 'DeallocateFileRecordSegment', 4: 'WriteEndOfFileRecordSegment', 5: 'CreateAttribute', 6: 'DeleteAttribute',
         7: 'UpdateResidentValue', 8: 'UpdateNonresidentValue', 9: 'UpdateMappingPairs', 0xa: 'DeleteDirtyClusters', 0xb: 'SetNewAttributeSizes', 0xc: 'AddIndexEntryRoot', 0xd: 'DeleteIndexEntryRoot',
         0xe: 'AddIndexEntryAllocation', 0xf: 'DeleteIndexEntryAllocation', 0x10: 'WriteEndOfIndexBuffer', 0x11: 'SetIndexEntryVcnRoot', 0x12: 'SetIndexEntryVcnAllocation', 0x13: 'UpdateFileNameRoot',
         0x14: 'UpdateFileNameAllocation', 0x15: 'SetBitsInNonresidentBitMap', 0x16: 'ClearBitsInNonresidentBitMap', 0x17: 'HotFix', 0x18: 'EndTopLevelAction', 0x19: 'PrepareTransaction',
         0x1a: 'CommitTransaction', 0x1b: 'ForgetTransaction', 0x1c: 'OpenNonresidentAttribute', 0x1d: 'OpenAttributeTableDump', 0x1e: 'AttributeNamesDump', 0x1f: 'DirtyPageTableDump',
         0x20: 'TransactionTableDump', 0x21: 'UpdateRecordDataRoot', 0x22: 'UpdateRecordDataAllocation', 0x23: 'UpdateRelativeDataIndex', 0x24: 'UpdateRelativeDataAllocation', 0x25: 'ZeroEndOfFileRecord'}


class Client:
    def __init__(self, rng, log):
        self.rng, self.log = rng, log
        self.major = rng.choice([0, 0, 1, 1, 1, 2])
        self.esize = 44 if self.major == 0 else 40
        self.nslots = rng.choice([2, 4, 8, 24])
        self.slots = [None] * self.nslots       # (ref, name, opening record)
        self.stale = [bytes(self.esize)] * self.nslots
        self.cluster = rng.choice([512, 1024, 2048, 4096, 4096, 8192, 65536, 131072, 1 << 21])
        self.ra_size = rng.choice([112, 112, 112, 112, 128, 88])
        self.last = {}
        self.ck = 0
        self.pending = None
        self.used = set()
        self.client = 0

    def index(self, i):
        return 24 + i * self.esize

    def entry(self, ref, lsn, code, ibuf, index):
        if self.major == 0:
            return struct.pack('<LLQQLLLLL', 0xffffffff, index, ref, lsn, 0, code, 0, 0, ibuf)
        return struct.pack('<LLLLQQQ', 0xffffffff, ibuf, code, 0, ref, lsn, self.rng.getrandbits(64))

    def add(self, data, info, rtype=1, links=()):
        rng = self.rng
        tx = rng.randrange(4)
        r = self.log.append(lfsgen.pad8(data), rtype, self.last.get(tx, 0) if rng.random() < 0.8 else 0, 0, 24 + 40 * tx, self.client, info=info, links=links)
        self.last[tx] = r.lsn
        return r

    def open(self, mon):
        rng = self.rng
        free = [i for i, s in enumerate(self.slots) if s is None]
        if not free:
            return
        i = rng.choice(free)
        ref = (rng.choice([1, 2, 7, 0xffff]) << 48) | rng.choice([0, 5, rng.randrange(1, 60), rng.randrange(1 << 32), (1 << 48) - 1])
        name = rng.choice(['', '', '$I30', '$SDS', '$O', 'x', 'long-name-' * rng.randrange(1, 6), '\u00fc\u4e2d', ''.join(chr(rng.randrange(0x100, 0xd700)) for _ in range(rng.randrange(1, 20)))])
        ibuf = rng.choice([0, 4096])
        code = rng.choice([0x80, 0xa0, 0xb0])
        ent = self.entry(ref, rng.getrandbits(50), code, ibuf, self.index(i))
        info = dict(kind='open', redo=0x1c, undo=0, redo_data=ent, undo_data=name.encode('utf-16le'), target=self.index(i), lcns=(), rec_off=0, attr_off=0, block_off=0, block_size=0, vcn=0)
        if rng.random() < 0.3:
            info['lcns'] = (0,)
        r = self.emit(info, mon)
        if i in self.used:
            mon.count('reused_slots')
        self.used.add(i)
        self.slots[i] = (ref, name, r)
        self.stale[i] = ent

    def emit(self, info, mon, **kw):
        rng = self.rng
        data = lfsgen.ntfs_record(info['redo'], info['undo'], info['redo_data'], info['undo_data'], info['target'], info['lcns'], info['rec_off'], info['attr_off'],
                                  info['block_off'], info['block_size'], info['vcn'], rng=rng, shared=info.get('shared', False))
        return self.add(data, info)

    def blank(self, kind):
        rng = self.rng
        return dict(kind=kind, redo=0, undo=0, redo_data=rng.randbytes(rng.choice([0, 0, 4, 8, 40, rng.randrange(300)])), undo_data=rng.randbytes(rng.choice([0, 0, 8, rng.randrange(200)])),
                    target=rng.choice([0, 24, self.index(rng.randrange(self.nslots)), 0xffff]), lcns=(), rec_off=rng.choice([0, 56, rng.randrange(1024)]), attr_off=rng.choice([0, 24, rng.randrange(4096), 65535]),
                    block_off=rng.choice([0, 0, 2, 6, rng.randrange(128)]), block_size=rng.choice([0, 2, 8]), vcn=rng.choice([0, 1, rng.randrange(1 << 20), rng.randrange(1 << 40)]))

    def pick_ops(self, ops, d, mon):
        rng = self.rng
        k = rng.random()
        d['redo'] = rng.choice(ops)
        d['undo'] = rng.choice(ops + [0, 1, 0x18])
        if k < 0.2:
            d['redo'] = rng.choice([0, 1])
            d['undo'] = rng.choice(ops)
            mon.count('undo_only')

    def resident(self, mon):
        rng = self.rng
        d = self.blank('resident')
        self.pick_ops(RES, d, mon)
        d['lcns'] = tuple(rng.choice([0, rng.randrange(1 << 30), -1]) for _ in range(rng.choice([0, 1, 1, 2])))
        if d['block_size'] == 8:
            mon.count('frs_4096')
        if d['redo_data'] and rng.random() < 0.15:
            d['shared'] = True
            d['undo_data'] = d['redo_data']
            mon.count('shared_data')
        self.emit(d, mon)

    def nonresident(self, mon):
        rng = self.rng
        have = [i for i, s in enumerate(self.slots) if s is not None]
        if not have:
            return self.open(mon)
        i = rng.choice(have)
        d = self.blank('nonresident')
        self.pick_ops(NON, d, mon)
        d['target'] = self.index(i)
        d['truth'] = self.slots[i]
        d['lcns'] = tuple(rng.randrange(1 << 40) for _ in range(rng.choice([0, 1, 1, 2, 8])))
        if d['lcns']:
            mon.count('lcns')
        self.emit(d, mon)

    def other(self, mon):
        d = self.blank('other')
        d['redo'], d['undo'] = self.rng.choice(OTHER), self.rng.choice(OTHER + [0x1c, 0x1d])
        mon.count('other_ops')
        self.emit(d, mon)

    def close(self):
        have = [i for i, s in enumerate(self.slots) if s is not None]
        if have:
            self.slots[self.rng.choice(have)] = None

    def table(self):
        out = bytearray(struct.pack('<HHHHLLLL', self.esize, self.nslots, sum(s is not None for s in self.slots), 0, 0, 0xffffffff, 0, 0))
        for i, s in enumerate(self.slots):
            e = bytearray(self.stale[i])
            if s is None:
                e[0:4] = struct.pack('<L', self.rng.choice([0, self.index(self.rng.randrange(self.nslots))]))
            out += e
        if self.major >= 2:
            out = bytearray(self.rng.randbytes(len(out)))
        return bytes(out)

    def names(self):
        out = b''
        for i, s in enumerate(self.slots):
            if s is not None and s[1]:
                n = s[1].encode('utf-16le')
                out += struct.pack('<HH', self.index(i), len(n)) + n + b'\0\0'
        return out + bytes(4)

    def dump(self, mon, kind, op, data):
        d = dict(kind=kind, redo=op, undo=0, redo_data=data, undo_data=b'', target=24, lcns=(), rec_off=0, attr_off=0, block_off=0, block_size=0, vcn=0, ck=self.ck,
                 slots=list(self.slots))
        return self.emit(d, mon)

    def checkpoint(self, mon, step):
        """A checkpoint: the tables as they are when dumped, other activity in between."""
        rng = self.rng
        self.ck += 1
        mon.count('checkpoints')
        o = n = dp = None
        if any(s is not None for s in self.slots):
            quiet = rng.random() < 0.5
            o = self.dump(mon, 'oat', 0x1d, self.table())
            names = self.names()
            while not quiet and rng.random() < 0.5:
                step()
                mon.count('interleaved_dumps')
            n = self.dump(mon, 'an', 0x1e, names)
            while not quiet and rng.random() < 0.4:
                step()
        if rng.random() < 0.4:
            dp = self.dump(mon, 'dirty', 0x1f, rng.randbytes(rng.randrange(0, 400)))
        links = [self.log.order[max(0, len(self.log.order) - 5)].lsn if self.log.order else 0, o.lsn if o else 0, n.lsn if n else 0, dp.lsn if dp else 0, 0]
        links = [self.log.keep(x, 256) for x in links]
        f = dict(usn_off=rng.getrandbits(62), last=rng.getrandbits(63), cluster=self.cluster, usn_ref=rng.getrandbits(63), usn_base=rng.getrandbits(62), oldest=rng.getrandbits(63),
                 lens=tuple(rng.getrandbits(20) for _ in range(4)))
        data = lfsgen.ntfs_restart(self.major, 0, *links, size=self.ra_size, **f)
        r = self.add(data, dict(kind='restart', links=links, fields=f), 2, links)
        self.log.restart_lsn = r.lsn
        if rng.random() < 0.7:
            self.log.flush()
            self.log.write_restart()


def history(rng, mon, log):
    cl = Client(rng, log)
    mon.count('v%d_tables' % cl.major)
    mon.count('cluster_sizes')
    pay = PAGE - log.data_off
    total = int(rng.choice([0.4, 0.9, 1.5, 2.3]) * log.circ * pay)
    churn = rng.choice([0.02, 0.1, 0.25])
    ckp = rng.choice([0.0, 0.01, 0.03, 0.08])
    start = len(log.order)
    written = 0

    def step():
        k = rng.random()
        if k < churn:
            cl.open(mon)
        elif k < churn * 1.7:
            cl.close()
        elif k < 0.6:
            cl.nonresident(mon)
        elif k < 0.85:
            cl.resident(mon)
        else:
            cl.other(mon)

    for _ in range(cl.nslots // 2):
        cl.open(mon)
    n0 = 0
    while sum(len(r.data) + log.hdr for r in log.order[n0:]) + written < total:
        written += sum(len(r.data) + log.hdr for r in log.order[n0:])
        n0 = len(log.order)
        if rng.random() < ckp:
            cl.checkpoint(mon, step)
        elif rng.random() < 0.004:
            # remount: everything is closed, the tables are empty
            log.flush()
            log.skip_page()
            cl.slots = [None] * cl.nslots
            cl.last = {}
            cl.checkpoint(mon, step)
        else:
            step()
        if rng.random() < 0.1:
            log.flush()
        if rng.random() < 0.05:
            log.move()
    if rng.random() < 0.7:
        cl.checkpoint(mon, step)
    log.flush()
    log.move(True)
    return cl


def fields(x):
    return dict(redo=x.get_redo_operation(), undo=x.get_undo_operation(), target=x.get_target_attribute(), lcns=tuple(x.get_lcns_for_page()), rec_off=x.get_record_offset(), attr_off=x.get_attribute_offset(),
                block_off=x.get_cluster_block_offset(), block_size=x.get_target_block_size(), vcn=x.get_target_vcn(), redo_data=bytes(x.get_redo_data()), undo_data=bytes(x.get_undo_data()))


def answer(x):
    return x.calculate_mft_target_number(), x.calculate_offset_in_target(), x.calculate_mft_target_reference_and_name()


def norm(t):
    return None if t is None else (t[0], t[1] or '')


def judge(mon, log, cl, whole, heads, got):
    """got = [(lsn, object)]: compare every record with the truth."""
    seen = [(heads[l], x) for l, x in got if l in whole]
    have_ra = any(r.rtype == 2 for r, _ in seen)
    cluster = cl.cluster if any(r.rtype == 2 and len(r.data) >= 88 for r, _ in seen) else None
    halves = {}
    for r, _ in seen:
        if r.info['kind'] in ('oat', 'an'):
            halves.setdefault(r.info['ck'], []).append(r.info['kind'])
    cks = sorted(halves)
    edge = bool(cks) and halves[cks[0]] == ['an']
    if edge:
        mon.count('edge_names_dump')
    orphan = any(len(set(halves[c])) != 2 for c in cks[(1 if edge else 0):])
    last_half = cks and halves[cks[-1]] == ['oat']
    if last_half:      # the log simply ends between the two
        orphan = any(len(set(halves[c])) != 2 for c in cks[(1 if edge else 0):-1])
    # a damaged opening record or table makes the attributions that follow a guess
    broken = any(l not in whole and heads[l].info['kind'] in ('open', 'oat', 'an') for l, x in got)
    opens = {}          # slot -> latest yielded opening record
    pair = None
    oat_of = {}
    for r, x in seen:
        d = r.info
        ctx = lambda: 'LSN %d, %s record, client version %d, %d slots; %s' % (r.lsn, d['kind'], cl.major, cl.nslots, {k: v for k, v in d.items() if k not in ('redo_data', 'undo_data', 'slots', 'truth')})
        if d['kind'] == 'restart':
            f = d['fields']
            mon.equal((x.get_major_version(), x.get_minor_version(), x.get_start_of_checkpoint_lsn(), x.get_open_attribute_table_lsn(), x.get_attribute_names_lsn(), x.get_dirty_page_table_lsn(), x.get_transaction_table_lsn()),
                      (cl.major, 0) + tuple(d['links']), 'restart-area-links', ctx)
            mon.equal((x.get_open_attribute_table_length(), x.get_attribute_names_length(), x.get_dirty_page_table_length(), x.get_transaction_table_length()), f['lens'], 'restart-area-lengths', ctx)
            n = len(r.data)
            want = [f['usn_off'], f['last'], f['cluster'], f['usn_ref'] if n >= 96 else None, f['usn_base'] if n >= 104 else None, f['oldest'] if n >= 112 else None]
            mon.equal([x.get_usn_journal_restart_offset(), x.get_last_lsn(), x.get_bytes_per_cluster(), x.get_usn_journal_reference(), x.get_usn_base(), x.get_oldest_lsn()], want, 'restart-area-fields', ctx)
            mon.count('restart_fields')
            continue
        g = fields(x)
        for k in g:
            if g[k] != d[k]:
                mon.fail('record-field', '%s is %r, written as %r; %s' % (k, g[k], d[k], ctx()))
        if not d['redo_data'] and not d['undo_data']:
            mon.count('no_offsets')
        num, off, ref = answer(x)
        if d['kind'] == 'open':
            opens[d['target']] = r
        if d['kind'] == 'oat':
            oat_of[d['ck']] = d['slots']
        if d['kind'] == 'an' and d['ck'] in oat_of:
            pair = oat_of[d['ck']]
        if d['kind'] == 'resident':
            mon.count('resident')
            if cluster:
                frs = d['block_size'] * 512 or 1024
                mon.equal(num, (d['vcn'] * cluster + d['block_off'] * 512) // frs, 'target-number', ctx)
            mon.equal(off, d['attr_off'] + d['rec_off'], 'resident-offset', ctx)
            mon.equal(ref, None, 'resident-reference', ctx)
        elif d['kind'] == 'nonresident':
            mon.count('nonresident')
            mon.equal(num, None, 'nonresident-number', ctx)
            if cluster:
                mon.equal(off, d['vcn'] * cluster + d['block_off'] * 512 + d['attr_off'] + d['rec_off'], 'nonresident-offset', ctx)
            truth = d['truth']
            want = (truth[0], truth[1])
            slot = d['target']
            if broken:
                mon.count('after_damaged_open_not_judged')
            elif cl.major == 0 and not have_ra:
                mon.count('layout_not_known')
            elif opens.get(slot) is truth[2]:
                mon.equal(norm(ref), want, 'target-by-open-record', ctx)
                mon.count('by_open_record')
                if not truth[1]:
                    mon.count('unnamed')
            elif slot in opens:
                mon.count('stale_open_not_judged')
            elif not have_ra:
                mon.check(ref is None or norm(ref) == want, 'target-without-tables', ctx)
            elif cl.major >= 2:
                mon.equal(ref, None, 'target-not-known', ctx)
                mon.count('unknown_required')
            elif orphan:
                mon.count('orphan_tables_not_judged')
            elif pair is None:
                mon.equal(ref, None, 'target-not-known', ctx)
                mon.count('unknown_required')
            else:
                s = pair[(slot - 24) // cl.esize]
                if s is not None and s[2] is truth[2]:
                    mon.equal(norm(ref), want, 'target-by-tables', ctx)
                    mon.count('by_dump')
                elif s is None:
                    mon.equal(ref, None, 'target-from-free-slot', ctx)
                    mon.count('free_slot')
                else:
                    mon.count('stale_table_not_judged')
            if opens.get(slot) is not truth[2]:
                mon.count('lost_open')
        else:
            mon.equal((num, off, ref), (None, None, None), 'target-of-other-record', ctx)
        # the text form tells the same
        t = str(x)
        mon.check(NAMES.get(d['redo'], hex(d['redo'])) in t and 'LSN: %d)' % r.lsn in t, 'text-form', lambda: t)
        if num is not None:
            mon.check('target: %d (FRS number)' % num in t, 'text-form', lambda: t)
        elif ref is not None:
            mon.check('target: %d/%s (FRS' % ref in t, 'text-form', lambda: t)
        else:
            mon.check('target: unknown' in t, 'text-form', lambda: t)
        mon.check(('offset in target: %s' % ('unknown' if off is None else off)) in t, 'text-form', lambda: t)
        mon.count('text')
        mon.count('checks', 14)


def run(rng, mon, damage):
    log = lfsgen.Log(rng, npages=rng.choice([3, 4, 6, 8]), crc=False)
    cl = history(rng, mon, log)
    n = None
    if rng.random() < 0.3:
        n = rng.randrange(2, len(log.writes) + 1)
    cap = lfsgen.Capture(log, rng, n, None, damage)
    p = LogFile.LogFileParser(MonFile(cap.image))
    got, early = [], []
    for x in p.parse_ntfs_records(True):
        got.append((x.lsn, x))
        early.append(answer(x) if type(x).__name__ == 'NTFSLogRecord' else None)
    must, whole, heads = cap.expect(True)
    for l, x in got:
        if l not in heads:
            mon.fail('phantom-record', 'LSN %d' % l)
    judge(mon, log, cl, whole, heads, got)
    for (l, x), e in zip(got, early):
        if e is not None:
            mon.equal(answer(x), e, 'answer-changes-later', 'LSN %d' % l)
            mon.count('late_reads')
    mon.sig(log.version, cl.major, cl.nslots, cl.cluster, len(log.order), log.order[-1].lsn, damage, n)
    mon.sample('client version %d, %d slots, %d checkpoints, %d records written, %d yielded' % (cl.major, cl.nslots, cl.ck, len(log.order), len(got)))


def fam_whole(rng, mon):
    run(rng, mon, 0)


def fam_damaged(rng, mon):
    run(rng, mon, rng.choice([1, 2, 3]))


def fam_edges(rng, mon):
    """Unusable opening records, a names dump without its table, two clients in one log: short logs, all of them live."""
    log = lfsgen.Log(rng, npages=6, crc=False)
    kind = rng.choice(['bad_open', 'lonely_names', 'two_clients', 'bad_table'])
    cl = Client(rng, log)
    cl.major = rng.choice([0, 1, 1]) if kind != 'bad_open' else rng.choice([0, 1, 2])
    cl.esize = 44 if cl.major == 0 else 40
    cl.nslots = rng.choice([2, 4, 8])
    cl.slots, cl.stale = [None] * cl.nslots, [bytes(cl.esize)] * cl.nslots
    cls = [cl]
    if kind == 'two_clients':
        log.clients = 2
        b = Client(rng, log)
        b.major, b.esize, b.nslots, b.slots, b.stale, b.cluster, b.ra_size = cl.major, cl.esize, cl.nslots, [None] * cl.nslots, [bytes(cl.esize)] * cl.nslots, cl.cluster, cl.ra_size
        b.client = 1 << 16
        cls.append(b)

    def silently(c, i, name=None):
        """A slot that was opened before anything in this log."""
        ref = (rng.choice([1, 2, 7]) << 48) | rng.randrange(1 << 32)
        c.slots[i] = (ref, name if name is not None else rng.choice(['', '$I30', 'n%d' % rng.randrange(99)]), None)
        c.stale[i] = c.entry(ref, 0, 0x80, 0, c.index(i))

    def update(c, i, want):
        d = c.blank('nonresident')
        d['redo'], d['undo'] = rng.choice(NON), rng.choice(NON)
        d['target'] = c.index(i)
        d['want'] = want
        c.emit(d, mon)

    def noise(c):
        for _ in range(rng.choice([0, 0, 1, 3])):
            (c.resident if rng.random() < 0.5 else c.other)(mon)

    cl.add(lfsgen.ntfs_restart(cl.major, 0, cluster=cl.cluster), dict(kind='restart'), 2)
    log.restart_lsn = log.order[-1].lsn
    if kind == 'bad_open':
        for _ in range(cl.nslots):
            cl.open(mon)
        for i, s in enumerate(cl.slots):
            update(cl, i, ('is', s[:2]))
        i = rng.randrange(cl.nslots)
        good = cl.slots[i]
        d = dict(cl.blank('open'), redo=0x1c, undo=0, redo_data=cl.stale[i][:rng.choice([0, 4, 8, 16, 24])], undo_data='zz'.encode('utf-16le'), target=cl.index(i))
        noise(cl)
        cl.emit(d, mon)
        noise(cl)
        update(cl, i, ('not', good[:2]))
        for j, s in enumerate(cl.slots):
            if j != i:
                update(cl, j, ('may', s[:2]))
        cl.slots[i] = None
        cl.open(mon)
        update(cl, i, ('is', cl.slots[i][:2]))
    elif kind in ('lonely_names', 'bad_table'):
        for i in range(cl.nslots):
            silently(cl, i)
        if rng.random() < 0.8:
            cl.ck = 1
            cl.dump(mon, 'oat', 0x1d, cl.table())
            noise(cl)
            cl.dump(mon, 'an', 0x1e, cl.names())
            known = list(cl.slots)
        else:
            known = [None] * cl.nslots
        noise(cl)
        for i, s in enumerate(known):
            update(cl, i, ('is', s and s[:2]))
        if kind == 'lonely_names':
            for i, s in enumerate(cl.slots):
                if rng.random() < 0.7:
                    cl.slots[i] = (s[0], 'other%d' % i, None)
            cl.dump(mon, 'an', 0x1e, cl.names())
            noise(cl)
            for i, s in enumerate(known):
                update(cl, i, ('is', s and s[:2]))
        else:
            # a table nothing can be read from: no earlier table may stand in for it
            for i in range(cl.nslots):
                silently(cl, i)
            cl.dump(mon, 'oat', 0x1d, cl.table()[:rng.choice([0, 8, 20])])
            cl.dump(mon, 'an', 0x1e, cl.names())
            noise(cl)
            for i, s in enumerate(known):
                update(cl, i, ('not', s[:2]) if s else ('is', None))
    else:
        todo = [(c, i) for c in cls for i in range(c.nslots)]
        rng.shuffle(todo)
        for c, i in todo:
            k = rng.random()
            if k < 0.4:
                c.open(mon)
        for c, i in todo:
            noise(c)
            update(c, i, ('is', c.slots[i] and c.slots[i][:2]))
        if rng.random() < 0.6:
            c = rng.choice(cls)
            for i in range(c.nslots):
                if c.slots[i] is None and rng.random() < 0.7:
                    silently(c, i)
            c.dump(mon, 'oat', 0x1d, c.table())
            c.dump(mon, 'an', 0x1e, c.names())
        for c, i in todo:
            update(c, i, ('is', c.slots[i] and c.slots[i][:2]))
    log.flush()
    log.move(True)
    log.write_restart()
    if any(r.abs + log.circ <= log.abs for r in log.order):
        return
    cap = lfsgen.Capture(log, rng)
    p = LogFile.LogFileParser(MonFile(cap.image))
    seen = 0
    for x in p.parse_ntfs_records(True):
        r = log.records.get(x.lsn)
        if r is None:
            mon.fail('phantom-record', 'LSN %d' % x.lsn)
        if 'want' not in r.info:
            continue
        seen += 1
        how, want = r.info['want']
        ref = norm(x.calculate_mft_target_reference_and_name())
        ok = {'is': ref == want, 'not': ref != want, 'may': ref is None or ref == want}[how]
        mon.check(ok, 'target-edge-' + kind, lambda: 'record %d for slot %d of client %d: got %r, expected %s %r; client version %d, %d slots' % (x.lsn, r.info['target'], r.client >> 16, ref, how, want, cl.major, cl.nslots))
        mon.count('checks')
    mon.equal(seen, sum('want' in r.info for r in log.order), 'edge-records')
    mon.count('edge_' + kind)
    mon.sig('edge', kind, cl.major, cl.nslots, len(log.order), log.order[-1].lsn)


def fam_tables(rng, mon):
    """The table and name entries by themselves."""
    v = rng.choice([0, 1])
    size = 44 if v == 0 else 40
    cls = LogFile.OpenAttributeEntry0 if v == 0 else LogFile.OpenAttributeEntry1
    n = rng.choice([1, 2, 5, 30])
    ents = []
    table = rng.randbytes(24)
    for i in range(n):
        free = rng.choice([0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0, 24, 0x7FFFFFFF])
        ibuf, code, ref, lsn, idx = rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(32)
        e = struct.pack('<LLQQLLLLL', free, idx, ref, lsn, rng.getrandbits(32), code, rng.getrandbits(32), rng.getrandbits(32), ibuf) if v == 0 else struct.pack('<LLLLQQQ', free, ibuf, code, rng.getrandbits(32), ref, lsn, rng.getrandbits(64))
        x = cls(e + rng.randbytes(rng.choice([0, 0, 4, 16])))
        mon.equal((x.get_allocated_or_next_free(), x.get_bytes_per_index_buffer(), x.get_attribute_type_code(), x.get_file_reference(), x.get_lsn_of_open_record()), (free, ibuf, code, ref, lsn), 'table-entry', 'version %d %s' % (v, e.hex()))
        if v == 0:
            mon.equal(x.get_table_index(), idx, 'table-entry-index')
        mon.raises((LogFile.LogFileException,), lambda: cls(e[:rng.randrange(size)]), 'cut-entry')
        ents.append((free, ref))
        table += e
    d = LogFile.OpenAttributeTableDumpParser(table, v)
    for i, (free, ref) in enumerate(ents):
        if free == 0xFFFFFFFF:
            mon.equal(d.find_file_reference_by_index(24 + i * size), ref, 'table-lookup')
        else:
            mon.raises((LogFile.LogFileException,), lambda: d.find_file_reference_by_index(24 + i * size), 'table-lookup-free')
    mon.raises((LogFile.LogFileException,), lambda: d.find_file_reference_by_index(24 + n * size + rng.choice([0, 1, size, 60000])), 'table-lookup-outside')
    names = {}
    raw = b''
    for i in rng.sample(range(n + 3), rng.randint(1, n + 3)):
        k = 24 + i * size
        names[k] = ''.join(rng.choice('$IJaé\u4e2d0') for __ in range(rng.choice([0, 1, 1, 2, 4, 30, 255])))
        u = names[k].encode('utf-16le')
        raw += struct.pack('<HH', k, len(u)) + u + bytes(2)
    # Windows ends the list with an empty entry; the last name counts without it, too, unless it is empty.
    end = bytes(4) if rng.random() < 0.5 or len(u) == 0 else b''
    p = LogFile.AttributeNamesDumpParser(raw + end)
    for i in range(n + 3):
        k = 24 + i * size
        mon.equal(p.find_name_by_index(k), names.get(k), 'name-lookup', (raw + end).hex())
    # Data of any length, up to the very end of the record.
    lcns = [rng.getrandbits(60) for __ in range(rng.choice([0, 1, 2, 16]))]
    redo, undo = rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 200])), rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 200]))
    head = 32 + 8 * len(lcns)
    buf = struct.pack('<HHHHHHHHHHHHq', 7, 7, head, len(redo), head + len(redo), len(undo), 24, len(lcns), 0, 0, 0, 0, 0) + b''.join(struct.pack('<q', q) for q in lcns) + redo + undo
    r = LogFile.NTFSLogRecord(buf, 5, 24, 4096)
    mon.equal((bytes(r.get_redo_data()), bytes(r.get_undo_data()), list(r.get_lcns_for_page())), (redo, undo, lcns), 'record-data')
    mon.count('tables_v%d' % v)
    mon.sig(table, raw)


FAMILIES = [('tables', fam_tables, 1500, 20000), ('edges', fam_edges, 1500, 15000), ('whole', fam_whole, 2500, 40000), ('damaged', fam_damaged, 1500, 25000)]
