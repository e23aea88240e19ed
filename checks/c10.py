"""C10: every surviving log record is recovered once, in order."""
from lib.harness import MonFile, clip
from lib import lfsgen
from lib.lfsgen import PAGE
from dfir_ntfs import LogFile

PROPERTY = 'C10'
RULE = ('each case runs a history of appends (sizes around the page boundary, several pages long, several transactions, clients and checkpoints), flushes, in-place moves, page skips and restart-page updates in a log simulator (versions 1.1, 2.0, 3.0; several laps; with sector check words or CRC), '
        'captures the log after a chosen prefix of the physical writes (the last one torn, pages damaged) and compares what the parser yields, with and without applying the spare pages, with the records the capture still holds. '
        'Distinct = distinct histories and captures.')
REQUIRED = ['records_required', 'multi_page', 'wrapped', 'across_wrap', 'torn', 'damaged', 'tail_applied', 'fast_applied', 'lost_continuation', 'v1.1', 'v2.0', 'v3.0', 'crc', 'restart_areas', 'lost_records',
            'exact_fill', 'header_only_fit', 'two_clients', 'not_recovered', 'skipped_pages', 'only_linked', 'odd_records', 'one_restart_page', 'stale_spare', 'addressing', 'empty_log', 'no_restart_area', 'headers_compared', 'restart_pages_compared', 'wide_header', 'over_eight_pages']
ASSUMPTIONS = ['Records whose continuation page is lost may be yielded with the part that survived or not at all; its data is not judged when pages are damaged so that its continuation page is known only from a later pass over the log.',
               'A record is locatable when a restart page, a page header, a neighbouring record, a transaction link or a checkpoint leads to it; records that only a lost page leads to are not required (but allowed).']


def history(rng, mon, log, huge=False):
    pay = PAGE - log.data_off
    biggest = min((log.circ - 1) * pay - 600, 5 * pay)
    if huge:
        biggest = min((log.circ - 1) * pay - 600, 131000)
    last = {}
    laps = rng.choice([0.3, 0.8, 1.2, 1.7, 2.5, 3.2])
    total = int(laps * log.circ * pay)
    written = 0
    skip = 0.02 if rng.random() < 0.4 else 0
    style = rng.choice(['small', 'mixed', 'mixed', 'big', 'boundary'])
    two = rng.random() < 0.15
    log.clients = 2 if two else 1
    restarts = rng.random() > 0.12
    odd = rng.random() < 0.15
    links = rng.choice([0.2, 0.6, 0.95])
    flush = rng.choice([0.05, 0.2, 0.6])
    while written < total:
        room = PAGE - log.off - log.hdr
        k = rng.random()
        if style == 'boundary' and k < 0.6 or k < 0.1:
            # end the record near the end of the page
            n = room - rng.choice([0, 0, 8, 40, 48, 56, 64, log.hdr, log.hdr - 8, log.hdr + 8, -8, -16])
            if rng.random() < 0.3:
                n += pay * rng.randrange(1, 3)
        elif style == 'big' and k < 0.5 or k < 0.14 and style != 'small':
            n = rng.randrange(pay // 2, max(pay, biggest))
        elif style == 'small':
            n = rng.randrange(32, 160)
        else:
            n = rng.randrange(32, 900)
        if huge and rng.random() < 0.1:
            n = biggest - rng.choice([0, 8, rng.randrange(biggest - 32)])
        n = max(32, min(n, biggest)) & ~7
        if n > 8 * pay:
            mon.count('over_eight_pages')
        # room for a header and nothing else
        if n == room:
            mon.count('exact_fill')
        tx = rng.randrange(6)
        client = (rng.randrange(2) << 16) if two else 0
        key = (client, tx)
        prev = last.get(key, 0) if rng.random() < links else 0
        undo = prev if rng.random() < 0.5 else 0
        if rng.random() < 0.05:
            undo = rng.choice(log.order).lsn if log.order else 0
        rtype = 1
        links_of = ()
        if restarts and rng.random() < 0.03 and log.order:
            rtype = 2
            picks = [log.keep(rng.choice(log.order[-40:]).lsn, 256) if rng.random() < 0.6 else 0 for _ in range(5)]
            data = lfsgen.ntfs_restart(1, 0, *picks, size=rng.choice([64, 72, 80, 84, 96, 104, 112, 112, 128, 200]) & ~7)
            links_of = picks
        else:
            room_d = n - 32
            lo, hi = max(0, room_d - 65528), min(65480, room_d)
            redo = rng.randbytes(min(hi, lo + (rng.randrange(0, hi - lo + 1) & ~7)))
            undo_d = rng.randbytes((room_d - len(redo)) & ~7)
            if len(redo) > 65535 or len(undo_d) > 65535:
                redo, undo_d = b'', b''
            op = rng.choice([0, 2, 3, 5, 6, 7, 8, 9, 0xb, 0xc, 0xe, 0x12, 0x15, 0x1b, 0x25, 0x26, 0x99])
            data = lfsgen.ntfs_record(op, rng.randrange(0, 0x26), redo, undo_d, target=rng.randrange(24, 600), vcn=rng.randrange(1 << 20))
            if odd and rng.random() < 0.08:
                mon.count('odd_records')
                k = rng.randrange(3)
                if k == 0:
                    data = rng.randbytes(8 * rng.randrange(1, 4))          # too short for the client
                elif k == 1:
                    rtype = rng.choice([0, 3, 0x100])                       # a record of another type
                else:
                    b = bytearray(data)                                     # an open with senseless offsets
                    b[0:2] = b'\x1c\x00'
                    b[4:6] = rng.choice([b'\x01\x00', b'\x1f\x00', b'\xff\xff'])
                    b[6:8] = b'\x28\x00'
                    data = bytes(b)
        if PAGE - log.off == log.hdr:
            mon.count('header_only_fit')
        r = log.append(data, rtype, prev, undo, rng.choice([0, 0x18 + 0x28 * tx, tx, 0xffffffff]), client, info=key, links=links_of)
        if len(set(r.pages)) != len(r.pages):
            mon.count('overlong')
        last[key] = r.lsn
        if rtype == 2:
            log.restart_lsn = r.lsn
            mon.count('restart_areas')
        written += len(data) + log.hdr
        if len(r.pages) > 1:
            mon.count('multi_page')
            if any(b < a for a, b in zip(r.pages, r.pages[1:])):
                mon.count('across_wrap')
        if rng.random() < skip:
            log.flush()
            log.skip_page()
            mon.count('skipped_pages')
            last.clear()
        if rng.random() < flush:
            log.flush()
        if rng.random() < 0.06:
            log.move()
        if rng.random() < 0.03:
            log.oldest_lsn = rng.choice(log.order[-60:]).lsn
            log.write_restart(rng.choice([0, 0, 0, log.order[-1].lsn]))
    if rng.random() < 0.7:
        log.flush()
    if rng.random() < 0.3:
        log.move(True)
    if rng.random() < 0.3:
        log.write_restart()


def describe(cap, recover):
    log = cap.log
    return 'version %s, %d circular pages, header %d, data at %d, bits %d, %d writes, torn %s, damaged %s, recover=%s' % (
        log.version, log.circ, log.hdr, log.data_off, log.bits, len(log.writes), cap.torn, cap.damaged, recover)


def compare(mon, cap, got, recover):
    """got = [(lsn, class name, data, transaction)]"""
    must, whole, heads = cap.expect(recover)
    log = cap.log
    ctx = describe(cap, recover)
    seen = set()
    per_client = {}
    for lsn, kind, data, tx in got:
        mon.count('yielded')
        mon.check(lsn not in seen, 'duplicate-record', lambda: 'LSN %d; %s' % (lsn, ctx))
        seen.add(lsn)
        r = heads.get(lsn)
        if r is None:
            mon.fail('phantom-record', 'LSN %d was %s; %s' % (lsn, 'superseded or lost' if lsn in log.records else 'never written', ctx))
        mon.equal(kind, {1: 'NTFSLogRecord', 2: 'NTFSRestartArea'}.get(r.rtype), 'record-kind', ctx)
        if lsn in whole:
            mon.check(data == r.data, 'record-data', lambda: 'LSN %d at page %d+%d, %d bytes over pages %s: got %d bytes, first difference at %s; %s' % (
                lsn, r.page, r.off, len(r.data), r.pages, len(data), next((i for i, (a, b) in enumerate(zip(data, r.data)) if a != b), min(len(data), len(r.data))), ctx))
        elif lsn in cap.overrun:
            mon.count('overrun_not_judged')
        else:
            mon.count('lost_continuation')
            mon.check(r.data.startswith(data), 'lost-continuation-data', lambda: 'LSN %d at page %d+%d, pages %s, %d bytes: got %d bytes which are not its beginning; %s' % (
                lsn, r.page, r.off, r.pages, len(r.data), len(data), ctx))
        if r.rtype == 1:
            mon.equal(tx, r.tx, 'transaction-id', ctx)
        per_client.setdefault(r.client, []).append(lsn)
    # per client in ascending order, one client after another
    runs = []
    for lsn, *_ in got:
        c = heads[lsn].client
        if not runs or runs[-1] != c:
            runs.append(c)
    mon.equal(len(runs), len(set(runs)), 'client-order', ctx)
    for c, l in per_client.items():
        mon.equal(l, sorted(l), 'record-order', lambda: ctx)
    for lsn, r in must.items():
        if lsn not in whole or r.rtype not in (1, 2):
            continue
        if len(r.data) < (32 if r.rtype == 1 else 64):
            continue
        mon.count('records_required')
        if lsn not in seen:
            mon.fail('lost-record', 'LSN %d (type %d, page %d+%d, %d bytes, pages %s) was not yielded, %d of %d yielded; %s' % (lsn, r.rtype, r.page, r.off, len(r.data), r.pages, len(got), len(must), ctx))
    mon.count('lost_records', len(log.records) - len(whole))
    mon.count('only_linked', sum(1 for l in whole if l not in must))
    mon.count('checks', len(got) + len(must))


def run(mon, cap, recover, parser=None):
    p = parser or LogFile.LogFileParser(MonFile(cap.image))
    got = []
    for x in p.parse_ntfs_records(recover):
        got.append((x.lsn, type(x).__name__, bytes(x.buf), getattr(x, 'transaction_id', None)))
    return p, got


def fam_history(rng, mon):
    huge = rng.random() < 0.04
    log = lfsgen.Log(rng, npages=rng.choice([13, 18, 24, 36]) if huge else None)
    history(rng, mon, log, huge)
    mon.count('v%d.%d' % log.version)
    if log.crc:
        mon.count('crc')
    if log.hdr > 48 or log.data_off > 64:
        mon.count('wide_header')
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        n = len(log.writes) if k < 0.25 else rng.randrange(2, len(log.writes) + 1)
        torn = rng.choice(list(lfsgen.TEAR_RANGE)) if rng.random() < 0.5 else None
        cap = lfsgen.Capture(log, rng, n, torn, rng.choice([0, 0, 0, 1, 2, 4]))
        mon.sig(log.version, log.circ, log.hdr, n, torn, tuple(cap.damaged), len(log.order), log.order[-1].lsn, log.order[0].lsn)
        if cap.torn is not None:
            mon.count('torn')
        if cap.damaged:
            mon.count('damaged')
        if cap.state.get(0) is None or cap.state.get(1) is None:
            mon.count('one_restart_page')
        if any(r.page < s.page for r, s in zip(log.order[1:], log.order)):
            mon.count('wrapped')
        modes = [True, False] if rng.random() < 0.5 else [True]
        if rng.random() < 0.3:
            modes.reverse()
        if rng.random() < 0.3:
            check_headers(rng, mon, cap)
        parser = None
        for recover in modes:
            must, whole, heads = cap.expect(recover)
            if recover and cap.applied:
                mon.count('tail_applied' if log.version == (1, 1) else 'fast_applied', cap.applied)
            if recover and not cap.applied and any(cap.state.get(i) is not None for i in range(2, log.wrap)):
                mon.count('stale_spare')
            if not recover:
                mon.count('not_recovered')
            if not any(heads[l].rtype == 2 for l in must):
                mon.count('no_restart_area')
            if not must:
                mon.count('empty_log')
            parser, got = run(mon, cap, recover, parser)
            compare(mon, cap, got, recover)
            if log.clients > 1:
                mon.count('two_clients')
            mon.sample('%s: %d records yielded, %d required, %d written in all' % (describe(cap, recover), len(got), len(must), len(log.records)))
        mon.equal(parser.file_object.__class__.__name__, 'MonFile', 'original-file-restored')


def check_headers(rng, mon, cap):
    """Header fields as stored, straight from the pages."""
    log = cap.log
    p = LogFile.LogFileParser(MonFile(cap.image))
    ctx = describe(cap, None)
    mon.equal(p.log_version, log.version, 'log-version')
    for i, rp in ((0, p.restart_page_1), (1, p.restart_page_2)):
        s = cap.state.get(i)
        mon.equal(rp is None, s is None, 'restart-page-validity', ctx)
        if s is None:
            continue
        f = s[2]
        a = rp.get_restart_area()
        mon.equal((rp.get_chkdsk_lsn(), rp.get_system_page_size(), rp.get_log_page_size(), rp.get_restart_offset(), rp.get_major_version(), rp.get_minor_version()),
                  (f['chkdsk'], PAGE, PAGE, log.restart_off) + log.version, 'restart-page-fields', ctx)
        mon.equal((a.get_current_lsn(), a.get_log_clients(), a.get_client_free_list(), a.get_client_in_use_list(), a.get_flags(), a.get_sequence_number_bits(), a.get_restart_area_length(),
                   a.get_client_array_offset(), a.get_file_size(), a.get_last_lsn_data_length(), a.get_record_header_length(), a.get_log_page_data_offset(), a.get_revision_number()),
                  (f['current'], f['clients'], 0xffff, 0, 0, log.bits, f['length'], 64, log.size, f['last_len'], log.hdr, log.data_off, 1), 'restart-area-fields', ctx)
        cl = [(c.get_oldest_lsn(), c.get_client_restart_lsn(), c.get_prev_client(), c.get_next_client(), c.get_sequence_number(), c.get_client_name()) for c in a.clients()]
        mon.equal(cl, [(f['oldest'], f['restart'], 0xffff, 0xffff, k, 'NTFS') for k in range(f['clients'])], 'client-records', ctx)
        mon.count('restart_pages_compared')
    eff = cap.effective(False)
    want_pages = sorted(i for i in range(2, log.npages) if cap.state.get(i) is not None)
    mon.equal([x.page_number for x in p.log_record_pages(1)], want_pages, 'page-list', ctx)
    mon.equal([x.page_number for x in p.log_record_pages(0)], [i for i in want_pages if i >= log.wrap], 'circular-page-list', ctx)
    for i, v in eff.items():
        pg = p.get_log_record_page_by_number(i)
        mon.equal((pg.get_last_lsn(), pg.get_last_end_lsn(), pg.get_page_count(), pg.get_page_position()), (v.last_lsn, v.last_end, 1, 1), 'page-fields', ctx)
        for r in v.starts:
            h = pg.get_log_record_at_offset(r.off, log.hdr)
            mon.equal((h.get_this_lsn(), h.get_client_previous_lsn(), h.get_client_undo_next_lsn(), h.get_client_data_length(), h.get_client_id(), h.get_record_type(), h.get_transaction_id(), h.get_flags()),
                      (r.lsn, r.prev, r.undo, len(r.data), r.client, r.rtype, r.tx, r.flags), 'record-header-fields', ctx)
            mon.count('headers_compared')
    mon.count('checks')


def fam_address(rng, mon):
    """LSN <-> place arithmetic, for every width of the sequence number."""
    log = lfsgen.Log(rng, npages=3)
    cap = lfsgen.Capture(log, rng)
    p = LogFile.LogFileParser(MonFile(cap.image))
    for _ in range(40):
        bits = rng.randrange(20, 61)
        p.sequence_number_bits = bits
        maxoff = 1 << (67 - bits)
        a = rng.randrange(0, maxoff) & ~7
        seq = rng.choice([0, 1, rng.randrange(1 << bits), (1 << bits) - 1])
        lsn = (a >> 3) | (seq << (64 - bits))
        mon.equal(p.lsn_to_offset(lsn), (a // PAGE, a % PAGE), 'lsn-to-offset', 'lsn %d bits %d' % (lsn, bits))
        mon.equal(p.lsn_to_seqnum(lsn), seq, 'lsn-to-sequence')
        mon.equal(p.offset_to_lsn(a // PAGE, a % PAGE, seq), lsn, 'offset-to-lsn')
        mon.count('addressing')
        mon.count('checks', 3)
    mon.sig('address', seq, bits)


FAMILIES = [('history', fam_history, 8000, 120000), ('address', fam_address, 20, 200)]
