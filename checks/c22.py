"""C22: link-tracking log."""
import uuid, datetime
from lib.harness import MonFile, clip
from lib import ntfs, parts
from dfir_ntfs import MoveTable

PROPERTY = 'C22'
RULE = ('each case writes a log of random used and unused entries for 512- or 4096-byte sectors, with footers, machine names in any single-byte encoding, version-1 and random identifiers and a cut last sector; '
        'the log of yielded entries and all header fields are compared with the written ones. Distinct = distinct logs.')
REQUIRED = ['entries', 'unused_hidden', 'sector512', 'sector4096', 'guessed_sector', 'cut_sector', 'v1_guids', 'ambiguous_names', 'full_names', 'headers', 'refused_type']


def text(raw):
    a = b = None
    try:
        a = raw.decode('cp866')
    except UnicodeDecodeError:
        pass
    try:
        b = raw.decode('windows-1252')
    except UnicodeDecodeError:
        pass
    return a, b


def check_name(mon, got, raw):
    a, b = text(raw)
    if a == b or b is None:
        mon.equal(got, a, 'machine-name')
    else:
        mon.check(a in got and b in got, 'machine-name-ambiguous', '%r for %r' % (got, raw))
        mon.count('ambiguous_names')


def guid_time(raw):
    u = uuid.UUID(bytes_le=raw)
    return u.time if u.version == 1 else None


def check_entry(mon, e, m):
    U = lambda r: uuid.UUID(bytes_le=r)
    mon.equal((e.get_next_log_entry_index(), e.get_previous_log_entry_index(), e.get_log_entry_type(), e.get_log_entry_index(), e.get_unknown_16(), e.get_unknown_120()),
              (m['next'], m['prev'], m['type'], m['index'], m['u16'], m['u120']), 'entry-fields')
    mon.equal((e.get_object_id(), tuple(e.get_droid()), tuple(e.get_birth_droid())), (U(m['oid']), (U(m['dv']), U(m['do'])), (U(m['bv']), U(m['bo']))), 'entry-ids')
    mon.equal(bytes(e.get_machine_id_raw()), m['mraw'], 'machine-raw')
    check_name(mon, e.get_machine_id(), m['mraw'])
    if len(m['mraw']) == 16:
        mon.count('full_names')
    lo, hi = e.get_timestamp()
    mon.check(ntfs.instant_ok(lo, m['ts'] << 32) and ntfs.instant_ok(hi, (m['ts'] << 32) | 0xFFFFFFFF), 'time-range', lambda: '%r %r for %x' % (lo, hi, m['ts']))
    mon.check(lo is None or hi is None or lo <= hi, 'time-range-order')
    ts = e.get_guid_timestamps()
    for got, raw in zip(ts, (m['oid'], m['do'], m['bo'])):
        t = guid_time(raw)
        if t is None:
            mon.equal(got, None, 'guid-time-absent')
        else:
            mon.check(ntfs.instant_ok(got, t, ntfs.EPOCH_1582), 'guid-time', lambda: '%r for %d' % (got, t))
            mon.count('v1_guids')


def case_log(rng, mon):
    sector = rng.choice([512, 4096])
    data, i = parts.move_table(rng, sector)
    mon.count('sector%d' % sector)
    guess = i['nsec'] > 0 and rng.random() < 0.7
    p = MoveTable.MoveTableParser(MonFile(data)) if guess else MoveTable.MoveTableParser(MonFile(data), sector)
    if guess:
        mon.count('guessed_sector')
    if i['tail']:
        mon.count('cut_sector')
    h = p.get_header()
    mon.equal((h.get_unknown_16(), h.get_flags(), h.get_unknown_24(), tuple(h.get_expansion_data()), h.is_log_flushed()), (i['u16'], i['flags'], i['u24'], i['exp'], bool(i['flags'] & 1)), 'header-fields')
    x = h.get_extended_header()
    check_name(mon, x.machine_id, i['mraw'])
    mon.equal((x.volume_object_id, list(x[2:])), (uuid.UUID(bytes_le=i['vol']), i['ext']), 'extended-header')
    mon.count('headers')
    got = list(p.log_entries())
    want = [m for __, m in i['entries'] if m['type'] == 2]
    ctx = 'sector=%d sectors=%d tail=%d used=%d' % (sector, i['nsec'], i['tail'], len(want))
    mon.equal([e.get_log_entry_index() for e in got], [m['index'] for m in want], 'entry-log', ctx)
    for e, m in zip(got, want):
        check_entry(mon, e, m)
    mon.count('entries', len(want))
    mon.count('unused_hidden', len(i['entries']) - len(want))
    secs = list(p.log_sectors())
    mon.equal(len(secs), i['nsec'], 'sector-log', ctx)
    for n, (s, f) in enumerate(zip(secs, i['footers'])):
        ft = s.get_footer()
        mon.equal((ft.get_lowest_log_entry_index_present(), ft.get_next_log_entry_index(), bytes(ft.get_unused())), f, 'footer', ctx)
        mon.equal([e.get_log_entry_index() for e in s.log_entries()], [m['index'] for k, m in i['entries'] if k == n], 'sector-entries', ctx)
    mon.sig(data)
    mon.sample(ctx)


def case_refuse(rng, mon):
    sector = rng.choice([512, 4096])
    data, i = parts.move_table(rng, sector, nsec=2, dens=1.0)
    x = bytearray(data)
    k = rng.choice(['sig', 'type', 'sector', 'short'])
    if k == 'sig':
        x[rng.randrange(16)] ^= rng.randint(1, 255)
        mon.raises((ValueError,), MoveTable.MoveTableParser(MonFile(bytes(x)), sector).get_header, 'bad-signature')
    elif k == 'type':
        n = rng.randrange((sector - 16) // 124)
        x[sector + n * 124 + 8:sector + n * 124 + 12] = rng.choice([0, 3, 4, 0x200, 0xFFFFFFFF]).to_bytes(4, 'little')
        got = []

        def run():
            for e in MoveTable.MoveTableParser(MonFile(bytes(x)), sector).log_entries():
                got.append(e.get_log_entry_index())
        mon.raises((NotImplementedError,), run, 'unsupported-type')
        mon.equal(got, list(range(n)), 'entries-before-unsupported-type')
        mon.count('refused_type')
    elif k == 'sector':
        mon.raises((ValueError,), lambda: MoveTable.LogSector(bytes(x[sector:sector + rng.choice([0, 1, 256, 511, 513, 1024, 4095])])), 'bad-sector-size')
    else:
        mon.raises((ValueError,), lambda: MoveTable.LogEntry(bytes(x[sector:sector + rng.choice([0, 120, 123, 125])])), 'bad-entry-size')
    mon.sig(k, bytes(x[:600]))


FAMILIES = [('log', case_log, 12000, 200000), ('refuse', case_refuse, 4000, 40000)]
