"""A simulator of a circular transaction log ($LogFile).

A Log writes records the way the log file service does: records are laid out
page after page in the circular area, a page that is only partly filled is
flushed to a spare page first (a tail copy in version 1.1, a fast page in
version 2.x), in-place writes follow, restart pages alternate.  Every physical
write is an event in `writes`; a captured image is the disk after a prefix of
these events, with the last one possibly torn, and with pages damaged
afterwards.  `Capture` derives the image and what a reader has to find in it.
"""

import struct
import binascii

PAGE = 4096
TEAR_RANGE = range(1, 8)


class Rec:
    __slots__ = ('lsn', 'prev', 'undo', 'client', 'rtype', 'tx', 'flags', 'data', 'page', 'off',
                 'pages', 'next', 'info', 'links', 'abs')

    def __init__(self):
        self.next = None
        self.info = None
        self.links = ()
        self.pages = []


class Ver:
    """One version of a log page, as it was written."""
    __slots__ = ('page', 'starts', 'parts', 'last_lsn', 'last_end', 'raw', 'partial', 'serial')


class Log:
    def __init__(self, rng, version=None, npages=None, seqnum=None, crc=None):
        self.rng = rng
        self.version = version or rng.choice([(1, 1), (1, 1), (2, 0), (2, 0), (3, 0)])
        self.wrap = 4 if self.version == (1, 1) else 34
        self.circ = npages or rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 12])
        self.npages = self.wrap + self.circ
        self.size = self.npages * PAGE
        tight = 67 - (self.size - 1).bit_length()
        self.bits = tight - rng.choice([0, 0, 0, 1, 4, 9])
        self.hdr = rng.choice([48, 48, 48, 48, 56, 64])
        self.usa_off = 40
        self.data_off = rng.choice([64, 64, 64, 64, 72, 96])
        self.crc = rng.random() < 0.12 if crc is None else crc
        self.zero = rng.choice([0xff, 0xff, 0])
        self.seq = seqnum if seqnum is not None else rng.choice([1, 2, 7, 1 << 18, (1 << (self.bits - 2)) - 3])
        self.page = self.wrap
        if rng.random() < 0.4:
            self.page = self.wrap + rng.randrange(self.circ)
        self.off = self.data_off
        self.records = {}
        self.abs = 0               # pages begun so far
        self.order = []
        self.usn = rng.randrange(1, 60000)
        self.writes = []           # (physical page, bytes, Ver or ('rstr', info))
        self.serial = 0
        self.full = []             # full pages waiting to be written
        self.dirty = False
        self.last_end = 0
        self.garbage_fill = rng.random() < 0.2
        self.cur = self._new_page()
        self.tail_slot = 2
        self.fast_slot = 2
        self.unmoved = []          # versions in the fast area, not yet in place (2.x)
        self.restart_slot = 0
        self.restart_lsn = 0
        self.oldest_lsn = 0
        self.clients = 1
        self.in_place_too = rng.random() < 0.4
        self.restart_usa = rng.choice([30, 30, 48])
        self.restart_off = 48 if self.restart_usa == 30 else 72
        self.mirror_tail_fields = rng.random() < 0.5
        self.write_restart()
        self.write_restart()

    # -- pages
    def _new_page(self):
        p = {'page': self.page, 'buf': bytearray(PAGE), 'starts': [], 'parts': [], 'last_lsn': 0,
             'last_end': self.last_end, 'next_off': self.data_off, 'flags': 0}
        if self.garbage_fill:
            p['buf'][self.data_off:] = self.rng.randbytes(PAGE - self.data_off)
        return p

    def _advance(self):
        """Finish the current page, start the next one."""
        self.full.append(self.cur)
        self.page += 1
        self.abs += 1
        if self.page >= self.npages:
            self.page = self.wrap
            self.seq += 1
        self.off = self.data_off
        self.cur = self._new_page()
        self.dirty = False

    def lsn_at(self, page, off, seq):
        return ((page * PAGE + off) >> 3) | (seq << (64 - self.bits))

    def live(self, lsn, size):
        """Will this record still be in the log once `size` bytes more are written?
        (The log file service never overwrites what an active transaction or checkpoint refers to.)"""
        r = self.records.get(lsn)
        return r is not None and self.abs - r.abs + size // (PAGE - self.data_off) + 2 < self.circ

    def keep(self, lsn, size):
        return lsn if self.live(lsn, size) else 0

    def skip_page(self):
        """Leave the rest of the current page unused (as after a remount)."""
        if self.off > self.data_off:
            self._advance()

    def append(self, data, rtype=1, prev=0, undo=0, tx=0, client=0, flags=None, info=None, links=()):
        assert len(data) % 8 == 0 and len(data) >= 8
        prev, undo = self.keep(prev, len(data)), self.keep(undo, len(data))
        if PAGE - self.off < self.hdr:
            self._advance()
        r = Rec()
        r.lsn = self.lsn_at(self.page, self.off, self.seq)
        assert r.lsn not in self.records
        r.prev, r.undo, r.client, r.rtype, r.tx, r.info, r.links = prev, undo, client, rtype, tx, info, tuple(links)
        r.data = bytes(data)
        r.page, r.off, r.abs = self.page, self.off, self.abs
        room = PAGE - self.off - self.hdr
        multi = len(data) > room
        r.flags = (1 if multi else 0) if flags is None else flags
        head = struct.pack('<QQQLLLLH', r.lsn, prev, undo, len(data), client, rtype, tx, r.flags)
        head += bytes(self.hdr - len(head))
        self.cur['buf'][self.off:self.off + self.hdr] = head
        self.cur['starts'].append(r)
        self.off += self.hdr
        self.cur['last_lsn'] = r.lsn
        left = r.data
        while True:
            n = min(len(left), PAGE - self.off)
            self.cur['buf'][self.off:self.off + n] = left[:n]
            self.off += n
            left = left[n:]
            self.cur['parts'].append(r)
            self.cur['last_lsn'] = r.lsn
            r.pages.append(self.page)
            self.dirty = True
            if not left:
                break
            self._advance()
        self.cur['last_end'] = r.lsn
        self.cur['next_off'] = self.off
        self.cur['flags'] |= 1
        if rtype == 2 and self.version[0] >= 2:
            self.cur['flags'] |= 2
        self.last_end = r.lsn
        if self.order:
            self.order[-1].next = r
        self.order.append(r)
        self.records[r.lsn] = r
        return r

    # -- protection
    def protect(self, buf, usa_off):
        b = bytearray(buf)
        n = len(b) // 512 + 1
        struct.pack_into('<HH', b, 4, usa_off, n)
        b[usa_off:usa_off + 2 * n] = bytes(2 * n)
        if self.crc:
            c = binascii.crc32(bytes(b)) & 0xffffffff
            b[usa_off:usa_off + 8] = struct.pack('<L', c) + b'CRC4'
            return bytes(b)
        self.usn = self.usn % 65000 + 1
        u = struct.pack('<H', self.usn)
        b[usa_off:usa_off + 2] = u
        for i in range(1, n):
            b[usa_off + 2 * i:usa_off + 2 * i + 2] = b[i * 512 - 2:i * 512]
            b[i * 512 - 2:i * 512] = u
        return bytes(b)

    def _emit(self, where, p, kind, partial):
        v = Ver()
        v.page = p['page']
        v.starts = tuple(p['starts'])
        v.parts = tuple(p['parts'])
        v.last_lsn = p['last_lsn']
        v.last_end = p['last_end']
        v.partial = partial
        self.serial += 1
        v.serial = self.serial
        b = bytearray(p['buf'])
        b[:self.data_off] = bytes(self.data_off)
        b[0:4] = b'RCRD'
        last = v.page * PAGE if kind == 'tail' else v.last_lsn
        struct.pack_into('<QLHHH', b, 8, last, p['flags'], 1, 1, p['next_off'])
        struct.pack_into('<Q', b, 32, v.last_end)
        if self.version[0] >= 2 and (kind == 'fast' or self.mirror_tail_fields):
            struct.pack_into('<L', b, 60, v.page * PAGE)
        raw = self.protect(b, self.usa_off)
        v.raw = raw
        self.writes.append((where, raw, v))

    def flush(self):
        """Make everything appended so far durable."""
        todo = [(p, False) for p in self.full]
        if self.dirty:
            todo.append((self.cur, True))
        self.full = []
        self.dirty = False
        for p, partial in todo:
            if self.version == (1, 1):
                if partial:
                    self._emit(self.tail_slot, p, 'tail', True)
                    self.tail_slot ^= 1
                    if self.in_place_too and self.rng.random() < 0.5:
                        self._emit(p['page'], p, 'inplace', True)
                else:
                    self._emit(p['page'], p, 'inplace', False)
            else:
                # A slot is only used again once the page kept in it is in place.
                if len(self.unmoved) >= 28:
                    self.move(True)
                snap = dict(p, buf=bytes(p['buf']), starts=list(p['starts']), parts=list(p['parts']))
                self._emit(self.fast_slot, snap, 'fast', partial)
                self.fast_slot += 1
                if self.fast_slot == 34:
                    self.fast_slot = 2
                self.unmoved.append((snap, partial))

    def move(self, everything=False):
        """Write pages from the fast area to their places, in order (2.x)."""
        if self.version == (1, 1) or not self.unmoved:
            return
        n = len(self.unmoved) if everything else self.rng.randrange(1, len(self.unmoved) + 1)
        now, self.unmoved = self.unmoved[:n], self.unmoved[n:]
        for i, (snap, partial) in enumerate(now):
            later = now[i + 1:]
            if any(s['page'] == snap['page'] for s, _ in later):
                continue            # superseded within the batch
            self._emit(snap['page'], snap, 'inplace', partial)

    def write_restart(self, chkdsk=0):
        b = bytearray(PAGE)
        b[0:4] = b'CHKD' if chkdsk else b'RSTR'
        struct.pack_into('<QLLHHH', b, 8, chkdsk, PAGE, PAGE, self.restart_off, self.version[1], self.version[0])
        area = bytearray(64 + 160 * self.clients)
        cur = self.order[-1].lsn if self.order else 0
        struct.pack_into('<QHHHHLHH', area, 0, cur, self.clients, 0xffff, 0, 0, self.bits, len(area), 64)
        struct.pack_into('<qLHHL', area, 24, self.size, len(self.order[-1].data) if self.order else 0, self.hdr, self.data_off, 1)
        for k in range(self.clients):
            c = bytearray(160)
            struct.pack_into('<QQHHH', c, 0, self.oldest_lsn, self.restart_lsn, 0xffff, 0xffff, k)
            name = 'NTFS'.encode('utf-16le')
            struct.pack_into('<L', c, 28, len(name))
            c[32:32 + len(name)] = name
            area[64 + 160 * k:64 + 160 * (k + 1)] = c
        b[self.restart_off:self.restart_off + len(area)] = area
        raw = self.protect(b, self.restart_usa)
        seeds = [chkdsk, cur] + [self.oldest_lsn, self.restart_lsn]
        fields = dict(chkdsk=chkdsk, current=cur, oldest=self.oldest_lsn, restart=self.restart_lsn, clients=self.clients,
                      length=len(area), last_len=len(self.order[-1].data) if self.order else 0)
        self.writes.append((self.restart_slot, raw, ('rstr', tuple(seeds), fields)))
        self.restart_slot ^= 1


class Capture:
    """The log file as found: a prefix of the writes, possibly torn, possibly damaged."""

    def __init__(self, log, rng, nwrites=None, torn=None, damage=0):
        self.log = log
        n = len(log.writes) if nwrites is None else nwrites
        n = max(n, 2)
        disk = {}
        state = {}
        blank = bytes([log.zero]) * PAGE
        for where, raw, what in log.writes[:n]:
            disk[where] = raw
            state[where] = what
        self.torn = None
        if torn and n < len(log.writes):
            where, raw, what = log.writes[n]
            old = disk.get(where, blank)
            k = torn * 512
            if raw[:k] + old[k:] not in (raw, old):
                disk[where] = raw[:k] + old[k:]
                state[where] = None
                self.torn = where
        self.damaged = []
        for _ in range(damage):
            where = rng.randrange(2, log.npages)
            if where not in disk or state[where] is None:
                continue
            b = bytearray(disk[where])
            k = rng.randrange(4)
            if log.crc and k == 1:
                k = 2
            if k == 0:
                b = bytearray(PAGE)
            elif k == 1:
                s = rng.randrange(8)
                b[s * 512 + 510] ^= 1 + rng.randrange(255)
            elif k == 2:
                b = bytearray(rng.randbytes(PAGE))
            else:
                b[0] ^= 0x20
            disk[where] = bytes(b)
            state[where] = None
            self.damaged.append(where)
        self.state = state
        self.image = b''.join(disk.get(i, blank) for i in range(log.npages))

    def effective(self, recover):
        """Which version of every page of the circular area counts."""
        log = self.log
        eff = {}
        for i in range(log.wrap, log.npages):
            v = self.state.get(i)
            if v is not None:
                eff[i] = v
        self.applied = 0
        if not recover:
            return eff
        if log.version == (1, 1):
            tails = [v for v in (self.state.get(2), self.state.get(3)) if v is not None]
            if tails:
                best = max(tails, key=lambda v: v.last_end)
                there = eff.get(best.page)
                if there is None or best.last_end > there.last_end:
                    eff[best.page] = best
                    self.applied = 1
        else:
            top = max([v.last_lsn for v in eff.values()], default=0)
            fast = [self.state[i] for i in range(2, 34) if self.state.get(i) is not None]
            for v in sorted(fast, key=lambda v: (v.last_lsn, v.serial)):
                if v.last_lsn >= top:
                    old = eff.get(v.page)
                    if old is None or old.starts != v.starts or old.parts != v.parts:
                        self.applied += 1
                    eff[v.page] = v
        return eff

    def expect(self, recover):
        """-> (required {lsn: Rec}, whole set of lsns, headers {lsn: Rec})"""
        log = self.log
        eff = self.effective(recover)
        heads = {}
        for v in eff.values():
            for r in v.starts:
                heads[r.lsn] = r
        whole = set()
        self.overrun = set()      # a continuation page holds a later pass (its own page was lost since)
        for lsn, r in heads.items():
            ok = True
            seen = set()
            for pg in r.pages:
                v = eff.get(pg)
                if v is None or r not in v.parts or pg in seen:
                    ok = False
                    if v is not None and v.parts and v.parts[0].lsn > r.lsn:
                        self.overrun.add(lsn)
                seen.add(pg)
            if ok:
                whole.add(lsn)
        seeds = set()
        for i in (0, 1):
            s = self.state.get(i)
            if s is not None:
                seeds.update(s[1])
        for i in range(2, log.wrap):
            v = self.state.get(i)
            if v is not None:
                seeds.add(v.last_end)
                if not (log.version == (1, 1) and i < 4):
                    seeds.add(v.last_lsn)
        for v in eff.values():
            seeds.add(v.last_end)
            # an applied tail copy does not carry its last LSN
            if not (log.version == (1, 1) and v.partial and self.state.get(v.page) is not v):
                seeds.add(v.last_lsn)
        reach = set()
        todo = [s for s in seeds if s in heads]
        while todo:
            lsn = todo.pop()
            if lsn in reach:
                continue
            reach.add(lsn)
            r = heads[lsn]
            nxt = [r.prev, r.undo]
            if r.next is not None:
                nxt.append(r.next.lsn)
            if r.rtype == 2 and lsn in whole:
                nxt.extend(r.links)
            for x in nxt:
                if x in heads and x not in reach:
                    todo.append(x)
        return {l: heads[l] for l in reach}, whole, heads


def pad8(b, rng=None):
    n = -len(b) % 8
    return b + (rng.randbytes(n) if rng else bytes(n))


def ntfs_record(redo_op, undo_op, redo=b'', undo=b'', target=0, lcns=(), rec_off=0, attr_off=0,
                block_off=0, block_size=0, vcn=0, shared=False, rng=None):
    """The client data of one NTFS log record."""
    head = 32 + 8 * len(lcns)
    body = bytearray()
    ro = head if redo else 0
    if rng is not None and rng.random() < 0.3:
        ro = head                 # the offset may be there without data
    body += pad8(bytes(redo), rng)
    if shared:
        uo, undo = ro, redo
    else:
        uo = head + len(body) if undo else (head + len(body) if ro and rng is not None and rng.random() < 0.3 else 0)
        body += pad8(bytes(undo), rng)
    out = struct.pack('<HHHHHHHHHHHHq', redo_op, undo_op, ro, len(redo), uo, len(undo), target, len(lcns),
                      rec_off, attr_off, block_off, block_size, vcn)
    out += b''.join(struct.pack('<q', x) for x in lcns)
    return out + bytes(body)


def ntfs_restart(major, minor, start=0, oat=0, names=0, dirty=0, txs=0, lens=(0, 0, 0, 0), usn_off=0, last=0,
                 cluster=4096, usn_ref=0, usn_base=0, oldest=0, size=112):
    b = struct.pack('<LLQQQQQLLLLqQLLQqQ', major, minor, start, oat, names, dirty, txs, *lens, usn_off, last,
                    cluster, 0, usn_ref, usn_base, oldest)
    return (b + bytes(max(0, size - len(b))))[:size]
