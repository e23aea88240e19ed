"""C05: full paths and path lookups vs. the generated directory tree."""
import struct, collections
from lib.harness import MonFile, clip
from lib import ntfs
from lib.ntfs import ref
from dfir_ntfs import MFT

PROPERTY = 'C05'
RULE = ('each case generates a directory tree (hard links, separate short names, names kept in extension records, deleted files and directories, stale, missing, '
        'non-directory, nameless, damaged and cyclic parents) as a table of records; every reported path set is compared with the tree and every path, '
        'plus absent ones, is looked up. Distinct = distinct trees.')
REQUIRED = ['nonresident_before_names', 'list_before_names', 'nonresident_behind_names', 'paths', 'hard_links', 'dos_names', 'orphans', 'cycles', 'deep_paths', 'lookups_found', 'lookups_absent', 'deleted_not_found', 'case_insensitive', 'same_name_links',
            'damaged_parents', 'extension_names', 'trailing_slash', 'damaged_during_lookup', 'truncated_values']
ASSUMPTIONS = ['names whose upper-case form changes length (such as U+00DF) are not generated: the case-insensitive lookup uses str.upper()']

ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-$~()\\\u00e9\u0416\u4e2d\u03a9' + '\u03c3\u03c2\u03a3'
ORPHAN = '<Orphan>'


class Node(object):
    pass


def make(rng, n, hostile):
    """n user records (numbers 24..), some in trees, some hostile. Returns nodes by number."""
    nodes = {}
    root = Node()
    root.number, root.seq, root.in_use, root.is_dir, root.names, root.kind = 5, 5, True, True, [(ref(5, 5), '.', 3)], 'ok'
    nodes[5] = root
    numbers = list(range(24, 24 + n))
    rng.shuffle(numbers)
    dirs = [root]
    used = collections.defaultdict(set)

    def fresh(parent, lo=1, hi=16):
        while True:
            s = ntfs.rnd_name(rng, lo, hi, alphabet=ALPHA)
            if s in ('.', '..') or '/' in s or s.upper() in used[parent]:
                continue
            used[parent].add(s.upper())
            return s
    for k in numbers:
        x = Node()
        x.number = k
        x.in_use = rng.random() < 0.8
        x.seq = rng.choice([1, 2, 3, rng.randint(2, 65535)]) if x.in_use else rng.choice([2, 3, 0, rng.randint(2, 65535)])
        x.is_dir = rng.random() < 0.4
        x.kind = 'ok'
        x.names = []
        nlinks = 1 if x.is_dir or rng.random() < 0.7 else rng.randint(2, 4)
        same = ntfs.rnd_name(rng, 3, 12, alphabet=ALPHA)
        for __ in range(nlinks):
            parent = rng.choice([d for d in dirs if d.in_use or not x.in_use])
            if rng.random() < 0.5:
                parent = rng.choice([d for d in dirs[-3:] if d.in_use or not x.in_use] or [root])
            pref = ref(parent.number, real_seq(parent))
            if nlinks > 1 and same.upper() not in used[pref] and rng.random() < 0.5:
                used[pref].add(same.upper())
                nm = same
            else:
                nm = fresh(pref) if nlinks > 1 or rng.random() > 0.04 else fresh(pref, 100, rng.choice([128, 150, 255]))
            f = rng.choice([0, 1, 3, 3])
            x.names.append((pref, nm, f))
            if (f == 1 and rng.random() < 0.7) or (f == 0 and x.is_dir and rng.random() < 0.3):
                x.names.append((pref, fresh(pref, 1, 8), 2))
        if rng.random() < 0.1 and len(x.names) == 1:
            p, nm, __ = x.names[0]
            x.names[0] = (p, nm, 2)   # only a short name
        if rng.random() < 0.3:
            rng.shuffle(x.names)
        nodes[k] = x
        if x.is_dir:
            dirs.append(x)
    if hostile:
        for x in list(nodes.values()):
            if x.number == 5 or rng.random() > 0.25 or not x.names:
                continue
            r = rng.random()
            i = rng.randrange(len(x.names))
            p, nm, f = x.names[i]
            if r < 0.2:      # missing parent
                x.names[i] = (ref(rng.choice([20000, 24 + n + 3, 17, (1 << 32) | 5, (1 << 32) | 24, (1 << 47) | 5]), rng.choice([1, 5])), nm, f)
            elif r < 0.4:    # reused parent
                d = rng.choice(dirs)
                if d.number != 5:
                    x.names[i] = (ref(d.number, (real_seq(d) + rng.choice([1, 65534])) & 0xFFFF), nm, f)
            elif r < 0.55:   # parent is a file
                fl = [y for y in nodes.values() if not y.is_dir]
                if fl:
                    y = rng.choice(fl)
                    x.names[i] = (ref(y.number, real_seq(y)), nm, f)
            elif r < 0.75:   # cycle
                if x.is_dir:
                    d = rng.choice([d for d in dirs if d.number != 5] or [x])
                    x.names = [(ref(x.number, real_seq(x)) if rng.random() < 0.3 else ref(d.number, real_seq(d)), nm, 3)]
            elif r < 0.85 and x.is_dir:
                x.names = []
                x.kind = 'nameless'
            else:
                x.kind = rng.choice(['badattr', 'torn', 'zero'])
    return nodes


def real_seq(x):
    if x.in_use:
        return x.seq
    return {0: 0xFFFF, 1: 1}.get(x.seq, x.seq - 1)


def bad_attr(rng, mon):
    """An attribute record which makes its file record damaged: an impossible length, or a value shorter than the fixed part of its type."""
    if rng.random() < 0.5:
        bad = bytearray(ntfs.attr_resident(ntfs.OBJID, b'1234'))
        bad[4:8] = struct.pack('<L', rng.choice([0, 3, 4096]))
        return bytes(bad)
    mon.count('truncated_values')
    return ntfs.attr_resident(ntfs.FN, ntfs.rnd_bytes(rng, rng.choice([0, 1, 7, 8, 63, 64])))


def serialise(rng, nodes, mon):
    recs = dict(ntfs.system_records())
    top = max(nodes) + 1
    ext = top
    for x in nodes.values():
        if x.number == 5:
            continue
        attrs = [ntfs.attr_resident(ntfs.SI, ntfs.si_value())]
        room = ntfs.attrs_room() - len(attrs[0])
        mine, others = [], []
        spill = rng.random() < 0.15
        # Other attributes in front of and behind the names: they must not matter.
        k = rng.random()
        if k < 0.12:
            attrs.append(ntfs.attr_nonresident(ntfs.ATTRLIST, [(rng.randint(1, 10000), 1)], rng.choice([32, 320, 4096])))
            mon.count('nonresident_before_names')
        elif k < 0.2:
            attrs.append(ntfs.attr_resident(ntfs.ATTRLIST, ntfs.attrlist_entry(ntfs.SI, None, 0, ref(x.number, x.seq), 0)))
            mon.count('list_before_names')
        behind = []
        if rng.random() < 0.15:
            behind.append(ntfs.attr_nonresident(ntfs.DATA, [(rng.randint(1, 10000), 3)], rng.choice([1, 4096, 12288])))
            mon.count('nonresident_behind_names')
        room -= sum(map(len, attrs[1:])) + sum(map(len, behind))
        for nm in x.names:
            a = ntfs.attr_resident(ntfs.FN, ntfs.fn_value(nm[0], nm[1], flags=nm[2]))
            if (spill and rng.random() < 0.5 or len(a) > room) and len(others) < 4:
                others.append((nm, a))
            else:
                if len(a) > room:
                    raise ValueError('names do not fit')
                room -= len(a)
                mine.append((nm, a))
        if others:
            recs[ext] = ntfs.frs([a for __, a in others], number=ext, seq=1, flags=1, base=ref(x.number, real_seq(x)))
            ext += 1
            mon.count('extension_names')
        x.names = [nm for nm, __ in mine] + [nm for nm, __ in others]
        attrs += [a for __, a in mine] + behind
        if x.kind == 'badattr':
            attrs = [bad_attr(rng, mon)] + attrs
        r = ntfs.frs(attrs, number=x.number, seq=x.seq, flags=(1 if x.in_use else 0) | (2 if x.is_dir else 0) | (rng.choice([4, 8, 12]) if rng.random() < 0.15 else 0), links=len(x.names))
        if x.kind == 'torn':
            r = r[:510] + bytes([r[510] ^ 0x55, r[511]]) + r[512:]
        elif x.kind == 'zero':
            r = b'\x00' * 1024
        recs[x.number] = r
    return b''.join(recs.get(i, b'\x00' * 1024) for i in range(ext))


def preferred(x):
    for p, nm, f in x.names:
        if f & 1 or f == 0:
            return p, nm
    return x.names[0][:2] if x.names else None


def readable(x):
    return x.kind in ('ok', 'nameless')


def model_path(nodes, pref, name):
    """Walk the parents; independent of the code under test."""
    comps = [name]
    seen = set()
    marks = set()
    while True:
        num, seq = pref & 0xFFFFFFFFFFFF, pref >> 48
        if num == 5:
            comps.append('')
            break
        d = nodes.get(num)
        if d is None or d.kind in ('torn', 'zero') or real_seq(d) != seq or not d.is_dir:
            comps.append(ORPHAN)
            break
        if num in seen:
            comps.append(ORPHAN)
            marks.add('cycle')
            break
        seen.add(num)
        if d.kind != 'ok' or not d.names:
            comps.append(ORPHAN)
            marks.add('damaged')
            break
        pref, nm = preferred(d)
        comps.append(nm)
    comps.reverse()
    return '/'.join(comps), marks


def case_paths(rng, mon, hostile=True):
    nodes = None
    while nodes is None:
        nodes = make(rng, rng.choice([3, 8, 20, 40]), hostile)
        try:
            data = serialise(rng, nodes, mon)
        except ValueError:
            nodes = None
    mft = MFT.MasterFileTableParser(MonFile(data))
    ctx = 'tree of %d records' % len(nodes)
    seen = {}
    for fr in mft.file_records():
        n = fr.get_master_file_table_number()
        if n not in nodes or n == 5:
            continue
        x = nodes[n]
        if x.kind == 'badattr':
            continue
        want = []
        for p, nm, f in x.names:
            path, marks = model_path(nodes, p, nm)
            want.append((path, nm, p, f))
            mon.count('paths')
            if path.startswith(ORPHAN):
                mon.count('orphans')
            if 'cycle' in marks:
                mon.count('cycles')
            if 'damaged' in marks:
                mon.count('damaged_parents')
            if path.count('/') > 4:
                mon.count('deep_paths')
            if f == 2:
                mon.count('dos_names')
        if len([1 for w in x.names if w[2] != 2]) > 1:
            mon.count('hard_links')
        paths = mft.build_full_paths(fr)
        c = '%s record %d names=%r' % (ctx, n, x.names)
        mon.equal(sorted(paths), sorted(w[0] for w in want), 'full-paths', c)
        full = mft.build_full_paths(fr, True)
        mon.equal(sorted((p, a.get_file_name(), a.get_parent_directory(), a.get_flags()) for p, a in full), sorted(want), 'full-paths-with-names', c)
        flags = [a.get_flags() == 2 for __, a in full]
        mon.equal(flags, sorted(flags), 'short-names-last', c)
        mon.equal([p for p, __ in full], list(paths), 'paths-order', c)
        seen[n] = want
    mon.equal(sorted(seen), sorted(n for n, x in nodes.items() if n != 5 and readable(x)), 'records-with-paths', ctx)
    mon.equal(mft.build_full_paths(mft.get_file_record_by_number(5)), ['/.'], 'root-path')

    # Lookups.
    if hostile and any(x.kind != 'ok' for x in nodes.values()):
        mon.count('damaged_during_lookup')
    have = {}
    for n, want in seen.items():
        if nodes[n].in_use:
            for path, nm, p, f in want:
                if path.startswith('/'):
                    have.setdefault(path, set()).add(n)
    deleted = [w[0] for n, want in seen.items() if not nodes[n].in_use for w in want if w[0].startswith('/')]

    def in_use_chain(path_owner):
        """Every parent of an allocated file is allocated in a consistent tree; skip inconsistent ones."""
        for p, nm, f in nodes[path_owner].names:
            cur = p
            hops = 0
            while (cur & 0xFFFFFFFFFFFF) != 5 and hops < 100:
                d = nodes.get(cur & 0xFFFFFFFFFFFF)
                if d is None or not d.in_use or not d.names:
                    return False
                cur = d.names[0][0] if len(set(q[0] for q in d.names)) == 1 else None
                if cur is None:
                    return False
                hops += 1
        return True

    items = list(have.items())
    rng.shuffle(items)
    upper = collections.Counter(p.upper() for p in have)
    # An alternate (short) name of a directory also leads to its files.
    for path, owners in items[:25]:
        if len(owners) != 1 or not in_use_chain(next(iter(owners))):
            continue
        n = next(iter(owners))
        fr = mft.get_file_record_by_path(path, True)
        mon.check(fr is not None, 'path-not-found', '%s path=%r' % (ctx, path))
        mon.equal(fr.get_master_file_table_number(), n, 'path-wrong-record', '%s path=%r' % (ctx, path))
        mon.count('lookups_found')
        same = [nm for p, nm, f in nodes[n].names]
        if len(same) != len(set(same)):
            mon.count('same_name_links')
        if upper[path.upper()] == 1:
            alt = rng.choice([path, path.upper(), path.lower() if path.lower().upper() == path.upper() else path, path.swapcase() if path.swapcase().upper() == path.upper() else path])
            fr = mft.get_file_record_by_path(alt)
            mon.check(fr is not None, 'path-not-found-caseless', '%s path=%r asked=%r' % (ctx, path, alt))
            mon.equal(fr.get_master_file_table_number(), n, 'path-wrong-record-caseless', '%s path=%r asked=%r' % (ctx, path, alt))
            if alt != path:
                mon.count('case_insensitive')
                if alt not in have and alt not in deleted:
                    mon.equal(mft.get_file_record_by_path(alt, True), None, 'case-sensitive-lookup', '%s path=%r asked=%r' % (ctx, path, alt))
        fr = mft.get_file_record_by_path(path + '/', True)
        if nodes[n].is_dir:
            mon.check(fr is not None and fr.get_master_file_table_number() == n, 'directory-lookup', '%s path=%r' % (ctx, path))
        else:
            mon.check(fr is None or fr.get_flags() & 2, 'file-as-directory', '%s path=%r' % (ctx, path))
        mon.count('trailing_slash')
        # Absent paths derived from present ones.
        base = path.rsplit('/', 1)[0]
        for a in (path + '\u0451', path + '/no such child \u0451', base + '/\u0451/' + path.rsplit('/', 1)[1], '/\u0451\u0451' + path):
            mon.equal(mft.get_file_record_by_path(a, rng.random() < 0.5), None, 'absent-path', '%s path=%r' % (ctx, a))
            mon.count('lookups_absent')
        # The name exists, but not in this directory.
        if base and '/' + path.rsplit('/', 1)[1] not in have:
            q = '/' + path.rsplit('/', 1)[1]
            if q.upper() not in upper:
                mon.equal(mft.get_file_record_by_path(q), None, 'wrong-directory', '%s path=%r' % (ctx, q))
                mon.count('lookups_absent')
    for path in deleted[:6]:
        if path.upper() not in upper:
            mon.equal(mft.get_file_record_by_path(path), None, 'deleted-path', '%s path=%r' % (ctx, path))
            mon.count('deleted_not_found')
    mon.equal(mft.get_file_record_by_path('/').get_master_file_table_number(), 5, 'root-lookup')
    for bad in ('', 'abc', '//', '/a//b', '/./x', '/../x'):
        mon.raises(MFT.MasterFileTableException, lambda: mft.get_file_record_by_path(bad), 'invalid-path', bad)
    mon.sig([(x.number, x.names, x.kind, x.in_use) for x in nodes.values()])
    mon.sample('paths: %s' % clip([w[0] for want in seen.values() for w in want], 500))


def case_clean(rng, mon):
    case_paths(rng, mon, hostile=False)


FAMILIES = [('hostile', case_paths, 900, 20000), ('clean', case_clean, 500, 12000)]
