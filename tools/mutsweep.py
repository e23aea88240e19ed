#!/usr/bin/env python3
"""Mutation sweep (a development aid, not a check): small edits of one module at a time in scratch copies of /repo,
judged by the checks named for the module.   mutsweep.py MODULE N SEED [SCALE] > log
Prints the edits that no check noticed and the runs that gave no answer."""
import ast, os, random, signal, shutil, subprocess, sys, multiprocessing

MAP = {
    'dfir_ntfs/Attributes.py': 'C06 C07 C20 C03 C08 C24 C05 C28',
    'dfir_ntfs/BootSector.py': 'C24 C26 C23',
    'dfir_ntfs/LogFile.py': 'C10 C11 C03 C26',
    'dfir_ntfs/MFT.py': 'C01 C02 C03 C04 C05 C06 C08 C25 C24 C07 C28 C26 C23',
    'dfir_ntfs/MoveTable.py': 'C22 C03 C20 C21',
    'dfir_ntfs/PartitionTable.py': 'C13',
    'dfir_ntfs/ShadowCopy.py': 'C12 C26',
    'dfir_ntfs/USN.py': 'C09 C20 C21',
    'dfir_ntfs/WSL.py': 'C06 C20 C21',
    'dfir_ntfs/addons/FAT.py': 'C14 C15 C20 C26 C28',
    'dfir_ntfs/addons/exFAT.py': 'C16 C17 C20 C26 C28',
    'ntfs_parser': 'C21 C18',
    'fat_parser': 'C21 C18',
    'vsc_mount': 'C12 C18',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def add(n, a, b, new):
        out.append((n.lineno, a, b, raw[a:b].decode(), new))

    def skip(fn):
        return fn.name in ('__str__', 'print_information', '__repr__')

    def visit(n):
        if isinstance(n, ast.FunctionDef) and skip(n):
            return
        if isinstance(n, ast.Raise):
            a, b = pos(n), pos(n, True)
            add(n, a, b, 'pass')
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left, True), pos(n.comparators[0])
            t = raw[a:b].decode()
            new = CMP[type(n.ops[0])]
            add(n, a, b, (')' if t.lstrip().startswith(')') else '') + ' ' + new + ' ' + ('(' if t.rstrip().endswith('(') else ''))
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0], True), pos(n.values[1])
            t = raw[a:b].decode()
            add(n, a, b, t.replace('and', 'or') if isinstance(n.op, ast.And) else t.replace('or', 'and'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
            a, b = pos(n.left, True), pos(n.right)
            t = raw[a:b].decode()
            o = {ast.Add: '+', ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
            add(n, a, b, t.replace(o, BIN[type(n.op)], 1))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, pos(n), pos(n.operand), '')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, pos(n), pos(n, True), str(n.value + 1))
            if n.value > 0:
                add(n, pos(n), pos(n, True), str(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, pos(n), pos(n, True), str(not n.value))
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, pos(n), pos(n, True), 'pass')
            add(n, pos(n), pos(n, True), 'break' if isinstance(n, ast.Continue) else 'continue')
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, pos(n), pos(n, True), 'pass')
        if isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, ast.Constant):
                a, b = pos(n.test), pos(n.test, True)
                add(n, a, b, 'True')
                add(n, a, b, 'False')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.Module, ast.ClassDef)) and isinstance(c, (ast.Assign, ast.Expr)):
                if isinstance(n, ast.Module) and isinstance(c, ast.Assign) and isinstance(c.value, ast.Constant):
                    visit(c.value)
                continue
            visit(c)
    visit(tree)
    seen, res = set(), []
    for l, a, b, old, new in out:
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        try:
            compile(raw[:a] + new.encode() + raw[b:], 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((l, a, b, old, new))
    return raw, res


def run(cmd, cwd, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out = p.communicate(timeout=600)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out)


def work(a):
    module, raw, (line, s, e, old, new), checks, scale, seed = a
    w = '/tmp/mut/%d' % os.getpid()
    if not os.path.isdir(w):
        os.makedirs(w)
        for x in ('dfir_ntfs', 'ntfs_parser', 'fat_parser', 'vsc_mount', 'setup.py', 'test_data'):
            p = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(w, x), **({'ignore': shutil.ignore_patterns('__pycache__')} if os.path.isdir(p) else {}))
    path = os.path.join(w, module)
    with open(path, 'wb') as f:
        f.write(raw[:s] + new.encode() + raw[e:])
    env = dict(os.environ, VERIF_REPO=w, VERIF_JOBS='1', VERIF_SCALE=str(scale), VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    verdict = 'SURVIVED'
    notes = []
    try:
        for c in checks:
            try:
                r = run(['./check', c], os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env)
            except subprocess.TimeoutExpired:
                notes.append('%s timeout' % c)
                continue
            o = r.stdout.decode(errors='replace')
            if r.returncode == 1 and 'VIOLATION property=%s' % c in o:
                verdict = 'killed ' + c
                break
            if r.returncode != 0:
                notes.append('%s rc=%d: %s' % (c, r.returncode, o[-300:].replace('\n', ' | ')))
    finally:
        with open(path, 'wb') as f:
            f.write(raw)
    return verdict, notes, line, old, new, raw[:s].count(b'\n')


def main():
    module, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.15
    checks = sys.argv[5].split(',') if len(sys.argv) > 5 else MAP[module].split()
    src = open(os.path.join('/repo', module)).read()
    raw, ms = mutants(src)
    rng = random.Random(seed)
    if len(ms) > n:
        ms = rng.sample(ms, n)
    text = src.split('\n')
    print('%s: %d mutants' % (module, len(ms)), flush=True)
    kills = 0
    with multiprocessing.Pool(8) as p:
        for v, notes, line, old, new, at in p.imap_unordered(work, [(module, raw, m, checks, scale, seed) for m in ms]):
            if v.startswith('killed') and not notes:
                kills += 1
                continue
            print('%s %s:%d  %r -> %r\n      %s' % (v, module, at + 1, old[:80], new, text[at].strip()[:150]), *['\n      ' + x for x in notes], flush=True)
    print('%s: killed %d of %d' % (module, kills, len(ms)), flush=True)


if __name__ == '__main__':
    main()
