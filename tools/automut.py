"""Systematic mutants: automut.py [-j N] [-f FILE] [-o LOG] [-n LIMIT] [-s SEED]
Every operator, constant, condition and statement of the functions under contract is changed in turn (scratch copy); the quick checks of
the properties whose contracts name the function run, cheapest first, until one reports a violation.  Survivors are listed for review:
they are either equivalent (or outside every property) or a gap."""
import ast, sys, os, json, glob, shutil, subprocess, tempfile, argparse, random, time, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-f', default='')
ap.add_argument('-o', default='/tmp/automut.log')
ap.add_argument('-n', type=int, default=0)
ap.add_argument('-s', type=int, default=0)
ap.add_argument('--list', action='store_true')
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo'
COST = {}
FN = {}
for f in glob.glob(V + '/evidence/C*.json'):
    e = json.load(open(f))

    def find(d, k):
        if isinstance(d, dict):
            if k in d:
                return d[k]
            for x in d.values():
                r = find(x, k)
                if r is not None:
                    return r
    p = os.path.basename(f)[:-5]
    COST[p] = find(e, 'wall_s') or 5
    for q in find(e, 'functions_under_contract') or ():
        FN.setdefault(q, set()).add(p)
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '//', ast.BitXor: '|', ast.Div: '*'}
SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.Mod: '%', ast.BitXor: '^', ast.Div: '/'}


def mutants(path):
    s = open(path, newline='').read().replace('\r\n', '\n')
    lines = s.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    b = s.encode()
    pos = lambda ln, col: start[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    mod = os.path.basename(path)[:-3]
    out = []

    def emit(fn, line, a, z, new, what):
        out.append((fn, line, what, (b[:a] + new.encode() + b[z:]).decode()))

    def log(n):
        return 'LOGGER' in text(n) or 'print' in text(n)[:6]

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            name = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                name = fn + [c.name]
                walk(c, name)
                continue
            q = '.'.join([mod] + fn)
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, ast.Expr) and log(c):
                continue
            a, z = span(c) if hasattr(c, 'lineno') else (0, 0)
            ln = getattr(c, 'lineno', 0)
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                l, r = span(c.left)[1], span(c.comparators[0])[0]
                old = b[l:r].decode()
                for new in CMP.get(type(c.ops[0]), []):
                    k = old.strip(' ()')
                    emit(q, ln, l, r, old.replace(k, new), 'compare %s -> %s' % (k, new))
            elif isinstance(c, ast.BoolOp):
                l, r = span(c.values[0])[1], span(c.values[1])[0]
                old = b[l:r].decode()
                w, n2 = ('and', 'or') if isinstance(c.op, ast.And) else ('or', 'and')
                if w in old:
                    emit(q, ln, l, r, old.replace(w, n2), '%s -> %s' % (w, n2))
            elif isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                emit(q, ln, a, span(c.operand)[0], '', 'not removed')
            elif isinstance(c, ast.BinOp) and type(c.op) in BIN:
                l, r = span(c.left)[1], span(c.right)[0]
                old = b[l:r].decode()
                if SYM[type(c.op)] in old and not isinstance(getattr(c.left, 'value', 0), str):
                    emit(q, ln, l, r, old.replace(SYM[type(c.op)], BIN[type(c.op)]), '%s -> %s' % (SYM[type(c.op)], BIN[type(c.op)]))
            elif isinstance(c, ast.Constant) and type(c.value) is int:
                emit(q, ln, a, z, str(c.value + 1), '%r -> %r' % (c.value, c.value + 1))
                if c.value > 1:
                    emit(q, ln, a, z, str(c.value - 1), '%r -> %r' % (c.value, c.value - 1))
            elif isinstance(c, ast.Constant) and type(c.value) is bool:
                emit(q, ln, a, z, str(not c.value), '%r -> %r' % (c.value, not c.value))
            elif isinstance(c, ast.Constant) and type(c.value) is str and 0 < len(c.value) < 8 and set(c.value) <= set('><BHbhIi'):
                for x, y in (('>', '<'), ('H', 'h'), ('B', 'b'), ('h', 'H'), ('b', 'B')):
                    if x in c.value and len(c.value) > 1:
                        emit(q, ln, a, z, repr(c.value.replace(x, y)), '%r -> %r' % (c.value, c.value.replace(x, y)))
            if isinstance(c, (ast.If, ast.While)):
                x, y = span(c.test)
                if not isinstance(c.test, ast.Constant):
                    if isinstance(c, ast.If):
                        emit(q, ln, x, y, 'True', 'if %s -> True' % text(c.test)[:40])
                    emit(q, ln, x, y, 'False', 'if %s -> False' % text(c.test)[:40])
            if isinstance(c, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
                emit(q, ln, a, z, 'pass', 'deleted: ' + text(c)[:50].replace('\n', ' '))
            if isinstance(c, ast.Return) and c.value is not None and text(c.value) not in ('None', '""'):
                emit(q, ln, a, z, 'return None', 'return None instead of ' + text(c)[:40])
            if isinstance(c, ast.With):
                x = pos(c.lineno, c.col_offset)
                y = b.index(b':', span(c.items[-1].context_expr)[1])
                emit(q, ln, x, y, 'if True', 'without ' + text(c.items[0].context_expr))
            if isinstance(c, ast.Call) and len(c.args) == 2 and not c.keywords and 'LOGGER' not in text(c):
                x, y = c.args
                emit(q, ln, span(x)[0], span(y)[1], text(y) + ', ' + text(x), 'arguments swapped in ' + text(c)[:40])
            walk(c, fn)
    walk(ast.parse(s), [])
    return out


def fns(q):
    parts = q.split('.')
    if parts[0] == 'defines':
        return FN['modbus.Master.execute'] | FN['modbus.Slave.handle_request']
    while q:
        if q in FN:
            return FN[q]
        q = q.rpartition('.')[0]
    # a constructor or helper under no contract of its own: whatever its class takes part in
    return set().union(*(v for k, v in FN.items() if len(parts) > 2 and k.startswith('.'.join(parts[:2]) + '.')))


def one(job):
    path, fn, ln, what, src = job
    try:
        compile(src, path, 'exec')
    except SyntaxError:
        return job, 'syntax', None
    props = sorted(fns(fn), key=lambda p: COST[p])
    if not props:
        return job, 'not under contract', None
    d = tempfile.mkdtemp(prefix='amut', dir='/tmp')
    try:
        shutil.copytree(SRC + '/modbus_tk', d + '/modbus_tk')
        t = open(path, newline='').read()
        with open(d + '/modbus_tk/' + os.path.basename(path), 'w', newline='\r\n' if '\r\n' in t else '\n') as g:
            g.write(src)
        star = None
        for p in props:
            try:
                r = subprocess.run(['python3-vt', '-m', 'vc.run', p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), cwd=V, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return job, 'TIMEOUT', p
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if any('no-failing' not in l for l in v):
                return job, 'V', p
            if v:
                star = p
            elif r.returncode not in (0, 1):
                return job, 'NO ANSWER', p
        return job, 'V*' if star else 'SURVIVED', star or ','.join(props)
    finally:
        shutil.rmtree(d)


jobs = []
for f in sorted(glob.glob(SRC + '/modbus_tk/*.py')):
    if A.f and os.path.basename(f)[:-3] not in A.f.split(','):
        continue
    jobs += [(f,) + m for m in mutants(f) if not (m[0] == 'utils' and '0x' in m[2].lower() or m[0].startswith('utils.') and m[0].endswith('calculate_crc') and ' -> ' in m[2] and m[2].split()[0].isdigit() and A.n != -1)]
if A.list:
    from collections import Counter
    c = Counter((os.path.basename(j[0]), bool(fns(j[1]))) for j in jobs)
    print(c)
    print(sorted({j[1] for j in jobs if not fns(j[1])}))
    sys.exit()
random.Random(A.s).shuffle(jobs)
if A.n:
    jobs = jobs[:A.n]
stat = {}
with open(A.o, 'a') as log, cf.ThreadPoolExecutor(A.j) as ex:
    for job, got, p in ex.map(one, jobs):
        stat[got] = stat.get(got, 0) + 1
        log.write('%-9s %s:%d %s  %s  [%s]\n' % (got, os.path.basename(job[0]), job[2], job[1], job[3], p))
        log.flush()
    log.write('%s\n' % stat)
