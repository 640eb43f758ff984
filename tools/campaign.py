"""Mutation campaign: campaign.py [-j N] [-p PROPS] [-k TEXT] FILE...
Each FILE (tools/mutants/*.py) defines M: a list of (props, file, [(old, new), ...], expect) with expect 'V' (a violation) or 'Q'
(the behaviour is kept: every check has to stay quiet).  Every change is applied to a scratch copy of /repo/modbus_tk, each property's
quick check is run on it.  V* is a violation without a failing input; ? is no answer."""
import sys, os, shutil, subprocess, tempfile, argparse, time, runpy, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-p', default='')
ap.add_argument('-k', default='')
ap.add_argument('files', nargs='+')
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_REPO', '/repo')


def one(job):
    name, prop, f, edits, expect = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    t = time.time()
    try:
        shutil.copytree(SRC + '/modbus_tk', d + '/modbus_tk')
        p = d + '/modbus_tk/' + f
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        for old, new in edits:
            if s.count(old) < 1:
                return job, '?', 'not found: ' + old, 0
            s = s.replace(old, new, 1)
        compile(s, p, 'exec')
        with open(p, 'w', newline='\r\n' if crlf else '\n') as g:
            g.write(s)
        r = subprocess.run(['python3-vt', '-m', 'vc.run', prop], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), cwd=V, capture_output=True, text=True)
        out = r.stdout + r.stderr
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        got = '?' if r.returncode not in (0, 1) or bool(v) != (r.returncode == 1) else 'Q' if not v else 'V' if any('no-failing' not in l for l in v) else 'V*'
        return job, got, out, time.time() - t
    except SyntaxError as e:
        return job, '?', repr(e), 0
    finally:
        shutil.rmtree(d)


jobs = []
for fn in A.files:
    for n, (props, f, edits, expect) in enumerate(runpy.run_path(fn)['M']):
        name = '%s:%d' % (os.path.basename(fn)[:-3], n)
        if A.k and A.k not in name and not any(A.k in e[1] or A.k in e[0] for e in edits):
            continue
        for p in props.split():
            if not A.p or p in A.p.split(','):
                jobs.append((name, p, f, edits, expect))
bad = 0
with cf.ThreadPoolExecutor(A.j) as ex:
    for job, got, out, dt in ex.map(one, jobs):
        ok = got == job[4] or (got == 'V*' and job[4] == 'V')
        bad += not ok
        v = [l.split('replay=')[1] for l in out.splitlines() if l.startswith('VIOLATION')]
        if got == 'Q':  # which proofs the refactoring has cost
            v = [' '.join(l.split()[:2]) for l in out.splitlines() if ' obligations ' in l and l.split()[1] != 'proved' and not (l.split()[1] == 'searched' and 'obligations -/-' in l)]
        print('%s %-2s %s %s %4.0fs %s => %s' % ('OK ' if ok else 'BAD', got, job[0], job[1], dt, ' / '.join(e[1].strip()[:60] for e in job[3])[:110].replace('\n', '\\n'), ', '.join(v)[:200] if got == 'Q' else (v or [''])[0][:70]), flush=True)
        if not ok:
            print(out[-1500:], flush=True)
print(len(jobs), 'runs,', bad, 'bad')
