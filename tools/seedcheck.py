"""seedcheck.py [-j N] [ID...]: runs the property's quick check against every planted change of /verif/seeded, in a scratch copy."""
import sys, os, json, shutil, subprocess, tempfile, argparse, time, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('ids', nargs='*')
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    t = time.time()
    try:
        shutil.copytree('/repo/modbus_tk', d + '/modbus_tk')
        r = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, prop, 'patch: ' + r.stderr, 0, []
        r = subprocess.run(['python3-vt', '-m', 'vc.run', prop], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), cwd=V, capture_output=True, text=True)
        v = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith('VIOLATION')]
        got = 'V ' if any('no-failing' not in l for l in v) else 'V*' if v else 'missed' if r.returncode == 0 else '?'
        return i, prop, got, time.time() - t, v
    finally:
        shutil.rmtree(d)


ids = A.ids or sorted(os.listdir(V + '/seeded'))
with cf.ThreadPoolExecutor(A.j) as ex:
    for i, prop, got, dt, v in ex.map(one, ids):
        print('%-24s %s %-6s %4.0fs %s' % (i, prop, got, dt, ' '.join(x.split('replays/')[-1] for x in v)[:80]), flush=True)
