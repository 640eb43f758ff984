"""Planted changes: tools/seeds/*.py hold S = [dict(id, property, file, edits, needs, breaks, demo)].
seed.py [ID...]: writes /verif/seeded/<id>/ and confirms each in a scratch copy of /repo (mounted over /repo in a namespace of its own):
the patch applies, the demonstration passes without and fails with it, the existing tests pass with it."""
import sys, os, glob, json, runpy, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(d, cmd):
    """run cmd with the copy d in the place of /repo"""
    return sh('unshare -Urnm bash -c \'ip link set lo up; mount --bind %s /repo && cd /repo && %s\'' % (d, cmd))


def one(s):
    out = os.path.join(V, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        shutil.rmtree(d)
        shutil.copytree('/repo', d, symlinks=True)
        p = d + '/modbus_tk/' + s['file']
        t = open(p, newline='').read()
        crlf = '\r\n' in t
        t = t.replace('\r\n', '\n')
        for old, new in s['edits']:
            if t.count(old) != 1:
                return s['id'], 'edit found %d times: %r' % (t.count(old), old)
            t = t.replace(old, new)
        open(p, 'w', newline='\r\n' if crlf else '\n').write(t)
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        sh('git -C %s checkout -- .' % d)
        r0 = inside(d, 'bash %s/demo.sh' % out)
        a = sh('git -C %s apply %s/patch.diff' % (d, out))
        r1 = inside(d, 'bash %s/demo.sh' % out)
        msgs = []
        if a.returncode:
            msgs.append('patch does not apply: ' + a.stderr)
        if r0.returncode:
            msgs.append('demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:])
        if not r1.returncode:
            msgs.append('demo passes with the patch')
        if not msgs:
            for k in range(2):
                r = inside(d, 'bash /opt/vp/test.sh %s/TEST.json' % d)
                o = json.load(open(d + '/TEST.json'))
                lost = STABLE - set(o['passed'])
                if not lost:
                    break
            if lost:
                msgs.append('tests lost: %s' % sorted(lost)[:5])
        return s['id'], '; '.join(msgs) or 'OK   (%s)' % (r1.stdout + r1.stderr).strip().split('\n')[-1][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True)


S = [s for f in sorted(glob.glob(V + '/tools/seeds/*.py')) for s in runpy.run_path(f)['S']]
want = sys.argv[1:]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, [s for s in S if not want or s['id'] in want]):
        print(i, m, flush=True)
