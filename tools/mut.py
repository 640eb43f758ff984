"""try one textual change: mut.py PROP[,PROP] FILE OLD NEW [harness]   (scratch copy under /tmp)"""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
shutil.copytree('/repo/modbus_tk', d + '/modbus_tk')
p = d + '/modbus_tk/' + f
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d)
for q in prop.split(','):
    subprocess.run(['python3-vt', '-m', 'vc.run', q] + sys.argv[5:], env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
shutil.rmtree(d)
