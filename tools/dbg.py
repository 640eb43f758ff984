"""debug driver: python3-vt tools/dbg.py C05 [harness] [-b]"""
import sys, time, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(5000)
import importlib, random, traceback
from vc import core, harness as H
args = [a for a in sys.argv[1:] if not a.startswith('-')]; prop = args[0]; only = args[1] if len(args) > 1 else None
importlib.import_module('props.' + prop.lower())
for h in H.REGISTRY[prop]:
    if only and h.name != only: continue
    t = time.time()
    st = {}
    for k in range(300):
        if time.time() - t > 5: break
        if not h.conc: break
        r, vc, d = H.run_conc(h, random.Random(k))
        st[r] = st.get(r, 0) + 1
        if r in ('violation', 'unfit') and st[r] < 3: print(r, d, {k: str(v)[:100] for k, v in vc.used.items()})
    print(h.name, 'conc', st, round(time.time() - t, 2))
    if not h.sym: continue
    for bounded in (False,) + ((True,) if '-b' in sys.argv else ()):
        t = time.time()
        e = core.Engine(deadline=time.time() + 300); core.set_engine(e)
        try:
            e.begin([])
            if not bounded: H.observe(h, e, 1, 8)
            info = H.prove(h, e, bounded=bounded or h.bounded_only)
        except core.Control as x:
            print('  CONTROL', type(x).__name__, x); traceback.print_exc(limit=-6)
        except Exception as x:
            print('  EXC', type(x).__name__, x); traceback.print_exc(limit=-8)
        bad = [o for o in e.obl if o.status != 'proved']
        print('  bounded' if bounded else '  proof', 'obl', len(e.obl), 'bad', len(bad), 'paths', e.npaths, 'restarts', e.restarts, 'cover', e.covered, 'q', e.nqueries, '%.1fs solver %.1f' % (time.time() - t, e.solver_time))
        for l, i in e.inductions.items(): print('    ', l, {k[1]: v for k, v in i.used.items()})
        for o in bad[:4]: print('   ', o.status, o.label, {k: str(v)[:200] for k, v in (o.inputs or {}).items()}, o.info[:300], o.imprecise)
