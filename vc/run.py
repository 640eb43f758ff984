"""Check of one property:  python3-vt -m vc.run C05   (VERIF_TIER, VERIF_SEED; --replay FILE re-runs a counterexample)

Per harness: search on the real code, then the proof on the instrumented code; a refuted obligation is replayed on the
real code.  Where the proof does not go through (code outside the engine's reach, unknown results, refutations that do
not replay), a bounded symbolic run and a longer search stand in, and are reported as bounded.
"""
import sys, os, time, json, random, traceback, multiprocessing, importlib, signal, resource
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
from vc import core, harness as H, world
import z3

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
T0 = time.time()
TOTAL = 780.0 if TIER == 'quick' else 3300.0
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN_FILE = os.path.join(HERE, 'known-findings.json')


def known_findings():
    try:
        with open(KNOWN_FILE) as f:
            return json.load(f)
    except (IOError, ValueError):
        return {'known': [], 'fixed': []}


def remaining():
    return TOTAL - (time.time() - T0)


def search(h, seconds, seed, maxruns, res, key):
    """boundary search on the real code; returns a violation dict or None"""
    t = time.time()
    n = ok = rej = unfit = 0
    samples = []
    distinct = set()
    last_unfit = ''
    while n < maxruns and time.time() - t < seconds:
        rng = random.Random('%d/%s/%d' % (seed, h.name, n))
        n += 1
        r, vc, detail = H.run_conc(h, rng, tier=TIER)
        if r == 'ok':
            ok += 1
            if len(distinct) < 200000:
                distinct.add(hash(repr(sorted(vc.used.items()))))
            if len(samples) < 2 and n > 3:
                samples.append({k: H._short(v)[:120] for k, v in vc.used.items()})
        elif r == 'reject':
            rej += 1
        elif r == 'unfit':
            unfit += 1
            last_unfit = detail
            if unfit > 20 and ok == 0:
                break
        else:
            res[key] = dict(runs=n, ok=ok, rejected=rej, unfit=unfit, distinct=len(distinct), seconds=time.time() - t)
            return dict(kind='input', harness=h.name, detail=detail, inputs=vc.used)
    res[key] = dict(runs=n, ok=ok, rejected=rej, unfit=unfit, distinct=len(distinct), seconds=round(time.time() - t, 2),
                    samples=samples, last_unfit=last_unfit[-600:])
    return None


def replay(h, inputs):
    """does the counterexample make the real code break the property?"""
    for k in range(12):
        r, vc, detail = H.run_conc(h, random.Random(k), inputs=inputs, tier=TIER)
        if r == 'violation':
            return dict(kind='input', harness=h.name, detail=detail, inputs=vc.used)
    return None


def _late(sig, frame):
    raise core.Budget('time')


def attempt(h, seconds, bounded, seed):
    """symbolic run; returns dict(status=..., ...)"""
    eng = core.Engine(qtimeout=10000 if TIER == 'quick' else 30000, deadline=time.time() + seconds)
    core.set_engine(eng)
    out = dict(bounded=bounded)
    err = ''
    trusted = set()
    if TIER != 'quick' and not bounded:
        eng.dump = []
    try:
        signal.signal(signal.SIGALRM, _late)
        signal.setitimer(signal.ITIMER_REAL, seconds + 15, 5)
        if not bounded:
            H.observe(h, eng, seed, 10)
            core.set_engine(eng)
        info = H.prove(h, eng, bounded=bounded, tier=TIER)
        trusted = info['trusted']
        status = 'complete'
    except core.Unsupported as e:
        status, err = 'unsupported', str(e)
    except core.Budget as e:
        status, err = 'budget', str(e)
    except core.Control as e:
        status, err = 'unsupported', type(e).__name__
    except RecursionError as e:
        status, err = 'unsupported', 'recursion'
    except MemoryError as e:
        status, err = 'unsupported', 'memory'
    except Exception as e:
        status, err = 'unsupported', ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-5:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    bad = [o for o in eng.obl if o.status != 'proved']
    out.update(status=status, error=err[-1500:], obligations=len(eng.obl), discharged=len(eng.obl) - len(bad), paths=eng.npaths,
               restarts=eng.restarts, queries=eng.nqueries, solver_s=round(eng.solver_time, 2), simple=eng.nsimple,
               covered={k: bool(v) for k, v in eng.covered.items()}, trusted=sorted(trusted),
               invariants={l: {k[1]: v for k, v in i.used.items()} for l, i in eng.inductions.items()},
               bad=[dict(label=o.label, status=o.status, imprecise=o.imprecise, inputs=o.inputs, info=o.info[:400]) for o in bad[:60]])
    out['labels'] = sorted(set(o.label for o in eng.obl))
    vac = [k for k, v in eng.covered.items() if not v]
    out['vacuous'] = vac
    out['proved'] = status == 'complete' and not bad and len(eng.obl) > 0 and not vac and bool(eng.covered)
    if eng.dump is not None:
        out['second'] = second_backend(eng.dump, min(600, remaining() / 2))
    return out


def second_backend(dump, seconds):
    """obligations again, with cvc5"""
    try:
        import cvc5
    except ImportError:
        return dict(backend='none')
    t = time.time()
    agree = disagree = unknown = 0
    bad = []
    for label, pc, c in dump:
        if time.time() - t > seconds:
            break
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(c))
        try:
            r = cvc5_check(s.to_smt2(), 5000)
        except Exception as e:
            unknown += 1
            continue
        if r == 'unsat':
            agree += 1
        elif r == 'sat':
            disagree += 1
            bad.append(label)
        else:
            unknown += 1
    return dict(backend='cvc5', rechecked=agree + disagree + unknown, agree=agree, disagree=disagree, unknown=unknown,
                labels=bad[:5], seconds=round(time.time() - t, 1))


def cvc5_check(text, ms):
    import cvc5
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption('tlimit-per', str(ms))
    s.setLogic('ALL')
    p = cvc5.InputParser(s)
    # z3 writes int2bv/bv2int under its own names
    text = text.replace('(_ int_to_bv', '(_ int2bv').replace('ubv_to_int', 'bv2nat').replace('(set-info :status', '(set-info :status')
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'o')
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        o = cmd.invoke(s, sm)
        o = str(o).strip()
        if o in ('sat', 'unsat', 'unknown'):
            res = o
    return res


def run_harness(h, seed, budget):
    """all stages for one harness"""
    res = dict(harness=h.name, functions=h.functions, note=h.note, within=h.within)
    quick = TIER == 'quick'
    viol = None
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    try:
        if h.conc:
            viol = search(h, (4.0 if quick else 30.0) * h.m3, seed, int(3000 * h.m3) if quick else 200000, res, 'search')
        if viol is not None and h.sym:
            # name the obligation the verifier fails
            a = attempt(h, min(25, max(5, left())), h.bounded_only, seed)
            res['proof'] = a
            if a['bad']:
                viol['obligation'] = a['bad'][0]['label']
                viol['failed_obligations'] = a['bad'][:10]
        if viol is None and h.sym:
            a = attempt(h, max(30, left() * 0.55), h.bounded_only, seed)
            res['proof'] = a
            if not a['proved']:
                cands = [o for o in a['bad'] if o['inputs'] is not None]
                if h.conc:
                    for o in cands[:25]:
                        v = replay(h, o['inputs'])
                        if v is not None:
                            v['obligation'] = o['label']
                            viol = v
                            break
                if h.repr and not h.conc:
                    # protocol obligations (who may access what, when): independent of the values the engine lost track of
                    precise = [o for o in a['bad'] if o['status'] == 'refuted']
                else:
                    precise = [] if h.repr else [o for o in a['bad'] if o['status'] == 'refuted' and not o['imprecise']]
                if viol is None and not h.bounded_only:
                    b = attempt(h, max(20, min(150, left() * 0.6)), True, seed)
                    res['bounded'] = b
                    if h.conc:
                        for o in [o for o in b['bad'] if o['inputs'] is not None][:25]:
                            v = replay(h, o['inputs'])
                            if v is not None:
                                v['obligation'] = o['label']
                                viol = v
                                break
                if viol is None and h.conc:
                    viol = search(h, min(60 if quick else 600, max(5, left() * 0.6)), seed + 7919, 10 ** 7, res, 'search2')
                if viol is None:
                    # the searches over whole histories again, from another seed
                    for g in H.REGISTRY[h.prop]:
                        if not g.sym and g.conc and left() > 30 and viol is None:
                            viol = search(g, min(45 if quick else 300, left() * 0.5), seed + sum(map(ord, h.name)), 10 ** 7, res, 'search3')
                if viol is None:
                    s = res.get('search2') or res.get('search') or {}
                    fits = s.get('ok', 0) > 0
                    if not precise and h.repr and h.conc and not (res.get('bounded') or {}).get('proved'):
                        # no representation-independent stand-in went through either: report the refuted obligations
                        precise = [o for o in a['bad'] + (res.get('bounded') or {}).get('bad', []) if o['status'] == 'refuted' and not o['imprecise']]
                    if precise:
                        viol = dict(kind='obligation', harness=h.name, obligation=precise[0]['label'], detail=precise[0]['info'],
                                    inputs=precise[0]['inputs'], unreplayed=precise[:10])
                    elif not fits and not (h.repr and not h.conc) and not (res.get('bounded') or {}).get('proved'):
                        viol = dict(kind='obligation', harness=h.name, obligation='the contract of %s cannot be established' % ', '.join(h.functions),
                                    detail=a['error'] + ' | ' + s.get('last_unfit', ''), inputs=None, unreplayed=a['bad'][:10])
    except Exception as e:
        res['crash'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]
    p = res.get('proof')
    if viol is not None:
        res['verdict'] = 'violated'
    elif p and p['proved'] and not h.bounded_only and not h.within:
        res['verdict'] = 'proved'
    elif p and p['proved']:
        res['verdict'] = 'bounded'
    elif (res.get('bounded') or {}).get('proved'):
        res['verdict'] = 'bounded'
    else:
        res['verdict'] = 'searched'
    res['violation'] = viol
    res['seconds'] = round(time.time() - t0, 2)
    return res


def child(conn, h, seed, budget):
    try:
        os.nice(0)
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        r = run_harness(h, seed, budget)
        conn.send(json.loads(json.dumps(r, default=str)))
    except BaseException as e:
        try:
            conn.send(dict(harness=h.name, functions=h.functions, crash=repr(e)[:500], verdict='searched', violation=None, seconds=0))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_all(hs, jobs):
    ctx = multiprocessing.get_context('fork')
    todo = sorted(hs, key=lambda h: -h.weight)
    running, results = [], []
    while todo or running:
        while todo and len(running) < jobs:
            h = todo.pop(0)
            waves = (len(todo) + jobs) // jobs
            budget = max(60.0, min(remaining() - 20, (remaining() - 20) / max(1, waves) * 1.5, 420.0 if TIER == 'quick' else 2400.0))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, h, SEED, budget))
            p.start()
            b.close()
            running.append((p, a, h, time.time() + budget * 1.25 + 30))
        for p, a, h, limit in list(running):
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(harness=h.name, functions=h.functions, crash='worker ended', verdict='searched', violation=None, seconds=0)
            elif not p.is_alive():
                got = dict(harness=h.name, functions=h.functions, crash='worker ended', verdict='searched', violation=None, seconds=0)
            elif time.time() > limit or remaining() < 5:
                p.kill()
                got = dict(harness=h.name, functions=h.functions, crash='time limit', verdict='searched', violation=None, seconds=0)
            if got is not None:
                p.join(2)
                results.append(got)
                running = [x for x in running if x[0] is not p]
                if (got.get('violation') or {}).get('kind') == 'input':
                    # one failing input decides; the others get a little longer
                    todo = []
                    running = [(q, c, g, min(l, time.time() + 20)) for q, c, g, l in running]
        time.sleep(0.01)
    return results


def load_property(prop):
    os.chdir(HERE)
    importlib.import_module('props.' + prop.lower())
    return H.REGISTRY.get(prop, []), H.KNOWN.get(prop, [])


def main(argv):
    if argv and argv[0] == '--replay':
        d = json.load(open(argv[1]))
        hs, _ = load_property(d['property'])
        for h in hs:
            if h.name == d['harness'] and d.get('inputs') is not None:
                v = replay(h, d['inputs'])
                print('reproduced: %s' % v['detail'] if v else 'not reproduced')
                return 1 if v else 0
        print('nothing to replay (no input recorded)')
        return 0
    prop = argv[0]
    only = argv[1] if len(argv) > 1 else None
    hs, knowns = load_property(prop)
    if only:
        hs = [h for h in hs if h.name == only]
    jobs = max(1, min(8, os.cpu_count() or 1))
    results = run_all(hs, jobs)
    kf = known_findings()
    for k in kf['known']:
        if k['property'] == prop:
            for kid, fn in knowns:
                if kid == k['id']:
                    try:
                        present = fn()
                    except Exception as e:
                        present = None
                    if present:
                        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viols = [r['violation'] for r in results if r.get('violation')]
    write_evidence(prop, results, viols, kf)
    for r in sorted(results, key=lambda r: r['harness']):
        p = r.get('proof') or {}
        print('%-44s %-9s obligations %s/%s paths %s  %.1fs %s' % (r['harness'][:44], r['verdict'], p.get('discharged', '-'), p.get('obligations', '-'),
              p.get('paths', '-'), r['seconds'], ('' if r['verdict'] == 'proved' else ((r.get('crash') or '')[-200:] + ' ' + (p.get('error') or '')[-300:] + ' '
              + '; '.join(o['label'] + '=' + o['status'] for o in p.get('bad', [])[:3])))))
    if not results:
        print('no harness ran')
    rc = 0
    rdir = os.path.join(EVID, 'replays')
    shown = 0
    if viols:
        os.makedirs(rdir, exist_ok=True)
        viols.sort(key=lambda v: 0 if v['kind'] == 'input' and v.get('obligation') else 1 if v['kind'] == 'input' else 2)
        v = viols[0]
        path = os.path.join(rdir, '%s-%s.json' % (prop, v['harness']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=SEED, **v), f, indent=1, default=str)
        print('harness %s: %s %s' % (v['harness'], v.get('obligation', ''), v['detail'][:600]))
        if v['kind'] == 'input':
            print('input: %s' % H._short({k: x for k, x in v['inputs'].items()})[:800])
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(path, HERE), '' if v['kind'] == 'input' else ' no-failing-input-found'))
        rc = 1
    elif not results:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '-none.json')
        json.dump(dict(property=prop, detail='no harness ran'), open(path, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, os.path.relpath(path, HERE)))
    return rc


TRUSTED = [
    'vc engine (/verif/vc): instrumentation of the real source by AST rewriting, symbolic values, loop cut points',
    'z3 %s' % z3.get_version_string(),
    'vc.shims: stand-ins for builtins, struct, threading, logging, time, socket, select with the documented CPython semantics',
    'CPython 3.12 semantics of the language constructs that stay native',
]


def write_evidence(prop, results, viols, kf):
    os.makedirs(EVID, exist_ok=True)
    ob = sum((r.get('proof') or {}).get('obligations', 0) for r in results)
    di = sum((r.get('proof') or {}).get('discharged', 0) for r in results)
    trusted = sorted(set(t for r in results for t in (r.get('proof') or {}).get('trusted', [])))
    fns = {}
    for r in results:
        for f in r['functions']:
            cur = fns.get(f, [])
            cur.append('%s:%s' % (r['harness'], r['verdict']))
            fns[f] = cur
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd='python3-vt -m vc.run %s' % prop,
        trusted_base=TRUSTED + ['contract assumed here, established by its own check: ' + t for t in trusted],
        functions_under_contract=fns,
        back_end='z3 %s (in process)' % z3.get_version_string(),
        solver_time_s=round(sum((r.get('proof') or {}).get('solver_s', 0) for r in results), 2),
        paths=sum((r.get('proof') or {}).get('paths', 0) for r in results),
        discharged_by_evaluation=sum((r.get('proof') or {}).get('simple', 0) for r in results),
        queries=sum((r.get('proof') or {}).get('queries', 0) for r in results),
        harnesses_proved=sorted(r['harness'] for r in results if r['verdict'] == 'proved'),
        harnesses_bounded=sorted('%s (%s)' % (r['harness'], r.get('within') or 'sizes limited to representatives') for r in results if r['verdict'] == 'bounded'),
        harnesses_searched_only=sorted(r['harness'] for r in results if r['verdict'] == 'searched'),
        reachability={r['harness']: (r.get('proof') or {}).get('covered', {}) for r in results},
        loop_invariants={r['harness']: (r.get('proof') or {}).get('invariants', {}) for r in results if (r.get('proof') or {}).get('invariants')},
        obligation_labels={r['harness']: (r.get('proof') or {}).get('labels', []) for r in results},
        search_on_real_code={r['harness']: r.get('search') for r in results if r.get('search')},
        evaluations=sum(((r.get('search') or {}).get('runs', 0) + (r.get('search2') or {}).get('runs', 0)) for r in results),
        second_back_end={r['harness']: r['proof']['second'] for r in results if (r.get('proof') or {}).get('second')},
        fallback={r['harness']: dict(error=(r.get('proof') or {}).get('error'), bad=[dict(label=o['label'], status=o['status'], imprecise=o['imprecise'])
                  for o in (r.get('proof') or {}).get('bad', [])[:10]], bounded={k: (r.get('bounded') or {}).get(k) for k in ('status', 'obligations', 'discharged', 'error')},
                  search2=r.get('search2'), crash=r.get('crash')) for r in results if r['verdict'] not in ('proved',)},
        known_findings=[k for k in kf['known'] if k['property'] == prop],
    )
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof', coverage=cov,
              assumptions=TRUSTED + trusted + ['integers are mathematical in Python; no machine arithmetic is idealised'],
              wall_s=round(time.time() - T0, 2), violations=len(viols))
    tmp = os.path.join(EVID, '.%s.%d.tmp' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
