"""Check one property: prove every contract of it on /repo's current source, then search for
failing inputs natively.  usage: python3-vt -m pydv.check C01 quick|thorough"""
import sys
sys.dont_write_bytecode = True
import os, time, json, random, importlib, pickle, pkgutil, hashlib, re, traceback, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')
sys.path[:0] = [ROOT, os.path.join(REPO, 'interoperability')]


def load_contracts():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module('contracts.' + m)


def unit_key(u):
    return '%s%s' % (u[0].name, '' if u[1] is None else '[%s]' % (u[1],))


def prove(con, case, tier, scale=1.0):
    from pydv import engine, spec
    e = engine.Engine(con, tier, case, stubs={q.split('@')[0]: spec.STUBS[q] for q in con.uses},
                      timeout_ms=int(10000 * scale), deadline=time.process_time() + con.timeout * scale)
    return e.run()


def search(con, case, seed, seconds, models, runs=None):
    """replay the counter-models, then random inputs; -> dict"""
    from pydv import spec
    rng = random.Random('%s/%s/%s' % (seed, con.name, case))
    out = {'runs': 0, 'ok': 0, 'skip': 0, 'fails': [], 'distinct': 0, 'sample': None, 'covers': set(), 'checks': 0}
    seen, distinct = set(), set()

    def one(values, origin):
        st, why, g = spec.run_native(con, rng, values, case)
        out['runs'] += 1
        out['covers'] |= g.covers
        out['checks'] += g.checks
        if st == 'skip':
            out['skip'] += 1
            return
        if st == 'ok':
            out['ok'] += 1
            if len(distinct) < 200000 and g.checks:
                distinct.add(hash(repr(g.rec)))
                if out['sample'] is None or out['ok'] == 50:
                    s = repr(g.rec)
                    if len(s) < 600:
                        out['sample'] = s
            return
        key = re.sub(r'\[.*', '', why)[:80]
        if key in seen:
            return
        seen.add(key)
        if len(out['fails']) < 8:
            out['fails'].append({'check': why, 'values': g.rec, 'origin': origin})

    for m in models:
        for _ in range(3):
            one(m, 'counter-model of the failed obligation')
    t0 = time.time()
    n = 0
    while True:
        if runs is not None:
            if n >= runs:
                break
        elif time.time() - t0 > seconds:
            break
        if time.time() - t0 > max(seconds * 4, 60):
            break
        n += 1
        one(None, 'search')
        if n % 50 == 0 and len(out['fails']) >= 4:
            break
    out['distinct'] = len(distinct)
    for f in out['fails']:
        shrink(con, case, f)
    return out


def shrink(con, case, f, budget=2.0):
    """smaller failing input of the same check (best effort)"""
    from pydv import spec
    import copy
    t0 = time.time()
    want = f['check'].split(':')[0]

    def fails(v):
        try:
            st, why, g = spec.run_native(con, random.Random(0), v, case)
        except BaseException:
            return None
        if st == 'fail' and why.split(':')[0] == want:
            return why, g.rec
        return None

    def paths(v, pre=()):
        for k in (list(v) if isinstance(v, dict) else range(len(v))):
            x = v[k]
            yield pre + (k,), x
            if isinstance(x, (dict, list)):
                yield from paths(x, pre + (k,))

    def put(v, path, x):
        v = copy.deepcopy(v)
        d = v
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = x
        return v
    base = fails(f['values'])
    if base is None:
        return
    cur = base[1]
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for path, x in list(paths(cur)):
            if time.time() - t0 > budget:
                break
            cands = []
            if isinstance(x, bool):
                cands = [False] if x else []
            elif isinstance(x, int) and abs(x) > 1:
                cands = [0, 1, x // 2]
            elif isinstance(x, (str, bytes)) and len(x) > 0:
                cands = [x[:0], x[:len(x) // 2], x[:-1]]
            elif isinstance(x, list) and x:
                cands = [[]] + [x[:i] + x[i + 1:] for i in range(min(len(x), 6))]
            for y in cands:
                try:
                    nv = put(cur, path, y)
                except (KeyError, IndexError):
                    break
                r = fails(nv)
                if r is not None and r[1] != cur:
                    cur = r[1]
                    f['check'] = r[0]
                    changed = True
                    break
            if changed:
                break
    f['values'] = cur


def worker(job, con, case, tier, seed, arg):
    if job == 'prove':
        return prove(con, case, tier, arg)
    return search(con, case, seed, arg[0], arg[1], arg[2])


def run_jobs(jobs, nproc=8, deadline=None):
    """jobs: list of (id, job, con, case, tier, seed, arg); yields (id, result or exception text)"""
    import resource
    todo = list(jobs)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < nproc:
            j = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    sys.setrecursionlimit(12000)
                    try:
                        res = ('ok', worker(*j[1:]))
                    except BaseException as e:
                        res = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, j, [], time.time())
        import select
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                running[r][2].append(b)
                continue
            pid, j, parts, t = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[j[0]] = pickle.loads(b''.join(parts))
            except Exception:
                results[j[0]] = ('err', 'worker died')
        if deadline and time.time() > deadline:
            for r, (pid, j, parts, t) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                results[j[0]] = ('err', 'time limit')
            for j in todo:
                results[j[0]] = ('err', 'time limit')
            break
    return results


def merge_shards(res):
    """the searches of one unit with different seeds become one result"""
    out = {}
    for (a, key, k), v in sorted(res.items(), key=lambda x: x[0][2]):
        o = out.get((a, key))
        if o is None or o[0] != 'ok' and v[0] == 'ok' and v[1]['fails']:
            out[(a, key)] = v
        elif o[0] == 'ok' and v[0] == 'ok':
            for n in ('runs', 'ok', 'skip', 'distinct', 'checks'):
                o[1][n] += v[1][n]
            o[1]['covers'] |= v[1]['covers']
            have = {f['check'] for f in o[1]['fails']}
            o[1]['fails'] += [f for f in v[1]['fails'] if f['check'] not in have]
        elif o[0] == 'ok' and not o[1]['fails']:
            out[(a, key)] = v
    return out


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))['findings'] if x.get('status') == 'known']


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(ROOT, 'evidence')
    repdir = os.path.join(evdir, 'replays')
    os.makedirs(repdir, exist_ok=True)
    try:
        load_contracts()
    except Exception as e:
        # the code under contract cannot even be imported
        path = os.path.join(repdir, '%s-import.json' % prop)
        json.dump({'property': prop, 'contract': 'import', 'error': traceback.format_exc()}, open(path, 'w'), indent=1)
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    from pydv import spec, engine
    byname = {}
    for c in spec.CONTRACTS:
        assert c.name not in byname, c.name
        byname[c.name] = c
    mine = [c for c in spec.CONTRACTS if prop in c.props and (tier == 'thorough' or not c.thorough_only)]
    if not mine:
        print('no contracts for', prop)
        return 2
    cons = list(mine)
    i = 0
    while i < len(cons):
        for q in cons[i].uses:
            for n in spec.STUBS[q].proved_by:
                if byname[n] not in cons:
                    cons.append(byname[n])
        i += 1
    units = [(c, case) for c in cons for case in (c.cases or [None])]
    jobs = [(('P', unit_key(u)), 'prove', u[0], u[1], tier, seed, 1.0 if tier == 'quick' else 4.0)
            for u in units if not u[0].concrete_only]
    jobs.sort(key=lambda j: -j[2].timeout)
    quick = tier == 'quick'
    res = run_jobs(jobs, deadline=t0 + (330 if quick else 2400))
    # ---- native search on every contract of the property
    secs = 4.0 if tier == 'quick' else 40.0
    sj = []
    nm = max(1, len([u for u in units if u[0].props and prop in u[0].props]))
    nc = max(1, len([u for u in units if u[0].concrete_only and u[0].runs is None and prop in u[0].props]))
    csecs = secs
    if tier == 'quick':
        secs, csecs = max(1.0, min(6.0, 8 * 25.0 / nm)), max(1.0, min(6.0, 8 * 25.0 / nc))
    for u in units:
        if prop not in u[0].props:
            continue
        st, r = res.get(('P', unit_key(u)), ('ok', None))
        models = [m for _, m in r.failures if m] if st == 'ok' and r is not None else []
        bad = st == 'err' or (r is not None and (r.failures or r.undecided))
        s = (csecs if u[0].concrete_only else secs) * u[0].search * (4 if bad else 1)
        shards = max(1, 8 // nc) if u[0].concrete_only and u[0].runs is None else 1
        for k in range(shards):
            sj.append((('S', unit_key(u), k), 'search', u[0], u[1], tier, seed if k == 0 else '%s+%d' % (seed, k),
                       (s * 2 if u[0].concrete_only else s, models if k == 0 else [], u[0].runs)))
    sres = merge_shards(run_jobs(sj, deadline=time.time() + (170 if quick else 2400)))
    # ---- what ran out of time gets a second attempt, unless a failing input settles the matter
    if not any(v[0] == 'ok' and v[1]['fails'] for v in sres.values()):
        again = []
        for j in jobs:
            st, r = res[j[0]]
            if st == 'err' or any(('time limit' in u or 'solver gave up' in u) for u in r.undecided):
                again.append(j[:6] + (4.0 if quick else 8.0,))
        if again:
            r2 = run_jobs(again, deadline=max(t0 + (780 if quick else 6000), time.time() + 60))
            for k, v in r2.items():
                if v[0] == 'ok' or res[k][0] == 'err':
                    res[k] = v
    return report(prop, tier, seed, t0, mine, units, res, sres, repdir, evdir)


def stands_in(c, sr):
    """a bounded contract that the verifier cannot decide is left to its native runs (and counted as undecided)"""
    return bool(c.bounded) and sr is not None and sr[0] == 'ok' and sr[1]['checks'] > 0


def report(prop, tier, seed, t0, mine, units, res, sres, repdir, evdir):
    from pydv import spec
    known = known_findings()
    viol, lines = [], []
    obl = dis = bobl = bdis = 0
    names, fns, bfns, stubs, widened, und = [], set(), set(), set(), set(), []
    stats = {'solver_calls': 0, 'solver_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0, 'cvc5_discharged': 0}
    paths = 0
    evals = distinct = 0
    samples = []
    percontract = []
    knownseen = set()
    concrete = 0
    for c, case in units:
        key = unit_key((c, case))
        own = prop in c.props
        pr = res.get(('P', key))
        sr = sres.get(('S', key))
        fails = []
        if sr is not None:
            if sr[0] == 'ok':
                s = sr[1]
                evals += s['runs']
                distinct += s['distinct']
                if s['sample']:
                    samples.append('%s: %s' % (key, s['sample']))
                fails = s['fails']
                if c.concrete_only:
                    concrete += 1
            else:
                und.append('%s: search: %s' % (key, sr[1]))
        newfails = []
        for f in fails:
            kf = [k for k in known if k['property'] == prop and k['contract'] == c.name and re.search(k['check'], f['check'])]
            if kf:
                knownseen.add(kf[0]['what'])
            else:
                newfails.append(f)
        for i, f in enumerate(newfails[:3]):
            path = os.path.join(repdir, '%s-%s-%d.json' % (prop, re.sub(r'\W+', '_', key), i))
            json.dump({'property': prop, 'contract': c.name, 'module': c.module, 'case': spec.jsonable(case), 'check': f['check'],
                       'origin': f['origin'], 'inputs': spec.jsonable(f['values']),
                       'failed_obligations': [n for n, _ in pr[1].failures] if pr and pr[0] == 'ok' else [],
                       'how': 'python3-vt -m pydv.replay ' + path}, open(path, 'w'), indent=1)
            viol.append((path, True, '%s: %s' % (key, f['check'])))
        if pr is None:
            percontract.append({'contract': key, 'proof': 'none (concrete bounded check)', 'runs': sr[1]['runs'] if sr and sr[0] == 'ok' else 0})
            continue
        if pr[0] == 'err':
            und.append('%s: %s' % (key, pr[1].strip().splitlines()[0]))
            if not newfails and not stands_in(c, sr):
                path = os.path.join(repdir, '%s-%s-u.json' % (prop, re.sub(r'\W+', '_', key)))
                json.dump({'property': prop, 'contract': c.name, 'case': spec.jsonable(case), 'verifier_output': pr[1]}, open(path, 'w'), indent=1)
                viol.append((path, False, '%s: verifier: %s' % (key, pr[1][:200])))
            continue
        r = pr[1]
        o = sum(v[0] + v[1] for v in r.obligations.values())
        d = sum(v[0] for v in r.obligations.values())
        iskn = [k for k in known if k['contract'] == c.name and k['property'] in c.props]
        if c.bounded:
            bobl += o
            bdis += d
            bfns |= set(c.funcs)
        else:
            obl += o
            dis += d
        fns |= r.fns
        stubs |= r.stubs_used
        widened |= r.__dict__.get('widened', set())
        paths += r.paths
        for k in stats:
            stats[k] += r.stats.get(k, 0)
        percontract.append({'contract': key, 'proof': 'bounded: ' + c.bounded if c.bounded else 'unbounded', 'obligations': o, 'discharged': d, 'paths': r.paths,
                            'solver_calls': r.stats['solver_calls'], 'solver_s': round(r.stats['solver_s'], 2), 'stubs': sorted(r.stubs_used),
                            'named': {n: v[0] for n, v in r.obligations.items()},
                            'search_runs': sr[1]['runs'] if sr and sr[0] == 'ok' else 0})
        und += ['%s: %s' % (key, u) for u in r.undecided]
        fl = [n for n, _ in r.failures]
        if iskn:
            fl = [n for n in fl if not any(re.search(k['check'], n) for k in iskn)]
        if (fl or r.undecided and not stands_in(c, sr)) and not newfails:
            path = os.path.join(repdir, '%s-%s-p.json' % (prop, re.sub(r'\W+', '_', key)))
            json.dump({'property': prop, 'contract': c.name, 'module': c.module, 'case': spec.jsonable(case), 'failed_obligations': fl,
                       'undecided': r.undecided, 'inputs': None,
                       'counter_models': [spec.jsonable(m) for _, m in r.failures][:3]}, open(path, 'w'), indent=1, default=str)
            viol.append((path, False, '%s: %s' % (key, (['obligation failed: ' + n for n in fl] or ['undecided: ' + u for u in r.undecided])[0][:300])))
    for k in sorted(knownseen):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    real = [v for v in viol if v[1]]
    out = real[:5] if real else viol[:3]
    for path, conf, text in out:
        print('# ' + text.replace('\n', ' ')[:400])
    for path, conf, text in out:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
    allconc = all(c.concrete_only for c in mine)
    proved = [c for c in mine if not c.concrete_only and not c.bounded]
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
    except Exception:
        pass
    level = man.get(prop, {}).get('level') or ('proof' if proved else 'other')
    from pydv import spec as _s
    cov = {
        'obligations': obl + bobl, 'discharged': dis + bdis,
        'unbounded_obligations': obl, 'unbounded_discharged': dis, 'bounded_obligations': bobl, 'bounded_discharged': bdis,
        'checker_cmd': 'python3-vt -m pydv.check %s %s' % (prop, tier),
        'trusted_base': ['z3 (python3-vt), cvc5 for obligations z3 leaves unknown', 'pydv: AST interpreter, models of built-in types, loop rules (/verif/pydv)',
                         'the specification functions and contracts in /verif/contracts'],
        'backend': 'z3', 'stats': {k: round(v, 2) for k, v in stats.items()}, 'paths': paths,
        'functions_under_contract': sorted(fns), 'callee_contracts_used': sorted(stubs), 'loops_with_inferred_invariant': sorted(widened),
        'contracts': percontract, 'bounded_contracts': [c.name + ': ' + c.bounded for c in mine if c.bounded],
        'concrete_only_contracts': [c.name for c in mine if c.concrete_only],
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'native runs of the same contracts on random boundary-biased inputs and on counter-models; a run is non-trivial when at least one check was evaluated; distinct by recorded inputs',
        'samples': samples[:6], 'undecided': und[:20],
        'explanation': 'contracts interpreted over the AST of the real functions of /repo read on this run; obligations discharged by z3; the same contracts are run natively to find failing inputs',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions(mine), 'wall_s': round(time.time() - t0, 2), 'violations': len(out)}
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1, default=str)
    if not out and (obl + bobl + evals) == 0:
        print('nothing was checked')
        return 2
    print('%s: %d contracts, %d obligations discharged (%d in bounded contracts)%s, %d native runs, %.1fs%s' % (
        prop, len(mine), dis + bdis, bdis, ', %d undecided' % len(und) if und else '', evals, time.time() - t0, '' if not out else ', %d violation(s)' % len(viol)))
    return 1 if out else 0


def assumptions(mine):
    a = ['partial correctness: termination is proved only for loops over finite collections',
         'logging, print and traceback calls have no effect; a log argument is evaluated only when it is a name or attribute',
         'python ints are exact (as in CPython); floats are modelled as reals',
         'clocks are values chosen by the contract; uuid4 is a string of 36 characters that was not used before; random.choice is any element',
         'threads: one operation at a time (locks are no-ops)']
    for c in mine:
        for x in getattr(c, 'assumes', ()) or ():
            if x not in a:
                a.append(x)
    return a


if __name__ == '__main__':
    sys.exit(main(sys.argv))
