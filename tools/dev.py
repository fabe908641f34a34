"""development runner: python3-vt tools/dev.py module[,module] [name filter [case]]; SEARCH=secs TO=secs NOPROVE=1"""
import sys, os, time, importlib, random
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get('PYDV_REPO', '/repo') + '/interoperability']
from pydv import spec, engine, check
for m in sys.argv[1].split(','):
    importlib.import_module('contracts.' + m)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
cs = sys.argv[3] if len(sys.argv) > 3 else None
jobs = []
for c in spec.CONTRACTS:
    if flt not in c.name:
        continue
    if os.environ.get('TO'):
        c.timeout = float(os.environ['TO'])
    for case in (c.cases or [None]):
        if cs is not None and str(case) != cs:
            continue
        k = (c.name, str(case))
        if not c.concrete_only and not os.environ.get('NOPROVE'):
            jobs.append((('P',) + k, 'prove', c, case, 'quick', 5, float(os.environ.get('SCALE', '1'))))
        jobs.append((('S',) + k, 'search', c, case, 'quick', 5, (float(os.environ.get('SEARCH', '2')) * c.search, [], c.runs)))
t0 = time.time()
import pickle
res = check.run_jobs(jobs)
tot = 0
for j in jobs:
    k = j[0]
    st, r = res[k]
    if st != 'ok':
        print(k, 'ERR', r[-600:])
        continue
    if k[0] == 'P':
        tot += sum(v[0] for v in r.obligations.values())
        print('SYM', k[1], k[2], 'paths', r.paths, 'feas', r.feasible, 'obl', sum(v[0] for v in r.obligations.values()),
              'FAIL' if r.failures else '', 'UNDEC' if r.undecided else '', '%.1fs solver %d %.1fs' % (r.wall, r.stats['solver_calls'], r.stats['solver_s']), sorted(r.covered))
        for n, v in r.failures[:4]:
            print('   FAILED', n[:200], str(v)[:400])
        for u in r.undecided[:6]:
            print('   UNDEC', u[:300])
    else:
        print('   NAT', k[1], k[2], {x: r[x] for x in ('runs', 'ok', 'skip', 'checks', 'distinct')}, sorted(r['covers']))
        for f in r['fails'][:6]:
            print('   NATFAIL', f['check'][:300], str(f['values'])[:int(os.environ.get('W', '500'))])
print('obligations', tot, '%.1fs' % (time.time() - t0))
