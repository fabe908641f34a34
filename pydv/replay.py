"""Run the failing input of a replay file against the real code of /repo."""
import sys
sys.dont_write_bytecode = True
import json, random
from pydv import check


def main():
    d = json.load(open(sys.argv[1]))
    if not d.get('inputs') and d.get('inputs') != {}:
        print('no failing input in this file; verifier output:')
        print(json.dumps(d, indent=1))
        return 1
    check.load_contracts()
    from pydv import spec
    con = [c for c in spec.CONTRACTS if c.name == d['contract']][0]
    case = spec.unjson(d.get('case'))
    if isinstance(case, list):
        case = tuple(case)
    st, why, g = spec.run_native(con, random.Random(0), spec.unjson(d['inputs']), case)
    print(st, why or '')
    return 1 if st == 'fail' else 0


sys.exit(main())
