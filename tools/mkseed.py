"""mkseed.py SPEC.py : builds seeded/<id>/ from a spec file defining ID, PROP, FILE (or EDITS), OLD, NEW, DEMO, NEEDS, BREAKS;
checks that the demo passes on /repo and fails with the patch in a scratch copy."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt'


def one(path):
    ns = {}
    exec(open(path).read(), ns)
    if not os.path.isdir(WT + '/.git'):
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', WT])
    subprocess.check_call('git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=WT)
    for f, old, new in ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]:
        p = os.path.join(WT, 'interoperability', f)
        s = open(p).read()
        assert s.count(old) == 1, '%s: %d occurrences of %r' % (path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(ROOT, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', 'diff'], cwd=WT).decode()
    open(d + '/patch.diff', 'w').write(diff)
    demo = ns['DEMO'].strip('\n')
    open(d + '/demo.py', 'w').write(demo + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nD=$(cd "$(dirname "$0")" && pwd)\ncd interoperability && PYTHONPATH=. timeout 200 python3 -B "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True)
    b = subprocess.run(['sh', d + '/demo.sh'], cwd=WT, capture_output=True)
    print(ns['ID'], 'clean', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 and b.returncode else 'BAD\n' + a.stderr.decode()[-1500:] + b.stderr.decode()[-800:])


for p in sys.argv[1:]:
    one(p)
