#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (C++ source) or DEMO_SH, optional FLAGS, EXTRA files.
Writes /verif/seeded/ID and confirms it in a scratch copy of /repo: builds, stable tests pass, demo 0/non-zero,
then runs the property's check on the scratch copy (VERIF_REPO) and says whether it was caught.
With --check-only: only runs the check."""
import sys, os, subprocess, shutil, json, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']; D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
W = tempfile.mkdtemp(prefix='seed-'); S = W + '/repo'
# the tests' build directory holds absolute paths: a private mount of the copy over /repo is not available, so tests run in /repo
subprocess.run(['git', 'clone', '-q', '/repo', S], check=True)
def edit(root):
    for f, old, new in spec['EDITS']:
        p = os.path.join(root, f); t = open(p).read()
        n = t.count(old)
        assert n == 1, (f, n, old)
        open(p, 'w').write(t.replace(old, new))
edit(S)
diff = subprocess.run(['git', '-C', S, 'diff'], stdout=subprocess.PIPE, text=True).stdout
open(D + '/patch.diff', 'w').write(diff)
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
if 'DEMO' in spec:
    open(D + '/demo.cpp', 'w').write(spec['DEMO'])
    if '"ref.h"' in spec['DEMO']:
        shutil.copy('/verif/tools/seed_ref.h', D + '/ref.h')
    sh = '''#!/bin/bash
# run with cwd /repo; exit 0 on the unchanged tree
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ %s -std=c++17 -fopenmp -include cstdint -DCPP -w -I. -IGTgraph/sprng2.0-lite/include -I"$here" "$here/demo.cpp" %s -o "$tmp/demo" -Wl,-z,muldefs %s || exit 3
cd "$tmp" && OMP_DYNAMIC=false timeout -k 5 %d ./demo
''' % (spec.get('OPT', '-O1'), spec.get('SRCS', ''), spec.get('LIBS', '-lgraphblas'), spec.get('TIMEOUT', 100))
else:
    sh = spec['DEMO_SH']
open(D + '/demo.sh', 'w').write(sh); os.chmod(D + '/demo.sh', 0o755)
for n, t in spec.get('EXTRA', {}).items():
    open(D + '/' + n, 'w').write(t)
shutil.rmtree(W)
