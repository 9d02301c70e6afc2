#!/usr/bin/env python3
"""seed.py SPEC.py: makes /verif/seeded/<id> from a spec (ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS, FLAGS) and confirms it in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns)
H = '/verif'; d = os.path.join(H, 'seeded', ns['ID']); os.makedirs(d + '/shim/boost/core', exist_ok=True)
tmp = tempfile.mkdtemp(prefix='seed-'); repo = tmp + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
for f, old, new in ns['EDITS']:
    p = repo + '/include/boost/signals2/' + f; s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old); open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
shutil.copy(H + '/shim/boost/core/invoke_swap.hpp', d + '/shim/boost/core/invoke_swap.hpp')
open(d + '/demo.cpp', 'w').write(ns['DEMO'])
flags = ns.get('FLAGS', '')
open(d + '/demo.sh', 'w').write('''#!/bin/sh
# run in the repository: 0 if the property holds in the scenario of demo.cpp
here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -g -O0 -w %s -Iinclude -I"$here/shim" "$here/demo.cpp" -o "$out/demo" -lpthread || exit 3
cd "$out" && timeout 60 ./demo
''' % flags)
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
a = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True); b = subprocess.run(['sh', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
print(ns['ID'], 'unchanged', a.returncode, 'patched', b.returncode, (a.stderr + b.stderr)[-500:])
t = ''
if '-n' not in sys.argv:
    r = subprocess.run([H + '/check.py', ns['PROP'], '--repo', repo], capture_output=True, text=True); print('   check', r.returncode, r.stdout[-600:])
shutil.rmtree(tmp)
