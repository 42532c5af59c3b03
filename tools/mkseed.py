"""mkseed.py ID PROPERTY NEEDS WHAT < stdin: demo.cpp ; the edit is the current diff of /repo (then reverted)."""
import sys, os, json, subprocess
R = os.environ.get('VF_REPO', '/repo')
i, p, needs, what = sys.argv[1:5]
flags = sys.argv[5] if len(sys.argv) > 5 else ''
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no edit in /repo'
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(d + '/demo.cpp', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exits 0 iff the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -g -fsanitize=address -fno-sanitize-recover=all -DIL_MKL -DIL_BLAS -I/usr/include/mkl -include cstdint -I. %s "$here/demo.cpp" -o "$t/demo" %s || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 MKL_CBWR=COMPATIBLE timeout 60 ./demo
''' % (flags.replace('MKL', ''), '-Wl,--no-as-needed -lmkl_intel_lp64 -lmkl_core -lmkl_intel_thread -liomp5 -ldl -lpthread -lm' if 'MKL' in flags else ''))
json.dump(dict(property=p, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
print('made', d)
