#!/usr/bin/env python3
"""developer aid: mkseed.py FILE.py : creates seeded/<id>/ from SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, libs)]"""
import sys, os, subprocess, json, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('s', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
SH = '''#!/bin/bash
# exit 0 when the property holds for the history in demo.cpp, 1 otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++11 -w -O1 %s -I"$R" -I"$R/_build" -I"$R/vital/kwiversys" -I"$R/_build/vital/kwiversys" -I/usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" -L"$R/_build/lib" %s || exit 3
cd "$T" && LD_LIBRARY_PATH="$R/_build/lib" timeout 120 "$T/demo"
'''
only = sys.argv[2:]
for s in m.SEEDS:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    saved = {}
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            saved.setdefault(p, t)
            if t.count(a) != 1:
                raise SystemExit('%s: %d matches in %s' % (s['id'], t.count(a), f))
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff']).decode()
    finally:
        for p, t in saved.items():
            open(p, 'w').write(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(SH % (s.get('flags', ''), s.get('srcs', ''), s.get('libs', '-lvital -lvital_config -lvital_logger -lkwiversys')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', s['id'])
