#!/opt/veriftools/pyvenv/bin/python3
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vcg import program as P, harness as H
import registry
P.ensure_tool() if hasattr(P, 'ensure_tool') else None
P.ensure_config()
from vcg import cpu
cpu.lib()
bad = 0
for pid, R in sorted(registry.PROPS.items()):
    for h in R.get('harness', []):
        b, err = H.build(h)
        print(pid, h['src'], 'ok' if b else err[:2000])
        bad += b is None
sys.exit(1 if bad else 0)
