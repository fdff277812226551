"""development: python3 vf/dev.py UNIT PROP [-o FILE] [SRC]"""
import sys, os, json, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit
name, prop = sys.argv[1], sys.argv[2]
src = sys.argv[3] if len(sys.argv) > 3 else '/repo/src'
bl = {}
p = os.path.join(unit.SPECS, 'baseline.json')
if os.path.exists(p): bl = json.load(open(p))
t, ex, u = unit.generate(name, prop, os.path.join(unit.VERIF, 'extractor/target/release/extractor'), src, bl)
os.makedirs('/tmp/v', exist_ok=True)
out = '/tmp/v/%s_%s.rs' % (name, prop)
open(out, 'w').write(t)
r = unit.run_verus(out)
for e in r['errors']:
    print(e['rendered'] if len(e['rendered']) < 2500 else e['rendered'][:2500])
print(name, prop, r['results'], '%.1fs' % r['secs'], 'OK' if r['ok'] else 'FAILED')
if not r['errors'] and not r['ok']: print(r['raw'])
