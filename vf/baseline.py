"""records parameter/local names and loop counts of the pinned tree (run by hand when an overlay is written)"""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit
exe = os.path.join(unit.VERIF, 'extractor/target/release/extractor')
out = {}
for f in sorted(glob.glob(os.path.join(unit.SPECS, '*.ov'))):
    n = os.path.basename(f)[:-3]
    u = unit.Unit(n)
    ex = unit.extract(exe, sys.argv[1] if len(sys.argv) > 1 else '/repo/src', u.lines())
    out[n] = {k: dict({x: ex[k][x] for x in ('params', 'locals', 'loops', 'kinds')}, skel=unit.skeleton(ex[k]['text'], ex), sigs=unit.loop_sigs(unit.rustfmt(ex[k]['text'])), shape=unit.shape(unit.rustfmt(ex[k]['text']))) for k in u.order if 'text' in ex.get(k, {})}
json.dump(out, open(os.path.join(unit.SPECS, 'baseline.json'), 'w'), indent=0, sort_keys=True)
