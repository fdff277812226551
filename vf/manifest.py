"""writes MANIFEST.json from props.py (run by hand)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
m = dict(version=1,
    setup_cmd='cargo build --release --offline -q --manifest-path extractor/Cargo.toml && cargo build --release --offline -q --manifest-path harness/Cargo.toml',
    checks=[dict(property=i, quick_cmd='python3 vf/check.py %s quick' % i, thorough_cmd='python3 vf/check.py %s thorough' % i,
                 technique='contract-based deductive verification (Verus) of the functions in /repo/src, extracted on every run', level='proof',
                 level_note=NOTES[i]) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=NA.get(i, 'contracts not finished yet')) for i in ids if i not in PROPS])
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
