"""python3 vf/check.py PROP quick|thorough — see DESIGN.md"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import unit, whole
from props import PROPS
from search import Search, replay

SRC = '/repo/src'
EXE = os.path.join(VERIF, 'extractor/target/release/extractor')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')


def build(what):
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(VERIF, what), capture_output=True, text=True, env=ENV)
    return p.returncode == 0, p.stderr[-3000:]


# ---------------------------------------------------------------- verifier output -> obligations
class Map:
    """regions of a generated file"""
    def __init__(self, text):
        self.at = []
        cur = ('prelude', '')
        for l in text.splitlines():
            m = re.match(r'//# (types|spec|import|fn|end)\b\s*(.*)', l)
            if m:
                cur = (m.group(1), m.group(2).strip())
            self.at.append(cur)

    def of(self, line):
        return self.at[min(max(line - 1, 0), len(self.at) - 1)]


SAFE = ('termination', 'decreases', 'arithmetic', 'overflow', 'underflow', 'division by zero', 'bit shift', 'index in bounds')


def classify(err, regions, lines):
    """kind: safety (panic, termination, arithmetic) | functional | limit | compile"""
    msg = err['message']
    spans = err.get('spans', [])
    prim = [s for s in spans if s.get('is_primary')] or spans
    where = None
    for s in prim + spans:
        r = regions.of(s['line_start'])
        if r[0] == 'fn':
            where = r[1]; break
    if where is None:
        for s in prim:
            r = regions.of(s['line_start'])
            where = r[0] + (' ' + r[1] if r[1] else '')
    texts = [' '.join(t['text'].strip() for t in s.get('text', [])) for s in spans]
    low = msg.lower()
    if 'rlimit' in low or 'resource limit' in low or 'timed out' in low:
        kind = 'limit'
    elif err.get('code'):
        kind = 'compile'
    elif any(x in low for x in SAFE):
        kind = 'safety'
    elif 'precondition' in low and any('panic_ok' in t or regions.of(s['line_start'])[0] == 'prelude' for s, t in zip(spans, texts)):
        kind = 'safety'
    elif any(x in low for x in ('postcondition', 'precondition', 'invariant', 'assertion', 'assert', 'recommendation', 'loop')):
        kind = 'functional'
    else:
        kind = 'compile'
    return dict(fn=where, kind=kind, message=msg, clause=texts[0][:300] if texts else '', rendered=err.get('rendered', '')[:4000])


def prove(name, prop, work, baseline, canary=None):
    """one unit, one property mode"""
    tag = '%s_%s%s' % (name, prop, '_canary' if canary is not None else '')
    res = dict(unit=name, mode=prop, status='ok', errors=[], verified=0, failed=0, smt_ms=0, secs=0, fns=[], trusted=[], lost='')
    try:
        text, ex, u = unit.generate(name, prop, EXE, SRC, baseline, canary=canary)
    except unit.Lost as e:
        res.update(status='lost', lost=str(e))
        return res
    path = os.path.join(work, tag + '.rs')
    open(path, 'w').write(text)
    res['path'] = path
    res['fns'] = [k for k in u.order if ('trusted',) not in u.fns[k]]
    res['trusted'] = [k for k in u.order if ('trusted',) in u.fns[k]]
    res['texts'] = {k: ex[k]['text'] for k in res['fns']}
    r = unit.run_verus(path, timeout=280)
    if canary is None and not r['ok'] and (r['timeout'] or r['results'].get('errors')) and not any(e.get('code') for e in r['errors']):
        # an obligation counts as refuted only if no solver seed discharges it
        with cf.ThreadPoolExecutor(3) as pool:
            for q in list(pool.map(lambda k: unit.run_verus(path, timeout=200, extra=('--smt-option', 'smt.random_seed=%d' % k)), (1, 2, 3))):
                if q['ok']:
                    r = q
                    break
    res.update(cmd=r['cmd'], secs=round(r['secs'], 2))
    if r['timeout']:
        res.update(status='limit', lost='verifier time limit')
        return res
    rr = r['results']
    res['verified'], res['failed'] = rr.get('verified', 0), rr.get('errors', 0)
    res['smt_ms'] = r['js'].get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(r['js'].get('times-ms', {}).get('smt'), dict) else 0
    res['clauses'] = clauses(text)
    if r['ok']:
        return res
    regions, lines = Map(text), text.splitlines()
    res['errors'] = [classify(e, regions, lines) for e in r['errors']]
    for e in res['errors']:
        k = e['fn']
        if e['kind'] in ('functional', 'safety') and k in res['texts'] and (ex[k].get('fuzzy') or baseline.get(name, {}).get(k, {}).get('skel', '') != unit.skeleton(ex[k]['text'], ex)):
            # its loops (or the locals the hints speak of) are no longer the ones the invariants were written for: a failure says nothing about the code
            e['kind'] = 'unfit'
    ks = {e['kind'] for e in res['errors']}
    if not res['errors'] or 'compile' in ks or rr.get('encountered-vir-error') or not rr:
        res['status'] = 'compile'
        res['lost'] = (res['errors'][0]['message'] if res['errors'] else r['raw'][-400:])
    elif ks == {'limit'}:
        res['status'] = 'limit'
        res['lost'] = 'resource limit'
    else:
        res['status'] = 'failed'
    return res


def clauses(text):
    """contract clauses attached to extracted functions"""
    n = dict(requires=0, ensures=0, invariant=0, decreases=0)
    infn = False
    for l in text.splitlines():
        if l.startswith('//# fn '): infn = True
        elif l.startswith('//# end'): infn = False
        elif infn:
            for k in n:
                if re.match(r'\s*%s\b' % k, l): n[k] += 1
    return n


def canaries(name, prop, work, baseline):
    """`if canary_flag(k) { assert(false) }` at the entry of every contracted function and in every loop body:
    each of them must be refuted, or the contracts around it are contradictory and the proof says nothing"""
    can = []
    r = prove(name, prop, work, baseline, canary=can)
    hit = {int(m) for e in r['errors'] for m in re.findall(r'canary_flag\((\d+)\)', e['rendered'])}
    return len(can), [c for i, c in enumerate(can) if i not in hit], r


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        rc = run(prop, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, cfg, work, t0):
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, 'extractor'), ex.submit(build, 'harness')
        (eok, emsg), (hok, hmsg) = a.result(), b.result()
    if not eok:
        print('the extractor does not build:\n' + emsg)
        return 2
    if not hok:
        print('the harness does not build against /repo:\n' + hmsg)
    baseline = json.load(open(os.path.join(unit.SPECS, 'baseline.json')))
    units = cfg['own'] + cfg['deps']
    with cf.ThreadPoolExecutor(5) as ex:
        # the verified text, run: does it do what the real crate does?
        wf = ex.submit(whole.run, EXE, SRC, work, seed, 60000 if tier == 'thorough' else 12000, [u for u, _ in units]) if hok else None
        fs = [ex.submit(prove, u, m, work, baseline) for u, m in units]
        cs = [ex.submit(canaries, u, m, work, baseline) for u, m in cfg['own']]
        results = [f.result() for f in fs]
        cans = [c.result() for c in cs]
        ext = whole.same_text(wf.result(), {k: t for r in results for k, t in r.get('texts', {}).items()}) if wf else dict(status='not run', note='the harness does not build')
    own, deps = results[:len(cfg['own'])], results[len(cfg['own']):]
    own_failed = []          # refuted obligations that belong to this property
    undecided = []           # why the proof says nothing
    for r in deps:
        if r['status'] != 'ok':
            undecided.append('%s (%s): %s' % (r['unit'], r['mode'], r['lost'] or ', '.join(sorted({e['fn'] or '?' for e in r['errors']}))))
    want = cfg.get('kinds', ('functional',))
    for r in own:
        if r['status'] in ('lost', 'compile', 'limit'):
            undecided.append('%s: %s: %s' % (r['unit'], r['status'], r['lost']))
        elif r['status'] == 'failed':
            only = cfg.get('fns')
            for e in r['errors']:
                mine = e['kind'] in want and (not e['fn'] or e['fn'] not in cfg.get('not_fns', ())) and e['fn'] in r['fns']
                if mine: own_failed.append(dict(e, unit=r['unit']))
                else: undecided.append('%s: %s in %s (%s)' % (r['unit'], e['message'], e['fn'], e['kind']))
    vac = [(r['unit'], miss) for r, (n, miss, _c) in zip(own, cans) if miss and r['status'] == 'ok']
    for u, miss in vac:
        undecided.append('%s: contracts of %s cannot be told from contradictory ones' % (u, ', '.join(miss)))
    if ext['status'] == 'differs':
        # what was verified is not what runs: the verifier's answers say nothing about this source
        undecided.append('the extraction is not faithful to this source')
        undecided += ['%s in %s (not believed)' % (e['message'], e['fn']) for e in own_failed]
        own_failed = []
    proved = not own_failed and not undecided
    budget = {('quick', True): 12, ('quick', False): 150, ('thorough', True): 180, ('thorough', False): 420}[('thorough' if tier == 'thorough' else 'quick', proved)]
    fail, stats = None, dict(note='the harness did not build')
    if hok:
        s = Search(prop, seed, budget, work)
        fail = s.run()
        stats = s.stats
    code, line = 0, None
    out = os.path.join(VERIF, 'out')
    os.makedirs(out, exist_ok=True)
    rep = os.path.join(out, '%s.replay' % prop)
    if os.path.exists(rep): os.unlink(rep)
    if fail:
        text, why = fail
        open(rep, 'w').write(text if text.startswith('#') else '# %s\n%s' % (why.replace('\n', ' '), text))
        known = known_finding(prop, text)
        if known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known))
        else:
            code, line = 1, 'VIOLATION property=%s replay=%s' % (prop, rep)
            for e in own_failed[:5]: print('failed obligation: %s in %s (unit %s): %s' % (e['message'], e['fn'], e['unit'], e['clause']))
            print('replay with: %s replay %s' % (os.path.join(VERIF, 'harness/target/release/harness'), rep))
    elif own_failed:
        with open(rep, 'w') as f:
            for e in own_failed:
                f.write('failed obligation: %s\nfunction: %s\nunit: %s\nclause: %s\n%s\n\n' % (e['message'], e['fn'], e['unit'], e['clause'], e['rendered']))
        for e in own_failed[:5]: print('failed obligation: %s in %s (unit %s): %s' % (e['message'], e['fn'], e['unit'], e['clause']))
        code, line = 1, 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep)
    if proved:
        print('%s: every obligation discharged (%d); bounded runs of the real code: %s' % (prop, sum(r['verified'] for r in own), stats.get('evaluations')))
    elif not line:
        print('%s: not decided by proof on this tree: %s; bounded stand-in only (%s cases held)' % (prop, '; '.join(undecided)[:600], stats.get('held')))
    evidence(prop, tier, seed, cfg, own, deps, cans, ext, proved, undecided, own_failed, stats, fail, code, t0)
    if line: print(line)
    return code


def known_finding(prop, text):
    p = os.path.join(VERIF, 'known-findings.txt')
    key = case_key(text)
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) input=(.*?) :: (.*)', l)
        if m and m.group(1) == prop and m.group(2).strip() == key:
            return m.group(3).strip()
    return None


def case_key(text):
    return ' ; '.join(l.strip() for l in text.splitlines() if l.strip() and not l.startswith('#'))


def evidence(prop, tier, seed, cfg, own, deps, cans, ext, proved, undecided, own_failed, stats, fail, code, t0):
    ob = sum(r['verified'] + r['failed'] for r in own)
    di = sum(r['verified'] for r in own)
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd='; '.join(r.get('cmd', '').replace(os.path.dirname(r.get('path', '') or '/x'), 'OUT') for r in own if r.get('cmd')) or 'verus (not reached)',
        trusted_base=['Verus 0.2026.09.13.671956e with its Z3 back end and vstd',
                      'extractor/ (syntactic desugaring of /repo/src into the Verus subset; what it drops is listed in DESIGN.md)',
                      'vstd: contracts of std Vec, HashMap, HashSet, Option (the containers of specs/prelude.rs are verified against them in every unit, all but HashMap::get_mut, whose contract is assumed there)',
                      'lawful Clone/Eq/Hash on the symbol type'],
        explanation='obligations: verification conditions (one per function, lemma and spec-termination query) of the units below, all sent to Z3 by Verus',
        units=[dict(unit=r['unit'], mode=r['mode'], status=r['status'], functions=r['fns'], trusted_functions=r['trusted'], verified=r['verified'],
                    errors=r['failed'], clauses=r.get('clauses'), smt_ms=r['smt_ms'], seconds=r['secs'], note=r['lost']) for r in own],
        assumed_layers=[dict(unit=r['unit'], mode=r['mode'], status=r['status'], verified=r['verified']) for r in deps],
        vacuity=[dict(unit=r['unit'], points_where_assert_false_is_refuted=n - len(miss), of=n) for r, (n, miss, c) in zip(own, cans)],
        extraction_run=dict(label='the extracted functions, compiled over the real std containers and run against the real crate: bounded', **ext),
        decided_by='proof' if proved else ('failed obligation' if own_failed else 'bounded stand-in: no proof on this tree'),
        undecided=undecided[:20],
        failed_obligations=[dict(function=e['fn'], message=e['message'], clause=e['clause']) for e in own_failed[:20]],
        bounded_runs=dict(label='bounded, not counted as proved', **{k: v for k, v in stats.items()}),
        samples=stats.get('samples') or [])
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof', coverage=cov,
              assumptions=ASSUME + cfg.get('assume', []), wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


ASSUME = [
    'std Vec, HashMap, HashSet and Option behave as vstd specifies them, HashMap::get_mut as specs/prelude.rs specifies it; a RefCell is a value that is absent while borrowed; an iterator over a collection yields what it holds, eagerly or lazily',
    'the symbol type has lawful Eq, Hash and Clone (an equal copy), as the quantifier of the property says',
    'memory and the call stack are not exhausted; a count of items (enumerate, position, count) does not exceed usize::MAX (v_inc in specs/prelude.rs)',
    'the extractor keeps the meaning of the constructs it desugars (closures inlined, iterator chains as loops, RefCell borrows as take/put); anything it does not know is refused',
]

if __name__ == '__main__':
    main()
