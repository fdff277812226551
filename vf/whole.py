"""The extraction, run: all extracted functions, without contracts, compiled over the real std containers behind specs/prelude.rs,
against the real crate on the same inputs. A difference means the extraction is not faithful to this source, and nothing is proved by it."""
import glob, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import unit

MACROS = ['inv', 'sig', 'entry', 'before', 'none', 'bs', 'be', 'after', 'bc', 'ac']
HARNESS = os.path.join(unit.VERIF, 'harness/target/release/harness')


def units():
    return [unit.Unit(os.path.basename(f)[:-3]) for f in sorted(glob.glob(os.path.join(unit.SPECS, '*.ov')))]


def plain(text):
    """an extracted function without the places where contracts go"""
    t = re.sub(r',?\s*__gh\s*!\s*\([^)]*\)', '', text)
    t = re.sub(r'__(%s)\s*!\s*\([^)]*\)\s*;' % '|'.join(MACROS), '', t)
    return re.sub(r',(?=[)}\]>])', '', re.sub(r'\s+', '', t))


def generate(exe, src, first=()):
    """the program, and its functions; a function of several units is taken as those in first have it"""
    us = sorted(units(), key=lambda u: list(first).index(u.name) if u.name in first else len(first))
    whose = {}
    for u in us:
        for k in u.order: whose.setdefault(k, u.name)
    ks = list(whose)
    tr = unit.Unit('ctor').traits
    req = ['fn ' + k for k in ks] + ['trait ' + t for t in tr] + ['after %s %s' % a for u in us for a in u.after if whose[a[0]] == u.name]
    ex = unit.extract(exe, src, '\n'.join(dict.fromkeys(req)) + '\n')
    lost = [k + ': ' + str(ex.get(k, {}).get('error', 'gone')) for k in ks if not ex.get(k, {}).get('text')]
    if lost:
        raise unit.Lost('; '.join(lost))
    p = [open(os.path.join(unit.SPECS, 'prelude.rs')).read()]
    p.append('\n'.join('macro_rules! __%s { ($($t:tt)*) => {} }' % m for m in MACROS))
    p.append('type RET<X> = X;')
    p.append(unit.rustfmt(ex['types']))
    p += [re.sub(r'-> \(r: (Option<[^;]*)\);', r'-> \1;', t) for t in tr.values()]
    p += ['// %s\n%s' % (k, ex[k]['text']) for k in ks]
    h = os.path.join(unit.VERIF, 'harness/src')
    p += [open(os.path.join(h, 'case.rs')).read().replace('//!', '//'), open(os.path.join(h, 'canon.rs')).read(), open(os.path.join(HERE, 'driver.rs')).read()]
    return '\n'.join(p), {k: ex[k]['text'] for k in ks}


def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, preexec_fn=limits)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, '', 'no result after %d s' % timeout


def same_text(res, texts):
    """texts: what the proof units were given, by function"""
    fns = res.pop('fns', {})
    off = [k for k, t in texts.items() if k in fns and plain(fns[k]) != plain(t)]
    if off and res['status'] == 'agree':
        res.update(status='not run', note='not the text that was verified: ' + ', '.join(off))
    return res


def run(exe, src, work, seed, n, first=()):
    res = dict(status='not run', cases=0, parsed=0, note='')
    try:
        text, fns = generate(exe, src, first)
    except unit.Lost as e:
        return dict(res, note=str(e)[:300])
    d = os.path.join(work, 'whole')
    os.makedirs(d)
    open(os.path.join(d, 'whole.rs'), 'w').write(text)
    try:
        p = subprocess.run(['verus', 'whole.rs', '--no-verify', '--compile', '-O'], cwd=d, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return dict(res, note='compilation takes too long')
    prog = os.path.join(d, 'whole')
    if p.returncode or not os.path.exists(prog):
        return dict(res, note='does not compile: ' + '; '.join(l for l in p.stderr.splitlines() if l.startswith('error'))[:300])
    obs = os.path.join(d, 'obs')
    rc, _, err = sh([HARNESS, 'observe', str(seed), str(n), obs], d, 90)
    if rc != 0:
        return dict(res, note='observing the real code: ' + (err or 'it died (%s)' % rc)[-200:])
    rc, out, err = sh([prog, obs], d, 90)
    if rc == 0:
        a, b = out.split()
        return dict(res, status='agree', cases=int(a), parsed=int(b), fns=fns)
    if rc != 1:
        return dict(res, note='running the extraction: ' + (err or 'it died (%s)' % rc)[-200:])
    # a real difference, or code whose result varies from run to run?
    case = out.split('\n', 1)[1].split('\nreal: ')[0]
    open(os.path.join(d, 'case'), 'w').write(case + '\n')
    real, mine = set(), set()
    for _ in range(25):
        rc, _, _ = sh([HARNESS, 'observe-case', os.path.join(d, 'case'), os.path.join(d, 'o1')], d, 30)
        if rc == 0: real.add(open(os.path.join(d, 'o1')).read())
        rc, o, _ = sh([prog, os.path.join(d, 'o1'), 'show'], d, 30)
        if rc == 0: mine.add(o)
    if real & mine or len(real) != 1:
        return dict(res, note='the real code gives varying results')
    return dict(res, status='differs', note=out[:3000])


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


if __name__ == '__main__':
    import tempfile, time
    t0 = time.time()
    with tempfile.TemporaryDirectory() as w:
        print(run(os.path.join(unit.VERIF, 'extractor/target/release/extractor'), sys.argv[1] if len(sys.argv) > 1 else '/repo/src', w, 1, 20000)['status'], round(time.time() - t0, 1))
