"""Overlay files (contracts) merged mechanically into the extracted functions; Verus run; failures mapped back."""
import json, os, re, subprocess, time, difflib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = os.path.join(VERIF, 'specs')


class Lost(Exception):
    """the contract has nothing to attach to in the current source"""


class Unit:
    def __init__(self, name):
        self.name = name
        self.imports, self.inits, self.spec, self.fns, self.order, self.traits = [], [], '', {}, [], {}
        self.after, self.ghost = [], []
        cur = None
        for line in open(os.path.join(SPECS, name + '.ov')):
            if line.startswith('@'):
                w = line[1:].split()
                if w[0] == 'unit':
                    continue
                if w[0] == 'import':
                    self.imports += w[1:]; cur = None
                elif w[0] == 'include':
                    self.spec += open(os.path.join(SPECS, w[1])).read(); cur = None
                elif w[0] == 'spec':
                    cur = ('spec',)
                elif w[0] == 'fn':
                    self.fn = w[1]; self.order.append(w[1]); self.fns[w[1]] = {}; cur = None
                    if 'trusted' in w[2:]: self.fns[w[1]][('trusted',)] = '1'
                elif w[0] == 'trait':
                    cur = ('trait', w[1]); self.traits[w[1]] = ''
                else:
                    cur = tuple(w); self.fns[self.fn].setdefault(cur, '')
                    if w[0] == 'call': self.after.append((self.fn, w[1]))
                    if w[0] == 'params': self.ghost.append(self.fn)
                    if w[0] == 'gh' and w[1].split('::')[0] in self.traits: self.ghost.append(w[1])
            elif cur == ('spec',):
                self.spec += line
            elif cur and cur[0] == 'trait':
                self.traits[cur[1]] += line
            elif cur:
                self.fns[self.fn][cur] += line

    def lines(self):
        """extractor request"""
        out = [('sig ' if ('trusted',) in self.fns[k] else 'fn ') + k for k in self.order]
        for i in self.imports:
            out += ['sig ' + k for k in Unit(i).order if k not in self.order]
            out += ['ghost ' + k for k in Unit(i).ghost]
        out += ['after %s %s' % a for a in self.after]
        out += ['ghost ' + k for k in self.ghost]
        out += ['trait ' + t for t in self.traits]
        return '\n'.join(dict.fromkeys(out)) + '\n'


def rustfmt(text):
    r = subprocess.run(['rustfmt', '--edition', '2021', '--config', 'max_width=120'], input=text, capture_output=True, text=True)
    return r.stdout if r.returncode == 0 else text


def extract(exe, src, req):
    r = subprocess.run([exe, src, '/dev/stdin'], input=req, capture_output=True, text=True)
    if r.returncode != 0:
        raise Lost('extraction failed: ' + r.stderr[-400:])
    out = {}
    for sec in re.split(r'^=== ', r.stdout, flags=re.M)[1:]:
        h, _, b = sec.partition('\n')
        w = h.split()
        if w[0] == 'types':
            out['types'] = b
        elif w[0] == 'fn':
            d = dict(x.partition('=')[::2] for x in w[2:])
            out[w[1]] = dict(text=b.strip(), loops=int(d['loops']), kinds=[x for x in d['kinds'].split(',') if x],
                             params=[x for x in d['params'].split(',') if x], locals=[x for x in d['locals'].split(',') if x])
        elif w[0] == 'missing':
            out[w[1]] = dict(missing=True)
        elif w[0] == 'error':
            if w[1] == '*':
                raise Lost(' '.join(w[2:]))
            out[w[1]] = dict(error=' '.join(w[2:]))
    return out


def tagged(text, prop):
    """keep the lines for this property: `//@C01,C02` at the end of a line restricts it, `//@begin C01,C02` … `//@end` a block"""
    res = []
    out = False
    for l in text.splitlines():
        m = re.fullmatch(r'\s*//@(begin|end)\s*([\w,]*)\s*', l)
        if m:
            out = m.group(1) == 'begin' and prop not in m.group(2).split(',')
            continue
        if out:
            continue
        m = re.search(r'//@(!?)([\w,]+)\s*$', l)
        if m:
            hit = prop in m.group(2).split(',')
            if hit == bool(m.group(1)):
                continue
            l = l[:m.start()].rstrip()
        res.append(l)
    return '\n'.join(res)


IDENT = re.compile(r'(?<![\w.])[A-Za-z_]\w*')


def skeleton(text, keys):
    """what the loop invariants of a contract were written for: the loops, their kinds and exits, and the order of the calls"""
    calls = {n for n in (k.split('::')[-1] for k in keys) if not re.match(r'new$|is_|get_(?!.*process)', n)}
    text = re.sub(r'"[^"]*"|//[^\n]*', '""', text)
    out, loops, depth, pend = [], [], 0, None
    for m in re.finditer(r'[{}]|\b(?:loop|while|for|break|continue|return)\b|\b(\w+)\s*(?:::\s*<[^()]*>\s*)?\(', text):
        w = m.group(0)
        if m.group(1):
            if m.group(1) in calls and not re.search(r'\bfn\s+$', text[:m.start()][-8:]): out.append(m.group(1))
        elif w == '{':
            depth += 1
            if pend: loops.append(depth); out.append(pend + '{'); pend = None
        elif w == '}':
            if loops and loops[-1] == depth: loops.pop(); out.append('}')
            depth -= 1
        elif w in ('loop', 'while'): pend = w
        elif w in ('break', 'continue', 'return'):
            if loops: out.append(w)
    puts = len(re.findall(r'\bcell_put\s*\(', text))
    return ((' '.join(out) if any(x.endswith('{') for x in out) else '') + (' cells %d' % puts if puts else '')).strip()


def shape(text):
    """per loop the variable it accumulates into, and per local what it is bound to"""
    accs = {}
    for m in re.finditer(r'__inv!\("(\d+)"', text):
        i, depth = m.start(), 1
        while depth and i < len(text):
            depth += {'{': 1, '}': -1}.get(text[i], 0)
            i += 1
        body = text[m.start():i]
        ys = re.findall(r'(?<![\w.])(\w+)\.(?:push|insert|v_insert_pair|v_add)\(', body) or re.findall(r'(?<![\w.])(?<!let )(?<!mut )([a-z]\w*) = ', body)
        ys = [y for y in ys if re.search(r'let mut %s\b' % y, text[:m.start()])]
        if ys: accs[m.group(1)] = ys[-1]
    inits = {}
    for m in re.finditer(r'\blet (?:mut )?(\w+)(?:\s*:[^=;]*)?\s*=\s*([^;{]*);', text):
        inits.setdefault(m.group(1), re.sub(r'(?<=[a-z])__\d+|\s+', '', m.group(2)))
    return dict(accs=accs, inits=inits, words=sorted(set(re.findall(r'\b[A-Za-z_]\w*', text))))


LOOPN = re.compile(r'\b(it|all|i|x|acc|end)__(\d+)\b')


def loop_sigs(text):
    """per loop: the loop around it and the words of its body"""
    out, span = [], []
    for k in range(len(re.findall(r'__inv!\("\d+"', text))):
        m = re.search(r'__inv!\("%d"' % k, text)
        if not m: return []
        i, depth = m.start(), 1
        while depth and i < len(text):
            depth += {'{': 1, '}': -1}.get(text[i], 0)
            i += 1
        body = text[m.start():i]
        init = re.search(r'let (?:mut )?it__%d\s*(?::[^=;]*)?=([^;]*);' % k, text)
        head = re.search(r'\b(?:loop|while\b[^{]*)\s*\{\s*$', text[:m.start()][-400:])
        body = (init.group(1) if init else '') + ' ' + (head.group(0) if head else '') + body
        body = re.sub(r'__\w+!\([^)]*\)|"[^"]*"', ' ', body)
        w = {}
        for x in re.findall(r'[A-Za-z_]\w*|==|!=|&&|\|\||!|[-+*<>]', body):
            x = re.sub(r'(?<=\w)__\d+$', '', x)
            if x not in ('t', 'let', 'mut'): w[x] = w.get(x, 0) + 1
        par = [j for j, (a, b) in enumerate(span) if a < m.start() < b]
        out.append(dict(parent=par[-1] if par else -1, words=w))
        span.append((m.start(), i))
    return out


def alike(a, b):
    n = sum(a.values()) + sum(b.values())
    return 2 * sum(min(c, b.get(x, 0)) for x, c in a.items()) / n if n else 1.0


def match_loops(base, bkinds, cur, ckinds):
    """current loop -> the loop of the pinned tree its contract is taken from (None: no contract). By position, unless the
    loops of the pinned tree sit in another order or number than now and their bodies say so"""
    ident = list(range(len(cur)))
    if not base or len(base) != len(bkinds) or len(cur) != len(ckinds): return ident
    kind = lambda x: x.split('+')[0] if x.split('+')[0] in ('while', 'loop', 'range') else 'it'
    sim = [[alike(c['words'], b['words']) for b in base] for c in cur]
    n = len(cur)
    if n == len(base):
        best = [None, -1.0]
        same = all(kind(ckinds[k]) == kind(bkinds[k]) and cur[k]['parent'] == base[k]['parent'] for k in range(n))
        tot = sum(sim[k][k] for k in range(n)) if same else -1.0
        def go(k, m, t):
            if k == n:
                if t > best[1]: best[:] = [list(m), t]
                return
            for j in range(n):
                if j in m or kind(ckinds[k]) != kind(bkinds[j]): continue
                p = cur[k]['parent']
                if (m[p] if p >= 0 else -1) != base[j]['parent']: continue
                go(k + 1, m + [j], t + sim[k][j])
        go(0, [], 0.0)
        return best[0] if best[0] and best[1] > tot + 0.1 else ident
    m = []
    for k in range(n):
        p = cur[k]['parent']
        pm = m[p] if p >= 0 else -1
        c = [(sim[k][j], -abs(j - k), j) for j in range(len(base)) if kind(ckinds[k]) == kind(bkinds[j])]
        good = [x for x in c if base[x[2]]['parent'] == pm]
        c = good or c
        b = max(c) if c else (0, 0, None)
        m.append(b[2] if b[0] >= 0.4 else None)
    return m


def move_loops(sects, m):
    """the sections of loop m[k] become those of loop k"""
    inv = {}
    for k, j in enumerate(m):
        if j is not None: inv.setdefault(j, k)
    def ren(t, at=None):
        def f(x):
            j = int(x.group(2))
            k = at[1] if at and at[0] == j else inv.get(j)
            return '%s__%d' % (x.group(1), k) if k is not None else '%s__%d' % (x.group(1), 900 + j)
        return LOOPN.sub(f, t)
    out = {s: ren(t) for s, t in sects.items() if s[0] != 'loop'}
    for k, j in enumerate(m):
        for s, t in sects.items():
            if s[0] == 'loop' and j is not None and s[1] == str(j): out[('loop', str(k)) + s[2:]] = ren(t, (j, k))
    return out


def expanded(inits):
    """what each local is bound to, with the locals in it written out"""
    short = {re.sub(r'(?<=[a-z])__\d+$', '', n): e for n, e in inits.items()}
    def go(e, seen):
        return re.sub(r'(?<![\w.:])[a-z]\w*(?![\w(!]|::)', lambda m: go(short[m.group(0)], seen | {m.group(0)}) if m.group(0) in short and m.group(0) not in seen and len(e) < 2000 else m.group(0), e)
    return {n: go(e, {re.sub(r'(?<=[a-z])__\d+$', '', n)}) for n, e in inits.items()}


def pieces(t, clauses):
    """a contract section cut into clauses (after `,` at the end of a line) or statements"""
    out, depth, start, i = [], 0, 0, 0
    while i < len(t):
        c = t[i]
        if t.startswith('//', i):
            while i < len(t) and t[i] != '\n': i += 1
            continue
        if c in '([{': depth += 1
        if c in ')]}': depth -= 1
        end = depth == 0 and (re.match(r',[ \t]*(//[^\n]*)?(\n|$)', t[i:]) if clauses else c == ';' or c == '}' and not re.match(r'\}\s*(;|else\b|[.,)])', t[i:]))
        if end:
            out.append(t[start:i + 1])
            start = i + 1
        i += 1
    return out + ([t[start:]] if t[start:].strip() else [])


def without(t, gone, clauses):
    """drop what mentions a name that is not there any more: a hint or an invariant less cannot make a proof unsound"""
    out = []
    for p in pieces(t, clauses):
        if gone & set(IDENT.findall(re.sub(r'//[^\n]*', '', p))):
            m = re.match(r'(\s*proof\s*\{)(.*)\}\s*$', p, re.S)
            if m and not clauses: out.append(m.group(1) + without(m.group(2), gone, False) + '}\n')
            else: gone |= set(re.findall(r'\blet (?:ghost )?(?:mut )?(\w+)', p))
        else: out.append(p)
    return ''.join(out)


def rename_map(base, cur):
    """names of the pinned tree -> names of the current tree, by position"""
    m = {}
    for op, a, b, c, d in difflib.SequenceMatcher(None, base, cur, autojunk=False).get_opcodes():
        if op == 'replace' and b - a == d - c:
            for x, y in zip(base[a:b], cur[c:d]):
                if x not in cur and y not in base:
                    m[x] = y
    return m


def fix_names(overlay, body, rn, before=None, own=()):
    """resolve the overlay's local names: renamed locals, and locals of inlined code (`x` -> `x__7`)"""
    have = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*(?![\w])(?!\s*:(?!:))', body)) | set(re.findall(r'\blet (?:ghost )?(?:mut )?(\w+)', body)) | set(re.findall(r'[(,]\s*(?:mut )?(\w+):', body.split('->')[0]))
    def f(mt):
        n = mt.group(0)
        if n == 'r' or n in own: return n
        n = rn.get(n, n)
        if n in have:
            return n
        c = sorted({h for h in have if re.fullmatch(re.escape(n) + r'(__\d+)+', h)})
        if len(c) == 1:
            return c[0]
        if c and before is not None:
            at = [(max((m.start() for m in re.finditer(r'\b%s\b' % h, before)), default=-1), h) for h in c]
            at.sort()
            if at[-1][0] >= 0: return at[-1][1]
        return n
    return IDENT.sub(f, overlay)


ITERK = ('iter', 'keys', 'values', 'into_iter', 'into', 'var', 'drain')


def merge_fn(key, info, sects, prop, base, trusted, can=None):
    """info: extractor output for one function; sects: overlay sections"""
    if info is None or info.get('missing'):
        raise Lost('function %s is gone' % key)
    if info.get('error'):
        raise Lost('function %s: %s' % (key, info['error']))
    body = rustfmt(info['text'])
    rn, gone = {}, set()
    if base:
        rn = rename_map(base['params'], info['params'])
        rn.update(rename_map(base['locals'], info['locals']))
        need = any(s[0] in ('loop', 'call') for s in sects)
        if not trusted and need and (base['loops'] or info['loops']):
            alts = {s[2:]: t for s, t in sects.items() if s[0] == 'alt' and s[1] == str(info['loops'])} if base['loops'] != info['loops'] else {}
            sects = {s: t for s, t in sects.items() if s[0] != 'alt' and not (alts and s[0] == 'loop')}
            sects.update(alts)
            if alts: info['fuzzy'] = True
            m = list(range(base['loops'])) if alts else match_loops(base.get('sigs'), base['kinds'], loop_sigs(body), info['kinds'])
            if m != list(range(base['loops'])):
                info['fuzzy'] = True
                sects = move_loops(sects, m)
                for x in (LOOPN.findall(' '.join(sects.values()))):
                    if int(x[1]) >= 900: gone.add('__'.join(x))
    def mark(what):
        if can is None: return ''
        can.append('%s %s' % (key, what))
        return '\nproof { if canary_flag(%d) { assert(false); } }\n' % (len(can) - 1)
    g = lambda *k: tagged(sects.get(tuple(k), ''), prop)
    if base and not trusted:
        if any('+' in x or '_rev' in x for x in info['kinds']): info['fuzzy'] = True
        have = set(re.findall(r'\b[A-Za-z_]\w*', body))
        there = lambda n: n in have or any(re.fullmatch(re.escape(n) + r'(__\d+)+', h) for h in have)
        old, cur = base.get('shape', {}), shape(body)
        was_x, now_x = expanded(old.get('inits', {})), expanded(cur['inits'])
        was = {re.sub(r'(?<=[a-z])(__\d+)+$', '', w) for w in old.get('words', [])} | set(old.get('words', []))
        for n in sorted(set(base['locals']) | set(old.get('accs', {}).values()) | {w for w in old.get('words', []) if re.fullmatch(r'[a-z]+__\d+', w) and any(w in x for x in sects.values())}):
            if n not in was or there(rn.get(n, n)): continue
            c = {cur['accs'][k] for k, y in old.get('accs', {}).items() if re.sub(r'(?<=[a-z])__\d+$', '', y) == n or y == n if k in cur['accs']}
            c = c or {y for y, e in now_x.items() if e == was_x.get(n, '?')}
            info['fuzzy'] = True
            if len(c) == 1: rn[n] = c.pop()
            else: gone.add(n)
        while gone:
            k = len(gone)
            for s, x in sects.items(): without(tagged(x, prop), gone, s[0] == 'loop' and s[2] in ('inv', 'ens', 'dec'))
            if len(gone) == k: break
    own = {m for t in sects.values() for m in re.findall(r'\blet ghost (?:mut )?(\w+)', t)}
    def names(t, where=body, before=None, clauses=False):
        if t and gone: t = without(t, gone, clauses)
        return fix_names(t, where, rn, before, own) if t else t
    # header
    m = re.search(r'->\s*RET<', body)
    i, depth = m.end(), 1
    while depth:
        if body[i] == '<': depth += 1
        elif body[i] == '>' and body[i - 1] != '-': depth -= 1
        i += 1
    ty = body[m.end():i - 1].strip().rstrip(',')
    head, rest = body[:m.start()], body[i:]
    gp = g('params').strip()
    if gp:
        j = head.rstrip().rfind(')')
        inner = head[:j].rstrip()
        head = inner + ('' if inner.endswith('(') or inner.endswith(',') else ',') + ' ' + gp + ')'
    sig = names(g('sig'), body)
    attr = g('attr').strip()
    pm = re.search(r'\bpub fn\b', head)
    am = ('#[verifier::external_body]\n' if trusted else ('#[verifier::loop_isolation(false)]\n' + attr + '\n'))
    if trusted and 'exec_allows_no_decreases_clause' in attr: pass
    head = head[:pm.start()] + am + head[pm.start():]
    head = head.rstrip() + ' -> (r: ' + ty + ')\n' + sig + '\n'
    if trusted:
        # the body is proved in its own unit
        k = rest.index('{')
        tail = '\n}' if body.lstrip().startswith('impl') else ''
        return head + '{ unimplemented!() }' + tail, ty
    rest = re.sub(r'__sig!\("[^"]*"\);', '', rest)
    rest = re.sub(r'__entry!\("[^"]*"\);', lambda _: names(g('entry')) + mark('entry'), rest, count=1)
    # loops
    for k in range(info['loops']):
        kind = info['kinds'][k].split('+')[0]
        pat = re.search(r'((?:\'\w+:\s*)?(?:loop|while [^{]*))\s*\{\s*__inv!\("%d",\s*([^)]*)\);' % k, rest)
        if not pat:
            raise Lost('loop %d of %s' % (k, key))
        ids = [x.strip() for x in pat.group(2).split(',') if x.strip()]
        pre = rest[:pat.start()]
        inv = names(g('loop', str(k), 'inv'), before=pre, clauses=True)
        ens = names(g('loop', str(k), 'ens'), before=pre, clauses=True)
        dec = names(g('loop', str(k), 'dec'), before=pre, clauses=True)
        noauto = ('loop', str(k), 'noauto') in sects
        out = ''
        before = names(g('loop', str(k), 'before'), before=pre)
        bs = names(g('loop', str(k), 'bs'), before=pre)
        if prop not in sects.get(('loop', str(k), 'dead'), '').split():  # unreachable under this property's assumptions
            bs += mark('loop %d' % k)
        if ids and not noauto and kind != 'range':
            it = ids[0]
            before = 'let ghost all__%d = %s.all(); proof { axiom_pos(&%s); } ' % (k, it, it) + before
            bs = 'let ghost i__%d: int = %s.pos() - 1; ' % (k, it) + bs
            out += '\n    invariant\n        %s.all() == all__%d, %s.pos() <= all__%d.len(),\n%s' % (it, k, it, k, inv)
            out += '\n    ensures\n        %s.pos() == all__%d.len(),\n%s' % (it, k, ens)
            out += '\n    decreases all__%d.len() - %s.pos(),\n' % (k, it)
        else:
            if inv.strip(): out += '\n    invariant\n' + inv
            if ens.strip(): out += '\n    ensures\n' + ens
            if kind == 'range' and not dec.strip() and 'exec_allows_no_decreases_clause' not in attr: dec = '        end__%d - i__%d,' % (k, k)
            if dec.strip(): out += '\n    decreases\n' + dec + '\n'
        la = '#[verifier::allow_complex_invariants]\n' if '\n    ensures\n' in out else ''
        rest = rest[:pat.start()] + la + pat.group(1).rstrip() + out + '{\n' + rest[pat.end():]
        for mk, txt in (('before', before), ('none', None), ('bs', bs), ('be', None), ('after', None)):
            def put(mt):
                return txt if txt is not None else names(g('loop', str(k), mk), before=mt.string[:mt.start()])
            rest = re.sub(r'__%s!\("%d",\s*[^)]*\);' % (mk, k), put, rest)
    # calls
    def callm(mt, which):
        c, n = mt.group(1), mt.group(2)
        t = g('call', c, n, which) or g('call', c, '*', which) or (g('call', c, '0', which) if '::' in c else '')  # a site that was doubled
        t = names(t, before=mt.string[:mt.start()])
        if which == 'after': t = t.replace('RESULT', mt.group(3))
        return t
    rest = re.sub(r'__bc!\(\s*"([^"]*)",\s*"(\d+)",?\s*\);', lambda m: callm(m, 'before'), rest)
    rest = re.sub(r'__ac!\(\s*"([^"]*)",\s*"(\d+)",\s*(\w+),?\s*\);', lambda m: callm(m, 'after'), rest)
    def ghm(mt):
        k = ('gh', mt.group(2), mt.group(3))
        if k not in sects: k = ('gh', mt.group(2), '*')
        if k not in sects: k = ('gh', mt.group(2), '0')
        if k not in sects: raise Lost('no ghost argument for call %s of %s in %s' % (mt.group(3), mt.group(2), key))
        t = names(g(*k), before=mt.string[:mt.start()]).strip().rstrip(',')
        return (mt.group(1) or '') + t if t else ''
    rest = re.sub(r'(,\s*)?__gh!\(\s*"([^"]*)",\s*"(\d+)"\s*\)', ghm, rest)
    return head + rest, ty


def generate(name, prop, exe, src, baseline, canary=None):
    u = Unit(name)
    ex = extract(exe, src, u.lines())
    parts = [open(os.path.join(SPECS, 'prelude.rs')).read(), '\nverus! {\n']
    if canary is not None: parts.append('pub uninterp spec fn canary_flag(k: int) -> bool;\n')
    types = rustfmt(ex['types'])
    for t, txt in u.traits.items():
        types += '\n' + tagged(txt, prop)
    parts.append('//# types\n' + types)
    lost = []
    spec = ''
    done = set()
    def walk(n):
        nonlocal spec
        un = Unit(n)
        for i in un.imports:
            if i not in done:
                done.add(i)
                walk(i)
        spec += '\n//# spec %s\n' % n + un.spec
        return un
    done.add(name)
    walk(name)
    parts.append(tagged(spec, prop) + '\n')
    allk = {}
    for i in [d for d in done if d != name]:
        for k, s in Unit(i).fns.items():
            allk[k] = (i, s)
    for k, (i, s) in allk.items():
        if k in u.fns: continue
        if k not in ex:
            continue
        t, _ = merge_fn(k, ex[k], s, prop, None, True)
        parts.append('\n//# import %s %s\n%s\n' % (i, k, t))
    for k in u.order:
        t, _ = merge_fn(k, ex.get(k), u.fns[k], prop, baseline.get(name, {}).get(k), ('trusted',) in u.fns[k], canary)
        parts.append('\n//# fn %s\n%s\n//# end\n' % (k, t))
    parts.append('\n} // verus!\nfn main() {}\n')
    return ''.join(parts), ex, u


def run_verus(path, timeout=300, extra=()):
    t0 = time.time()
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time', '--multiple-errors', '50', '--rlimit', '60'] + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(ok=False, timeout=True, errors=[], secs=time.time() - t0, cmd=' '.join(cmd), raw='timeout')
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try:
        js = json.loads(p.stdout)
    except ValueError:
        js = {}
    errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting')]
    res = js.get('verification-results', {})
    return dict(ok=p.returncode == 0 and bool(res.get('success')) and not errs, errors=errs, js=js, results=res, secs=time.time() - t0, cmd=' '.join(cmd), rc=p.returncode, raw=p.stderr[-6000:], timeout=False)
