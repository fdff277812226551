//! Case generators: an exhaustive small universe, then random grammars and sentences.
use crate::case::Case;
use crate::oracle::{G, S};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.next() % k as u64) as usize } }
    pub fn p(&mut self, pct: u64) -> bool { self.next() % 100 < pct }
}
pub const EPS: S = 0;
const T0: S = 100;

/// The exhaustive universe: non-terminals {1,2}, terminals {100,101}, the empty symbol 0, all outputs of
/// length 1 or 2 and [0]; all ordered lists of up to `k` productions; initial symbol 1.
pub struct Tiny { pub outs: Vec<Vec<S>>, pub k: usize }
impl Tiny {
    pub fn new(k: usize) -> Tiny {
        let sy = [1, 2, T0, T0 + 1];
        let mut outs: Vec<Vec<S>> = vec![vec![EPS]];
        for a in sy { outs.push(vec![a]); }
        for a in sy { for b in sy { outs.push(vec![a, b]); } }
        Tiny { outs, k }
    }
    pub fn total(&self) -> u64 {
        let m = 2 * self.outs.len() as u64;
        (0..=self.k as u32).map(|i| m.pow(i)).sum()
    }
    pub fn get(&self, mut i: u64) -> Vec<(S, Vec<S>)> {
        let m = 2 * self.outs.len() as u64;
        let mut len = 0;
        while i >= m.pow(len) { i -= m.pow(len); len += 1; }
        let mut r = vec![];
        for _ in 0..len {
            let x = (i % m) as usize;
            i /= m;
            r.push(((1 + x / self.outs.len()) as S, self.outs[x % self.outs.len()].clone()));
        }
        r
    }
    pub fn tokens(n: usize) -> Vec<Vec<S>> {
        let mut r: Vec<Vec<S>> = vec![];
        let mut cur: Vec<Vec<S>> = vec![vec![]];
        for _ in 0..n {
            let mut nx = vec![];
            for c in &cur { for t in [T0, T0 + 1] { let mut d = c.clone(); d.push(t); nx.push(d); } }
            r.extend(nx.iter().cloned());
            cur = nx;
        }
        r
    }
}

pub fn random_grammar(r: &mut Rng, big: bool) -> (S, S, Vec<(S, Vec<S>)>) {
    if r.p(if big { 30 } else { 8 }) { return special(r); }
    let nn = if big { 1 + r.n(20) } else { 1 + r.n(5) };
    let nt = if big { 1 + r.n(10) } else { 1 + r.n(4) };
    let np = nn + r.n(nn * 2 + 2);
    let maxlen = 1 + r.n(if big { 8 } else { 5 });
    let nlr = r.p(60);
    let eps_pct = [5, 15, 30][r.n(3)];
    let nt_pct = [25, 50, 70][r.n(3)];
    let rep = [0, 20, 50][r.n(3)];
    let mut ps: Vec<(S, Vec<S>)> = vec![];
    for i in 0..np {
        let a = if i < nn && r.p(85) { i } else { r.n(nn) };
        let mut out: Vec<S> = vec![];
        if r.p(eps_pct) { ps.push((1 + a as S, vec![EPS])); continue; }
        let len = 1 + r.n(maxlen);
        let mut safe = false; // a terminal has been emitted, anything may follow
        for _ in 0..len {
            if !out.is_empty() && r.p(rep) {
                let l = *out.last().unwrap();
                if l >= T0 || !nlr || safe || (l as usize) > a + 1 { out.push(l); continue; }
            }
            if r.p(nt_pct) {
                if nlr && !safe {
                    if a + 1 < nn { out.push((2 + a + r.n(nn - a - 1)) as S); } else { out.push(T0 + r.n(nt) as S); safe = true; }
                } else { out.push(1 + r.n(nn) as S); }
            } else { out.push(T0 + r.n(nt) as S); safe = true; }
        }
        ps.push((1 + a as S, out));
    }
    // shuffle sometimes, duplicate a production sometimes
    if r.p(40) { for i in (1..ps.len()).rev() { let j = r.n(i + 1); ps.swap(i, j); } }
    if r.p(15) && !ps.is_empty() { let i = r.n(ps.len()); let p = ps[i].clone(); let j = r.n(ps.len() + 1); ps.insert(j, p); }
    let mut start = 1;
    if r.p(4) { start = [2, T0, EPS, 77][r.n(4)]; }
    // wrap: S' -> S $
    if r.p(45) { ps.insert(0, (60, vec![start, 120])); start = 60; if r.p(25) { ps.insert(r.n(ps.len()), (60, vec![T0, 1, 120])); } }
    (EPS, start, ps)
}

/// chains, long outputs, lists: shapes whose size matters
fn special(r: &mut Rng) -> (S, S, Vec<(S, Vec<S>)>) {
    let n = 2 + r.n(30);
    let mut ps: Vec<(S, Vec<S>)> = vec![];
    let end = 120;
    match r.n(14) {
        0 => { for i in 1..n { ps.push((i as S, vec![(i + 1) as S])); } ps.push((n as S, vec![T0])); if r.p(50) { ps.push((n as S, vec![EPS])); } }
        1 => { for i in 1..n { ps.push((i as S, vec![(i + 1) as S, T0 + 1])); } ps.push((n as S, vec![T0])); }
        2 => { // nullable run
            let m = 2 + r.n(8);
            let mut o: Vec<S> = (0..m).map(|i| 2 + i as S).collect();
            if r.p(50) { o.push(end); }
            ps.push((1, o));
            for i in 0..m { ps.push((2 + i as S, vec![EPS])); if r.p(70) { ps.push((2 + i as S, vec![T0 + i as S])); } }
        }
        3 => { ps.push((1, vec![2, end])); ps.push((2, vec![T0, 2])); ps.push((2, vec![EPS])); }
        4 => { ps.push((1, vec![2, end])); ps.push((2, vec![3, 4])); ps.push((4, vec![T0 + 1, 3, 4])); ps.push((4, vec![EPS])); ps.push((3, vec![T0])); ps.push((3, vec![T0 + 2, 2, T0 + 3])); }
        5 => { // FOLLOW chains in reverse declaration order
            for i in (1..n).rev() { ps.push((i as S, vec![T0, (i + 1) as S])); }
            ps.push((n as S, vec![T0 + 1]));
            ps.push((60, vec![1, end]));
            if r.p(50) { ps.push((n as S, vec![EPS])); }
        }
        6 => { // many alternatives sharing a prefix: backtracking
            let m = 2 + r.n(5);
            ps.push((1, vec![2, T0 + 3, end]));
            for i in 0..m { let mut o = vec![T0; 1 + i]; if r.p(50) { o.push(T0 + 1) } ps.push((2, o)); }
        }
        7 => { // one long output
            let m = 6 + r.n(30);
            let k = 1 + r.n(4);
            let mut o: Vec<S> = vec![];
            for i in 0..m { if r.p(35) { o.push(2 + r.n(k) as S) } else { o.push(T0 + (i % (1 + k)) as S) } }
            for i in 0..k { ps.push((2 + i as S, vec![T0 + 10 + i as S])); if r.p(40) { ps.push((2 + i as S, vec![EPS])); } if r.p(30) { ps.push((2 + i as S, vec![T0 + 10 + i as S, T0 + 10 + i as S])); } }
            if r.p(70) { o.push(end); }
            ps.push((1, o.clone()));
            if r.p(30) { let l = o.len(); o[l - 1] = T0 + 9; ps.push((1, o)); }
        }
        8 => { // many alternatives, some of them sharing their first symbol
            let m = 3 + r.n(20);
            let w = [1, 3, 19][r.n(3)];
            ps.push((1, vec![2, end]));
            if r.p(40) { ps.push((1, vec![2, 1])); }
            for i in 0..m { let mut o = vec![T0 + r.n(w) as S]; for _ in 0..r.n(4) { o.push(if r.p(15) { 3 } else { T0 + r.n(w) as S }) } if r.p(50) { o.push(T0 + (i % 19) as S) } ps.push((2, o)); }
            ps.push((3, vec![T0])); ps.push((3, vec![T0 + 1])); if r.p(50) { ps.push((3, vec![EPS])); }
        }
        9 => { // nesting and lists
            let (a, b, c) = (T0, T0 + 1, T0 + 2);
            ps.push((1, vec![2, end]));
            ps.push((2, vec![3, 4])); ps.push((4, vec![c, 2])); ps.push((4, vec![EPS]));
            ps.push((3, vec![a, 2, b])); ps.push((3, vec![T0 + 3])); if r.p(50) { ps.push((3, vec![a, b])); } if r.p(30) { ps.push((3, vec![T0 + 3, T0 + 4])); }
        }
        10 => { // expressions in layers
            let k = 1 + r.n(8);
            ps.push((1, vec![2, end]));
            for i in 0..k { let x = (2 + 2 * i) as S; ps.push((x, vec![x + 2, x + 1])); ps.push((x + 1, vec![T0 + 1 + i as S, x + 2, x + 1])); ps.push((x + 1, vec![EPS])); }
            let x = (2 + 2 * k) as S;
            ps.push((x, vec![T0])); ps.push((x, vec![T0 + 15, 2, T0 + 16]));
        }
        11 => { // one symbol with a great many alternatives
            let m = 20 + r.n(60);
            ps.push((1, vec![2, end]));
            for i in 0..m { let mut o = vec![T0 + 21 + (i % 90) as S]; for _ in 0..r.n(3) { o.push(T0 + r.n(19) as S) } ps.push((2, o)); }
            if r.p(30) { ps.push((2, vec![EPS])); }
            if r.p(30) { ps.push((3, vec![2, 2])); ps.push((3, vec![T0])); ps.push((1, vec![3, end])); }
        }
        12 => { // large FIRST and FOLLOW sets, put together from several symbols
            let k = 2 + r.n(6);
            let mut j = 0;
            for i in 0..k {
                for _ in 0..1 + r.n(9) { ps.push((10 + i as S, vec![T0 + 21 + (j % 90) as S])); if r.p(90) { j += 1 } }
                if r.p(50) { ps.push((10 + i as S, vec![EPS])); }
            }
            for _ in 0..2 + r.n(3) {
                let mut o: Vec<S> = vec![];
                for _ in 0..1 + r.n(5) { o.push(if r.p(20) { 2 } else { 10 + r.n(k) as S }); }
                if r.p(40) { o.push(end) }
                ps.push((1 + r.n(3) as S, o));
            }
            ps.push((1, vec![2, 3, end])); ps.push((2, vec![T0])); ps.push((3, vec![EPS]));
        }
        _ => { ps.push((1, vec![T0, 1, T0 + 1])); ps.push((1, vec![2])); ps.push((2, vec![EPS])); ps.push((60, vec![1, end])); }
    }
    if r.p(50) { for i in (1..ps.len()).rev() { let j = r.n(i + 1); ps.swap(i, j); } }
    let start = if ps.iter().any(|p| p.0 == 60) { 60 } else { 1 };
    (EPS, start, ps)
}

/// a random sentence (or sentential prefix) of symbol `a`
pub fn sentence(r: &mut Rng, g: &G, a: S, fuel: &mut usize, out: &mut Vec<S>) -> bool {
    if a == g.eps { return true; }
    if !g.nts.contains(&a) { out.push(a); return true; }
    if *fuel == 0 || out.len() > 160 { return false; }
    *fuel -= 1;
    let ps: Vec<&Vec<S>> = g.prods.iter().filter(|p| p.0 == a).map(|p| &p.1).collect();
    let tries = 1 + r.n(3);
    let mut best = ps[r.n(ps.len())];
    if *fuel < 12 { for _ in 0..tries + 2 { let q = ps[r.n(ps.len())]; if q.iter().filter(|s| g.nts.contains(s)).count() < best.iter().filter(|s| g.nts.contains(s)).count() { best = q; } } }
    for s in best { if !sentence(r, g, *s, fuel, out) { return false; } }
    true
}

pub fn random_tokens(r: &mut Rng, eps: S, start: S, ps: &[(S, Vec<S>)], cap: usize, valid_only: bool) -> Vec<S> {
    let g = G::new(eps, start, ps);
    let ts: Vec<S> = g.ts.iter().copied().filter(|t| *t != eps).collect();
    let mut toks = vec![];
    if valid_only || r.p(80) {
        let mut fuel = if cap > 60 { [60, 150, 400][r.n(3)] } else { [8, 16, 60][r.n(3)] };
        sentence(r, &g, start, &mut fuel, &mut toks);
        toks.truncate(cap);
        if !valid_only || r.p(10) {
            match r.n(6) {
                0 => { let k = r.n(toks.len() + 1); toks.truncate(k); }
                1 => if !toks.is_empty() && !ts.is_empty() { let i = r.n(toks.len()); toks[i] = ts[r.n(ts.len())]; },
                2 => if !toks.is_empty() { let i = r.n(toks.len()); toks.remove(i); },
                3 => if !ts.is_empty() { let i = r.n(toks.len() + 1); toks.insert(i, ts[r.n(ts.len())]); },
                4 => { for _ in 0..r.n(3) { if !ts.is_empty() { toks.push(ts[r.n(ts.len())]); } } }
                _ => {}
            }
        } else if r.p(30) { for _ in 0..r.n(3) { if !ts.is_empty() { toks.push(ts[r.n(ts.len())]); } } }
    } else {
        let n = 1 + r.n(7);
        for _ in 0..n { toks.push(if ts.is_empty() || r.p(2) { [200, 1, 0][r.n(3)] } else { ts[r.n(ts.len())] }); }
    }
    toks.truncate(cap);
    toks
}

pub fn needs_tokens(p: &str) -> bool { matches!(p, "C06" | "C07" | "C08" | "C09" | "C10" | "C12") }

/// an input of several hundred tokens for a grammar that takes each of them without much search
fn long_case(r: &mut Rng, prop: &str) -> Case {
    let (a, b, end) = (T0, T0 + 1, 120);
    let n = if prop == "C07" { 20 + r.n(30) } else if prop == "C10" { 40 + r.n(110) } else { 100 + r.n(500) };
    let mut toks: Vec<S> = vec![];
    let mut tail = true;
    let ps: Vec<(S, Vec<S>)> = match r.n(5) {
        3 | 4 => { // the same few symbols again and again
            let k = 1 << r.n(3);
            let o: Vec<S> = (0..n).map(|i| if i % k == 1 { 2 } else { T0 + (i % k) as S }).collect();
            for s in &o { toks.push(if *s == 2 { T0 + 9 } else { *s }) }
            tail = r.p(30);
            let mut o = o;
            if tail { o.push(end) }
            vec![(1, o), (2, vec![T0 + 9])]
        }
        0 => { toks = vec![a; n]; vec![(1, vec![2, end]), (2, vec![a, 2]), (2, vec![EPS])] }
        1 => { for i in 0..n { if i > 0 { toks.push(b) } toks.push(a) } vec![(1, vec![2, end]), (2, vec![a, 3]), (3, vec![b, 2]), (3, vec![EPS])] }
        _ => { let o: Vec<S> = (0..n).map(|_| if r.p(30) { 2 } else if r.p(50) { a } else { b }).collect(); for s in &o { toks.push(if *s == 2 { T0 + 2 } else { *s }) } let mut o = o; o.push(end); vec![(1, o), (2, vec![T0 + 2])] }
    };
    if tail || prop == "C07" { toks.push(end) }
    if prop != "C07" {
        match r.n(6) { 0 => { let i = r.n(toks.len()); toks[i] = b; } 1 => { let i = r.n(toks.len()); toks.remove(i); } 2 => { toks.pop(); } 3 => toks.extend([end, a, b]), _ => {} }
    }
    Case { prop: prop.to_string(), eps: EPS, start: 1, prods: ps, toks, solver: if prop == "C10" { Some(r.next() % 32) } else { None } }
}

pub fn random_case(r: &mut Rng, prop: &str) -> Case {
    if needs_tokens(prop) && r.next() % 1000 < 4 { return long_case(r, prop); }
    let big = r.p(if needs_tokens(prop) { 8 } else { 25 });
    let (eps, start, mut ps) = random_grammar(r, big);
    if prop == "C02" && r.p(60) && !ps.is_empty() {
        for _ in 0..1 + r.n(2) {
            let i = r.n(ps.len());
            match r.n(4) {
                0 => ps[i].0 = eps,
                1 => ps[i].1.clear(),
                2 => { let k = r.n(ps[i].1.len() + 1); ps[i].1.insert(k, eps); }
                _ => { if !ps[i].1.is_empty() { let k = r.n(ps[i].1.len()); ps[i].1[k] = eps; } }
            }
        }
        if r.p(30) { for i in (1..ps.len()).rev() { let j = r.n(i + 1); ps.swap(i, j); } }
    }
    if r.p(3) { ps.clear(); }
    let mut toks = vec![];
    if needs_tokens(prop) {
        let cap = if big || r.p(4) { 140 } else if prop == "C07" { if r.p(10) { 60 } else { 14 } } else if r.p(5) { 40 } else { 10 };
        toks = random_tokens(r, eps, start, &ps, cap, prop == "C07");
    }
    let solver = match prop {
        "C10" => Some(r.next() % 4096),
        "C06" | "C07" | "C09" => if r.p(50) { let x = r.next() % 4096; Some(if x / 8 % 5 == 4 { x % 8 } else { x }) } else { None },
        _ => None,
    };
    // what a solver answers can make backtracking expensive in ways the reference does not count
    if solver.is_some() && prop != "C07" { toks.truncate(12); }
    Case { prop: prop.to_string(), eps, start, prods: ps, toks, solver }
}
