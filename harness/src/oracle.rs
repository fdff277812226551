//! Independent reference semantics, written from the properties (not from the crate's code).
use std::collections::{BTreeMap, BTreeSet};

pub type S = u8;

#[derive(Clone, Debug)]
pub struct G {
    pub eps: S,
    pub start: S,
    pub prods: Vec<(S, Vec<S>)>,
    pub nts: BTreeSet<S>,
    pub ts: BTreeSet<S>,
    pub nullable: BTreeSet<S>,
    /// FIRST without the empty symbol
    pub first: BTreeMap<S, BTreeSet<S>>,
    pub follow: BTreeMap<S, BTreeSet<S>>,
}

pub fn valid(eps: S, prods: &[(S, Vec<S>)]) -> bool {
    prods.iter().all(|(a, o)| *a != eps && !o.is_empty() && (o.len() == 1 || !o.contains(&eps)))
}

impl G {
    pub fn new(eps: S, start: S, prods: &[(S, Vec<S>)]) -> G {
        let nts: BTreeSet<S> = prods.iter().map(|p| p.0).collect();
        let ts: BTreeSet<S> = prods.iter().flat_map(|p| p.1.iter().copied()).filter(|s| !nts.contains(s)).collect();
        let mut g = G { eps, start, prods: prods.to_vec(), nts, ts, nullable: BTreeSet::new(), first: BTreeMap::new(), follow: BTreeMap::new() };
        // nullable
        loop {
            let mut ch = false;
            for (a, o) in &g.prods {
                if !g.nullable.contains(a) && o.iter().all(|s| *s == eps || g.nullable.contains(s)) {
                    g.nullable.insert(*a);
                    ch = true;
                }
            }
            if !ch { break; }
        }
        // FIRST as reachability: a -> x when x can stand first
        let syms: Vec<S> = g.nts.iter().copied().collect();
        for &a in &syms {
            let mut seen = BTreeSet::new();
            let mut todo = vec![a];
            let mut out = BTreeSet::new();
            while let Some(x) = todo.pop() {
                if !seen.insert(x) { continue; }
                for (b, o) in &g.prods {
                    if *b != x { continue; }
                    for s in o {
                        if *s == eps { break; }
                        if g.nts.contains(s) { todo.push(*s); } else { out.insert(*s); }
                        if !g.nullable.contains(s) { break; }
                    }
                }
            }
            g.first.insert(a, out);
        }
        for &t in g.ts.clone().iter() {
            g.first.insert(t, if t == eps { BTreeSet::new() } else { [t].into_iter().collect() });
        }
        // FOLLOW: direct contributions, then propagate
        let mut fol: BTreeMap<S, BTreeSet<S>> = g.nts.iter().map(|a| (*a, BTreeSet::new())).collect();
        for (_, o) in &g.prods {
            for i in 0..o.len() {
                if !g.nts.contains(&o[i]) { continue; }
                for j in i + 1..o.len() {
                    let f = g.first[&o[j]].clone();
                    fol.get_mut(&o[i]).unwrap().extend(f);
                    if !g.nul(o[j]) { break; }
                }
            }
        }
        loop {
            let mut ch = false;
            for (a, o) in &g.prods {
                for i in 0..o.len() {
                    if g.nts.contains(&o[i]) && o[i + 1..].iter().all(|s| g.nul(*s)) {
                        let f = fol[a].clone();
                        let t = fol.get_mut(&o[i]).unwrap();
                        let n = t.len();
                        t.extend(f);
                        ch |= t.len() != n;
                    }
                }
            }
            if !ch { break; }
        }
        g.follow = fol;
        g
    }
    pub fn nul(&self, s: S) -> bool { s == self.eps || self.nullable.contains(&s) }
    pub fn nul_seq(&self, o: &[S]) -> bool { o.iter().all(|s| self.nul(*s)) }
    pub fn first_seq(&self, o: &[S]) -> BTreeSet<S> {
        let mut r = BTreeSet::new();
        for s in o {
            r.extend(self.first[s].iter().copied());
            if !self.nul(*s) { break; }
        }
        r
    }
    pub fn predict(&self, p: &(S, Vec<S>)) -> BTreeSet<S> {
        let mut r = self.first_seq(&p.1);
        if self.nul_seq(&p.1) { r.extend(self.follow[&p.0].iter().copied()); }
        r
    }
    pub fn ll1(&self) -> bool {
        self.nts.iter().all(|a| {
            let mut seen = BTreeSet::new();
            self.prods.iter().filter(|p| p.0 == *a).all(|p| self.predict(p).into_iter().all(|t| seen.insert(t)))
        })
    }
    /// no symbol can derive a sentential form that starts with itself
    pub fn non_left_recursive(&self) -> bool {
        let mut e: BTreeMap<S, BTreeSet<S>> = BTreeMap::new();
        for (a, o) in &self.prods {
            for s in o {
                if self.nts.contains(s) { e.entry(*a).or_default().insert(*s); }
                if !self.nul(*s) { break; }
            }
        }
        for a in &self.nts {
            let mut seen = BTreeSet::new();
            let mut todo: Vec<S> = e.get(a).map(|x| x.iter().copied().collect()).unwrap_or_default();
            while let Some(x) = todo.pop() {
                if x == *a { return false; }
                if seen.insert(x) { if let Some(n) = e.get(&x) { todo.extend(n.iter().copied()); } }
            }
        }
        true
    }
    pub fn start_ends_with_terminal(&self) -> bool {
        self.prods.iter().filter(|p| p.0 == self.start).all(|p| { let l = *p.1.last().unwrap(); l != self.eps && !self.nts.contains(&l) })
    }
    /// ends[A][p] = set of q such that A derives toks[p..q]
    pub fn chart(&self, toks: &[S]) -> BTreeMap<(S, usize), BTreeSet<usize>> {
        let n = toks.len();
        let mut ch: BTreeMap<(S, usize), BTreeSet<usize>> = BTreeMap::new();
        loop {
            let mut grew = false;
            for (a, o) in &self.prods {
                for p in 0..=n {
                    let mut cur: BTreeSet<usize> = [p].into_iter().collect();
                    for s in o {
                        let mut nx = BTreeSet::new();
                        for &m in &cur {
                            if *s == self.eps { nx.insert(m); }
                            else if self.nts.contains(s) { if let Some(x) = ch.get(&(*s, m)) { nx.extend(x.iter().copied()); } }
                            else if m < n && toks[m] == *s { nx.insert(m + 1); }
                        }
                        cur = nx;
                        if cur.is_empty() { break; }
                    }
                    let e = ch.entry((*a, p)).or_default();
                    let l = e.len();
                    e.extend(cur);
                    grew |= e.len() != l;
                }
            }
            if !grew { return ch; }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree { pub sym: S, pub lex: Option<usize>, pub kids: Vec<Tree> }

struct St<'g> { sym: S, init: usize, end: usize, rest: Vec<&'g Vec<S>>, tree: Tree }

/// Ordered choice with resumption of the nearest earlier symbol, as property C12 states it.
pub struct Ref<'g> { pub g: &'g G, pub toks: &'g [S], pub cands: BTreeMap<(S, S), Vec<&'g Vec<S>>>, pub steps: std::cell::Cell<u64>, pub limit: u64 }

impl<'g> Ref<'g> {
    pub fn new(g: &'g G, toks: &'g [S], limit: u64) -> Self {
        let mut cands = BTreeMap::new();
        for p in &g.prods {
            for t in g.predict(p) { cands.entry((p.0, t)).or_insert_with(Vec::new).push(&p.1); }
        }
        Ref { g, toks, cands, steps: std::cell::Cell::new(0), limit }
    }
    pub fn over(&self) -> bool { self.steps.get() > self.limit }
    pub fn cand(&self, a: S, p: usize) -> Vec<&'g Vec<S>> {
        if p < self.toks.len() { self.cands.get(&(a, self.toks[p])).cloned().unwrap_or_default() } else { vec![] }
    }
    pub fn sym(&self, a: S, p: usize) -> Option<(Tree, usize)> {
        self.first_of(a, p, &self.cand(a, p)).map(|(t, q, _)| (t, q))
    }
    fn first_of(&self, a: S, p: usize, cs: &[&'g Vec<S>]) -> Option<(Tree, usize, usize)> {
        for (i, o) in cs.iter().enumerate() {
            if let Some((kids, q)) = self.prod(o, p) {
                return Some((Tree { sym: a, lex: None, kids }, q, i + 1));
            }
        }
        None
    }
    pub fn prod(&self, o: &[S], p: usize) -> Option<(Vec<Tree>, usize)> {
        let mut st: Vec<St<'g>> = vec![];
        loop {
            self.steps.set(self.steps.get() + 1);
            if self.over() { return None; }
            let k = st.len();
            let cur = st.last().map(|s| s.end).unwrap_or(p);
            if k == o.len() { return Some((st.into_iter().map(|s| s.tree).collect(), cur)); }
            let x = o[k];
            let got: Option<St<'g>> = if self.g.nts.contains(&x) {
                let cs = self.cand(x, cur);
                self.first_of(x, cur, &cs).map(|(tree, end, used)| St { sym: x, init: cur, end, rest: cs[used..].to_vec(), tree })
            } else if x == self.g.eps {
                Some(St { sym: x, init: cur, end: cur, rest: vec![], tree: Tree { sym: x, lex: None, kids: vec![] } })
            } else if cur < self.toks.len() && self.toks[cur] == x {
                Some(St { sym: x, init: cur, end: cur + 1, rest: vec![], tree: Tree { sym: x, lex: Some(cur), kids: vec![] } })
            } else { None };
            match got {
                Some(s) => st.push(s),
                None => loop {
                    if self.over() { return None; }
                    let Some(s) = st.pop() else { return None };
                    if let Some((tree, end, used)) = self.first_of(s.sym, s.init, &s.rest) {
                        st.push(St { sym: s.sym, init: s.init, end, rest: s.rest[used..].to_vec(), tree });
                        break;
                    }
                },
            }
        }
    }
}
