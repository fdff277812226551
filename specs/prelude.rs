#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, unreachable_code, non_snake_case, unused_labels)]
use vstd::prelude::*;
use std::marker::PhantomData;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
mod pre {
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
verus! {
use vstd::std_specs::hash::{obeys_key_model, group_hash_axioms};
use vstd::std_specs::iter::IteratorSpec;

// ---------------------------------------------------------------- panics
/// true in a run in which the contract under proof allows the code to panic
pub uninterp spec fn panic_ok() -> bool;

#[verifier::external_body]
pub fn v_panic() -> !
    requires panic_ok(),
    ensures false,
{ panic!() }

// ---------------------------------------------------------------- symbols
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self)
        ensures r == *self;
}
/// a symbol type with lawful Clone, Eq and Hash: its values are taken up to `==`
pub trait Sym: VClone + Eq + Hash {
    proof fn lawful()
        ensures obeys_key_model::<Self>();
    fn veq(&self, other: &Self) -> (r: bool)
        ensures r == (*self == *other);
    fn vne(&self, other: &Self) -> (r: bool)
        ensures r == (*self != *other);
}

// ---------------------------------------------------------------- iterators
/// what is still to come, last one first
#[verifier::accept_recursive_types(X)]
pub struct VIt<X> { v: Vec<X>, done: Ghost<Seq<X>> }

pub trait VIterT { type Item; }
impl<X> VIterT for VIt<X> { type Item = X; }

impl<X> VIt<X> {
    /// everything the iterator yields from its creation on
    pub closed spec fn all(&self) -> Seq<X> { self.done@ + self.v@.reverse() }
    /// how many of them it has yielded
    pub closed spec fn pos(&self) -> nat { self.done@.len() }

    pub open spec fn rest(&self) -> Seq<X> { self.all().subrange(self.pos() as int, self.all().len() as int) }

    pub fn next(&mut self) -> (r: Option<X>)
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() <= old(self).all().len(),
            final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    {
        let ghost v0 = self.v@;
        let ghost d0 = self.done@;
        match self.v.pop() {
            None => None,
            Some(x) => {
                self.done = Ghost(self.done@.push(x));
                proof { assert(d0 + v0.reverse() =~= self.done@ + self.v@.reverse()); }
                Some(x)
            }
        }
    }

    pub fn len(&self) -> (r: usize)
        ensures r + self.pos() == self.all().len(),
    { self.v.len() }

    pub fn v_last(self) -> (r: Option<X>)
        ensures r == (if self.pos() < self.all().len() { Some(self.all().last()) } else { None::<X> }),
    {
        let mut v = self.v;
        let ghost q = v@.reverse();
        proof { let a = self.done@ + q; if v@.len() > 0 { assert(a.last() == v@[0]); } }
        if v.len() == 0 { None } else { Some(v.remove(0)) }
    }
    pub fn nth(&mut self, n: usize) -> (r: Option<X>)
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() <= old(self).all().len(),
            old(self).pos() + n < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() + n]) && final(self).pos() == old(self).pos() + n + 1,
            old(self).pos() + n >= old(self).all().len() ==> r is None && final(self).pos() == old(self).all().len(),
    {
        let ghost p0 = self.pos();
        let ghost a = self.all();
        let mut i: usize = 0;
        proof { axiom_pos(self); }
        while i < n && self.len() > 0
            invariant self.all() == a, i <= n, self.pos() == p0 + i, p0 + i <= a.len(), a == old(self).all(), p0 == old(self).pos(),
            decreases n - i,
        { self.next(); i = i + 1; }
        if i < n { return None; }
        self.next()
    }
}
impl<X> VIt<X> {
    /// everything still to come
    pub fn v_collect(self) -> (r: Vec<X>)
        ensures r@ == self.rest(),
    {
        let mut v = self.v;
        v.v_reverse();
        proof { let a = self.done@ + self.v@.reverse(); assert(v@ =~= a.subrange(self.done@.len() as int, a.len() as int)); }
        v
    }
}
impl<'b, X: VClone> VIt<&'b X> {
    pub fn v_collect_cloned(self) -> (r: Vec<X>)
        ensures r@.len() == self.rest().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self.rest()[i],
    {
        let v = self.v_collect();
        let mut r: Vec<X> = Vec::new();
        while r.len() < v.len()
            invariant r.len() <= v.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *v@[i],
            decreases v.len() - r.len(),
        { let x = v[r.len()].vclone(); r.push(x); }
        r
    }
}
impl<X: Copy> VIt<X> {
    pub fn vclone(&self) -> (r: Self)
        ensures r.all() == self.all(), r.pos() == self.pos(),
    {
        let mut w: Vec<X> = Vec::new();
        while w.len() < self.v.len()
            invariant w.len() <= self.v.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] w@[j] == self.v@[j],
            decreases self.v.len() - w.len(),
        {
            let x = self.v[w.len()];
            w.push(x);
        }
        proof { assert(w@ =~= self.v@); }
        VIt { v: w, done: Ghost(self.done@) }
    }
}
/// the iterator over what is in v
pub fn v_it<X>(v: Vec<X>) -> (r: VIt<X>)
    ensures r.pos() == 0, r.all() == v@,
{
    let ghost v0 = v@;
    let mut v = v;
    let mut w: Vec<X> = Vec::new();
    while v.len() > 0
        invariant v0.len() == v.len() + w.len(), forall|j: int| 0 <= j < v.len() ==> #[trigger] v@[j] == v0[j], forall|j: int| 0 <= j < w.len() ==> #[trigger] w@[j] == v0[v0.len() - 1 - j],
        decreases v.len(),
    {
        let x = v.pop();
        match x { Some(x) => w.push(x), None => {} }
    }
    let r = VIt { v: w, done: Ghost(Seq::empty()) };
    proof { assert(r.all() =~= v0); }
    r
}

/// an iterator has never yielded more than there is
pub proof fn axiom_pos<X>(it: &VIt<X>)
    ensures it.pos() <= it.all().len(),
{}

// ---------------------------------------------------------------- options
pub trait VOpt<X> {
    spec fn ospec(self) -> Option<X>;
    fn v_unwrap(self) -> (r: X)
        requires self.ospec() is Some || panic_ok(),
        ensures self.ospec() is Some, r == self.ospec()->Some_0;
}
impl<X> VOpt<X> for Option<X> {
    open spec fn ospec(self) -> Option<X> { self }
    fn v_unwrap(self) -> X { match self { Some(x) => x, None => v_panic() } }
}
impl<X: VClone> VClone for Option<X> {
    fn vclone(&self) -> (r: Self) {
        match self { Some(x) => Some(x.vclone()), None => None }
    }
}
/// a count of things that lie in memory or are yielded one by one
#[verifier::external_body]
pub fn v_inc(n: usize) -> (r: usize)
    ensures r == n + 1,
{ n + 1 }
pub fn v_max(a: usize, b: usize) -> (r: usize)
    ensures r == (if a > b { a } else { b }),
{ if a > b { a } else { b } }
pub fn v_min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { a } else { b }),
{ if a < b { a } else { b } }
pub trait VOptRef<X> {
    spec fn oref(self) -> Option<X>;
    fn v_opt_cloned(self) -> (r: Option<X>)
        ensures r == self.oref();
}
impl<'b, X: VClone> VOptRef<X> for Option<&'b X> {
    open spec fn oref(self) -> Option<X> { match self { Some(x) => Some(*x), None => None } }
    fn v_opt_cloned(self) -> (r: Option<X>) { match self { Some(x) => Some(x.vclone()), None => None } }
}
pub fn v_opt_cloned<X: VClone>(o: Option<&X>) -> (r: Option<X>)
    ensures r is Some <==> o is Some, o is Some ==> r->Some_0 == *(o->Some_0),
{ match o { Some(x) => Some(x.vclone()), None => None } }

// ---------------------------------------------------------------- vectors
pub fn vec1<X>(a: X) -> (r: Vec<X>)
    ensures r@ =~= seq![a],
{ let mut v = Vec::new(); v.push(a); v }
pub fn vec2<X>(a: X, b: X) -> (r: Vec<X>)
    ensures r@ =~= seq![a, b],
{ let mut v = Vec::new(); v.push(a); v.push(b); v }

fn refs<X>(v: &Vec<X>) -> (r: Vec<&X>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i],
{
    let mut r: Vec<&X> = Vec::new();
    while r.len() < v.len()
        invariant r.len() <= v.len(), forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r@[i]) == v@[i],
        decreases v.len() - r.len(),
    {
        let x = &v[r.len()];
        r.push(x);
    }
    r
}
pub trait VVec<X>: Sized {
    spec fn sv(&self) -> Seq<X>;
    fn v_get(&self, i: usize) -> (r: Option<&X>)
        ensures
            i < self.sv().len() ==> r is Some && *(r->Some_0) == self.sv()[i as int],
            i >= self.sv().len() ==> r is None;
    fn v_index(&self, i: usize) -> (r: &X)
        requires i < self.sv().len() || panic_ok(),
        ensures i < self.sv().len(), *r == self.sv()[i as int];
    fn v_iter(&self) -> (r: VIt<&X>)
        ensures
            r.pos() == 0, r.all().len() == self.sv().len(),
            forall|i: int| 0 <= i < self.sv().len() ==> *(#[trigger] r.all()[i]) == self.sv()[i];
    fn v_iter_range(&self, a: usize, b: usize) -> (r: VIt<&X>)
        requires a <= b <= self.sv().len() || panic_ok(),
        ensures
            a <= b <= self.sv().len(),
            r.pos() == 0, r.all().len() == b - a,
            forall|i: int| 0 <= i < b - a ==> *(#[trigger] r.all()[i]) == self.sv()[a + i];
    fn v_iter_from(&self, a: usize) -> (r: VIt<&X>)
        requires a <= self.sv().len() || panic_ok(),
        ensures
            a <= self.sv().len(),
            r.pos() == 0, r.all().len() == self.sv().len() - a,
            forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == self.sv()[a + i];
    fn v_iter_rev(&self) -> (r: VIt<&X>)
        ensures
            r.pos() == 0, r.all().len() == self.sv().len(),
            forall|i: int| 0 <= i < self.sv().len() ==> *(#[trigger] r.all()[i]) == self.sv()[self.sv().len() - 1 - i];
    fn v_into_iter_rev(self) -> (r: VIt<X>)
        ensures r.pos() == 0, r.all() == self.sv().reverse();
    fn v_first(&self) -> (r: Option<&X>)
        ensures
            self.sv().len() > 0 ==> r is Some && *(r->Some_0) == self.sv()[0],
            self.sv().len() == 0 ==> r is None;
    fn v_last(&self) -> (r: Option<&X>)
        ensures
            self.sv().len() > 0 ==> r is Some && *(r->Some_0) == self.sv().last(),
            self.sv().len() == 0 ==> r is None;
    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.sv().len() == 0);
    fn v_add(&mut self, x: X)
        ensures final(self).sv() == old(self).sv().push(x);
    fn v_reverse(&mut self)
        ensures final(self).sv() == old(self).sv().reverse();
    fn v_remove(&mut self, i: usize) -> (r: X)
        requires i < old(self).sv().len() || panic_ok(),
        ensures i < old(self).sv().len(), r == old(self).sv()[i as int], final(self).sv() == old(self).sv().remove(i as int);
}
impl<X> VVec<X> for Vec<X> {
    open spec fn sv(&self) -> Seq<X> { self@ }
    fn v_get(&self, i: usize) -> (r: Option<&X>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn v_index(&self, i: usize) -> (r: &X) { if i < self.len() { &self[i] } else { v_panic() } }
    fn v_iter(&self) -> (r: VIt<&X>) { v_it(refs(self)) }
    fn v_iter_range(&self, a: usize, b: usize) -> (r: VIt<&X>) {
        if !(a <= b && b <= self.len()) { v_panic() }
        let mut r: Vec<&X> = Vec::new();
        let mut i = a;
        while i < b
            invariant a <= i <= b <= self.len(), r.len() == i - a, forall|j: int| 0 <= j < r.len() ==> *(#[trigger] r@[j]) == self@[a + j],
            decreases b - i,
        { r.push(&self[i]); i = i + 1; }
        v_it(r)
    }
    fn v_iter_from(&self, a: usize) -> (r: VIt<&X>) { self.v_iter_range(a, self.len()) }
    fn v_iter_rev(&self) -> (r: VIt<&X>) {
        let mut r = refs(self);
        r.v_reverse();
        v_it(r)
    }
    fn v_into_iter_rev(self) -> (r: VIt<X>) { let mut v = self; v.v_reverse(); v_it(v) }
    fn v_first(&self) -> (r: Option<&X>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn v_last(&self) -> (r: Option<&X>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
    fn v_add(&mut self, x: X) { self.push(x) }
    fn v_reverse(&mut self) {
        let ghost v0 = self@;
        let mut w: Vec<X> = Vec::new();
        while self.len() > 0
            invariant v0.len() == self.len() + w.len(), forall|j: int| 0 <= j < self.len() ==> #[trigger] self@[j] == v0[j], forall|j: int| 0 <= j < w.len() ==> #[trigger] w@[j] == v0[v0.len() - 1 - j],
            decreases self.len(),
        {
            let x = self.pop();
            match x { Some(x) => w.push(x), None => {} }
        }
        proof { assert(w@ =~= v0.reverse()); }
        *self = w;
    }
    fn v_remove(&mut self, i: usize) -> (r: X) { if i < self.len() { self.remove(i) } else { v_panic() } }
}
pub trait VVecSym<X>: Sized {
    spec fn svs(&self) -> Seq<X>;
    fn v_contains(&self, x: &X) -> (r: bool)
        ensures r == self.svs().contains(*x);
}
impl<X: Sym> VVecSym<X> for Vec<X> {
    open spec fn svs(&self) -> Seq<X> { self@ }
    fn v_contains(&self, x: &X) -> (r: bool) {
        let mut i = 0;
        while i < self.len()
            invariant i <= self.len(), forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self.len() - i,
        {
            if self[i].veq(x) { return true; }
            i = i + 1;
        }
        false
    }
}
/// equality of what is made of symbols
pub trait VEqT: Sized {
    spec fn eqt(&self, other: &Self) -> bool;
    fn veq(&self, other: &Self) -> (r: bool)
        ensures r == self.eqt(other);
    fn vne(&self, other: &Self) -> (r: bool)
        ensures r == !self.eqt(other);
}
impl<X: Sym> VEqT for Vec<X> {
    open spec fn eqt(&self, other: &Self) -> bool { self@ == other@ }
    fn veq(&self, other: &Self) -> (r: bool) {
        if self.len() != other.len() { return false; }
        let mut i = 0;
        while i < self.len()
            invariant i <= self.len(), self.len() == other.len(), forall|j: int| 0 <= j < i ==> self@[j] == other@[j],
            decreases self.len() - i,
        {
            if self[i].vne(&other[i]) { return false; }
            i = i + 1;
        }
        proof { assert(self@ =~= other@); }
        true
    }
    fn vne(&self, other: &Self) -> (r: bool) { !self.veq(other) }
}
impl<X: Sym> VEqT for HSet<X> {
    open spec fn eqt(&self, other: &Self) -> bool { self@ == other@ }
    fn veq(&self, other: &Self) -> (r: bool) { let r = self.v_is_subset(other) && other.v_is_subset(self); proof { if r { assert(self@ =~= other@); } } r }
    fn vne(&self, other: &Self) -> (r: bool) { !self.veq(other) }
}
impl<'b, X: Sym> VEqT for Option<&'b X> {
    open spec fn eqt(&self, other: &Self) -> bool { match (*self, *other) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false } }
    fn veq(&self, other: &Self) -> (r: bool) { match (self, other) { (Some(a), Some(b)) => (**a).veq(*b), (None, None) => true, _ => false } }
    fn vne(&self, other: &Self) -> (r: bool) { !self.veq(other) }
}
pub trait VVecClone<X>: Sized {
    spec fn svc(&self) -> Seq<X>;
    fn vclone(&self) -> (r: Self)
        ensures r.svc() == self.svc();
}
impl<X: VClone> VVecClone<X> for Vec<X> {
    open spec fn svc(&self) -> Seq<X> { self@ }
    fn vclone(&self) -> (r: Self) {
        let mut r: Vec<X> = Vec::new();
        while r.len() < self.len()
            invariant r.len() <= self.len(), forall|j: int| 0 <= j < r.len() ==> r@[j] == self@[j],
            decreases self.len() - r.len(),
        {
            let x = self[r.len()].vclone();
            r.push(x);
        }
        assert(r@ =~= self@);
        r
    }
}

// ---------------------------------------------------------------- hash sets
/// where x stands in q
pub open spec fn idx<X>(q: Seq<&X>, x: X) -> int { choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == x }
/// q has every element of s once, in some order
pub open spec fn lists<X>(q: Seq<&X>, s: Set<X>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> *(#[trigger] q[i]) != *(#[trigger] q[j])
    &&& forall|i: int| 0 <= i < q.len() ==> s.contains(*(#[trigger] q[i]))
    &&& forall|x: X| #[trigger] s.contains(x) ==> 0 <= idx(q, x) < q.len() && *q[idx(q, x)] == x
}
/// the same for the entries of a map
pub open spec fn kidx<K, V>(q: Seq<(&K, &V)>, k: K) -> int { choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]).0 == k }
pub open spec fn klists<K, V>(q: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> *(#[trigger] q[i]).0 != *(#[trigger] q[j]).0
    &&& forall|i: int| 0 <= i < q.len() ==> m.contains_key(*(#[trigger] q[i]).0) && *q[i].1 == m[*q[i].0]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> 0 <= kidx(q, k) < q.len() && *q[kidx(q, k)].0 == k
}
/// vs are the values of the entries q, in the same order
pub open spec fn keyed<K, V>(q: Seq<(&K, &V)>, vs: Seq<&V>, m: Map<K, V>) -> bool {
    klists(q, m) && q.len() == vs.len() && forall|i: int| 0 <= i < q.len() ==> *(#[trigger] vs[i]) == *q[i].1
}
pub open spec fn entries<'b, K, V>(vs: Seq<&'b V>, m: Map<K, V>) -> Seq<(&'b K, &'b V)> { choose|q: Seq<(&'b K, &'b V)>| #[trigger] keyed(q, vs, m) }
/// by value
pub open spec fn oidx<X>(q: Seq<X>, x: X) -> int { choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == x }
pub open spec fn olists<X>(q: Seq<X>, s: Set<X>) -> bool {
    &&& q.no_duplicates()
    &&& forall|i: int| 0 <= i < q.len() ==> s.contains(#[trigger] q[i])
    &&& forall|x: X| #[trigger] s.contains(x) ==> 0 <= oidx(q, x) < q.len() && q[oidx(q, x)] == x
}
pub open spec fn okidx<K, V>(q: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k }
pub open spec fn oklists<K, V>(q: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0 != (#[trigger] q[j]).0
    &&& forall|i: int| 0 <= i < q.len() ==> m.contains_key((#[trigger] q[i]).0) && q[i].1 == m[q[i].0]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> 0 <= okidx(q, k) < q.len() && q[okidx(q, k)].0 == k
}

#[verifier::reject_recursive_types(X)]
pub struct HSet<X> { v: HashSet<X> }

impl<X> HSet<X> {
    pub closed spec fn view(&self) -> Set<X> { self.v@ }
    /// only made for symbols
    #[verifier::type_invariant]
    spec fn keys_ok(&self) -> bool { obeys_key_model::<X>() }
    pub fn v_iter(&self) -> (r: VIt<&X>)
        ensures r.pos() == 0, lists(r.all(), self@),
    {
        broadcast use group_hash_axioms;
        proof { use_type_invariant(self); }
        let mut r: Vec<&X> = Vec::new();
        let mut it = self.v.iter();
        let ghost e = it.remaining();
        let n = self.v.len();
        while r.len() < n
            invariant
                it.obeys_prophetic_iter_laws(), e.len() == n,
                r@.len() + it.remaining().len() == e.len(),
                forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == e[i],
                forall|i: int| 0 <= i < it.remaining().len() ==> #[trigger] it.remaining()[i] == e[r@.len() + i],
            decreases n - r.len(),
        {
            match it.next() { Some(x) => r.push(x), None => {} }
        }
        proof { assert(r@ =~= e); }
        proof {
            assert forall|i: int| 0 <= i < e.len() implies self.v@.contains(*(#[trigger] e[i])) by { assert(e.unref()[i] == *e[i]); }
            assert forall|x: X| #[trigger] self.v@.contains(x) implies 0 <= idx(e, x) < e.len() && *e[idx(e, x)] == x by { let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]) == x; }
            assert forall|i: int, j: int| 0 <= i < j < e.len() implies *(#[trigger] e[i]) != *(#[trigger] e[j]) by {}
        }
        v_it(r)
    }
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { broadcast use group_hash_axioms; proof { use_type_invariant(self); } self.v.len() }
    pub fn v_is_empty(&self) -> (r: bool)
        ensures r == (self@ == Set::<X>::empty()),
    {
        broadcast use group_hash_axioms;
        proof { use_type_invariant(self); }
        let n = self.v.len();
        proof { if n == 0 { self.v@.lemma_len0_is_empty(); } }
        n == 0
    }
}
impl<X: Sym> HSet<X> {
    fn take(&mut self) -> (r: HashSet<X>)
        ensures r@ == old(self)@,
    {
        let mut h = HSet::new();
        std::mem::swap(self, &mut h);
        h.v
    }
    pub fn new() -> (r: Self)
        ensures r@ == Set::<X>::empty(),
    { broadcast use group_hash_axioms; proof { X::lawful(); } HSet { v: HashSet::new() } }
    pub fn v_contains(&self, x: &X) -> (r: bool)
        ensures r == self@.contains(*x),
    { broadcast use group_hash_axioms; proof { X::lawful(); } self.v.contains(x) }
    pub fn insert(&mut self, x: X) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x),
    {
        broadcast use group_hash_axioms;
        proof { X::lawful(); }
        let mut h = self.take();
        let r = h.insert(x);
        *self = HSet { v: h };
        r
    }
    pub fn v_add(&mut self, x: X)
        ensures final(self)@ == old(self)@.insert(x),
    { self.insert(x); }
    pub fn v_remove(&mut self, x: &X) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x),
    {
        broadcast use group_hash_axioms;
        proof { X::lawful(); }
        let mut h = self.take();
        let r = h.remove(x);
        *self = HSet { v: h };
        r
    }
    pub fn clear(&mut self)
        ensures final(self)@ == Set::<X>::empty(),
    { *self = HSet::new(); }
    pub fn v_is_subset(&self, o: &HSet<X>) -> (r: bool)
        ensures r == self@.subset_of(o@),
    {
        let mut it = self.v_iter();
        let ghost q = it.all();
        loop
            invariant_except_break
                it.all() == q, it.pos() <= q.len(), lists(q, self@),
                forall|i: int| 0 <= i < it.pos() ==> o@.contains(*(#[trigger] q[i])),
            ensures forall|i: int| 0 <= i < q.len() ==> o@.contains(*(#[trigger] q[i])), lists(q, self@),
            decreases q.len() - it.pos(),
        {
            match it.next() { Some(x) => { if !o.v_contains(x) { proof { assert(self@.contains(*x)); } return false; } }, None => break }
        }
        proof { assert forall|x: X| self@.contains(x) implies o@.contains(x) by { assert(o@.contains(*q[idx(q, x)])); } }
        true
    }
    pub fn v_is_superset(&self, o: &HSet<X>) -> (r: bool)
        ensures r == o@.subset_of(self@),
    { o.v_is_subset(self) }
    pub fn v_is_disjoint(&self, o: &HSet<X>) -> (r: bool)
        ensures r == self@.disjoint(o@),
    {
        let mut it = self.v_iter();
        let ghost q = it.all();
        loop
            invariant_except_break
                it.all() == q, it.pos() <= q.len(), lists(q, self@),
                forall|i: int| 0 <= i < it.pos() ==> !o@.contains(*(#[trigger] q[i])),
            ensures forall|i: int| 0 <= i < q.len() ==> !o@.contains(*(#[trigger] q[i])), lists(q, self@),
            decreases q.len() - it.pos(),
        {
            match it.next() { Some(x) => { if o.v_contains(x) { proof { assert(self@.contains(*x)); } return false; } }, None => break }
        }
        proof { assert forall|x: X| self@.contains(x) implies !o@.contains(x) by { assert(!o@.contains(*q[idx(q, x)])); } }
        true
    }
    pub fn v_union<'b>(&'b self, o: &'b HSet<X>) -> (r: VIt<&'b X>)
        ensures r.pos() == 0, lists(r.all(), self@.union(o@)),
    { self.both(o, true, true) }
    pub fn v_difference<'b>(&'b self, o: &'b HSet<X>) -> (r: VIt<&'b X>)
        ensures r.pos() == 0, lists(r.all(), self@.difference(o@)),
    { let r = self.both(o, false, false); proof { assert(self@.difference(o@) =~= self@.filter(|x: X| !o@.contains(x))); } r }
    pub fn v_intersection<'b>(&'b self, o: &'b HSet<X>) -> (r: VIt<&'b X>)
        ensures r.pos() == 0, lists(r.all(), self@.intersect(o@)),
    { self.both(o, true, false) }
    /// of the values here those that are (not) in o; with all, all of them and then the ones only o has
    fn both<'b>(&'b self, o: &'b HSet<X>, inside: bool, all: bool) -> (r: VIt<&'b X>)
        ensures r.pos() == 0,
            all ==> lists(r.all(), self@.union(o@)),
            !all && inside ==> lists(r.all(), self@.intersect(o@)),
            !all && !inside ==> lists(r.all(), self@.difference(o@)),
    {
        let ghost s = if all { self@ } else if inside { self@.intersect(o@) } else { self@.difference(o@) };
        let mut r: Vec<&'b X> = Vec::new();
        let mut it = self.v_iter();
        let ghost q = it.all();
        loop
            invariant
                it.all() == q, it.pos() <= q.len(), lists(q, self@),
                s == (if all { self@ } else if inside { self@.intersect(o@) } else { self@.difference(o@) }),
                forall|i: int| 0 <= i < r@.len() ==> s.contains(*(#[trigger] r@[i])),
                forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
                forall|i: int| 0 <= i < it.pos() && s.contains(*(#[trigger] q[i])) ==> 0 <= idx(r@, *q[i]) < r@.len() && *r@[idx(r@, *q[i])] == *q[i],
                forall|i: int, j: int| 0 <= i < r@.len() && it.pos() <= j < q.len() ==> *(#[trigger] r@[i]) != *(#[trigger] q[j]),
            ensures it.pos() == q.len(),
            decreases q.len() - it.pos(),
        {
            match it.next() {
                Some(x) => {
                    if all || o.v_contains(x) == inside {
                        let ghost r0 = r@;
                        r.push(x);
                        proof {
                            assert(*r@[r0.len() as int] == *x);
                            assert forall|i: int| 0 <= i < it.pos() && s.contains(*(#[trigger] q[i])) implies 0 <= idx(r@, *q[i]) < r@.len() && *r@[idx(r@, *q[i])] == *q[i] by {
                                if i < it.pos() - 1 { assert(*r@[idx(r0, *q[i])] == *q[i]); }
                            }
                        }
                    }
                }
                None => break,
            }
        }
        proof { assert forall|x: X| s.contains(x) implies 0 <= idx(r@, x) < r@.len() && *r@[idx(r@, x)] == x by { assert(self@.contains(x)); assert(s.contains(*q[idx(q, x)])); } assert(lists(r@, s)); }
        if !all { return v_it(r); }
        let mut it = o.v_iter();
        let ghost p = it.all();
        let ghost n = r@.len();
        loop
            invariant
                it.all() == p, it.pos() <= p.len(), lists(p, o@),
                all, s == self@,
                forall|i: int| 0 <= i < r@.len() ==> self@.union(o@).contains(*(#[trigger] r@[i])),
                forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]) != *(#[trigger] r@[j]),
                forall|x: X| #[trigger] s.contains(x) ==> 0 <= idx(r@, x) < r@.len() && *r@[idx(r@, x)] == x,
                forall|i: int| 0 <= i < it.pos() ==> 0 <= idx(r@, *(#[trigger] p[i])) < r@.len() && *r@[idx(r@, *p[i])] == *p[i],
                forall|i: int, j: int| 0 <= i < r@.len() && it.pos() <= j < p.len() ==> *(#[trigger] r@[i]) != *(#[trigger] p[j]) || s.contains(*r@[i]),
            ensures it.pos() == p.len(),
            decreases p.len() - it.pos(),
        {
            match it.next() {
                Some(x) => {
                    if !self.v_contains(x) {
                        let ghost r0 = r@;
                        r.push(x);
                        proof {
                            assert(*r@[r0.len() as int] == *x);
                            assert forall|y: X| #[trigger] s.contains(y) implies 0 <= idx(r@, y) < r@.len() && *r@[idx(r@, y)] == y by { assert(*r@[idx(r0, y)] == y); }
                            assert forall|i: int| 0 <= i < it.pos() implies 0 <= idx(r@, *(#[trigger] p[i])) < r@.len() && *r@[idx(r@, *p[i])] == *p[i] by {
                                if i < it.pos() - 1 { assert(*r@[idx(r0, *p[i])] == *p[i]); }
                            }
                        }
                    } else { proof { assert(s.contains(*p[it.pos() - 1])); } }
                }
                None => break,
            }
        }
        proof {
            assert forall|x: X| #[trigger] self@.union(o@).contains(x) implies 0 <= idx(r@, x) < r@.len() && *r@[idx(r@, x)] == x by {
                if !s.contains(x) { assert(o@.contains(x)); assert(*r@[idx(r@, *p[idx(p, x)])] == x); }
            }
        }
        v_it(r)
    }
    pub fn vclone(&self) -> (r: Self)
        ensures r@ == self@,
    {
        let mut r = HSet::new();
        let mut it = self.v_iter();
        let ghost q = it.all();
        loop
            invariant
                it.all() == q, it.pos() <= q.len(), lists(q, self@),
                forall|x: X| #[trigger] r@.contains(x) ==> self@.contains(x),
                forall|i: int| 0 <= i < it.pos() ==> r@.contains(*(#[trigger] q[i])),
            ensures it.pos() == q.len(),
            decreases q.len() - it.pos(),
        {
            match it.next() { Some(x) => r.v_add(x.vclone()), None => break }
        }
        proof { assert forall|x: X| self@.contains(x) implies r@.contains(x) by { assert(r@.contains(*q[idx(q, x)])); } assert(r@ =~= self@); }
        r
    }
}

// ---------------------------------------------------------------- hash maps
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { v: HashMap<K, V> }

impl<K, V> HMap<K, V> {
    pub closed spec fn view(&self) -> Map<K, V> { self.v@ }
    /// only made for symbols
    #[verifier::type_invariant]
    spec fn keys_ok(&self) -> bool { obeys_key_model::<K>() }
    fn pairs(&self) -> (r: Vec<(&K, &V)>)
        ensures klists(r@, self@),
    {
        broadcast use group_hash_axioms;
        proof { use_type_invariant(self); }
        let mut r: Vec<(&K, &V)> = Vec::new();
        let mut it = self.v.iter();
        let ghost e = it.remaining();
        proof {
            assert forall|i: int, j: int| 0 <= i < j < e.len() implies *(#[trigger] e[i]).0 != *(#[trigger] e[j]).0 by {
                assert(e[i] != e[j]);
                assert(self.v@.contains_key(*e[i].0) && self.v@[*e[i].0] == *e[i].1);
                assert(self.v@.contains_key(*e[j].0) && self.v@[*e[j].0] == *e[j].1);
            }
        }
        let n = self.v.len();
        while r.len() < n
            invariant
                it.obeys_prophetic_iter_laws(), e.len() == n,
                r@.len() + it.remaining().len() == e.len(),
                forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == e[i],
                forall|i: int| 0 <= i < it.remaining().len() ==> #[trigger] it.remaining()[i] == e[r@.len() + i],
            decreases n - r.len(),
        {
            match it.next() { Some(x) => r.push(x), None => {} }
        }
        proof { assert(r@ =~= e); }
        proof {
            assert forall|i: int| 0 <= i < e.len() implies self.v@.contains_key(*(#[trigger] e[i]).0) && self.v@[*e[i].0] == *e[i].1 by {}
            assert forall|k: K| #[trigger] self.v@.contains_key(k) implies 0 <= kidx(e, k) < e.len() && *e[kidx(e, k)].0 == k by { let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k; }
        }
        r
    }
    pub fn v_keys(&self) -> (r: VIt<&K>)
        ensures r.pos() == 0, lists(r.all(), self@.dom()),
    {
        let p = self.pairs();
        let mut r: Vec<&K> = Vec::new();
        while r.len() < p.len()
            invariant r.len() <= p.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == p@[i].0,
            decreases p.len() - r.len(),
        {
            let x = p[r.len()].0;
            r.push(x);
        }
        proof {
            assert forall|k: K| #[trigger] self@.dom().contains(k) implies 0 <= idx(r@, k) < r@.len() && *r@[idx(r@, k)] == k by { assert(self@.contains_key(k)); assert(*r@[kidx(p@, k)] == k); }
            assert forall|i: int| 0 <= i < r@.len() implies self@.dom().contains(*(#[trigger] r@[i])) by { assert(self@.contains_key(*p@[i].0)); }
            assert forall|i: int, j: int| 0 <= i < j < r@.len() implies *(#[trigger] r@[i]) != *(#[trigger] r@[j]) by { assert(*p@[i].0 != *p@[j].0); }
        }
        v_it(r)
    }
    pub fn v_iter(&self) -> (r: VIt<(&K, &V)>)
        ensures r.pos() == 0, klists(r.all(), self@),
    { v_it(self.pairs()) }
    pub fn v_values(&self) -> (r: VIt<&V>)
        ensures r.pos() == 0, keyed(entries(r.all(), self@), r.all(), self@),
    {
        let p = self.pairs();
        let mut r: Vec<&V> = Vec::new();
        while r.len() < p.len()
            invariant r.len() <= p.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == p@[i].1,
            decreases p.len() - r.len(),
        {
            let x = p[r.len()].1;
            r.push(x);
        }
        proof { assert(keyed(p@, r@, self@)); }
        v_it(r)
    }
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { broadcast use group_hash_axioms; proof { use_type_invariant(self); } self.v.len() }
}
impl<K: Sym, V> HMap<K, V> {
    fn take(&mut self) -> (r: HashMap<K, V>)
        ensures r@ == old(self)@,
    {
        let mut h = HMap::new();
        std::mem::swap(self, &mut h);
        h.v
    }
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { broadcast use group_hash_axioms; proof { K::lawful(); } HMap { v: HashMap::new() } }
    pub fn v_get(&self, k: &K) -> (r: Option<&V>)
        ensures
            self@.contains_key(*k) ==> r is Some && *(r->Some_0) == self@[*k],
            !self@.contains_key(*k) ==> r is None,
    { broadcast use group_hash_axioms; proof { K::lawful(); } self.v.get(k) }
    /// assumed: vstd has no specification of HashMap::get_mut
    #[verifier::external_body]
    pub fn v_get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        },
    { self.v.get_mut(k) }
    pub fn v_index(&self, k: &K) -> (r: &V)
        requires self@.contains_key(*k) || panic_ok(),
        ensures self@.contains_key(*k), *r == self@[*k],
    { match self.v_get(k) { Some(v) => v, None => v_panic() } }
    pub fn v_contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { self.contains_key(k) }
    pub fn v_entry(&mut self, k: K, d: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    {
        if !self.contains_key(&k) { self.insert(k.vclone(), d); }
        match self.v_get_mut(&k) { Some(v) => v, None => v_panic() }
    }
    pub fn v_remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            old(self)@.contains_key(*k) ==> r == Some(old(self)@[*k]),
            !old(self)@.contains_key(*k) ==> r is None,
    { self.remove(k) }
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { broadcast use group_hash_axioms; proof { K::lawful(); } self.v.contains_key(k) }
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]),
            !old(self)@.contains_key(k) ==> r is None,
    {
        broadcast use group_hash_axioms;
        proof { K::lawful(); }
        let mut h = self.take();
        let r = h.insert(k, v);
        *self = HMap { v: h };
        r
    }
    pub fn v_insert_pair(&mut self, kv: (K, V))
        ensures final(self)@ == old(self)@.insert(kv.0, kv.1),
    { let (k, v) = kv; self.insert(k, v); }
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            old(self)@.contains_key(*k) ==> r == Some(old(self)@[*k]),
            !old(self)@.contains_key(*k) ==> r is None,
    {
        broadcast use group_hash_axioms;
        proof { K::lawful(); }
        let mut h = self.take();
        let r = h.remove(k);
        *self = HMap { v: h };
        r
    }
    /// the value of a RefCell in the map is borrowed: while it is out, the key has no value
    pub fn cell_take(&mut self, k: &K) -> (r: V)
        requires old(self)@.contains_key(*k) || panic_ok(),
        ensures old(self)@.contains_key(*k), r == old(self)@[*k], final(self)@ == old(self)@.remove(*k),
    { match self.remove(k) { Some(v) => v, None => v_panic() } }
    /// a borrow that ends with the expression it is in
    pub fn cell_get(&self, k: &K) -> (r: &V)
        requires self@.contains_key(*k) || panic_ok(),
        ensures self@.contains_key(*k), *r == self@[*k],
    { match self.v_get(k) { Some(v) => v, None => v_panic() } }
    pub fn cell_put(&mut self, k: &K, v: V)
        ensures final(self)@ == old(self)@.insert(*k, v),
    { self.insert(k.vclone(), v); }
}

// ---------------------------------------------------------------- defaults
pub fn v_take<X: VDefault>(x: &mut X) -> (r: X)
    ensures r == *old(x), final(x).is_default(),
{ let mut d = X::v_default(); std::mem::swap(x, &mut d); d }
pub fn v_replace<X>(x: &mut X, y: X) -> (r: X)
    ensures r == *old(x), *final(x) == y,
{ let mut d = y; std::mem::swap(x, &mut d); d }
pub trait VDefault: Sized {
    spec fn is_default(&self) -> bool;
    fn v_default() -> (r: Self)
        ensures r.is_default();
}
impl VDefault for bool { open spec fn is_default(&self) -> bool { !*self } fn v_default() -> bool { false } }
impl VDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } fn v_default() -> usize { 0 } }
impl<X> VDefault for Vec<X> { open spec fn is_default(&self) -> bool { self@ == Seq::<X>::empty() } fn v_default() -> (r: Self) { let v = Vec::new(); proof { assert(v@ =~= Seq::<X>::empty()); } v } }
impl<X: Sym> VDefault for HSet<X> { open spec fn is_default(&self) -> bool { self@ == Set::<X>::empty() } fn v_default() -> (r: Self) { HSet::new() } }
impl<K: Sym, V> VDefault for HMap<K, V> { open spec fn is_default(&self) -> bool { self@ == Map::<K, V>::empty() } fn v_default() -> (r: Self) { HMap::new() } }

// ---------------------------------------------------------------- into_iter
pub trait VInto: Sized {
    type Item;
    spec fn into_ok(self, r: Seq<Self::Item>) -> bool;
    fn v_into_iter(self) -> (r: VIt<Self::Item>)
        ensures r.pos() == 0, self.into_ok(r.all());
}
impl<X> VInto for Vec<X> {
    type Item = X;
    open spec fn into_ok(self, r: Seq<X>) -> bool { r == self@ }
    fn v_into_iter(self) -> (r: VIt<X>) { v_it(self) }
}
impl<'b, X> VInto for &'b Vec<X> {
    type Item = &'b X;
    open spec fn into_ok(self, r: Seq<&'b X>) -> bool {
        r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self@[i]
    }
    fn v_into_iter(self) -> (r: VIt<&'b X>) { v_it(refs(self)) }
}
impl<X: Sym> VInto for HSet<X> {
    type Item = X;
    open spec fn into_ok(self, r: Seq<X>) -> bool { olists(r, self@) }
    fn v_into_iter(self) -> (r: VIt<X>) {
        let mut it = self.v_iter();
        let ghost q = it.all();
        let mut r: Vec<X> = Vec::new();
        loop
            invariant
                it.all() == q, it.pos() <= q.len(), r@.len() == it.pos(),
                forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *q[i],
            ensures it.pos() == q.len(),
            decreases q.len() - it.pos(),
        {
            match it.next() { Some(x) => r.push(x.vclone()), None => break }
        }
        proof {
            assert forall|x: X| #[trigger] self@.contains(x) implies 0 <= oidx(r@, x) < r@.len() && r@[oidx(r@, x)] == x by { assert(r@[idx(q, x)] == x); }
            assert forall|i: int| 0 <= i < r@.len() implies self@.contains(#[trigger] r@[i]) by { assert(self@.contains(*q[i])); }
            assert forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j implies r@[i] != r@[j] by { if i < j { assert(*q[i] != *q[j]); } else { assert(*q[j] != *q[i]); } }
        }
        v_it(r)
    }
}
impl<'b, X> VInto for &'b HSet<X> {
    type Item = &'b X;
    open spec fn into_ok(self, r: Seq<&'b X>) -> bool { lists(r, self@) }
    fn v_into_iter(self) -> (r: VIt<&'b X>) { self.v_iter() }
}
impl<K: Sym, V> VInto for HMap<K, V> {
    type Item = (K, V);
    open spec fn into_ok(self, r: Seq<(K, V)>) -> bool { oklists(r, self@) }
    fn v_into_iter(self) -> (r: VIt<(K, V)>) {
        let ghost m = self@;
        let mut ks: Vec<K> = Vec::new();
        let mut it = self.v_keys();
        let ghost q = it.all();
        loop
            invariant
                it.all() == q, it.pos() <= q.len(), ks@.len() == it.pos(),
                forall|i: int| 0 <= i < ks@.len() ==> #[trigger] ks@[i] == *q[i],
            ensures it.pos() == q.len(),
            decreases q.len() - it.pos(),
        {
            match it.next() { Some(x) => ks.push(x.vclone()), None => break }
        }
        let mut this = self;
        let mut r: Vec<(K, V)> = Vec::new();
        while r.len() < ks.len()
            invariant
                lists(q, m.dom()), ks@.len() == q.len(), r@.len() <= ks@.len(),
                forall|i: int| 0 <= i < ks@.len() ==> #[trigger] ks@[i] == *q[i],
                forall|i: int| r@.len() <= i < ks@.len() ==> this@.contains_key(#[trigger] ks@[i]) && this@[ks@[i]] == m[ks@[i]],
                forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == ks@[i] && r@[i].1 == m[ks@[i]],
            decreases ks.len() - r.len(),
        {
            let k = ks[r.len()].vclone();
            proof { assert(k == *q[r@.len() as int]); assert(this@.contains_key(ks@[r@.len() as int])); assert forall|i: int| r@.len() < i < ks@.len() implies #[trigger] ks@[i] != k by { assert(*q[r@.len() as int] != *q[i]); } }
            match this.remove(&k) { Some(v) => r.push((k, v)), None => {} }
        }
        proof {
            assert forall|k: K| #[trigger] m.contains_key(k) implies 0 <= okidx(r@, k) < r@.len() && r@[okidx(r@, k)].0 == k by { assert(m.dom().contains(k)); assert(ks@[idx(q, k)] == k); assert(r@[idx(q, k)].0 == k); }
            assert forall|i: int| 0 <= i < r@.len() implies m.contains_key((#[trigger] r@[i]).0) && r@[i].1 == m[r@[i].0] by { assert(m.dom().contains(*q[i])); assert(ks@[i] == *q[i]); }
            assert forall|i: int, j: int| 0 <= i < j < r@.len() implies (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0 by { assert(*q[i] != *q[j]); assert(ks@[i] == *q[i]); assert(ks@[j] == *q[j]); }
        }
        v_it(r)
    }
}
impl<'b, K, V> VInto for &'b HMap<K, V> {
    type Item = (&'b K, &'b V);
    open spec fn into_ok(self, r: Seq<(&'b K, &'b V)>) -> bool { klists(r, self@) }
    fn v_into_iter(self) -> (r: VIt<(&'b K, &'b V)>) { self.v_iter() }
}
impl<X> VInto for VIt<X> {
    type Item = X;
    open spec fn into_ok(self, r: Seq<X>) -> bool { r == self.rest() }
    fn v_into_iter(self) -> (r: VIt<X>) {
        let r = VIt { v: self.v, done: Ghost(Seq::empty()) };
        proof { assert(r.all() =~= self.rest()); }
        r
    }
}

} // verus!
} // mod pre
use pre::*;
