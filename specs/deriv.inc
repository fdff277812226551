//@begin C03,C04,C05
// ------------------------------------------------------------------ what the fixed point means: derivations
/// an output as a sentential form: the empty symbol stands for nothing
pub open spec fn form<T>(g: ContextFreeGrammar<T>, o: Seq<T>) -> Seq<T> { if o.len() == 1 && o[0] == g.epsilon_symbol { Seq::empty() } else { o } }
pub open spec fn put<T>(u: Seq<T>, k: int, f: Seq<T>) -> Seq<T> { u.take(k) + f + u.skip(k + 1) }
/// the non-terminal at k is replaced by its i-th output
pub open spec fn step_at<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>, k: int, i: int) -> bool {
    0 <= k < u.len() && nt(g, u[k]) && 0 <= i < np(g, u[k]) && v == put(u, k, form(g, out(g, u[k], i)))
}
pub open spec fn step<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>) -> bool { exists|k: int, i: int| #[trigger] step_at(g, u, v, k, i) }
pub open spec fn derives<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>, n: nat) -> bool
    decreases n
{
    if n == 0 { u == v } else { exists|w: Seq<T>| #[trigger] step(g, u, w) && derives(g, w, v, (n - 1) as nat) }
}
pub open spec fn begins<T>(g: ContextFreeGrammar<T>, v: Seq<T>, x: T) -> bool {
    if x == g.epsilon_symbol { v.len() == 0 } else { v.len() > 0 && v[0] == x && !nt(g, x) }
}
/// some sentential form derivable from s starts with the terminal x; for the empty symbol: s derives the empty string
pub open spec fn derives_first<T>(g: ContextFreeGrammar<T>, s: T, x: T) -> bool { exists|v: Seq<T>, n: nat| #[trigger] derives(g, seq![s], v, n) && begins(g, v, x) }
pub open spec fn no_eps<T>(g: ContextFreeGrammar<T>, u: Seq<T>) -> bool { forall|j: int| 0 <= j < u.len() ==> #[trigger] u[j] != g.epsilon_symbol }
proof fn lemma_trans<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>, w: Seq<T>, n: nat, m: nat)
    requires derives(g, u, v, n), derives(g, v, w, m),
    ensures derives(g, u, w, n + m),
    decreases n
{
    if n > 0 {
        let y = choose|y: Seq<T>| #[trigger] step(g, u, y) && derives(g, y, v, (n - 1) as nat);
        lemma_trans(g, y, v, w, (n - 1) as nat, m);
        assert((n + m - 1) as nat == ((n - 1) as nat) + m);
    }
}
/// derivations take place in any context
proof fn lemma_ctx<T>(g: ContextFreeGrammar<T>, a: Seq<T>, u: Seq<T>, v: Seq<T>, b: Seq<T>, n: nat)
    requires derives(g, u, v, n),
    ensures derives(g, a + u + b, a + v + b, n),
    decreases n
{
    if n > 0 {
        let y = choose|y: Seq<T>| #[trigger] step(g, u, y) && derives(g, y, v, (n - 1) as nat);
        lemma_ctx(g, a, y, v, b, (n - 1) as nat);
        let (k, i) = choose|k: int, i: int| #[trigger] step_at(g, u, y, k, i);
        let f = form(g, out(g, u[k], i));
        let (c, d) = (a + u + b, a + y + b);
        assert(c[a.len() + k] == u[k]);
        assert(d =~= put(c, a.len() + k, f));
        assert(step_at(g, c, d, a.len() + k, i));
        assert(step(g, c, d));
    }
}
proof fn lemma_form<T>(g: ContextFreeGrammar<T>, s: T, i: int)
    requires g_wf(g), nt(g, s), 0 <= i < np(g, s),
    ensures no_eps(g, form(g, out(g, s, i))),
{
    lemma_syms(g, s, i);
}
/// a run of non-terminals that derive the empty string derives the empty string
proof fn lemma_vanish<T>(g: ContextFreeGrammar<T>, o: Seq<T>, d: nat, k: nat) -> (n: nat)
    requires g_wf(g), k <= o.len(), no_eps(g, o), forall|j: int| 0 <= j < k ==> inn(g, #[trigger] o[j], g.epsilon_symbol, d),
    ensures derives(g, o, o.skip(k as int), n),
    decreases d, 1nat, k
{
    if k == 0 {
        assert(o.skip(0) =~= o);
        0
    } else {
        let a = lemma_vanish(g, o, d, (k - 1) as nat);
        let t = o.skip(k - 1);
        assert(inn(g, o[k - 1], g.epsilon_symbol, d));
        lemma_inn(g, o[k - 1], g.epsilon_symbol, d);
        let b = lemma_null_derives(g, o[k - 1], d);
        lemma_ctx(g, Seq::empty(), seq![o[k - 1]], Seq::empty(), o.skip(k as int), b);
        assert(Seq::<T>::empty() + seq![o[k - 1]] + o.skip(k as int) =~= t);
        assert(Seq::<T>::empty() + Seq::<T>::empty() + o.skip(k as int) =~= o.skip(k as int));
        lemma_trans(g, o, t, o.skip(k as int), a, b);
        a + b
    }
}
proof fn lemma_root<T>(g: ContextFreeGrammar<T>, s: T, i: int, v: Seq<T>, m: nat)
    requires nt(g, s), 0 <= i < np(g, s), derives(g, form(g, out(g, s, i)), v, m),
    ensures derives(g, seq![s], v, m + 1),
{
    let f = form(g, out(g, s, i));
    assert(f =~= put(seq![s], 0, f));
    assert(step_at(g, seq![s], f, 0, i));
    assert(step(g, seq![s], f));
    assert((m + 1 - 1) as nat == m);
}
proof fn lemma_null_derives<T>(g: ContextFreeGrammar<T>, s: T, d: nat) -> (n: nat)
    requires g_wf(g), nt(g, s), inn(g, s, g.epsilon_symbol, d),
    ensures derives(g, seq![s], Seq::empty(), n),
    decreases d, 0nat, 0nat
{
    let e = g.epsilon_symbol;
    lemma_inn(g, s, e, d);
    let i = choose|i: int| 0 <= i < np(g, s) && #[trigger] inseq(g, out(g, s, i), e, (d - 1) as nat);
    let o = out(g, s, i);
    lemma_syms(g, s, i);
    lemma_form(g, s, i);
    let f = form(g, o);
    if o.len() == 1 && o[0] == e { lemma_root(g, s, i, f, 0); 1 } else {
        let m = lemma_vanish(g, f, (d - 1) as nat, f.len());
        assert(f.skip(f.len() as int) =~= Seq::<T>::empty());
        lemma_root(g, s, i, Seq::empty(), m);
        m + 1
    }
}
proof fn lemma_first_derives<T>(g: ContextFreeGrammar<T>, s: T, x: T, d: nat) -> (r: (Seq<T>, nat))
    requires g_wf(g), nt(g, s), inn(g, s, x, d), x != g.epsilon_symbol,
    ensures derives(g, seq![s], r.0, r.1), begins(g, r.0, x),
    decreases d
{
    lemma_inn(g, s, x, d);
    let c = (d - 1) as nat;
    let i = choose|i: int| 0 <= i < np(g, s) && #[trigger] inseq(g, out(g, s, i), x, c);
    let o = out(g, s, i);
    lemma_syms(g, s, i);
    lemma_form(g, s, i);
    let k = choose|k: int| #[trigger] inat(g, o, k, x, c);
    lemma_inn(g, o[k], x, c);
    if o.len() == 1 && o[0] == g.epsilon_symbol { assert(k == 0); assert(false); }
    let a = lemma_vanish(g, o, c, k as nat);
    let t = o.skip(k);
    if nt(g, o[k]) {
        let (v, b) = lemma_first_derives(g, o[k], x, c);
        lemma_ctx(g, Seq::empty(), seq![o[k]], v, o.skip(k + 1), b);
        assert(Seq::<T>::empty() + seq![o[k]] + o.skip(k + 1) =~= t);
        let w = Seq::<T>::empty() + v + o.skip(k + 1);
        lemma_trans(g, o, t, w, a, b);
        lemma_root(g, s, i, w, a + b);
        (w, a + b + 1)
    } else {
        lemma_root(g, s, i, t, a);
        (t, a + 1)
    }
}
/// what a derived form starts with is in FIRST of the form it is derived from
proof fn lemma_derives_first<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>, x: T, n: nat)
    requires g_wf(g), no_eps(g, u), derives(g, u, v, n), begins(g, v, x),
    ensures first_seq(g, u, x),
    decreases n
{
    let e = g.epsilon_symbol;
    if n == 0 {
        if x != e { lemma_inn(g, x, x, 0); assert(inn(g, x, x, 0)); assert(first_at(g, u, 0, x)); }
    } else {
        let w = choose|w: Seq<T>| #[trigger] step(g, u, w) && derives(g, w, v, (n - 1) as nat);
        let (k, i) = choose|k: int, i: int| #[trigger] step_at(g, u, w, k, i);
        let (s, o) = (u[k], out(g, u[k], i));
        let f = form(g, o);
        lemma_form(g, s, i);
        lemma_syms(g, s, i);
        let l = f.len() as int;
        assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] != e && (j < k ==> w[j] == u[j]) && (k <= j < k + l ==> w[j] == f[j - k]) && (j >= k + l ==> w[j] == u[j - l + 1]) by {
            if j < k { assert(w[j] == u[j]); } else if j < k + l { assert(w[j] == f[j - k]); } else { assert(w[j] == u[j - l + 1]); }
        }
        assert(w.len() == u.len() - 1 + l);
        lemma_derives_first(g, w, v, x, (n - 1) as nat);
        // the output is nullable if its form is
        let whole = forall|j: int| 0 <= j < l ==> nullable(g, #[trigger] f[j]);
        if whole {
            assert forall|j: int| 0 <= j < o.len() implies nullable(g, #[trigger] o[j]) by {
                if o.len() == 1 && o[0] == e { lemma_inn(g, e, e, 0); assert(inn(g, e, e, 0)); } else { assert(f[j] == o[j]); }
            }
            assert(first_seq(g, out(g, s, i), e));
            lemma_first_prod(g, s, e);
            assert(nullable(g, s));
        }
        if x == e {
            assert forall|j: int| 0 <= j < l implies nullable(g, #[trigger] f[j]) by { assert(w[k + j] == f[j]); }
            assert forall|j: int| 0 <= j < u.len() implies nullable(g, #[trigger] u[j]) by {
                if j < k { assert(w[j] == u[j]); } else if j > k { assert(w[j + l - 1] == u[j]); }
            }
        } else {
            let m = choose|m: int| #[trigger] first_at(g, w, m, x);
            assert forall|j: int| 0 <= j < k && j < m implies nullable(g, #[trigger] u[j]) by { assert(w[j] == u[j]); }
            if m < k {
                assert(first_at(g, u, m, x));
            } else if m < k + l {
                assert forall|j: int| 0 <= j < m - k implies nullable(g, #[trigger] o[j]) by { assert(w[k + j] == f[j]); }
                assert(first_at(g, o, m - k, x));
                assert(first_seq(g, out(g, s, i), x));
                lemma_first_prod(g, s, x);
                assert(first_at(g, u, k, x));
            } else {
                assert forall|j: int| 0 <= j < l implies nullable(g, #[trigger] f[j]) by { assert(w[k + j] == f[j]); }
                assert(whole);
                assert forall|j: int| 0 <= j < m - l + 1 implies nullable(g, #[trigger] u[j]) by { if j > k { assert(w[j + l - 1] == u[j]); } }
                assert(first_at(g, u, m - l + 1, x));
            }
        }
    }
}
/// FIRST of a form is what its derivations begin with
pub open spec fn form_first<T>(g: ContextFreeGrammar<T>, u: Seq<T>, x: T) -> bool { exists|v: Seq<T>, n: nat| #[trigger] derives(g, u, v, n) && begins(g, v, x) }
proof fn lemma_seq_derives<T>(g: ContextFreeGrammar<T>, u: Seq<T>, x: T) -> (r: (Seq<T>, nat))
    requires g_wf(g), no_eps(g, u), first_seq(g, u, x),
    ensures derives(g, u, r.0, r.1), begins(g, r.0, x),
{
    let e = g.epsilon_symbol;
    lemma_seq_n(g, u, x);
    let d = choose|d: nat| #[trigger] inseq(g, u, x, d);
    if x == e {
        let n = lemma_vanish(g, u, d, u.len());
        assert(u.skip(u.len() as int) =~= Seq::<T>::empty());
        (Seq::empty(), n)
    } else {
        let k = choose|k: int| #[trigger] inat(g, u, k, x, d);
        lemma_inn(g, u[k], x, d);
        let a = lemma_vanish(g, u, d, k as nat);
        let t = u.skip(k);
        if nt(g, u[k]) {
            let (v, b) = lemma_first_derives(g, u[k], x, d);
            lemma_ctx(g, Seq::empty(), seq![u[k]], v, u.skip(k + 1), b);
            assert(Seq::<T>::empty() + seq![u[k]] + u.skip(k + 1) =~= t);
            let w = Seq::<T>::empty() + v + u.skip(k + 1);
            lemma_trans(g, u, t, w, a, b);
            (w, a + b)
        } else { (t, a) }
    }
}
pub proof fn lemma_form_first<T>(g: ContextFreeGrammar<T>, u: Seq<T>, x: T)
    requires g_wf(g), no_eps(g, u),
    ensures first_seq(g, u, x) <==> form_first(g, u, x),
{
    if first_seq(g, u, x) { let (v, n) = lemma_seq_derives(g, u, x); }
    if form_first(g, u, x) {
        let (v, n) = choose|v: Seq<T>, n: nat| #[trigger] derives(g, u, v, n) && begins(g, v, x);
        lemma_derives_first(g, u, v, x, n);
    }
}
/// FIRST, the least fixed point, is FIRST by derivations
pub proof fn lemma_first_meaning<T>(g: ContextFreeGrammar<T>, s: T, x: T)
    requires g_wf(g), nt(g, s),
    ensures first(g, s, x) <==> derives_first(g, s, x),
{
    if first(g, s, x) {
        let d = choose|d: nat| #[trigger] inn(g, s, x, d);
        if x == g.epsilon_symbol { let n = lemma_null_derives(g, s, d); assert(begins(g, Seq::<T>::empty(), x)); }
        else { let (v, n) = lemma_first_derives(g, s, x, d); }
    }
    if derives_first(g, s, x) {
        let (v, n) = choose|v: Seq<T>, n: nat| #[trigger] derives(g, seq![s], v, n) && begins(g, v, x);
        if nt(g, g.epsilon_symbol) { let e = g.epsilon_symbol; assert(g.productions@[e]@.len() > 0); lemma_syms(g, e, 0); }
        assert(no_eps(g, seq![s]));
        lemma_derives_first(g, seq![s], v, x, n);
        if x == g.epsilon_symbol { assert(nullable(g, seq![s][0])); } else { let k = choose|k: int| #[trigger] first_at(g, seq![s], k, x); assert(k == 0); }
    }
}
/// FIRST of a set of sets, by derivations
pub open spec fn first_means<T>(g: ContextFreeGrammar<T>, m: HMap<T, HSet<T>>) -> bool {
    &&& forall|s: T| #[trigger] m@.contains_key(s) <==> sym(g, s)
    &&& forall|s: T, x: T| nt(g, s) ==> (#[trigger] m@[s]@.contains(x) <==> derives_first(g, s, x))
    &&& forall|s: T| sym(g, s) && !nt(g, s) ==> #[trigger] m@[s]@ == set![s]
}
pub proof fn lemma_means<T>(g: ContextFreeGrammar<T>, m: HMap<T, HSet<T>>)
    requires g_wf(g), first_ok(g, m),
    ensures first_means(g, m),
{
    assert forall|s: T, x: T| nt(g, s) implies (#[trigger] m@[s]@.contains(x) <==> derives_first(g, s, x)) by { lemma_first_meaning(g, s, x); assert(m@.contains_key(s)); }
    assert forall|s: T| sym(g, s) && !nt(g, s) implies #[trigger] m@[s]@ == set![s] by {
        assert(m@.contains_key(s));
        assert forall|x: T| m@[s]@.contains(x) <==> set![s].contains(x) by {
            if first(g, s, x) { let n = choose|n: nat| #[trigger] inn(g, s, x, n); lemma_inn(g, s, x, n); }
            if x == s { lemma_inn(g, s, s, 0); assert(inn(g, s, s, 0)); }
        }
        assert(m@[s]@ =~= set![s]);
    }
}
//@end
//@begin C04
// ------------------------------------------------------------------ FOLLOW by derivations
/// x stands immediately after b in a form derivable from a non-terminal
pub open spec fn stands<T>(g: ContextFreeGrammar<T>, v: Seq<T>, k: int, b: T, x: T) -> bool { 0 <= k && k + 1 < v.len() && v[k] == b && v[k + 1] == x }
pub open spec fn stands_after<T>(g: ContextFreeGrammar<T>, a: T, v: Seq<T>, n: nat, b: T, x: T) -> bool { nt(g, a) && derives(g, seq![a], v, n) && exists|k: int| #[trigger] stands(g, v, k, b, x) }
pub open spec fn derives_follow<T>(g: ContextFreeGrammar<T>, b: T, x: T) -> bool { !nt(g, x) && exists|a: T, v: Seq<T>, n: nat| #[trigger] stands_after(g, a, v, n, b, x) }
/// a non-terminal of u with x in FIRST of what comes after it has x in FOLLOW
spec fn served<T>(g: ContextFreeGrammar<T>, u: Seq<T>, x: T) -> bool { forall|j: int| 0 <= j < u.len() && nt(g, #[trigger] u[j]) && direct(g, u, j, x) ==> follow(g, u[j], x) }
proof fn lemma_served_step<T>(g: ContextFreeGrammar<T>, u: Seq<T>, w: Seq<T>, x: T)
    requires g_wf(g), no_eps(g, u), step(g, u, w), served(g, u, x),
    ensures served(g, w, x), no_eps(g, w),
{
    let e = g.epsilon_symbol;
    let (k, i) = choose|k: int, i: int| #[trigger] step_at(g, u, w, k, i);
    let (s, o) = (u[k], out(g, u[k], i));
    let f = form(g, o);
    lemma_form(g, s, i);
    lemma_syms(g, s, i);
    let l = f.len() as int;
    assert(w.len() == u.len() - 1 + l);
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] != e && (j < k ==> w[j] == u[j]) && (k <= j < k + l ==> w[j] == f[j - k]) && (j >= k + l ==> w[j] == u[j - l + 1]) by {
        if j < k { assert(w[j] == u[j]); } else if j < k + l { assert(w[j] == f[j - k]); } else { assert(w[j] == u[j - l + 1]); }
    }
    assert forall|j: int| 0 <= j < w.len() && nt(g, #[trigger] w[j]) && direct(g, w, j, x) implies follow(g, w[j], x) by {
        let m = choose|m: int| #[trigger] dir_at(g, w, j, m, x);
        let whole = m >= k + l;
        if j < k + l && whole {
            // what the output contributes after j is nullable
            assert forall|q: int| 0 <= q < l && k + q > j implies nullable(g, #[trigger] f[q]) by { assert(w[k + q] == f[q]); }
        }
        if j < k {
            if m < k {
                assert forall|q: int| j < q < m implies nullable(g, #[trigger] u[q]) by { assert(w[q] == u[q]); }
                assert(dir_at(g, u, j, m, x));
            } else if m < k + l {
                assert forall|q: int| 0 <= q < m - k implies nullable(g, #[trigger] o[q]) by { assert(w[k + q] == f[q]); }
                assert(first_at(g, o, m - k, x));
                assert(first_seq(g, out(g, s, i), x));
                lemma_first_prod(g, s, x);
                assert forall|q: int| j < q < k implies nullable(g, #[trigger] u[q]) by { assert(w[q] == u[q]); }
                assert(dir_at(g, u, j, k, x));
            } else {
                assert forall|q: int| 0 <= q < o.len() implies nullable(g, #[trigger] o[q]) by {
                    if o.len() == 1 && o[0] == e { lemma_inn(g, e, e, 0); assert(inn(g, e, e, 0)); } else { assert(f[q] == o[q]); }
                }
                assert(first_seq(g, out(g, s, i), e));
                lemma_first_prod(g, s, e);
                assert(nullable(g, s));
                assert forall|q: int| j < q < m - l + 1 implies nullable(g, #[trigger] u[q]) by { if q < k { assert(w[q] == u[q]); } else if q > k { assert(w[q + l - 1] == u[q]); } }
                assert(dir_at(g, u, j, m - l + 1, x));
            }
            assert(direct(g, u, j, x));
            assert(follow(g, u[j], x));
        } else if j < k + l {
            assert(f =~= o);
            if m < k + l {
                assert forall|q: int| j - k < q < m - k implies nullable(g, #[trigger] o[q]) by { assert(w[k + q] == o[q]); }
                assert(dir_at(g, o, j - k, m - k, x));
                lemma_follow_direct(g, s, i, j - k, x);
            } else {
                assert forall|q: int| k < q < m - l + 1 implies nullable(g, #[trigger] u[q]) by { assert(w[q + l - 1] == u[q]); }
                assert(dir_at(g, u, k, m - l + 1, x));
                assert(direct(g, u, k, x));
                assert(follow(g, u[k], x));
                assert(tail_null(g, o, j - k));
                lemma_follow_tail(g, s, i, j - k, x);
            }
        } else {
            assert forall|q: int| j - l + 1 < q < m - l + 1 implies nullable(g, #[trigger] u[q]) by { assert(w[q + l - 1] == u[q]); }
            assert(dir_at(g, u, j - l + 1, m - l + 1, x));
            assert(direct(g, u, j - l + 1, x));
            assert(follow(g, u[j - l + 1], x));
        }
    }
}
proof fn lemma_served<T>(g: ContextFreeGrammar<T>, u: Seq<T>, v: Seq<T>, x: T, n: nat)
    requires g_wf(g), no_eps(g, u), derives(g, u, v, n), served(g, u, x),
    ensures served(g, v, x), no_eps(g, v),
    decreases n
{
    if n > 0 {
        let w = choose|w: Seq<T>| #[trigger] step(g, u, w) && derives(g, w, v, (n - 1) as nat);
        lemma_served_step(g, u, w, x);
        lemma_served(g, w, v, x, (n - 1) as nat);
    }
}
/// from a form with s at k: s is replaced by its i-th output, whose part after position p is derived further, to t
proof fn lemma_expand<T>(g: ContextFreeGrammar<T>, a: T, c: Seq<T>, n0: nat, k: int, i: int, p: int, t: Seq<T>, m: nat) -> (r: (Seq<T>, nat))
    requires
        g_wf(g), derives(g, seq![a], c, n0), 0 <= k < c.len(), nt(g, c[k]), 0 <= i < np(g, c[k]),
        0 <= p < out(g, c[k], i).len(), nt(g, out(g, c[k], i)[p]), derives(g, out(g, c[k], i).skip(p + 1), t, m),
    ensures
        derives(g, seq![a], r.0, r.1), r.0 == (c.take(k) + out(g, c[k], i).take(p + 1)) + t + c.skip(k + 1),
{
    let o = out(g, c[k], i);
    lemma_syms(g, c[k], i);
    assert(form(g, o) == o);
    let c1 = put(c, k, o);
    assert(step_at(g, c, c1, k, i));
    assert(step(g, c, c1));
    assert(derives(g, c1, c1, 0));
    assert(derives(g, c, c1, 1)) by { assert((1nat - 1) as nat == 0); }
    let l = c.take(k) + o.take(p + 1);
    let r = c.skip(k + 1);
    lemma_ctx(g, l, o.skip(p + 1), t, r, m);
    assert(l + o.skip(p + 1) + r =~= c1);
    lemma_trans(g, seq![a], c, c1, n0, 1);
    lemma_trans(g, seq![a], c1, l + t + r, n0 + 1, m);
    (l + t + r, n0 + 1 + m)
}
proof fn lemma_follow_derives<T>(g: ContextFreeGrammar<T>, b: T, x: T, n: nat)
    requires g_wf(g), foln(g, b, x, n),
    ensures derives_follow(g, b, x),
    decreases n
{
    let e = g.epsilon_symbol;
    lemma_foln(g, b, x, n);
    let (a, i, k) = choose|a: T, i: int, k: int| #[trigger] foln_at(g, b, x, a, i, k, (n - 1) as nat);
    let o = out(g, a, i);
    let t = o.skip(k + 1);
    lemma_syms(g, a, i);
    assert(no_eps(g, t)) by { assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != e by { assert(t[j] == o[k + 1 + j]); } }
    if direct(g, o, k, x) {
        let m = choose|m: int| #[trigger] dir_at(g, o, k, m, x);
        assert forall|j: int| 0 <= j < m - k - 1 implies nullable(g, #[trigger] t[j]) by { assert(t[j] == o[k + 1 + j]); }
        assert(t[m - k - 1] == o[m]);
        assert(first_at(g, t, m - k - 1, x));
        let (v, d) = lemma_seq_derives(g, t, x);
        assert(derives(g, seq![a], seq![a], 0));
        let (c, q) = lemma_expand(g, a, seq![a], 0, 0, i, k, v, d);
        assert(stands(g, c, k, b, x));
        assert(stands_after(g, a, c, q, b, x));
    } else {
        lemma_follow_derives(g, a, x, (n - 1) as nat);
        let (a0, c, q) = choose|a0: T, c: Seq<T>, q: nat| #[trigger] stands_after(g, a0, c, q, a, x);
        let z = choose|z: int| #[trigger] stands(g, c, z, a, x);
        assert forall|j: int| 0 <= j < t.len() implies nullable(g, #[trigger] t[j]) by { assert(t[j] == o[k + 1 + j]); }
        assert(first_seq(g, t, e));
        let (v, d) = lemma_seq_derives(g, t, e);
        assert(v =~= Seq::<T>::empty());
        let (y, h) = lemma_expand(g, a0, c, q, z, i, k, v, d);
        assert(stands(g, y, z + k, b, x));
        assert(stands_after(g, a0, y, h, b, x));
    }
}
/// FOLLOW, the least fixed point, is FOLLOW by derivations
pub proof fn lemma_follow_meaning<T>(g: ContextFreeGrammar<T>, b: T, x: T)
    requires g_wf(g), nt(g, b),
    ensures follow(g, b, x) <==> derives_follow(g, b, x),
{
    if follow(g, b, x) { let n = choose|n: nat| #[trigger] foln(g, b, x, n); lemma_follow_derives(g, b, x, n); }
    if derives_follow(g, b, x) {
        let (a, v, n) = choose|a: T, v: Seq<T>, n: nat| #[trigger] stands_after(g, a, v, n, b, x);
        let k = choose|k: int| #[trigger] stands(g, v, k, b, x);
        let u = seq![a];
        if nt(g, g.epsilon_symbol) { let e = g.epsilon_symbol; assert(g.productions@[e]@.len() > 0); lemma_syms(g, e, 0); }
        assert(no_eps(g, u));
        assert(served(g, u, x)) by { assert forall|j: int| 0 <= j < u.len() && nt(g, #[trigger] u[j]) && direct(g, u, j, x) implies follow(g, u[j], x) by { let m = choose|m: int| #[trigger] dir_at(g, u, j, m, x); assert(false); } }
        lemma_served(g, u, v, x, n);
        assert(v[k + 1] == x);
        assert(x != g.epsilon_symbol);
        lemma_inn(g, x, x, 0);
        assert(inn(g, x, x, 0));
        assert(dir_at(g, v, k, k + 1, x));
        assert(direct(g, v, k, x));
    }
}
pub open spec fn follow_means<T>(g: ContextFreeGrammar<T>, m: HMap<T, HSet<T>>) -> bool {
    &&& forall|b: T| #[trigger] m@.contains_key(b) <==> nt(g, b)
    &&& forall|b: T, x: T| nt(g, b) ==> (#[trigger] m@[b]@.contains(x) <==> derives_follow(g, b, x))
}
pub proof fn lemma_follow_means<T>(g: ContextFreeGrammar<T>, m: HMap<T, HSet<T>>)
    requires g_wf(g), follow_ok(g, m),
    ensures follow_means(g, m),
{
    assert forall|b: T, x: T| nt(g, b) implies (#[trigger] m@[b]@.contains(x) <==> derives_follow(g, b, x)) by { assert(m@.contains_key(b)); lemma_follow_meaning(g, b, x); }
}
//@end
