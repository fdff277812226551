// ------------------------------------------------------------------ LL(1) grammars: a derivation tree is what ordered choice finds
/// number of tokens a tree stands for; of the first i subtrees
pub open spec fn wid<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>) -> nat
    decreases t, t.kids.len() + 1
{
    if t.kids.len() == 0 { if t.tok.t_type == g.epsilon_symbol { 0 } else { 1 } } else { wids(g, t, t.kids.len()) }
}
pub open spec fn wids<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, i: nat) -> nat
    decreases t, i
{
    if i == 0 || i > t.kids.len() { 0 } else { wids(g, t, (i - 1) as nat) + wid(g, t.kids[i - 1]) }
}
pub open spec fn spells<L, T>(t: Tr<L, T>) -> Seq<T> { t.kids.map_values(|k: Tr<L, T>| k.tok.t_type) }
/// t is a derivation tree of its root symbol for the tokens from p on
pub open spec fn deriv<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int) -> bool
    decreases t
{
    let a = t.tok.t_type;
    if nt(g, a) {
        &&& t.tok == tok0::<L, T>(a)
        &&& t.kids.len() > 0
        &&& prod_of(g, a, spells(t))
        &&& forall|i: int| 0 <= i < t.kids.len() ==> deriv(g, toks, #[trigger] t.kids[i], p + wids(g, t, i as nat))
    } else if a == g.epsilon_symbol { t == (Tr { tok: tok0::<L, T>(a), kids: Seq::empty() }) }
    else { 0 <= p < toks.len() && t == (Tr { tok: toks[p], kids: Seq::empty() }) }
}
/// no two productions of a symbol are predicted by the same lookahead
pub open spec fn ll1<T>(g: ContextFreeGrammar<T>) -> bool {
    forall|a: T, x: T, i: int, j: int| nt(g, a) && 0 <= i < np(g, a) && 0 <= j < np(g, a) && #[trigger] predict(g, a, out(g, a, i), x) && #[trigger] predict(g, a, out(g, a, j), x) ==> i == j
}
/// the initial symbol has productions, each of which ends with a terminal
pub open spec fn ends_ok<T>(g: ContextFreeGrammar<T>) -> bool {
    let a = g.initial_symbol;
    nt(g, a) && forall|i: int| 0 <= i < np(g, a) ==> !nt(g, (#[trigger] out(g, a, i)).last()) && out(g, a, i).last() != g.epsilon_symbol
}
/// the last leaf is a token
pub open spec fn solid<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>) -> bool
    decreases t
{
    if t.kids.len() == 0 { t.tok.t_type != g.epsilon_symbol } else { solid(g, t.kids[t.kids.len() - 1]) }
}
/// what comes after the tree
pub open spec fn ctx<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int) -> bool {
    let q = p + wid(g, t);
    solid(g, t) || (0 <= q < toks.len() && follow(g, t.tok.t_type, toks[q].t_type))
}
proof fn lemma_wids<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, i: nat, j: nat)
    requires i <= j <= t.kids.len(),
    ensures wids(g, t, i) <= wids(g, t, j),
    decreases j
{
    if i < j { lemma_wids(g, t, i, (j - 1) as nat); }
}
proof fn lemma_empty<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, i: nat, j: nat)
    requires i <= j <= t.kids.len(), wids(g, t, i) == wids(g, t, j),
    ensures forall|k: int| i <= k < j ==> wid(g, #[trigger] t.kids[k]) == 0,
{
    assert forall|k: int| i <= k < j implies wid(g, #[trigger] t.kids[k]) == 0 by {
        lemma_wids(g, t, i, k as nat);
        lemma_wids(g, t, (k + 1) as nat, j);
        assert(wids(g, t, (k + 1) as nat) == wids(g, t, k as nat) + wid(g, t.kids[k]));
    }
}
proof fn lemma_full<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, i: nat, j: nat) -> (k: int)
    requires i <= j <= t.kids.len(), wids(g, t, i) < wids(g, t, j),
    ensures i <= k < j, wid(g, t.kids[k]) > 0, wids(g, t, k as nat) == wids(g, t, i),
    decreases j
{
    lemma_wids(g, t, i, (j - 1) as nat);
    if wids(g, t, i) < wids(g, t, (j - 1) as nat) { lemma_full(g, t, i, (j - 1) as nat) } else { j - 1 }
}
proof fn lemma_solid<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>)
    requires solid(g, t),
    ensures wid(g, t) > 0,
    decreases t
{
    if t.kids.len() > 0 { lemma_solid(g, t.kids[t.kids.len() - 1]); }
}
/// an empty tree shows that its symbol is nullable, any other one that its first token is in FIRST
proof fn lemma_front<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int)
    requires deriv(g, toks, t, p),
    ensures
        wid(g, t) == 0 ==> nullable(g, t.tok.t_type),
        wid(g, t) > 0 ==> 0 <= p < toks.len() && toks[p].t_type != g.epsilon_symbol && first(g, t.tok.t_type, toks[p].t_type),
        nt(g, t.tok.t_type) && wid(g, t) == 0 ==> first_seq(g, spells(t), g.epsilon_symbol),
        nt(g, t.tok.t_type) && wid(g, t) > 0 ==> first_seq(g, spells(t), toks[p].t_type),
    decreases t
{
    let a = t.tok.t_type;
    if nt(g, a) {
        let o = spells(t);
        let n = t.kids.len();
        let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
        if wid(g, t) == 0 {
            lemma_empty(g, t, 0, n);
            assert forall|j: int| 0 <= j < o.len() implies nullable(g, #[trigger] o[j]) by { lemma_front(g, toks, t.kids[j], p + wids(g, t, j as nat)); }
            assert(first_seq(g, out(g, a, i), g.epsilon_symbol));
            lemma_first_prod(g, a, g.epsilon_symbol);
        } else {
            let k = lemma_full(g, t, 0, n);
            lemma_empty(g, t, 0, k as nat);
            lemma_front(g, toks, t.kids[k], p + wids(g, t, k as nat));
            let x = toks[p].t_type;
            assert forall|j: int| 0 <= j < k implies nullable(g, #[trigger] o[j]) by { lemma_front(g, toks, t.kids[j], p + wids(g, t, j as nat)); }
            assert(first_at(g, o, k, x));
            assert(first_seq(g, out(g, a, i), x));
            lemma_first_prod(g, a, x);
        }
    } else { lemma_first_term(g, a, a); }
}
/// what comes after a subtree
proof fn lemma_child<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int, i: int)
    requires deriv(g, toks, t, p), nt(g, t.tok.t_type), ctx(g, toks, t, p), 0 <= i < t.kids.len(), nt(g, t.kids[i].tok.t_type),
    ensures ctx(g, toks, t.kids[i], p + wids(g, t, i as nat)),
{
    let a = t.tok.t_type;
    let o = spells(t);
    let n = t.kids.len();
    let pi = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
    assert(out(g, a, pi) == o);
    let i1 = (i + 1) as nat;
    assert(wids(g, t, i1) == wids(g, t, i as nat) + wid(g, t.kids[i]));
    lemma_wids(g, t, i1, n);
    if wids(g, t, i1) < wids(g, t, n) {
        let k = lemma_full(g, t, i1, n);
        lemma_empty(g, t, i1, k as nat);
        assert(t.kids[k].tok.t_type == o[k]);
        lemma_front(g, toks, t.kids[k], p + wids(g, t, k as nat));
        assert forall|j: int| i < j < k implies nullable(g, #[trigger] o[j]) by { lemma_front(g, toks, t.kids[j], p + wids(g, t, j as nat)); }
        assert(dir_at(g, o, i, k, toks[p + wids(g, t, k as nat)].t_type));
        lemma_follow_direct(g, a, pi, i, toks[p + wids(g, t, k as nat)].t_type);
    } else if !(solid(g, t) && i1 == n) {
        lemma_empty(g, t, i1, n);
        if solid(g, t) { lemma_solid(g, t.kids[n - 1]); }
        assert forall|j: int| i < j < n implies nullable(g, #[trigger] o[j]) by { lemma_front(g, toks, t.kids[j], p + wids(g, t, j as nat)); }
        assert(tail_null(g, o, i));
        lemma_follow_tail(g, a, pi, i, toks[p + wid(g, t)].t_type);
    }
}
/// with one production predicted, the cell holds that one
proof fn lemma_single<T>(g: ContextFreeGrammar<T>, a: T, x: T, i: int, n: nat)
    requires ll1(g), nt(g, a), 0 <= i < np(g, a), n <= np(g, a), predict(g, a, out(g, a, i), x),
    ensures row(g, a, x, n) == if n <= i { Seq::<PV<T>>::empty() } else { seq![pv(g.productions@[a]@[i])] },
    decreases n
{
    if n > 0 {
        lemma_single(g, a, x, i, (n - 1) as nat);
        if n - 1 == i { assert(row(g, a, x, n) =~= seq![pv(g.productions@[a]@[i])]); } else { assert(!predict(g, a, out(g, a, n - 1), x)); }
    }
}
proof fn lemma_cands<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int)
    requires g_wf(g), ll1(g), deriv(g, toks, t, p), nt(g, t.tok.t_type), ctx(g, toks, t, p),
    ensures cands(g, toks, t.tok.t_type, p) == seq![spells(t)],
{
    let a = t.tok.t_type;
    let o = spells(t);
    let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
    assert(out(g, a, i) == o);
    lemma_front(g, toks, t, p);
    if solid(g, t) { lemma_solid(g, t); }
    let x = toks[p].t_type;
    if wid(g, t) == 0 {
        let n = choose|n: nat| #[trigger] foln(g, a, x, n);
        lemma_foln_term(g, a, x, n);
    }
    assert(predict(g, a, out(g, a, i), x));
    lemma_predict_term(g, a, i, x);
    lemma_single(g, a, x, i, np(g, a) as nat);
    assert(cands(g, toks, a, p) =~= seq![o]);
}
pub open spec fn kid_state<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, p: int, k: int) -> SS<L, T> {
    SS { init: p + wids(g, t, k as nat), fin: p + wids(g, t, (k + 1) as nat), tr: t.kids[k], rest: if nt(g, t.kids[k].tok.t_type) { Some(Seq::empty()) } else { None } }
}
pub open spec fn kid_states<L, T>(g: ContextFreeGrammar<T>, t: Tr<L, T>, p: int, i: nat) -> Seq<SS<L, T>> { Seq::new(i, |k: int| kid_state(g, t, p, k)) }
proof fn lemma_ll1_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int, i: nat)
    requires g_wf(g), ll1(g), deriv(g, toks, t, p), nt(g, t.tok.t_type), ctx(g, toks, t, p), i <= t.kids.len(),
    ensures v_prod(g, toks, t.tok.t_type, p, spells(t), kid_states(g, t, p, i)) == Some(PR::Ok(t, p + wid(g, t))),
    decreases t, t.kids.len() - i
{
    let o = spells(t);
    let st = kid_states(g, t, p, i);
    eq_prod(g, toks, t.tok.t_type, p, o, st);
    assert(stop(st, p) == p + wids(g, t, i));
    if i == t.kids.len() { assert(trees(st) =~= t.kids); }
    else {
        let k = t.kids[i as int];
        if nt(g, k.tok.t_type) { lemma_child(g, toks, t, p, i as int); }
        lemma_ll1(g, toks, k, p + wids(g, t, i));
        assert(st.push(kid_state(g, t, p, i as int)) =~= kid_states(g, t, p, i + 1));
        lemma_ll1_prod(g, toks, t, p, i + 1);
    }
}
proof fn lemma_ll1<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>, p: int)
    requires g_wf(g), ll1(g), deriv(g, toks, t, p), nt(g, t.tok.t_type) ==> ctx(g, toks, t, p),
    ensures v_sym(g, toks, t.tok.t_type, p) == Some(SR::Ok(SS { init: p, fin: p + wid(g, t), tr: t, rest: if nt(g, t.tok.t_type) { Some(Seq::empty()) } else { None } })),
    decreases t, t.kids.len() + 1
{
    let a = t.tok.t_type;
    eq_sym(g, toks, a, p);
    if nt(g, a) {
        let cs = cands(g, toks, a, p);
        lemma_cands(g, toks, t, p);
        eq_try(g, toks, a, p, cs);
        assert(kid_states(g, t, p, 0) =~= Seq::empty());
        lemma_ll1_prod(g, toks, t, p, 0);
        assert(cs.drop_first() =~= Seq::empty());
    }
}
/// a sentence of an LL(1) grammar is found, with whatever tokens behind it
pub proof fn lemma_sentence<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, t: Tr<L, T>)
    requires g_wf(g), ll1(g), ends_ok(g), deriv(g, toks, t, 0), t.tok.t_type == g.initial_symbol,
    ensures
        toks.len() > 0, v_parse(g, toks) is Some, v_parse(g, toks)->Some_0 is Ok, v_parse(g, toks)->Some_0->Ok_0.tr == t,
{
    let a = g.initial_symbol;
    let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= spells(t);
    let l = t.kids[t.kids.len() - 1];
    assert(out(g, a, i).last() == l.tok.t_type);
    assert(deriv(g, toks, l, wids(g, t, (t.kids.len() - 1) as nat) as int));
    assert(l.kids.len() == 0);
    assert(solid(g, l));
    assert(solid(g, t));
    lemma_solid(g, t);
    lemma_front(g, toks, t, 0);
    lemma_ll1(g, toks, t, 0);
    eq_sym(g, toks, a, 0);
}
/// the tokens have a sentence as a prefix
pub open spec fn has_sentence<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>) -> bool {
    exists|t: Tr<L, T>| #[trigger] deriv(g, toks, t, 0) && t.tok.t_type == g.initial_symbol
}
// ------------------------------------------------------------------ least depths
pub open spec fn least(f: spec_fn(nat) -> bool) -> nat { choose|n: nat| #[trigger] f(n) && forall|m: nat| m < n ==> !#[trigger] f(m) }
proof fn lemma_least(f: spec_fn(nat) -> bool, n: nat)
    requires f(n),
    ensures f(least(f)), least(f) <= n,
    decreases n
{
    if exists|m: nat| m < n && #[trigger] f(m) { let m = choose|m: nat| m < n && #[trigger] f(m); lemma_least(f, m); }
    else { assert(f(n) && forall|m: nat| m < n ==> !#[trigger] f(m)); if least(f) > n { } }
}
pub open spec fn def_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>) -> spec_fn(nat) -> bool { |n: nat| try_n(g, toks, a, p, cs, n) is Some }
pub open spec fn def_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>) -> spec_fn(nat) -> bool { |n: nat| prod_n(g, toks, a, p, o, st, n) is Some }
pub open spec fn def_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int) -> spec_fn(nat) -> bool { |n: nat| sym_n(g, toks, x, p, n) is Some }
pub open spec fn def_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>) -> spec_fn(nat) -> bool { |n: nat| back_n(g, toks, st, n) is Some }
#[verifier::opaque]
pub open spec fn min_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>) -> nat { least(def_try(g, toks, a, p, cs)) }
#[verifier::opaque]
pub open spec fn min_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>) -> nat { least(def_prod(g, toks, a, p, o, st)) }
#[verifier::opaque]
pub open spec fn min_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int) -> nat { least(def_sym(g, toks, x, p)) }
#[verifier::opaque]
pub open spec fn min_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>) -> nat { least(def_back(g, toks, st)) }
proof fn least_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>, n: nat)
    ensures
        try_n(g, toks, a, p, cs, n) is Some ==> v_try(g, toks, a, p, cs) is Some && min_try(g, toks, a, p, cs) <= n,
        v_try(g, toks, a, p, cs) is Some ==> try_n(g, toks, a, p, cs, min_try(g, toks, a, p, cs)) is Some,
{
    reveal(min_try);
    let f = def_try(g, toks, a, p, cs);
    if try_n(g, toks, a, p, cs, n) is Some { assert(f(n)); lemma_least(f, n); val_try(g, toks, a, p, cs, n); }
    if v_try(g, toks, a, p, cs) is Some { reveal(v_try); assert(f(dep_try(g, toks, a, p, cs))); lemma_least(f, dep_try(g, toks, a, p, cs)); }
}
proof fn least_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, n: nat)
    ensures
        prod_n(g, toks, a, p, o, st, n) is Some ==> v_prod(g, toks, a, p, o, st) is Some && min_prod(g, toks, a, p, o, st) <= n,
        v_prod(g, toks, a, p, o, st) is Some ==> prod_n(g, toks, a, p, o, st, min_prod(g, toks, a, p, o, st)) is Some,
{
    reveal(min_prod);
    let f = def_prod(g, toks, a, p, o, st);
    if prod_n(g, toks, a, p, o, st, n) is Some { assert(f(n)); lemma_least(f, n); val_prod(g, toks, a, p, o, st, n); }
    if v_prod(g, toks, a, p, o, st) is Some { reveal(v_prod); assert(f(dep_prod(g, toks, a, p, o, st))); lemma_least(f, dep_prod(g, toks, a, p, o, st)); }
}
proof fn least_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int, n: nat)
    ensures
        sym_n(g, toks, x, p, n) is Some ==> v_sym(g, toks, x, p) is Some && min_sym(g, toks, x, p) <= n,
        v_sym(g, toks, x, p) is Some ==> sym_n(g, toks, x, p, min_sym(g, toks, x, p)) is Some,
{
    reveal(min_sym);
    let f = def_sym(g, toks, x, p);
    if sym_n(g, toks, x, p, n) is Some { assert(f(n)); lemma_least(f, n); val_sym(g, toks, x, p, n); }
    if v_sym(g, toks, x, p) is Some { reveal(v_sym); assert(f(dep_sym(g, toks, x, p))); lemma_least(f, dep_sym(g, toks, x, p)); }
}
proof fn least_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>, n: nat)
    ensures
        back_n(g, toks, st, n) is Some ==> v_back(g, toks, st) is Some && min_back(g, toks, st) <= n,
        v_back(g, toks, st) is Some ==> back_n(g, toks, st, min_back(g, toks, st)) is Some,
{
    reveal(min_back);
    let f = def_back(g, toks, st);
    if back_n(g, toks, st, n) is Some { assert(f(n)); lemma_least(f, n); val_back(g, toks, st, n); }
    if v_back(g, toks, st) is Some { reveal(v_back); assert(f(dep_back(g, toks, st))); lemma_least(f, dep_back(g, toks, st)); }
}
/// every step is defined when the whole is, with a smaller depth
pub proof fn dec_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>)
    requires v_try(g, toks, a, p, cs) is Some, cs.len() > 0,
    ensures
        v_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty()) is Some,
        min_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty()) < min_try(g, toks, a, p, cs),
        v_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty())->Some_0 is Err ==> v_try(g, toks, a, p, cs.drop_first()) is Some && min_try(g, toks, a, p, cs.drop_first()) < min_try(g, toks, a, p, cs),
{
    least_try(g, toks, a, p, cs, 0);
    let n = min_try(g, toks, a, p, cs);
    let m = (n - 1) as nat;
    least_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty(), m);
    val_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty(), m);
    least_try(g, toks, a, p, cs.drop_first(), m);
}
pub proof fn dec_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>)
    requires v_prod(g, toks, a, p, o, st) is Some, st.len() < o.len(),
    ensures
        v_sym(g, toks, o[st.len() as int], stop(st, p)) is Some,
        min_sym(g, toks, o[st.len() as int], stop(st, p)) < min_prod(g, toks, a, p, o, st),
        match v_sym(g, toks, o[st.len() as int], stop(st, p))->Some_0 {
            SR::Ok(s) => v_prod(g, toks, a, p, o, st.push(s)) is Some && min_prod(g, toks, a, p, o, st.push(s)) < min_prod(g, toks, a, p, o, st),
            SR::Err(_) => v_back(g, toks, st) is Some && min_back(g, toks, st) < min_prod(g, toks, a, p, o, st) && match v_back(g, toks, st)->Some_0 {
                BR::Again(st2) => v_prod(g, toks, a, p, o, st2) is Some && min_prod(g, toks, a, p, o, st2) < min_prod(g, toks, a, p, o, st),
                BR::Fail => true,
            },
        },
{
    least_prod(g, toks, a, p, o, st, 0);
    let m = (min_prod(g, toks, a, p, o, st) - 1) as nat;
    let (x, q) = (o[st.len() as int], stop(st, p));
    least_sym(g, toks, x, q, m);
    val_sym(g, toks, x, q, m);
    match sym_n(g, toks, x, q, m) {
        Some(SR::Ok(s)) => { least_prod(g, toks, a, p, o, st.push(s), m); }
        Some(SR::Err(_)) => {
            least_back(g, toks, st, m);
            val_back(g, toks, st, m);
            match back_n(g, toks, st, m) { Some(BR::Again(st2)) => { least_prod(g, toks, a, p, o, st2, m); } _ => {} }
        }
        None => {}
    }
}
pub proof fn dec_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int)
    requires v_sym(g, toks, x, p) is Some, nt(g, x),
    ensures
        v_try(g, toks, x, p, cands(g, toks, x, p)) is Some,
        min_try(g, toks, x, p, cands(g, toks, x, p)) < min_sym(g, toks, x, p),
{
    least_sym(g, toks, x, p, 0);
    least_try(g, toks, x, p, cands(g, toks, x, p), (min_sym(g, toks, x, p) - 1) as nat);
}
pub proof fn dec_back<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<SS<L, T>>)
    requires v_back(g, toks, st) is Some, st.len() > 0,
    ensures
        st.last().rest is None ==> v_back(g, toks, st.drop_last()) is Some && min_back(g, toks, st.drop_last()) < min_back(g, toks, st),
        st.last().rest is Some ==> {
            let (a, p, cs) = (st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0);
            &&& v_try(g, toks, a, p, cs) is Some
            &&& min_try(g, toks, a, p, cs) < min_back(g, toks, st)
            &&& v_try(g, toks, a, p, cs)->Some_0 is Err ==> v_back(g, toks, st.drop_last()) is Some && min_back(g, toks, st.drop_last()) < min_back(g, toks, st)
        },
{
    least_back(g, toks, st, 0);
    let m = (min_back(g, toks, st) - 1) as nat;
    least_back(g, toks, st.drop_last(), m);
    if st.last().rest is Some {
        let (a, p, cs) = (st.last().tr.tok.t_type, st.last().init, st.last().rest->Some_0);
        least_try(g, toks, a, p, cs, m);
        val_try(g, toks, a, p, cs, m);
    }
}
