// ------------------------------------------------------------------ asking the solver
/// no candidate of a parses at position p
pub open spec fn lost<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int) -> bool {
    let v = v_try(g, toks, a, p, cands(g, toks, a, p));
    v is Some && v->Some_0 is Err
}
pub open spec fn one<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int) -> bool { cands(g, toks, a, p).len() == 1 }
/// enc holds the symbols that enclose a, outermost first, with their positions: each is the only way of going on, and does not parse
#[verifier::opaque]
pub open spec fn encl<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, enc: Seq<(T, int)>, a: T, p: int) -> bool {
    if enc.len() == 0 { a == g.initial_symbol && p == 0 } else {
        &&& enc[0] == (g.initial_symbol, 0int)
        &&& forall|k: int| 0 <= k < enc.len() ==> one(g, toks, (#[trigger] enc[k]).0, enc[k].1) && lost(g, toks, enc[k].0, enc[k].1)
                && cands(g, toks, enc[k].0, enc[k].1)[0].contains(if k + 1 < enc.len() { enc[k + 1].0 } else { a })
    }
}
pub proof fn lemma_encl<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, enc: Seq<(T, int)>, a: T, p: int, x: T, q: int)
    requires encl(g, toks, enc, a, p), one(g, toks, a, p), lost(g, toks, a, p), cands(g, toks, a, p)[0].contains(x),
    ensures encl(g, toks, enc.push((a, p)), x, q),
{
    reveal(encl);
    let e = enc.push((a, p));
    assert forall|k: int| 0 <= k < e.len() implies one(g, toks, (#[trigger] e[k]).0, e[k].1) && lost(g, toks, e[k].0, e[k].1)
            && cands(g, toks, e[k].0, e[k].1)[0].contains(if k + 1 < e.len() { e[k + 1].0 } else { x }) by {
        if k < enc.len() { assert(e[k] == enc[k]); }
    }
}
/// the symbols a failed production accounts for
pub open spec fn psym<L, T>(x: ProductionParsedSymbol<L, T>) -> T { match x { ProductionParsedSymbol::Ok(n) => n.token.t_type, ProductionParsedSymbol::Fix(f) => f.symbol_to_derive } }
pub open spec fn fspell<L, T>(f: FailedProduction<L, T>) -> Seq<T> {
    f.parsed_symbols@.map_values(|x: ProductionParsedSymbol<L, T>| psym(x)).push(f.failed_symbol.symbol_to_derive) + f.pending_symbols@
}
/// what the solver has said
pub uninterp spec fn said_one<L, T>(toks: Seq<Token<L, T>>, p: int, f: FailedProduction<L, T>, r: Option<FixResult<L, T>>) -> bool;
pub uninterp spec fn said_all<L, T>(toks: Seq<Token<L, T>>, p: int, f: Seq<FailedProduction<L, T>>, r: Option<FixResult<L, T>>) -> bool;
pub open spec fn said<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, f: Seq<FailedProduction<L, T>>, r: Option<FixResult<L, T>>) -> bool {
    if one(g, toks, a, p) { f.len() == 1 && fspell(f[0]) == cands(g, toks, a, p)[0] && said_one(toks, p, f[0], r) }
    else { v_try(g, toks, a, p, cands(g, toks, a, p)) == Some(TR::<L, T>::Err(fpvs(f))) && said_all(toks, p, f, r) }
}
/// what a solver may be asked (a and enc: the symbol asked about and those around it)
pub open spec fn may_ask<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, enc: Seq<(T, int)>, p: int) -> bool {
    &&& lost(g, toks, g.initial_symbol, 0)
    &&& lost(g, toks, a, p)
    &&& encl(g, toks, enc, a, p)
}
/// x parses as s, with one of its candidates
pub open spec fn is_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, s: SS<L, T>) -> bool {
    if nt(g, x) { exists|cs: Seq<Seq<T>>| #[trigger] v_try(g, toks, x, s.init, cs) == Some(TR::Ok(s)) } else { leaf(g, toks, x, s.init) == SR::Ok(s) }
}
pub open spec fn parsed_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, t: Tr<L, T>, q2: int) -> bool {
    exists|s: SS<L, T>| #[trigger] is_at(g, toks, x, s) && s.init == q && s.fin == q2 && s.tr == t
}
pub open spec fn told<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, pr: FixedProduction<L, T>, fin: int) -> bool {
    exists|f: Seq<FailedProduction<L, T>>, r: FixResult<L, T>| #[trigger] said(g, toks, x, q, f, Some(r)) && r.production == pr && r.final_token_position == fin
}
/// fs is the fix of x at position q and ends at fin: what the solver answered for x, or x's only candidate with answers in place of some symbols
#[verifier::opaque]
pub open spec fn fix_ok<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, fs: FixedSymbol<L, T>, fin: int) -> bool
    decreases fs
{
    &&& fs.symbol_to_derive == x
    &&& lost(g, toks, x, q)
    &&& told(g, toks, x, q, fs.fixed_production, fin) || {
        &&& one(g, toks, x, q)
        &&& fs.fixed_production.fixed_parts@.len() == cands(g, toks, x, q)[0].len()
        &&& exists|k: int| 0 <= k < fs.fixed_production.fixed_parts@.len() && #[trigger] fs.fixed_production.fixed_parts@[k] is Fixed
        &&& exists|qs: Seq<int>| #[trigger] spans(qs, q, fin, fs.fixed_production.fixed_parts@.len()) && forall|k: int| 0 <= k < fs.fixed_production.fixed_parts@.len() ==>
                match #[trigger] fs.fixed_production.fixed_parts@[k] {
                    FixedProductionPart::Ok(n) => parsed_at(g, toks, cands(g, toks, x, q)[0][k], qs[k], tv(n), qs[k + 1]),
                    FixedProductionPart::Fixed(f) => fix_ok(g, toks, cands(g, toks, x, q)[0][k], qs[k], f, qs[k + 1]),
                    _ => false,
                }
    }
}
/// f is how the production o fails at position p: what was parsed of it (from qs[0] = p on), the symbol that could not be, and the rest
pub open spec fn failed_on<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, f: FailedProduction<L, T>, qs: Seq<int>) -> bool {
    let n = f.parsed_symbols@.len() as int;
    &&& fspell(f) == o
    &&& qs.len() == n + 1
    &&& forall|k: int| 0 <= k < n ==> match #[trigger] f.parsed_symbols@[k] {
        ProductionParsedSymbol::Ok(t) => parsed_at(g, toks, o[k], qs[k], tv(t), qs[k + 1]),
        ProductionParsedSymbol::Fix(s) => fix_ok(g, toks, o[k], qs[k], s, qs[k + 1]),
    }
    &&& failed_sym(g, toks, o[n], qs[n], f.failed_symbol)
}
pub open spec fn failed_sym<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, f: FailedSymbol<L, T>) -> bool {
    &&& f.symbol_to_derive == x
    &&& v_sym(g, toks, x, q) is Some && v_sym(g, toks, x, q)->Some_0 is Err
    &&& if nt(g, x) { said(g, toks, x, q, f.failed_productions@, None) } else { f.failed_productions@.len() == 0 }
}
#[verifier::opaque]
pub open spec fn failed_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, p: int, f: FailedProduction<L, T>) -> bool {
    exists|qs: Seq<int>| #[trigger] failed_on(g, toks, o, f, qs) && qs[0] == p
}
pub proof fn lemma_failed_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, p: int)
    ensures forall|f: FailedProduction<L, T>| #[trigger] failed_at(g, toks, o, p, f) ==> fspell(f) == o,
{
    reveal(failed_at);
}
pub open spec fn spans(qs: Seq<int>, q: int, fin: int, n: nat) -> bool { qs.len() == n + 1 && qs[0] == q && qs[n as int] == fin }
// ------------------------------------------------------------------ states, some of them fixed
pub open spec fn sfin<'a, L, T>(s: State<'a, L, T>) -> int { match s { State::Parsing(s) => s.final_token_position as int, State::Fixed(f) => f.final_token_position as int } }
pub open spec fn ends<'a, L, T>(st: Seq<State<'a, L, T>>, p0: int, k: int) -> int { if k <= 0 { p0 } else { sfin(st[k - 1]) } }
pub open spec fn stk_at<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, st: Seq<State<'a, L, T>>, p0: int, k: int) -> bool {
    match st[k] {
        State::Parsing(s) => is_at(g, toks, o[k], ssv(s)) && s.initial_token_position == ends(st, p0, k),
        State::Fixed(f) => fix_ok(g, toks, o[k], ends(st, p0, k), f.fixed_symbol, f.final_token_position as int),
    }
}
#[verifier::opaque]
pub open spec fn stk<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, st: Seq<State<'a, L, T>>, p0: int) -> bool {
    st.len() <= o.len() && forall|k: int| 0 <= k < st.len() ==> #[trigger] stk_at(g, toks, o, st, p0, k)
}
pub proof fn lemma_stk0<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, p0: int)
    ensures stk(g, toks, o, Seq::<State<'a, L, T>>::empty(), p0),
{
    reveal(stk);
}
/// the solver's answer for x is its fix
pub proof fn lemma_told<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, f: Seq<FailedProduction<L, T>>, r: Option<FixResult<L, T>>)
    requires lost(g, toks, x, q), said(g, toks, x, q, f, r),
    ensures r is Some ==> forall|fs: FixedSymbol<L, T>| fs.symbol_to_derive == x && fs.fixed_production == r->Some_0.production ==> #[trigger] fix_ok(g, toks, x, q, fs, r->Some_0.final_token_position as int),
{
    reveal(fix_ok);
    if r is Some { assert(said(g, toks, x, q, f, Some(r->Some_0))); assert(told(g, toks, x, q, r->Some_0.production, r->Some_0.final_token_position as int)); }
}
pub proof fn lemma_fix<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int)
    ensures forall|fs: FixedSymbol<L, T>, fin: int| #[trigger] fix_ok(g, toks, x, q, fs, fin) ==> lost(g, toks, x, q) && fs.symbol_to_derive == x,
{
    reveal(fix_ok);
}
/// fs is a fix of x at q, up to some position
pub open spec fn fixed_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, q: int, fs: FixedSymbol<L, T>) -> bool { exists|fin: int| #[trigger] fix_ok(g, toks, x, q, fs, fin) }
pub proof fn lemma_encl0<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>)
    ensures encl(g, toks, Seq::empty(), g.initial_symbol, 0),
{
    reveal(encl);
}
pub proof fn lemma_may<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, enc: Seq<(T, int)>, p: int)
    ensures encl(g, toks, enc, a, p) && lost(g, toks, a, p) ==> may_ask(g, toks, a, enc, p),
{
    reveal(encl);
}
/// number of states before the first fix
pub open spec fn pre<'a, L, T>(st: Seq<State<'a, L, T>>) -> nat
    decreases st.len()
{
    if st.len() == 0 { 0 } else { let m = pre(st.drop_last()); if m < st.len() - 1 { m } else if st.last() is Parsing { st.len() } else { m } }
}
pub open spec fn front<'a, L, T>(st: Seq<State<'a, L, T>>) -> Seq<State<'a, L, T>> { st.subrange(0, pre(st) as int) }
pub proof fn lemma_pre<'a, L, T>(st: Seq<State<'a, L, T>>)
    ensures
        pre(st) <= st.len(), parsing(front(st)), pre(st) < st.len() ==> st[pre(st) as int] is Fixed,
        pre(st) == st.len() ==> front(st) == st,
    decreases st.len()
{
    if st.len() > 0 {
        lemma_pre(st.drop_last());
        let d = st.drop_last();
        assert forall|j: int| 0 <= j < pre(st) implies (#[trigger] front(st)[j]) is Parsing by { if j < pre(d) { assert(front(d)[j] == d[j]); } }
    }
    if pre(st) == st.len() { assert(front(st) =~= st); }
}
/// the states below the first fix stay what they are when more states come or go above it
pub proof fn lemma_pre_sub<'a, L, T>(st: Seq<State<'a, L, T>>, n: int)
    requires 0 <= n <= st.len(),
    ensures
        pre(st.subrange(0, n)) == if n < pre(st) { n as nat } else { pre(st) },
        pre(st) <= n ==> front(st.subrange(0, n)) == front(st),
    decreases st.len() - n
{
    lemma_pre(st);
    if n == st.len() { assert(st.subrange(0, n) =~= st); }
    else {
        lemma_pre_sub(st, n + 1);
        let u = st.subrange(0, n + 1);
        assert(u.drop_last() =~= st.subrange(0, n));
        lemma_pre(st.subrange(0, n));
        lemma_pre(u);
        if pre(st) <= n { assert(front(st.subrange(0, n)) =~= front(st)); }
    }
}
pub proof fn lemma_pre_all<'a, L, T>(st: Seq<State<'a, L, T>>)
    ensures parsing(st) <==> pre(st) == st.len(),
{
    lemma_pre(st);
}
/// the root of what is parsed
pub proof fn lemma_root_prod<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, o: Seq<T>, st: Seq<SS<L, T>>, n: nat)
    ensures prod_n(g, toks, a, p, o, st, n) is Some && prod_n(g, toks, a, p, o, st, n)->Some_0 is Ok ==> prod_n(g, toks, a, p, o, st, n)->Some_0->Ok_0.tok == tok0::<L, T>(a),
    decreases n
{
    if n > 0 && st.len() < o.len() {
        match sym_n(g, toks, o[st.len() as int], stop(st, p), (n - 1) as nat) {
            None => {}
            Some(SR::Ok(s)) => { lemma_root_prod(g, toks, a, p, o, st.push(s), (n - 1) as nat); }
            Some(SR::Err(f)) => match back_n(g, toks, st, (n - 1) as nat) {
                Some(BR::Again(st2)) => { lemma_root_prod(g, toks, a, p, o, st2, (n - 1) as nat); }
                _ => {}
            },
        }
    }
}
pub proof fn lemma_root_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>)
    ensures v_try(g, toks, a, p, cs) is Some && v_try(g, toks, a, p, cs)->Some_0 is Ok ==> {
        let s = v_try(g, toks, a, p, cs)->Some_0->Ok_0;
        s.tr.tok.t_type == a && s.init == p && s.rest is Some
    },
    decreases cs.len()
{
    eq_try(g, toks, a, p, cs);
    if cs.len() > 0 {
        reveal(v_prod);
        lemma_root_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty(), dep_prod(g, toks, a, p, cs[0], Seq::<SS<L, T>>::empty()));
        lemma_root_try(g, toks, a, p, cs.drop_first());
    }
}
pub proof fn lemma_is_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, s: SS<L, T>)
    requires is_at(g, toks, x, s),
    ensures s.tr.tok.t_type == x, nt(g, x) <==> s.rest is Some,
{
    if nt(g, x) { let cs = choose|cs: Seq<Seq<T>>| #[trigger] v_try(g, toks, x, s.init, cs) == Some(TR::Ok(s)); lemma_root_try(g, toks, x, s.init, cs); }
}
pub proof fn lemma_sym_at<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, p: int, s: SS<L, T>)
    ensures v_sym(g, toks, x, p) == Some(SR::Ok(s)) ==> is_at(g, toks, x, s) && s.init == p,
{
    eq_sym(g, toks, x, p);
    if nt(g, x) { lemma_root_try(g, toks, x, p, cands(g, toks, x, p)); }
}
/// how often the candidates failed
pub proof fn lemma_all_failed<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, p: int, cs: Seq<Seq<T>>)
    ensures v_try(g, toks, a, p, cs) is Some && v_try(g, toks, a, p, cs)->Some_0 is Err ==> v_try(g, toks, a, p, cs)->Some_0->Err_0.len() == cs.len(),
    decreases cs.len()
{
    eq_try(g, toks, a, p, cs);
    if cs.len() > 0 { lemma_all_failed(g, toks, a, p, cs.drop_first()); }
}
/// s2 is s, but perhaps without its candidates
pub open spec fn kept<'a, L, T>(s: State<'a, L, T>, s2: State<'a, L, T>) -> bool {
    match s { State::Parsing(x) => s2 is Parsing && s2->Parsing_0.node == x.node, State::Fixed(f) => s2 == s }
}
pub open spec fn all_kept<'a, L, T>(st: Seq<State<'a, L, T>>, v: Seq<State<'a, L, T>>) -> bool { v.len() == st.len() && forall|j: int| 0 <= j < st.len() ==> kept(st[j], #[trigger] v[j]) }
/// what pop_states does to a stack
#[verifier::opaque]
pub open spec fn popped<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, st2: Seq<State<'a, L, T>>) -> bool {
    let n = st2.len() - 1;
    &&& 0 < st2.len() <= st.len()
    &&& forall|j: int| 0 <= j < n ==> #[trigger] st2[j] == st[j]
    &&& st2[n] is Parsing && st[n] is Parsing
    &&& st2[n]->Parsing_0.initial_token_position == st[n]->Parsing_0.initial_token_position
    &&& st[n]->Parsing_0.prod_iter_option is Some
    &&& is_try(g, toks, st[n]->Parsing_0.node.token.t_type, ssv(st2[n]->Parsing_0))
    &&& n < pre(st) ==> v_back(g, toks, stv(front(st))) == Some(BR::Again(stv(st2)))
}
pub open spec fn is_try<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, x: T, s: SS<L, T>) -> bool { exists|cs: Seq<Seq<T>>| #[trigger] v_try(g, toks, x, s.init, cs) == Some(TR::Ok(s)) }
pub proof fn lemma_popped<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, st: Seq<State<'a, L, T>>, st2: Seq<State<'a, L, T>>, p0: int)
    requires stk(g, toks, o, st, p0), popped(g, toks, st, st2),
    ensures stk(g, toks, o, st2, p0), st2.len() > pre(st) ==> front(st2) == front(st) && pre(st2) == pre(st) && pre(st2) < st2.len(), st2.len() <= pre(st) ==> parsing(st2) && v_back(g, toks, stv(front(st))) == Some(BR::Again(stv(st2))),
        0 < st2.len() <= st.len(),
{
    reveal(stk); reveal(popped);
    let n = st2.len() - 1;
    assert forall|k: int| 0 <= k < st2.len() implies #[trigger] stk_at(g, toks, o, st2, p0, k) by {
        assert(stk_at(g, toks, o, st, p0, k));
        if k > 0 { assert(st2[k - 1] == st[k - 1]); }
        if k < n { assert(st2[k] == st[k]); }
        else { lemma_is_at(g, toks, o[k], ssv(st[k]->Parsing_0)); }
    }
    lemma_pre(st);
    let (u, w) = (st.subrange(0, n), st2.subrange(0, n));
    assert(u =~= w);
    lemma_pre_sub(st, n);
    lemma_pre_sub(st2, n);
    lemma_pre(st2);
    assert(st2.drop_last() =~= w);
    if st2.len() <= pre(st) {
        assert forall|j: int| 0 <= j < st2.len() implies (#[trigger] st2[j]) is Parsing by { if j < n { assert(st2[j] == st[j]); assert(front(st)[j] == st[j]); } }
    } else if n == pre(st) { assert(st[n] is Fixed); }
}
pub proof fn lemma_step_parsed<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, st: Seq<State<'a, L, T>>, s: State<'a, L, T>, p0: int)
    requires stk(g, toks, o, st, p0), st.len() < o.len(), stk_at(g, toks, o, st.push(s), p0, st.len() as int),
    ensures
        stk(g, toks, o, st.push(s), p0),
        pre(st.push(s)) == if pre(st) < st.len() { pre(st) } else if s is Parsing { st.len() + 1 } else { st.len() },
        pre(st) < st.len() || s is Fixed ==> front(st.push(s)) == front(st),
{
    reveal(stk);
    let t = st.push(s);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] stk_at(g, toks, o, t, p0, k) by {
        if k < st.len() { assert(stk_at(g, toks, o, st, p0, k)); assert(t[k] == st[k]); if k > 0 { assert(t[k - 1] == st[k - 1]); } }
    }
    assert(t.drop_last() =~= st);
    lemma_pre(st); lemma_pre(t);
    if pre(st) < st.len() || s is Fixed { assert(front(t) =~= front(st)); }
}
/// what a failed production reports
pub open spec fn told_of<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<ProductionParsedSymbol<L, T>>) -> bool {
    c.len() <= st.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == match st[j] { State::Parsing(s) => ProductionParsedSymbol::Ok(s.node), State::Fixed(f) => ProductionParsedSymbol::Fix(f.fixed_symbol) }
}
pub proof fn lemma_spell<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, o: Seq<T>, st: Seq<State<'a, L, T>>, p0: int, c: Seq<ProductionParsedSymbol<L, T>>, x: FailedSymbol<L, T>)
    requires stk(g, toks, o, st, p0), told_of(st, c), c.len() == st.len(), st.len() < o.len(), failed_sym(g, toks, o[st.len() as int], ends(st, p0, st.len() as int), x),
    ensures
        forall|f: FailedProduction<L, T>| f.parsed_symbols@ == c && f.failed_symbol == x && f.pending_symbols@ == o.subrange(st.len() as int + 1, o.len() as int)
            ==> #[trigger] failed_at(g, toks, o, p0, f),
{
    reveal(stk); reveal(fix_ok);
    assert forall|f: FailedProduction<L, T>| f.parsed_symbols@ == c && f.failed_symbol == x && f.pending_symbols@ == o.subrange(st.len() as int + 1, o.len() as int)
            implies #[trigger] failed_at(g, toks, o, p0, f) by {
        assert forall|j: int| 0 <= j < o.len() implies fspell(f)[j] == #[trigger] o[j] by {
            if j < st.len() {
                assert(stk_at(g, toks, o, st, p0, j));
                assert(c[j] == match st[j] { State::Parsing(s) => ProductionParsedSymbol::Ok(s.node), State::Fixed(f) => ProductionParsedSymbol::Fix(f.fixed_symbol) });
                if st[j] is Parsing { lemma_is_at(g, toks, o[j], ssv(st[j]->Parsing_0)); }
            }
        }
        assert(fspell(f) =~= o);
        let qs = Seq::new((st.len() + 1) as nat, |k: int| ends(st, p0, k));
        assert forall|k: int| 0 <= k < st.len() implies match #[trigger] f.parsed_symbols@[k] {
            ProductionParsedSymbol::Ok(t) => parsed_at(g, toks, o[k], qs[k], tv(t), qs[k + 1]),
            ProductionParsedSymbol::Fix(s) => fix_ok(g, toks, o[k], qs[k], s, qs[k + 1]),
        } by {
            assert(stk_at(g, toks, o, st, p0, k));
            assert(c[k] == match st[k] { State::Parsing(s) => ProductionParsedSymbol::Ok(s.node), State::Fixed(f) => ProductionParsedSymbol::Fix(f.fixed_symbol) });
            if st[k] is Parsing { assert(is_at(g, toks, o[k], ssv(st[k]->Parsing_0))); }
        }
        reveal(failed_at);
        assert(failed_on(g, toks, o, f, qs));
    }
}
/// the parts of a fixed production
pub open spec fn part_of<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<FixedProductionPart<L, T>>) -> bool {
    c.len() <= st.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == match st[j] { State::Parsing(s) => FixedProductionPart::Ok(s.node), State::Fixed(f) => FixedProductionPart::Fixed(f.fixed_symbol) }
}
pub proof fn lemma_built<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, a: T, st: Seq<State<'a, L, T>>, p0: int, c: Seq<FixedProductionPart<L, T>>)
    requires
        one(g, toks, a, p0), lost(g, toks, a, p0), stk(g, toks, cands(g, toks, a, p0)[0], st, p0), st.len() == cands(g, toks, a, p0)[0].len(),
        part_of(st, c), c.len() == st.len(), exists|j: int| 0 <= j < st.len() && #[trigger] st[j] is Fixed,
    ensures forall|fs: FixedSymbol<L, T>| fs.symbol_to_derive == a && fs.fixed_production.fixed_parts@ == c ==> #[trigger] fix_ok(g, toks, a, p0, fs, ends(st, p0, st.len() as int)),
{
    reveal(stk); reveal(fix_ok);
    let o = cands(g, toks, a, p0)[0];
    let n = st.len();
    let fin = ends(st, p0, n as int);
    assert forall|fs: FixedSymbol<L, T>| fs.symbol_to_derive == a && fs.fixed_production.fixed_parts@ == c implies #[trigger] fix_ok(g, toks, a, p0, fs, fin) by {
        let ps = fs.fixed_production.fixed_parts@;
        let qs = Seq::new((n + 1) as nat, |k: int| ends(st, p0, k));
        let j = choose|j: int| 0 <= j < st.len() && #[trigger] st[j] is Fixed;
        assert(ps[j] is Fixed);
        assert(spans(qs, p0, fin, ps.len()));
        assert forall|k: int| 0 <= k < ps.len() implies match #[trigger] ps[k] {
            FixedProductionPart::Ok(n) => parsed_at(g, toks, o[k], qs[k], tv(n), qs[k + 1]),
            FixedProductionPart::Fixed(f) => fix_ok(g, toks, o[k], qs[k], f, qs[k + 1]),
            _ => false,
        } by {
            assert(stk_at(g, toks, o, st, p0, k));
            assert(c[k] == match st[k] { State::Parsing(s) => FixedProductionPart::Ok(s.node), State::Fixed(f) => FixedProductionPart::Fixed(f.fixed_symbol) });
            if st[k] is Parsing { assert(is_at(g, toks, o[k], ssv(st[k]->Parsing_0))); }
        }
    }
}
