// ------------------------------------------------------------------ rejection reports
/// how many tokens the first k parsed symbols cover
pub open spec fn plen<L, T>(eps: T, c: Seq<ProductionParsedSymbol<L, T>>, k: nat) -> nat
    decreases k
{
    if k == 0 || k > c.len() { 0 }
    else { plen(eps, c, (k - 1) as nat) + (match c[k - 1] { ProductionParsedSymbol::Ok(n) => yld(eps, n).len(), _ => 0 }) }
}
pub open spec fn parsed_ok<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, c: Seq<ProductionParsedSymbol<L, T>>, k: int, a: T, p: int) -> bool {
    match c[k] {
        ProductionParsedSymbol::Ok(n) => n.token.t_type == a && tree_ok(g, n) && at(toks, p + plen(g.epsilon_symbol, c, k as nat), yld(g.epsilon_symbol, n)),
        _ => false,
    }
}
/// a failed production spells o, and what was parsed stands in the input from p on
pub open spec fn fp_head<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, f: FailedProduction<L, T>, o: Seq<T>, p: int) -> bool {
    let n = f.parsed_symbols@.len();
    &&& n + 1 + f.pending_symbols@.len() == o.len()
    &&& f.failed_symbol.symbol_to_derive == o[n as int]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] parsed_ok(g, toks, f.parsed_symbols@, k, o[k], p)
    &&& forall|k: int| 0 <= k < f.pending_symbols@.len() ==> #[trigger] f.pending_symbols@[k] == o[n + 1 + k]
}
pub open spec fn fp_end<L, T>(g: ContextFreeGrammar<T>, f: FailedProduction<L, T>, p: int) -> int { p + plen(g.epsilon_symbol, f.parsed_symbols@, f.parsed_symbols@.len()) }
/// a failed symbol reported at position p accounts for every candidate
pub open spec fn failed_ok<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, s: FailedSymbol<L, T>, p: int) -> bool
    decreases s
{
    if nt(g, s.symbol_to_derive) {
        let cs = cands(g, toks, s.symbol_to_derive, p);
        &&& s.failed_productions@.len() == cs.len()
        &&& forall|i: int| 0 <= i < s.failed_productions@.len() ==> fp_head(g, toks, #[trigger] s.failed_productions@[i], cs[i], p)
                && failed_ok(g, toks, s.failed_productions@[i].failed_symbol, fp_end(g, s.failed_productions@[i], p))
    } else {
        &&& s.failed_productions@.len() == 0
        &&& s.symbol_to_derive != g.epsilon_symbol
        &&& !(0 <= p < toks.len() && toks[p].t_type == s.symbol_to_derive)
    }
}
pub open spec fn fp_ok<L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, f: FailedProduction<L, T>, o: Seq<T>, p: int) -> bool {
    fp_head(g, toks, f, o, p) && failed_ok(g, toks, f.failed_symbol, fp_end(g, f, p))
}
/// the failures of the candidates an iterator still had to offer
pub open spec fn fps_ok<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, v: Seq<FailedProduction<L, T>>, it: VIt<&'a Vec<T>>, p: int) -> bool {
    v.len() == it.all().len() - it.pos() && forall|i: int| 0 <= i < v.len() ==> fp_ok(g, toks, #[trigger] v[i], it.all()[it.pos() + i]@, p)
}
pub open spec fn all_cands<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, it: VIt<&'a Vec<T>>, a: T, p: int) -> bool {
    let cs = cands(g, toks, a, p);
    it.pos() == 0 && it.all().len() == cs.len() && forall|k: int| 0 <= k < cs.len() ==> (#[trigger] it.all()[k])@ == cs[k]
}
/// a symbol all of whose candidates failed is reported completely
pub proof fn lemma_failed<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, s: FailedSymbol<L, T>, it: VIt<&'a Vec<T>>, p: int)
    requires nt(g, s.symbol_to_derive), all_cands(g, toks, it, s.symbol_to_derive, p), fps_ok(g, toks, s.failed_productions@, it, p),
    ensures failed_ok(g, toks, s, p),
{
    let cs = cands(g, toks, s.symbol_to_derive, p);
    assert forall|i: int| 0 <= i < s.failed_productions@.len() implies fp_head(g, toks, #[trigger] s.failed_productions@[i], cs[i], p)
            && failed_ok(g, toks, s.failed_productions@[i].failed_symbol, fp_end(g, s.failed_productions@[i], p)) by {
        assert(fp_ok(g, toks, s.failed_productions@[i], it.all()[it.pos() + i]@, p));
        assert(it.all()[i]@ == cs[i]);
    }
}
/// the states given back by a failed production
pub open spec fn given_back<'a, L, T>(st: Seq<State<'a, L, T>>, v: Seq<State<'a, L, T>>) -> bool {
    v.len() == st.len() && forall|j: int| 0 <= j < st.len() ==> v[j] is Parsing && (#[trigger] v[j])->Parsing_0.node == st[j]->Parsing_0.node
}
pub open spec fn parsed_of<'a, L, T>(st: Seq<State<'a, L, T>>, c: Seq<ProductionParsedSymbol<L, T>>) -> bool {
    c.len() <= st.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == ProductionParsedSymbol::Ok(st[j]->Parsing_0.node)
}
pub proof fn lemma_parsed<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, c: Seq<ProductionParsedSymbol<L, T>>, o: Seq<T>, p0: int, k: nat)
    requires
        stack_ok(g, toks, st, p0), parsed_of(st, c), k <= c.len(), c.len() <= o.len(),
        forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]) is Parsing,
        forall|j: int| 0 <= j < c.len() ==> ssym(#[trigger] st[j]) == o[j],
    ensures
        (if k == 0 { p0 } else { sfin(st[k - 1]) }) == p0 + plen(g.epsilon_symbol, c, k),
        forall|j: int| 0 <= j < k ==> #[trigger] parsed_ok(g, toks, c, j, o[j], p0),
    decreases k
{
    if k > 0 {
        lemma_parsed(g, toks, st, c, o, p0, (k - 1) as nat);
        assert(st_ok(g, toks, st, k - 1, p0));
        assert(c[k - 1] == ProductionParsedSymbol::<L, T>::Ok(st[k - 1]->Parsing_0.node));
        assert(ssym(st[k - 1]) == o[k - 1]);
    }
}
