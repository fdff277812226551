// ------------------------------------------------------------------ termination
/// rank is lower for every non-terminal that a production of a reaches without consuming anything
pub open spec fn no_left<T>(g: ContextFreeGrammar<T>, rank: spec_fn(T) -> nat) -> bool {
    forall|a: T, i: int, k: int| nt(g, a) && 0 <= i < np(g, a) && 0 <= k < out(g, a, i).len() && nt(g, out(g, a, i)[k]) && nulls(g, out(g, a, i), k)
        ==> rank(#[trigger] out(g, a, i)[k]) < rank(a)
}
pub open spec fn nulls<T>(g: ContextFreeGrammar<T>, o: Seq<T>, k: int) -> bool { forall|j: int| 0 <= j < k ==> nullable(g, #[trigger] o[j]) }
/// some production of a has b after symbols that all derive the empty string
pub open spec fn left_at<T>(g: ContextFreeGrammar<T>, a: T, b: T, i: int, k: int) -> bool {
    nt(g, a) && 0 <= i < np(g, a) && 0 <= k < out(g, a, i).len() && out(g, a, i)[k] == b && nt(g, b) && nulls(g, out(g, a, i), k)
}
pub open spec fn left_step<T>(g: ContextFreeGrammar<T>, a: T, b: T) -> bool { exists|i: int, k: int| #[trigger] left_at(g, a, b, i, k) }
pub open spec fn left_path<T>(g: ContextFreeGrammar<T>, a: T, b: T, n: nat) -> bool
    decreases n
{
    if n == 0 { a == b } else { exists|c: T| #[trigger] left_step(g, a, c) && left_path(g, c, b, (n - 1) as nat) }
}
/// a can stand first in a form derived from a, directly, indirectly or behind nullable symbols
pub open spec fn left_recursive<T>(g: ContextFreeGrammar<T>) -> bool { exists|a: T, n: nat| n > 0 && #[trigger] left_path(g, a, a, n) }
pub open spec fn left_reach<T>(g: ContextFreeGrammar<T>, a: T) -> Set<T> { g.non_terminal_symbols_set@.filter(|b: T| exists|n: nat| n > 0 && #[trigger] left_path(g, a, b, n)) }
/// a grammar without left recursion has a rank: the number of non-terminals that can stand first
pub proof fn lemma_rank<T>(g: ContextFreeGrammar<T>)
    requires g_wf(g), !left_recursive(g),
    ensures no_left_rec(g),
{
    let rank = |a: T| left_reach(g, a).len();
    assert forall|a: T, i: int, k: int| nt(g, a) && 0 <= i < np(g, a) && 0 <= k < out(g, a, i).len() && nt(g, out(g, a, i)[k]) && nulls(g, out(g, a, i), k)
        implies rank(#[trigger] out(g, a, i)[k]) < rank(a) by {
        let b = out(g, a, i)[k];
        let (ra, rb) = (left_reach(g, a), left_reach(g, b));
        assert(left_at(g, a, b, i, k));
        assert(left_step(g, a, b));
        assert(left_path(g, b, b, 0));
        assert(left_path(g, a, b, 1));
        assert(ra.contains(b));
        if rb.contains(b) { let n = choose|n: nat| n > 0 && #[trigger] left_path(g, b, b, n); assert(left_recursive(g)); }
        assert forall|c: T| #[trigger] rb.contains(c) implies ra.contains(c) by {
            let n = choose|n: nat| n > 0 && #[trigger] left_path(g, b, c, n);
            assert((n + 1 - 1) as nat == n);
            assert(left_path(g, a, c, n + 1));
        }
        assert(rb.subset_of(ra.remove(b)));
        vstd::set_lib::lemma_len_subset(rb, ra.remove(b));
    }
    assert(no_left(g, rank));
}
/// the same, as it is used below
pub open spec fn no_left_rec<T>(g: ContextFreeGrammar<T>) -> bool { exists|rank: spec_fn(T) -> nat| no_left(g, rank) }
pub open spec fn rk<T>(g: ContextFreeGrammar<T>, x: T) -> nat { if nt(g, x) { ((choose|rank: spec_fn(T) -> nat| no_left(g, rank))(x) + 1) as nat } else { 0 } }
pub proof fn lemma_rk<T>(g: ContextFreeGrammar<T>, a: T, o: Seq<T>, k: int)
    requires no_left_rec(g), prod_of(g, a, o), 0 <= k < o.len(), nulls(g, o, k),
    ensures rk(g, o[k]) < rk(g, a),
{
    let rank = choose|rank: spec_fn(T) -> nat| no_left(g, rank);
    let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
    if nt(g, o[k]) { assert(rank(out(g, a, i)[k]) < rank(a)); }
}
/// how many tokens are left
pub open spec fn left<X>(toks: Seq<X>, p: int) -> nat { if p < toks.len() { (toks.len() - p) as nat } else { 0 } }
/// a call for (b, q) made while (a, p) is being parsed
pub open spec fn lower<X, T>(g: ContextFreeGrammar<T>, toks: Seq<X>, b: T, q: int, a: T, p: int) -> bool {
    left(toks, q) < left(toks, p) || left(toks, q) == left(toks, p) && rk(g, b) < rk(g, a)
}
/// a tree without tokens: its symbol derives the empty string
pub proof fn lemma_null_tree<L, T>(g: ContextFreeGrammar<T>, n: AbstractSyntaxNode<Token<L, T>>)
    requires g_wf(g), tree_ok(g, n), yld(g.epsilon_symbol, n).len() == 0,
    ensures nullable(g, n.token.t_type),
    decreases n
{
    let a = n.token.t_type;
    if n.child_nodes@.len() == 0 {
        lemma_inn(g, a, g.epsilon_symbol, 1);
        assert(inn(g, a, g.epsilon_symbol, 1));
    } else {
        let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] spells(n.child_nodes@, out(g, a, i));
        let o = out(g, a, i);
        lemma_ylds_zero(g.epsilon_symbol, n, n.child_nodes@.len());
        assert forall|k: int| 0 <= k < o.len() implies nullable(g, #[trigger] o[k]) by {
            assert(n.child_nodes@[k].token.t_type == o[k]);
            lemma_null_tree(g, n.child_nodes@[k]);
        }
        lemma_null_prod(g, a, i);
    }
}
pub proof fn lemma_ylds_zero<L, T>(eps: T, n: AbstractSyntaxNode<Token<L, T>>, k: nat)
    requires ylds_of(eps, n, k).len() == 0, k <= n.child_nodes@.len(),
    ensures forall|j: int| 0 <= j < k ==> yld(eps, #[trigger] n.child_nodes@[j]).len() == 0,
    decreases k
{
    if k > 0 { lemma_ylds_zero(eps, n, (k - 1) as nat); }
}
pub proof fn lemma_null_prod<T>(g: ContextFreeGrammar<T>, a: T, i: int)
    requires g_wf(g), nt(g, a), 0 <= i < np(g, a), forall|k: int| 0 <= k < out(g, a, i).len() ==> nullable(g, #[trigger] out(g, a, i)[k]),
    ensures nullable(g, a),
{
    assert(first_seq(g, out(g, a, i), g.epsilon_symbol));
    lemma_first_prod(g, a, g.epsilon_symbol);
}
/// the symbols of a stack never go back, and stay where they are only if they derive the empty string
pub open spec fn fwd<'a, L, T>(g: ContextFreeGrammar<T>, st: Seq<State<'a, L, T>>, j: int, p0: int) -> bool {
    let b = if j == 0 { p0 } else { sfin(st[j - 1]) };
    &&& sfin(st[j]) >= b
    &&& sfin(st[j]) == b ==> st[j] is Parsing && nullable(g, ssym(st[j]))
}
pub open spec fn fwds<'a, L, T>(g: ContextFreeGrammar<T>, st: Seq<State<'a, L, T>>, p0: int) -> bool { forall|j: int| 0 <= j < st.len() ==> #[trigger] fwd(g, st, j, p0) }
pub proof fn lemma_fwd<'a, L, T>(g: ContextFreeGrammar<T>, st: Seq<State<'a, L, T>>, p0: int, k: int)
    requires fwds(g, st, p0), 0 <= k <= st.len(),
    ensures
        (if k == 0 { p0 } else { sfin(st[k - 1]) }) >= p0,
        (if k == 0 { p0 } else { sfin(st[k - 1]) }) == p0 ==> forall|j: int| 0 <= j < k ==> (#[trigger] st[j]) is Parsing && nullable(g, ssym(st[j])),
    decreases k
{
    if k > 0 { lemma_fwd(g, st, p0, k - 1); assert(fwd(g, st, k - 1, p0)); }
}
/// candidates a parsed symbol has left
pub open spec fn rem_it<X>(it: VIt<X>) -> int { it.all().len() - it.pos() }
pub open spec fn rem_ps<'a, L, T>(s: ParsingState<'a, L, T>) -> int { if s.prod_iter_option is Some { rem_it(s.prod_iter_option->Some_0) } else { 0 } }
pub open spec fn rem<'a, L, T>(s: State<'a, L, T>) -> int { if s is Parsing { rem_ps(s->Parsing_0) } else { 0 } }
/// only a symbol at a token can have candidates left
pub open spec fn resum<'a, L, T>(toks: Seq<Token<L, T>>, s: State<'a, L, T>) -> bool { rem(s) >= 0 && (rem(s) > 0 ==> s->Parsing_0.initial_token_position < toks.len()) }
pub open spec fn resums<'a, L, T>(toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>) -> bool { forall|j: int| 0 <= j < st.len() ==> resum(toks, #[trigger] st[j]) }
pub open spec fn most<T>(g: ContextFreeGrammar<T>, o: Seq<T>, k: nat) -> nat
    decreases k
{
    if k == 0 || k > o.len() { 0 } else {
        let m = most(g, o, (k - 1) as nat);
        if nt(g, o[k - 1]) && np(g, o[k - 1]) > m { np(g, o[k - 1]) as nat } else { m }
    }
}
pub proof fn lemma_most<T>(g: ContextFreeGrammar<T>, o: Seq<T>, k: nat, j: int)
    requires 0 <= j < k <= o.len(), nt(g, o[j]),
    ensures np(g, o[j]) <= most(g, o, k),
    decreases k
{
    if j < k - 1 { lemma_most(g, o, (k - 1) as nat, j); }
}
/// the choices still open in a production, as the digits of a number
pub open spec fn digits<'a, L, T>(st: Seq<State<'a, L, T>>, n: nat, b: int) -> Seq<int> { Seq::new(n, |j: int| if j < st.len() { rem(st[j]) } else { b - 1 }) }
pub open spec fn number(d: Seq<int>, b: int) -> int
    decreases d.len()
{
    if d.len() == 0 { 0 } else { number(d.drop_last(), b) * b + d.last() }
}
pub open spec fn digs(d: Seq<int>, b: int) -> bool { b > 0 && forall|j: int| 0 <= j < d.len() ==> 0 <= #[trigger] d[j] < b }
pub proof fn lemma_number(d: Seq<int>, b: int)
    requires digs(d, b),
    ensures number(d, b) >= 0,
    decreases d.len()
{
    if d.len() > 0 {
        lemma_number(d.drop_last(), b);
        assert(number(d.drop_last(), b) * b >= 0) by (nonlinear_arith) requires number(d.drop_last(), b) >= 0, b > 0;
    }
}
pub proof fn lemma_smaller(d: Seq<int>, e: Seq<int>, b: int, i: int)
    requires digs(d, b), digs(e, b), d.len() == e.len(), 0 <= i < d.len(), e[i] < d[i], forall|j: int| 0 <= j < i ==> #[trigger] d[j] == e[j],
    ensures number(e, b) < number(d, b),
    decreases d.len()
{
    let d1 = d.drop_last();
    let e1 = e.drop_last();
    if i == d.len() - 1 {
        assert(d1 =~= e1);
    } else {
        lemma_smaller(d1, e1, b, i);
        let (x, y) = (number(d1, b), number(e1, b));
        assert(y * b + b <= x * b) by (nonlinear_arith) requires y + 1 <= x, b > 0;
    }
}
pub proof fn lemma_measure<'a, L, T>(d: Seq<State<'a, L, T>>, e: Seq<State<'a, L, T>>, n: nat, b: int)
    requires
        0 < e.len() <= n, d.len() <= n, e.len() <= d.len() + 1, b > 1,
        forall|j: int| 0 <= j < d.len() ==> 0 <= rem(#[trigger] d[j]) < b - 1,
        forall|j: int| 0 <= j < e.len() ==> 0 <= rem(#[trigger] e[j]) < b - 1,
        forall|j: int| 0 <= j < e.len() - 1 ==> #[trigger] e[j] == d[j],
        e.len() <= d.len() ==> rem(e[e.len() - 1]) < rem(d[e.len() - 1]),
    ensures 0 <= number(digits(e, n, b), b) < number(digits(d, n, b), b),
{
    let x = digits(d, n, b);
    let y = digits(e, n, b);
    lemma_number(y, b);
    assert forall|j: int| 0 <= j < e.len() - 1 implies #[trigger] x[j] == y[j] by { assert(e[j] == d[j]); }
    lemma_smaller(x, y, b, e.len() - 1);
}
pub proof fn lemma_row_len<T>(g: ContextFreeGrammar<T>, a: T, x: T, n: nat)
    ensures row(g, a, x, n).len() <= n,
    decreases n
{
    if n > 0 { lemma_row_len(g, a, x, (n - 1) as nat); }
}
pub open spec fn heads<'a, L, T>(st: Seq<State<'a, L, T>>, o: Seq<T>) -> bool { st.len() <= o.len() && forall|j: int| 0 <= j < st.len() ==> ssym(#[trigger] st[j]) == o[j] }
/// the next symbol of a production is parsed further on, or has a lower rank
pub proof fn lemma_next<'a, L, T>(g: ContextFreeGrammar<T>, st: Seq<State<'a, L, T>>, p0: int, a: T, o: Seq<T>)
    requires no_left_rec(g), prod_of(g, a, o), fwds(g, st, p0), heads(st, o), st.len() < o.len(),
    ensures top(st, p0) >= p0, top(st, p0) == p0 ==> rk(g, o[st.len() as int]) < rk(g, a),
{
    let n = st.len() as int;
    lemma_fwd(g, st, p0, n);
    if top(st, p0) == p0 {
        assert forall|j: int| 0 <= j < n implies nullable(g, #[trigger] o[j]) by { assert(ssym(st[j]) == o[j]); }
        assert(nulls(g, o, n));
        lemma_rk(g, a, o, n);
    }
}
pub proof fn lemma_lower<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, p0: int, bb: int, a: T, o: Seq<T>)
    requires no_left_rec(g), prod_of(g, a, o), run(g, toks, st, p0, bb), heads(st, o), stack_ok(g, toks, st, p0), 0 <= p0 < toks.len(),
    ensures resums(toks, st), forall|j: int| 0 <= j < st.len() && (#[trigger] st[j]) is Parsing ==> lower(g, toks, ssym(st[j]), st[j]->Parsing_0.initial_token_position as int, a, p0),
{
    reveal(run);
    assert forall|j: int| 0 <= j < st.len() && (#[trigger] st[j]) is Parsing implies lower(g, toks, ssym(st[j]), st[j]->Parsing_0.initial_token_position as int, a, p0) by {
        let d = st.subrange(0, j);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] fwd(g, d, i, p0) by { assert(fwd(g, st, i, p0)); }
        assert forall|i: int| 0 <= i < d.len() implies ssym(#[trigger] d[i]) == o[i] by { assert(ssym(st[i]) == o[i]); }
        lemma_next(g, d, p0, a, o);
        assert(st_ok(g, toks, st, j, p0));
        assert(ssym(st[j]) == o[j]);
    }
}
pub proof fn lemma_fwds<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, d: Seq<State<'a, L, T>>, st: Seq<State<'a, L, T>>, p0: int)
    requires
        g_wf(g), fwds(g, d, p0), 0 < st.len() <= d.len() + 1, stack_ok(g, toks, st, p0),
        forall|j: int| 0 <= j < st.len() - 1 ==> #[trigger] st[j] == d[j],
        st.last() is Fixed ==> sfin(st.last()) > (if st.len() == 1 { p0 } else { sfin(st[st.len() - 2]) }),
    ensures fwds(g, st, p0),
{
    assert forall|j: int| 0 <= j < st.len() implies #[trigger] fwd(g, st, j, p0) by {
        if j < st.len() - 1 {
            assert(fwd(g, d, j, p0)); assert(st[j] == d[j]);
            if j > 0 { assert(st[j - 1] == d[j - 1]); }
        } else {
            assert(st_ok(g, toks, st, j, p0));
            if st[j] is Parsing && yld(g.epsilon_symbol, st[j]->Parsing_0.node).len() == 0 { lemma_null_tree(g, st[j]->Parsing_0.node); }
        }
    }
}
/// what termination needs to know of the stack of a production
#[verifier::opaque]
pub open spec fn run<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, p0: int, bb: int) -> bool {
    fwds(g, st, p0) && resums(toks, st) && forall|j: int| 0 <= j < st.len() ==> 0 <= rem(#[trigger] st[j]) < bb - 1
}
pub proof fn lemma_round<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, d: Seq<State<'a, L, T>>, st: Seq<State<'a, L, T>>, p0: int, bb: int, n: nat)
    requires
        g_wf(g), run(g, toks, d, p0, bb), stack_ok(g, toks, st, p0), bb > 1,
        0 < st.len() <= n, d.len() <= n, st.len() <= d.len() + 1,
        forall|j: int| 0 <= j < st.len() - 1 ==> #[trigger] st[j] == d[j],
        st.last() is Fixed ==> sfin(st.last()) > (if st.len() == 1 { p0 } else { sfin(st[st.len() - 2]) }),
        resum(toks, st.last()), 0 <= rem(st.last()), st.len() > d.len() ==> rem(st.last()) < bb - 1,
        st.len() <= d.len() ==> rem(st.last()) < rem(d[st.len() - 1]),
    ensures run(g, toks, st, p0, bb), 0 <= number(digits(st, n, bb), bb) < number(digits(d, n, bb), bb),
{
    reveal(run);
    lemma_fwds(g, toks, d, st, p0);
    assert forall|j: int| 0 <= j < st.len() implies resum(toks, #[trigger] st[j]) && 0 <= rem(st[j]) < bb - 1 by { if j < st.len() - 1 { assert(st[j] == d[j]); assert(resum(toks, d[j])); } }
    lemma_measure(d, st, n, bb);
}
/// a fix in a production has consumed tokens
pub proof fn lemma_fixed<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, p0: int, bb: int)
    requires run(g, toks, st, p0, bb),
    ensures (exists|j: int| 0 <= j < st.len() && #[trigger] st[j] is Fixed) ==> top(st, p0) > p0,
{
    reveal(run);
    lemma_fwd(g, st, p0, st.len() as int);
}
pub proof fn lemma_run0<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, p0: int, bb: int)
    ensures forall|st: Seq<State<'a, L, T>>| st.len() == 0 ==> #[trigger] run(g, toks, st, p0, bb),
{ reveal(run); }
pub proof fn lemma_next_run<'a, L, T>(g: ContextFreeGrammar<T>, toks: Seq<Token<L, T>>, st: Seq<State<'a, L, T>>, p0: int, bb: int, a: T, o: Seq<T>)
    requires no_left_rec(g), prod_of(g, a, o), run(g, toks, st, p0, bb), heads(st, o), st.len() < o.len(),
    ensures top(st, p0) >= p0, top(st, p0) == p0 ==> rk(g, o[st.len() as int]) < rk(g, a),
{ reveal(run); lemma_next(g, st, p0, a, o); }
