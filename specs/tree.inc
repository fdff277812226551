// ------------------------------------------------------------------ trees
/// a genuine derivation: every inner node applies a production of its symbol and has no lexeme, nor has an empty-symbol leaf
pub open spec fn tree_ok<L, T>(g: ContextFreeGrammar<T>, n: AbstractSyntaxNode<Token<L, T>>) -> bool
    decreases n
{
    if n.child_nodes@.len() == 0 {
        !nt(g, n.token.t_type) && (n.token.t_type == g.epsilon_symbol ==> n.token.lex is None)
    } else {
        &&& nt(g, n.token.t_type) && n.token.lex is None
        &&& exists|i: int| 0 <= i < np(g, n.token.t_type) && #[trigger] spells(n.child_nodes@, out(g, n.token.t_type, i))
        &&& forall|k: int| 0 <= k < n.child_nodes@.len() ==> tree_ok(g, #[trigger] n.child_nodes@[k])
    }
}
pub open spec fn spells<L, T>(c: Seq<AbstractSyntaxNode<Token<L, T>>>, o: Seq<T>) -> bool {
    c.len() == o.len() && forall|k: int| 0 <= k < o.len() ==> (#[trigger] c[k]).token.t_type == o[k]
}
/// the leaves of a tree that are not empty-symbol leaves, from left to right
pub open spec fn yld<L, T>(eps: T, n: AbstractSyntaxNode<Token<L, T>>) -> Seq<Token<L, T>>
    decreases n, n.child_nodes@.len() + 1
{
    if n.child_nodes@.len() == 0 { if n.token.t_type == eps { Seq::empty() } else { seq![n.token] } }
    else { ylds_of(eps, n, n.child_nodes@.len()) }
}
/// the leaves below the first k children
pub open spec fn ylds_of<L, T>(eps: T, n: AbstractSyntaxNode<Token<L, T>>, k: nat) -> Seq<Token<L, T>>
    decreases n, k
{
    if k == 0 || k > n.child_nodes@.len() { Seq::empty() }
    else { ylds_of(eps, n, (k - 1) as nat) + yld(eps, n.child_nodes@[k - 1]) }
}
/// the leaves below the first k trees of a list
pub open spec fn ylds<L, T>(eps: T, c: Seq<AbstractSyntaxNode<Token<L, T>>>, k: nat) -> Seq<Token<L, T>>
    decreases k
{
    if k == 0 || k > c.len() { Seq::empty() }
    else { ylds(eps, c, (k - 1) as nat) + yld(eps, c[k - 1]) }
}
pub proof fn lemma_ylds<L, T>(eps: T, n: AbstractSyntaxNode<Token<L, T>>, k: nat)
    ensures ylds_of(eps, n, k) == ylds(eps, n.child_nodes@, k),
    decreases k
{
    if k > 0 { lemma_ylds(eps, n, (k - 1) as nat); }
}
/// y is what stands in the input from position p on
pub open spec fn at<L, T>(toks: Seq<Token<L, T>>, p: int, y: Seq<Token<L, T>>) -> bool {
    y.len() > 0 ==> 0 <= p && p + y.len() <= toks.len() && y == toks.subrange(p, p + y.len())
}
pub proof fn lemma_at_cat<L, T>(toks: Seq<Token<L, T>>, p: int, y: Seq<Token<L, T>>, z: Seq<Token<L, T>>)
    requires at(toks, p, y), at(toks, p + y.len(), z),
    ensures at(toks, p, y + z),
{
    let w = y + z;
    if z.len() == 0 { assert(w =~= y); }
    else if y.len() == 0 { assert(w =~= z); }
    else { assert(w =~= toks.subrange(p, p + w.len())); }
}
/// a node over these children
pub proof fn lemma_node<L, T>(g: ContextFreeGrammar<T>, a: T, c: Seq<AbstractSyntaxNode<Token<L, T>>>, o: Seq<T>)
    requires prod_of(g, a, o), spells(c, o), c.len() > 0, forall|k: int| 0 <= k < c.len() ==> tree_ok(g, #[trigger] c[k]),
    ensures
        forall|n: AbstractSyntaxNode<Token<L, T>>| n.child_nodes@ == c && n.token.t_type == a && n.token.lex is None ==> #[trigger] tree_ok(g, n),
        forall|n: AbstractSyntaxNode<Token<L, T>>| n.child_nodes@ == c ==> #[trigger] yld(g.epsilon_symbol, n) == ylds(g.epsilon_symbol, c, c.len()),
{
    let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
    assert(spells(c, out(g, a, i)));
    assert forall|n: AbstractSyntaxNode<Token<L, T>>| n.child_nodes@ == c implies #[trigger] yld(g.epsilon_symbol, n) == ylds(g.epsilon_symbol, c, c.len()) by { lemma_ylds(g.epsilon_symbol, n, c.len()); }
}
