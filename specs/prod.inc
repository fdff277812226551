/// o is a production of a
pub open spec fn prod_of<T>(g: ContextFreeGrammar<T>, a: T, o: Seq<T>) -> bool { nt(g, a) && exists|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o }
pub proof fn lemma_prod_of<T>(g: ContextFreeGrammar<T>, a: T, o: Seq<T>)
    requires g_wf(g), prod_of(g, a, o),
    ensures o.len() > 0, forall|k: int| 0 <= k < o.len() ==> sym(g, #[trigger] o[k]),
{
    let i = choose|i: int| 0 <= i < np(g, a) && #[trigger] out(g, a, i) =~= o;
    lemma_syms(g, a, i);
}
/// the cells of the table hold productions of their symbol
pub proof fn lemma_row<T>(g: ContextFreeGrammar<T>, a: T, x: T, n: nat)
    requires nt(g, a), n <= np(g, a),
    ensures forall|k: int| 0 <= k < row(g, a, x, n).len() ==> prod_of(g, a, (#[trigger] row(g, a, x, n)[k]).output),
    decreases n
{
    if n > 0 {
        lemma_row(g, a, x, (n - 1) as nat);
        let r = row(g, a, x, (n - 1) as nat);
        assert forall|k: int| 0 <= k < row(g, a, x, n).len() implies prod_of(g, a, (#[trigger] row(g, a, x, n)[k]).output) by {
            if k < r.len() { assert(row(g, a, x, n)[k] == r[k]); }
            else { assert(row(g, a, x, n)[k] == pv(g.productions@[a]@[n - 1])); assert(out(g, a, n - 1) =~= row(g, a, x, n)[k].output); }
        }
    }
}
