// ------------------------------------------------------------------ parsers
/// what the constructors establish; nothing changes a parser afterwards
pub open spec fn pok<'a, L, T, S: SyntaxErrorSolver<L, T>>(p: &RecursiveDescentParser<'a, L, T, S>) -> bool {
    g_wf(*p.grammar) && table_ok(*p.grammar, p.transitions.table)
}
