// Shared, as text, by the harness (types of the real crate) and by the compiled extraction (extracted types):
// canonical forms of everything a user can observe, and a scripted solver.

fn c_node(n: &AbstractSyntaxNode<Token<Lex, Y>>, o: &mut String) {
    o.push_str(&format!("({}:{:?}", n.token.t_type.0, n.token.lex));
    for k in &n.child_nodes { c_node(k, o) }
    o.push(')');
}
fn c_fs(f: &FailedSymbol<Lex, Y>, o: &mut String) {
    o.push_str(&format!("!{}{{", f.symbol_to_derive.0));
    for p in &f.failed_productions { c_fp(p, o) }
    o.push('}');
}
fn c_fp(p: &FailedProduction<Lex, Y>, o: &mut String) {
    o.push('[');
    for s in &p.parsed_symbols {
        match s {
            ProductionParsedSymbol::Ok(n) => c_node(n, o),
            ProductionParsedSymbol::Fix(x) => c_xs(x, o),
        }
    }
    c_fs(&p.failed_symbol, o);
    for s in &p.pending_symbols { o.push_str(&format!(" {}", s.0)) }
    o.push(']');
}
fn c_xs(x: &FixedSymbol<Lex, Y>, o: &mut String) {
    o.push_str(&format!("~{}", x.symbol_to_derive.0));
    c_xp(&x.fixed_production, o);
}
fn c_xp(x: &FixedProduction<Lex, Y>, o: &mut String) {
    o.push('<');
    for p in &x.fixed_parts {
        match p {
            FixedProductionPart::Ok(n) => c_node(n, o),
            FixedProductionPart::Fixed(y) => c_xs(y, o),
            FixedProductionPart::Gap(g) => o.push_str(&format!("gap{:?}", g.skipped_tokens)),
        }
    }
    o.push('>');
}
fn c_result(r: &ParseResult<Lex, Y>, o: &mut String) {
    match r {
        ParseResult::Ok(t) => { o.push_str("OK "); c_node(&t.root, o) }
        ParseResult::Err(f) => { o.push_str("ERR "); c_fs(f, o) }
        ParseResult::Fix(x) => { o.push_str("FIX "); c_xs(x, o) }
    }
}
fn c_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h ^ h >> 29
}
/// answers depend on nothing but the question; every question is recorded
struct Scripted<'r> { mode: u64, calls: &'r std::cell::RefCell<(u64, String)> }
impl<'r> Scripted<'r> {
    fn ask(&self, multi: bool, tokens: &Vec<Token<Lex, Y>>, pos: usize, fs: &[&FailedProduction<Lex, Y>]) -> Option<FixResult<Lex, Y>> {
        let mut q = format!("{}@{}/", multi, pos);
        for t in tokens { q.push_str(&format!("{}:{:?},", t.t_type.0, t.lex)) }
        for f in fs { c_fp(f, &mut q) }
        let h = c_hash(&q);
        let mut c = self.calls.borrow_mut();
        c.0 += 1;
        if c.0 > 3000 { panic!("too many questions") }
        c.1 = format!("{} {:x}", c.0, c_hash(&format!("{}{:x}", c.1, h)));
        let id = c.0 as usize;
        match (h ^ self.mode.wrapping_mul(0x9E3779B97F4A7C15)) % 5 {
            0 | 1 => None,
            k => Some(FixResult { final_token_position: pos + k as usize - 1, production: FixedProduction { fixed_parts: vec![FixedProductionPart::Gap(FixGap { skipped_tokens: vec![id], skipped_symbols: vec![] })] } }),
        }
    }
}
impl<'r> SyntaxErrorSolver<Lex, Y> for Scripted<'r> {
    fn fix_failed_production(&self, tokens: &Vec<Token<Lex, Y>>, pos: usize, f: &FailedProduction<Lex, Y>) -> Option<FixResult<Lex, Y>> { self.ask(false, tokens, pos, &[f]) }
    fn fix_failed_productions(&self, tokens: &Vec<Token<Lex, Y>>, pos: usize, fs: &Vec<FailedProduction<Lex, Y>>) -> Option<FixResult<Lex, Y>> { self.ask(true, tokens, pos, &fs.iter().collect::<Vec<_>>()) }
}
fn c_universe(c: &Case) -> std::collections::BTreeSet<u8> {
    let mut r: std::collections::BTreeSet<u8> = c.prods.iter().flat_map(|p| p.1.iter().copied().chain([p.0])).collect();
    r.insert(c.eps);
    r.insert(c.start);
    r.insert(254);
    r.extend(c.toks.iter().copied());
    r
}
fn c_tokens(c: &Case) -> Vec<Token<Lex, Y>> { c.toks.iter().enumerate().map(|(i, t)| Token { lex: if i % 5 == 4 { None } else { Some(i) }, t_type: Y(*t) }).collect() }
/// everything observable about one case; `parse` says whether the input is to be parsed as well
fn c_case(c: &Case, parse: bool) -> String {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let mut o = String::new();
    let g = match catch_unwind(AssertUnwindSafe(|| a_grammar(c))) { Ok(g) => g, Err(_) => return "PANIC grammar".into() };
    let u = c_universe(c);
    let mut t: Vec<u8> = g.get_terminal_symbols().iter().map(|x| x.0).collect();
    let mut n: Vec<u8> = g.get_non_terminal_symbols().iter().map(|x| x.0).collect();
    t.sort();
    n.sort();
    o.push_str(&format!("T{:?} N{:?} e{} i{}", t, n, g.get_epsilon_symbol().0, g.get_initial_symbol().0));
    for s in &u {
        o.push_str(&format!(" {}:{}{}", s, g.is_terminal(&Y(*s)), g.is_non_terminal(&Y(*s))));
        if let Some(ps) = g.get_productions(&Y(*s)) { for p in ps { o.push_str(&format!("|{}{:?}", p.input.0, p.output.iter().map(|x| x.0).collect::<Vec<_>>())) } }
    }
    let f = match catch_unwind(AssertUnwindSafe(|| FirstFollowSymbols::from(&g))) { Ok(f) => f, Err(_) => { o.push_str(" PANIC first"); return o } };
    for s in &u { o.push_str(&format!(" F{}{:?}{:?}", s, a_first(&f, *s), a_follow(&f, *s))) }
    match catch_unwind(AssertUnwindSafe(|| RecursiveDescentParserTransitions::from(&g, &f))) {
        Ok(t) => for a in &u { for x in &u {
            if let Some(ps) = t.get_productions(&Y(*a), &Y(*x)) { o.push_str(&format!(" M{},{}", a, x)); for p in ps { o.push_str(&format!("|{}{:?}", p.input.0, p.output.iter().map(|x| x.0).collect::<Vec<_>>())) } }
        } },
        Err(_) => o.push_str(" PANIC table"),
    }
    if !parse { return o; }
    for solver in [false, true] {
        let calls = std::cell::RefCell::new((0, String::new()));
        let mode = c.solver.unwrap_or(7);
        let k = if solver { 2 } else { (mode % 2) as usize };
        let r = catch_unwind(AssertUnwindSafe(|| a_parse(&g, &f, k, Scripted { mode, calls: &calls }, c_tokens(c))));
        match r { Ok(r) => { o.push(' '); c_result(&r, &mut o) } Err(_) => o.push_str(" PANIC parse") }
        o.push_str(&format!(" calls {}", calls.borrow().1));
    }
    o
}
