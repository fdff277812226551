//! Per-property checks of one concrete case against the real crate.
use crate::case::Case;
use crate::oracle::{valid, Ref, Tree, G, S};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym(pub u8);
/// lawful, with collisions: different symbols may have the same hash
impl std::hash::Hash for Sym {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 % 23).hash(h) }
}
type Lex = usize;
type Tok = Token<Lex, Sym>;
type Node = AbstractSyntaxNode<Tok>;
type FP = FailedProduction<Lex, Sym>;
type FS = FailedSymbol<Lex, Sym>;
type XS = FixedSymbol<Lex, Sym>;
type XP = FixedProduction<Lex, Sym>;

/// Outcome of one case.
#[derive(Debug, PartialEq)]
pub enum Out {
    /// the property's premise does not hold for this case (or the case is too expensive)
    Skip,
    Held,
    Bad(String),
}
macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }

pub fn grammar(c: &Case) -> ContextFreeGrammar<Sym> {
    let ps = c.prods.iter().map(|(a, o)| ContextFreeGrammarProduction::new(Sym(*a), o.iter().map(|x| Sym(*x)).collect())).collect();
    ContextFreeGrammar::new(Sym(c.eps), Sym(c.start), ps)
}
fn tokens(c: &Case, lex: bool) -> Vec<Tok> {
    c.toks.iter().enumerate().map(|(i, t)| Token::new(if lex { Some(i) } else { None }, Sym(*t))).collect()
}
fn u(v: &[Sym]) -> Vec<S> { v.iter().map(|x| x.0).collect() }
fn all_symbols(c: &Case) -> BTreeSet<S> {
    let mut r: BTreeSet<S> = c.prods.iter().flat_map(|p| p.1.iter().copied().chain([p.0])).collect();
    r.insert(c.eps);
    r.insert(c.start);
    r.insert(254);
    r.extend(c.toks.iter().copied());
    r
}
pub fn tree(n: &Node) -> Tree { Tree { sym: n.token.t_type.0, lex: n.token.lex, kids: n.child_nodes.iter().map(tree).collect() } }

/// Is `n` a derivation of symbol `a` over the tokens from `p`? Returns where it ends.
fn walk(g: &G, toks: &[S], lexed: bool, n: &Node, a: S, p: usize) -> Result<usize, String> {
    if n.token.t_type.0 != a { bad!("node for symbol {} carries symbol {}", a, n.token.t_type.0) }
    if g.nts.contains(&a) {
        if n.token.lex.is_some() { bad!("inner node of {} carries lexeme {:?}", a, n.token.lex) }
        let kids: Vec<S> = n.child_nodes.iter().map(|k| k.token.t_type.0).collect();
        if !g.prods.iter().any(|(b, o)| *b == a && *o == kids) { bad!("children {:?} of {} are no production output", kids, a) }
        let mut q = p;
        for k in &n.child_nodes { q = walk(g, toks, lexed, k, k.token.t_type.0, q)?; }
        Ok(q)
    } else {
        if !n.child_nodes.is_empty() { bad!("leaf {} has children", a) }
        if a == g.eps {
            if n.token.lex.is_some() { bad!("empty-symbol leaf carries lexeme {:?}", n.token.lex) }
            return Ok(p);
        }
        if p >= toks.len() { bad!("leaf {} beyond the end of the input", a) }
        if toks[p] != a { bad!("leaf {} stands for token {} which is {}", a, p, toks[p]) }
        let want = if lexed { Some(p) } else { None };
        if n.token.lex != want { bad!("leaf for token {} carries lexeme {:?}, expected {:?}", p, n.token.lex, want) }
        Ok(p + 1)
    }
}

// ---------------------------------------------------------------- scripted, recording solver
#[derive(Clone, Debug)]
struct Call {
    multi: bool,
    pos: usize,
    outs: Vec<Vec<S>>,
    bad: Option<String>,
    ans: Option<usize>,
}
struct Rec<'r> { mode: u64, g: &'r G, toks: &'r [S], calls: &'r RefCell<Vec<Call>> }

const TAG: usize = 1_000_000;
fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}
fn spell(f: &FP) -> Vec<S> {
    let mut r: Vec<S> = f.parsed_symbols.iter().map(|p| match p {
        ProductionParsedSymbol::Ok(n) => n.token.t_type.0,
        ProductionParsedSymbol::Fix(x) => x.symbol_to_derive.0,
    }).collect();
    r.push(f.failed_symbol.symbol_to_derive.0);
    r.extend(u(&f.pending_symbols));
    r
}
impl<'r> Rec<'r> {
    fn ask(&self, multi: bool, tokens: &Vec<Tok>, pos: usize, fps: &[&FP]) -> Option<FixResult<Lex, Sym>> {
        let mut calls = self.calls.borrow_mut();
        if calls.len() > 20_000 { std::panic::panic_any(TooMuch) }
        let mut bad = None;
        let got: Vec<S> = tokens.iter().map(|t| t.t_type.0).collect();
        if got != self.toks || tokens.iter().enumerate().any(|(i, t)| t.lex != Some(i)) { bad = Some("the solver is not given the tokens of the input".to_string()) }
        for f in fps { if let Err(e) = self.report(&calls, f, pos, !multi) { bad = Some(e) } }
        let outs: Vec<Vec<S>> = fps.iter().map(|f| spell(f)).collect();
        let mut h = mix(self.mode ^ (pos as u64) << 8 ^ (multi as u64) << 40);
        for o in &outs { for s in o { h = mix(h ^ *s as u64) } h = mix(h ^ 999) }
        let n = self.toks.len();
        let ans = match self.mode % 8 {
            0 => None,
            1 => Some(pos + 1),
            2 => if h % 2 == 0 { Some(pos + 1 + (h >> 8) as usize % 3) } else { None },
            3 => if multi { Some(pos + 1) } else { None },
            4 => if !multi { Some(pos + 1) } else { None },
            5 => Some(n.max(pos + 1)),
            6 => if h % 3 == 0 { Some(pos + 2) } else { None },
            _ => if multi != (h % 5 == 0) { Some(pos + 1) } else { None },
        };
        // some solvers answer that they go back (only so often: it has to end)
        let ans = if self.mode / 8 % 5 == 4 && calls.len() < 30 && h % 3 != 0 { ans.map(|q| pos.saturating_sub(q % 3)) } else { ans };
        let id = calls.len();
        calls.push(Call { multi, pos, outs, bad, ans });
        ans.map(|q| FixResult { final_token_position: q, production: FixedProduction::new(vec![FixedProductionPart::Gap(FixGap { skipped_tokens: vec![TAG + id], skipped_symbols: vec![] })]) })
    }
    /// the failure handed to the solver is consistent with the input and with earlier answers
    fn report(&self, calls: &[Call], f: &FP, pos: usize, only: bool) -> Result<(), String> {
        let mut q = pos;
        for p in &f.parsed_symbols {
            q = match p {
                ProductionParsedSymbol::Ok(n) => walk(self.g, self.toks, true, n, n.token.t_type.0, q)?,
                ProductionParsedSymbol::Fix(x) => walk_fixed(self.g, self.toks, calls, x, x.symbol_to_derive.0, q)?,
            };
        }
        let a = f.failed_symbol.symbol_to_derive.0;
        if !self.g.nts.contains(&a) && (a == self.g.eps || self.toks.get(q) == Some(&a)) { bad!("the failing terminal {} is the token at {}", a, q) }
        if only && self.g.nts.contains(&a) {
            let cands: Vec<Vec<S>> = Ref::new(self.g, self.toks, 0).cand(a, q).into_iter().cloned().collect();
            if !calls.iter().any(|k| k.pos == q && k.ans.is_none() && k.outs == cands) { bad!("{} is reported as failing at {} and the solver was not asked about it", a, q) }
        }
        Ok(())
    }
}
fn walk_fixed(g: &G, toks: &[S], calls: &[Call], x: &XS, a: S, p: usize) -> Result<usize, String> {
    if x.symbol_to_derive.0 != a { bad!("fixed symbol {} where {} was expected", x.symbol_to_derive.0, a) }
    let r = Ref::new(g, toks, 0);
    let cands: Vec<Vec<S>> = r.cand(a, p).into_iter().cloned().collect();
    if let Some(id) = tag(&x.fixed_production) {
        let Some(c) = calls.get(id) else { bad!("unknown answer {}", id) };
        if c.pos != p { bad!("answer for position {} used for symbol {} at {}", c.pos, a, p) }
        if c.outs != cands { bad!("answer for candidates {:?} used for symbol {} with {:?}", c.outs, a, cands) }
        return Ok(c.ans.unwrap());
    }
    if cands.len() != 1 { bad!("{} is repaired inside although it has {} candidates", a, cands.len()) }
    let ps = &x.fixed_production.fixed_parts;
    if ps.len() != cands[0].len() { bad!("fixed production of {} has {} parts for {:?}", a, ps.len(), cands[0]) }
    let mut q = p;
    let mut fixed = 0;
    for (i, part) in ps.iter().enumerate() {
        q = match part {
            FixedProductionPart::Ok(n) => walk(g, toks, true, n, cands[0][i], q)?,
            FixedProductionPart::Fixed(y) => { fixed += 1; walk_fixed(g, toks, calls, y, cands[0][i], q)? }
            FixedProductionPart::Gap(_) => bad!("gap not made by the solver"),
        };
    }
    if fixed == 0 { bad!("fixed production of {} has no fixed part", a) }
    Ok(q)
}
fn tag(p: &XP) -> Option<usize> {
    match p.fixed_parts.as_slice() {
        [FixedProductionPart::Gap(g)] if g.skipped_tokens.len() == 1 && g.skipped_tokens[0] >= TAG => Some(g.skipped_tokens[0] - TAG),
        _ => None,
    }
}
impl<'r> SyntaxErrorSolver<Lex, Sym> for Rec<'r> {
    fn fix_failed_production(&self, tokens: &Vec<Tok>, pos: usize, f: &FP) -> Option<FixResult<Lex, Sym>> { self.ask(false, tokens, pos, &[f]) }
    fn fix_failed_productions(&self, tokens: &Vec<Tok>, pos: usize, fs: &Vec<FP>) -> Option<FixResult<Lex, Sym>> { self.ask(true, tokens, pos, &fs.iter().collect::<Vec<_>>()) }
}
pub struct TooMuch;
struct NoSolver;
impl SyntaxErrorSolver<Lex, Sym> for NoSolver {
    fn fix_failed_production(&self, _: &Vec<Tok>, _: usize, _: &FP) -> Option<FixResult<Lex, Sym>> { unreachable!() }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FP>) -> Option<FixResult<Lex, Sym>> { unreachable!() }
}
type Plain<'a> = RecursiveDescentParser<'a, Lex, Sym, NoSolver>;

fn show_fs(f: &FS, out: &mut String) {
    out.push_str(&format!("({}", f.symbol_to_derive.0));
    for p in &f.failed_productions { show_fp(p, out) }
    out.push(')');
}
fn show_fp(p: &FP, out: &mut String) {
    out.push('[');
    for s in &p.parsed_symbols {
        match s {
            ProductionParsedSymbol::Ok(n) => out.push_str(&format!("{:?}", tree(n))),
            ProductionParsedSymbol::Fix(x) => out.push_str(&format!("fix{}", x.symbol_to_derive.0)),
        }
    }
    out.push('!');
    show_fs(&p.failed_symbol, out);
    out.push_str(&format!("{:?}]", u(&p.pending_symbols)));
}
fn show(r: &ParseResult<Lex, Sym>) -> String {
    match r {
        ParseResult::Ok(t) => format!("Ok{:?}", tree(&t.root)),
        ParseResult::Err(f) => { let mut s = "Err".to_string(); show_fs(f, &mut s); s }
        ParseResult::Fix(x) => format!("Fix{}", x.symbol_to_derive.0),
    }
}

// ---------------------------------------------------------------- the checks
const STEPS: u64 = 6_000;

fn c01(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let g = grammar(c);
    let mut nt: Vec<S> = u(&g.get_non_terminal_symbols());
    nt.sort();
    if nt != o.nts.iter().copied().collect::<Vec<_>>() { bad!("non-terminals {:?}, expected {:?}", nt, o.nts) }
    let mut t: Vec<S> = u(&g.get_terminal_symbols());
    t.sort();
    if t != o.ts.iter().copied().collect::<Vec<_>>() { bad!("terminals {:?}, expected {:?}", t, o.ts) }
    for s in all_symbols(c) {
        if g.is_terminal(&Sym(s)) != o.ts.contains(&s) { bad!("is_terminal({})", s) }
        if g.is_non_terminal(&Sym(s)) != o.nts.contains(&s) { bad!("is_non_terminal({})", s) }
        let want: Vec<(S, Vec<S>)> = c.prods.iter().filter(|p| p.0 == s).cloned().collect();
        let got: Option<Vec<(S, Vec<S>)>> = g.get_productions(&Sym(s)).map(|v| v.iter().map(|p| (p.input.0, u(&p.output))).collect());
        if got.clone().unwrap_or_default() != want { bad!("productions of {}: {:?}, expected {:?}", s, got, want) }
        let cl: Option<Vec<(S, Vec<S>)>> = g.get_productions(&Sym(s)).map(|v| v.iter().map(|p| p.clone()).map(|p| (p.input.0, u(&p.output))).collect());
        if cl != got { bad!("clones of the productions of {}: {:?}", s, cl) }
    }
    if g.get_epsilon_symbol().0 != c.eps { bad!("empty symbol {}", g.get_epsilon_symbol().0) }
    if g.get_initial_symbol().0 != c.start { bad!("initial symbol {}", g.get_initial_symbol().0) }
    Ok(())
}
fn c02(c: &Case) -> Result<(), String> {
    let v = valid(c.eps, &c.prods);
    let r = catch_unwind(AssertUnwindSafe(|| { grammar(c); })).is_ok();
    if r != v { bad!("construction {} a {} production list", if r { "accepts" } else { "panics on" }, if v { "well-formed" } else { "malformed" }) }
    Ok(())
}
fn c03(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let g = grammar(c);
    let f = FirstFollowSymbols::from(&g);
    for s in all_symbols(c) {
        let got: Option<BTreeSet<S>> = f.get_first_symbols(&Sym(s)).map(|h| h.iter().map(|x| x.0).collect());
        let want = if o.nts.contains(&s) || o.ts.contains(&s) {
            let mut w = o.first[&s].clone();
            if o.nul(s) { w.insert(c.eps); }
            Some(w)
        } else { None };
        if got != want { bad!("FIRST({}) = {:?}, expected {:?}", s, got, want) }
    }
    Ok(())
}
fn c04(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let g = grammar(c);
    let f = FirstFollowSymbols::from(&g);
    for s in all_symbols(c) {
        let got: Option<BTreeSet<S>> = f.get_follow_symbols(&Sym(s)).map(|h| h.iter().map(|x| x.0).collect());
        let want = o.follow.get(&s).cloned();
        if got != want { bad!("FOLLOW({}) = {:?}, expected {:?}", s, got, want) }
    }
    Ok(())
}
fn c05(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let g = grammar(c);
    let f = FirstFollowSymbols::from(&g);
    let t = RecursiveDescentParserTransitions::from(&g, &f);
    let pred: Vec<BTreeSet<S>> = o.prods.iter().map(|p| o.predict(p)).collect();
    for a in all_symbols(c) {
        for x in all_symbols(c) {
            let got: Option<Vec<(S, Vec<S>)>> = t.get_productions(&Sym(a), &Sym(x)).map(|v| v.iter().map(|p| (p.input.0, u(&p.output))).collect());
            if !o.nts.contains(&a) || !o.ts.contains(&x) {
                if got.is_some() { bad!("entry for ({}, {}): {:?}", a, x, got) }
            } else {
                let want: Vec<(S, Vec<S>)> = o.prods.iter().zip(&pred).filter(|(p, s)| p.0 == a && s.contains(&x)).map(|(p, _)| p.clone()).collect();
                if got.clone().unwrap_or_default() != want { bad!("table({}, {}) = {:?}, expected {:?}", a, x, got, want) }
            }
        }
    }
    Ok(())
}
fn c06(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let g = grammar(c);
    let lexed = c.toks.len() % 4 != 3;
    let check = |r: ParseResult<Lex, Sym>, lexed: bool, w: &str| -> Result<(), String> {
        if let ParseResult::Ok(t) = r {
            if let Err(e) = walk(&o, &c.toks, lexed, &t.root, c.start, 0) { bad!("{}: {} in {:?}", w, e, tree(&t.root)) }
            if !o.nts.contains(&c.start) { bad!("{}: accepted although the initial symbol has no productions", w) }
        }
        Ok(())
    };
    let r = catch_unwind(AssertUnwindSafe(|| Plain::from_grammar(&g).parse_from_tokens(tokens(c, lexed).into_iter())));
    if let Ok(r) = r { check(r, lexed, "no solver")?; }
    if let Some(m) = c.solver {
        let calls = RefCell::new(vec![]);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let p: RecursiveDescentParser<Lex, Sym, Rec> = RecursiveDescentParser::from_grammar_and_solver(&g, Rec { mode: m, g: &o, toks: &c.toks, calls: &calls });
            p.parse_from_tokens(tokens(c, true).into_iter())
        }));
        if let Ok(r) = r { check(r, true, "with solver")?; }
    }
    Ok(())
}
fn c07(c: &Case) -> Result<(), String> {
    let o = G::new(c.eps, c.start, &c.prods);
    let ch = o.chart(&c.toks);
    let ends = ch.get(&(c.start, 0)).cloned().unwrap_or_default();
    let g = grammar(c);
    let check = |r: ParseResult<Lex, Sym>, w: &str| -> Result<(), String> {
        match r {
            ParseResult::Ok(t) => {
                let q = walk(&o, &c.toks, true, &t.root, c.start, 0)?;
                if !ends.contains(&q) { bad!("{}: tree for the first {} tokens, the sentence has {:?}", w, q, ends) }
                Ok(())
            }
            ParseResult::Err(_) => bad!("{}: sentence of length {:?} rejected", w, ends),
            ParseResult::Fix(_) => bad!("{}: sentence of length {:?} repaired instead of accepted", w, ends),
        }
    };
    check(Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter()), "no solver")?;
    if let Some(m) = c.solver {
        let calls = RefCell::new(vec![]);
        let p: RecursiveDescentParser<Lex, Sym, Rec> = RecursiveDescentParser::from_grammar_and_solver(&g, Rec { mode: m, g: &o, toks: &c.toks, calls: &calls });
        check(p.parse_from_tokens(tokens(c, true).into_iter()), "with solver")?;
    }
    Ok(())
}
fn chk_fs(r: &Ref, f: &FS, a: S, p: usize, root: bool, budget: &mut u64) -> Result<(), String> {
    if *budget == 0 { return Ok(()) }
    *budget -= 1;
    let g = r.g;
    if f.symbol_to_derive.0 != a { bad!("failed symbol {} reported where {} was tried", f.symbol_to_derive.0, a) }
    if !g.nts.contains(&a) && !root {
        if !f.failed_productions.is_empty() { bad!("failing terminal {} has failed productions", a) }
        if a == g.eps { bad!("the empty symbol is reported as failing") }
        if r.toks.get(p) == Some(&a) { bad!("terminal {} is reported as failing at {} where it is the token", a, p) }
        return Ok(());
    }
    let cands = r.cand(a, p);
    let outs: Vec<Vec<S>> = f.failed_productions.iter().map(spell).collect();
    if outs != cands.iter().map(|o| (*o).clone()).collect::<Vec<_>>() { bad!("failed productions of {} at {} spell {:?}, its candidates are {:?}", a, p, outs, cands) }
    for (fp, o) in f.failed_productions.iter().zip(&cands) {
        let mut q = p;
        for (i, s) in fp.parsed_symbols.iter().enumerate() {
            match s {
                ProductionParsedSymbol::Ok(n) => q = walk(g, r.toks, true, n, o[i], q)?,
                ProductionParsedSymbol::Fix(_) => bad!("fixed symbol without a solver"),
            }
        }
        chk_fs(r, &fp.failed_symbol, o[fp.parsed_symbols.len()], q, false, budget)?;
    }
    Ok(())
}
fn c08(c: &Case, o: &G) -> Result<(), String> {
    let r = Ref::new(o, &c.toks, STEPS);
    let g = grammar(c);
    if let Ok(ParseResult::Err(f)) = catch_unwind(AssertUnwindSafe(|| Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter()))) {
        chk_fs(&r, &f, c.start, 0, true, &mut 20_000)?;
    }
    Ok(())
}
fn c09(c: &Case, o: &G) -> Result<(), String> {
    let g = grammar(c);
    if c.toks.is_empty() {
        let r = catch_unwind(AssertUnwindSafe(|| { Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter()); }));
        if r.is_ok() { bad!("parsing no tokens returned") }
        return Ok(());
    }
    let _ = Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter());
    if let Some(m) = c.solver {
        let calls = RefCell::new(vec![]);
        let p: RecursiveDescentParser<Lex, Sym, Rec> = RecursiveDescentParser::from_grammar_and_solver(&g, Rec { mode: m, g: o, toks: &c.toks, calls: &calls });
        let r = catch_unwind(AssertUnwindSafe(|| { p.parse_from_tokens(tokens(c, true).into_iter()); }));
        if let Err(e) = r { if e.downcast_ref::<TooMuch>().is_none() { bad!("panic with solver") } }
    }
    Ok(())
}
fn c10(c: &Case, o: &G) -> Result<(), String> {
    let g = grammar(c);
    let r = Ref::new(o, &c.toks, STEPS);
    let Ok(plain) = catch_unwind(AssertUnwindSafe(|| Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter()))) else { return Ok(()) };
    let calls = RefCell::new(vec![]);
    let Ok(with) = catch_unwind(AssertUnwindSafe(|| {
        let p: RecursiveDescentParser<Lex, Sym, Rec> = RecursiveDescentParser::from_grammar_and_solver(&g, Rec { mode: c.solver.unwrap(), g: o, toks: &c.toks, calls: &calls });
        p.parse_from_tokens(tokens(c, true).into_iter())
    })) else { return Ok(()) };
    let calls = calls.into_inner();
    if let ParseResult::Ok(_) = plain {
        if !calls.is_empty() { bad!("the solver is asked {} times although the input parses", calls.len()) }
        let (a, b) = (show(&plain), show(&with));
        if a != b { bad!("without solver {}, with solver {}", a, b) }
        return Ok(());
    }
    // (symbol, position) pairs whose enclosing symbols all had exactly one candidate
    let ch = o.chart(&c.toks);
    let answers: BTreeSet<(usize, usize)> = calls.iter().filter_map(|k| k.ans.map(|a| (k.pos, a))).collect();
    let mut reach: BTreeSet<(S, usize)> = BTreeSet::new();
    let mut todo = vec![(c.start, 0)];
    let n = c.toks.len();
    let far = answers.iter().map(|x| x.1).max().unwrap_or(0).max(n);
    while let Some((a, p)) = todo.pop() {
        if !reach.insert((a, p)) { continue; }
        let cs = r.cand(a, p);
        if cs.len() != 1 { continue; }
        let mut cur: BTreeSet<usize> = [p].into_iter().collect();
        for s in cs[0] {
            let mut nx = BTreeSet::new();
            for &m in &cur {
                if o.nts.contains(s) {
                    todo.push((*s, m));
                    if let Some(e) = ch.get(&(*s, m)) { nx.extend(e.iter().copied()); }
                    // a repaired symbol ends where some answer at or after m said
                    let back = answers.iter().any(|x| x.1 < x.0);
                    nx.extend(answers.iter().filter(|x| back || x.0 >= m).flat_map(|x| x.1..=far));
                } else if *s == o.eps { nx.insert(m); }
                else if c.toks.get(m) == Some(s) { nx.insert(m + 1); }
            }
            cur = nx;
        }
    }
    for k in &calls {
        if let Some(e) = &k.bad { bad!("{} ({:?})", e, k) }
        if k.multi == (k.outs.len() == 1) { bad!("{} call for {} candidates", if k.multi { "multi" } else { "single" }, k.outs.len()) }
        let ok = reach.iter().any(|(a, p)| *p == k.pos && r.cand(*a, *p).into_iter().cloned().collect::<Vec<_>>() == k.outs);
        if !ok { bad!("call at {} with candidates {:?} is about no symbol reached through single candidates", k.pos, k.outs) }
        for out in &k.outs {
            if r.prod(out, k.pos).is_some() { bad!("the solver is asked about {:?} at {} which parses", out, k.pos) }
        }
    }
    if r.over() { return Ok(()) }
    match &with {
        ParseResult::Ok(t) => { bad!("accepted with a solver only: {:?}", tree(&t.root)) }
        ParseResult::Err(f) => {
            // asked about the initial symbol last, and it declined
            match calls.last() {
                Some(k) if k.pos == 0 && k.ans.is_none() => {}
                k => bad!("rejected although the last answer was {:?}", k),
            }
            if f.symbol_to_derive.0 != c.start { bad!("rejection names {}", f.symbol_to_derive.0) }
        }
        ParseResult::Fix(x) => { walk_fixed(o, &c.toks, &calls, x, c.start, 0)?; }
    }
    Ok(())
}
fn c11(c: &Case) -> Result<(), String> {
    let g = grammar(c);
    let f = FirstFollowSymbols::from(&g);
    let _ = RecursiveDescentParserTransitions::from(&g, &f);
    let _ = Plain::from_grammar_and_first_follow_symbols(&g, &f);
    Ok(())
}
fn c12(c: &Case, o: &G) -> Result<(), String> {
    let r = Ref::new(o, &c.toks, STEPS);
    let want = r.sym(c.start, 0);
    if r.over() { return Ok(()) }
    let g = grammar(c);
    let a = Plain::from_grammar(&g).parse_from_tokens(tokens(c, true).into_iter());
    match (&a, &want) {
        (ParseResult::Ok(t), Some((w, _))) => if tree(&t.root) != *w { bad!("tree {:?}, ordered choice gives {:?}", tree(&t.root), w) },
        (ParseResult::Err(_), None) => {}
        (a, w) => bad!("result {}, ordered choice gives {:?}", show(a), w),
    }
    let p = Plain::from_grammar(&g);
    let f = FirstFollowSymbols::from(&g);
    let q = Plain::from_grammar_and_first_follow_symbols(&g, &f);
    let sa = show(&a);
    for (i, b) in [p.parse_from_tokens(tokens(c, true).into_iter()), p.parse_from_tokens(tokens(c, true).into_iter()), q.parse_from_tokens(tokens(c, true).into_iter())].iter().enumerate() {
        let sb = show(b);
        if sa != sb { bad!("results differ (repeat {}): {} and {}", i, sa, sb) }
    }
    Ok(())
}

/// is a panic, crash or hang of this case a violation of its property?
pub fn must_return(prop: &str) -> bool { !matches!(prop, "C06" | "C08" | "C10") }

pub fn run(c: &Case) -> Out {
    let p = c.prop.as_str();
    if p != "C02" && !valid(c.eps, &c.prods) { return Out::Skip; }
    let mut og = None;
    if matches!(p, "C06" | "C08" | "C09" | "C10" | "C12") {
        let o = G::new(c.eps, c.start, &c.prods);
        if !o.non_left_recursive() { return Out::Skip; }
        let r = Ref::new(&o, &c.toks, STEPS);
        r.sym(c.start, 0);
        if r.over() { return Out::Skip; }
        if c.toks.is_empty() && p != "C09" { return Out::Skip; }
        if p == "C10" && c.solver.is_none() { return Out::Skip; }
        og = Some(o);
    }
    if p == "C07" {
        let o = G::new(c.eps, c.start, &c.prods);
        if c.toks.is_empty() || !o.nts.contains(&c.start) || !o.ll1() || !o.start_ends_with_terminal() { return Out::Skip; }
        if c.toks.len() * o.prods.len() > 1500 { return Out::Skip; }
        if o.chart(&c.toks).get(&(c.start, 0)).map_or(true, |x| x.is_empty()) { return Out::Skip; }
    }
    let o = og.as_ref();
    let r = catch_unwind(AssertUnwindSafe(|| match p {
        "C01" => c01(c), "C02" => c02(c), "C03" => c03(c), "C04" => c04(c), "C05" => c05(c), "C06" => c06(c),
        "C07" => c07(c), "C08" => c08(c, o.unwrap()), "C09" => c09(c, o.unwrap()), "C10" => c10(c, o.unwrap()),
        "C11" => c11(c), "C12" => c12(c, o.unwrap()), _ => Err("unknown property".into()),
    }));
    match r {
        Ok(Ok(())) => Out::Held,
        Ok(Err(e)) => Out::Bad(e),
        Err(e) => {
            if e.downcast_ref::<TooMuch>().is_some() { return Out::Skip; }
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if must_return(p) { Out::Bad(format!("panic: {}", m)) } else { Out::Skip }
        }
    }
}

// ---------------------------------------------------------------- canonical observations of the real crate (compared with the extraction, run)
use self::Sym as Y;
include!("canon.rs");
fn a_grammar(c: &Case) -> ContextFreeGrammar<Sym> { grammar(c) }
fn a_set(s: Option<&std::collections::HashSet<Sym>>) -> Option<BTreeSet<u8>> { s.map(|h| h.iter().map(|x| x.0).collect()) }
fn a_first(f: &FirstFollowSymbols<Sym>, s: u8) -> Option<BTreeSet<u8>> { a_set(f.get_first_symbols(&Sym(s))) }
fn a_follow(f: &FirstFollowSymbols<Sym>, s: u8) -> Option<BTreeSet<u8>> { a_set(f.get_follow_symbols(&Sym(s))) }
fn a_parse(g: &ContextFreeGrammar<Sym>, f: &FirstFollowSymbols<Sym>, k: usize, s: Scripted, t: Vec<Tok>) -> ParseResult<Lex, Sym> {
    match k {
        0 => RecursiveDescentParser::<Lex, Sym, Scripted>::from_grammar(g).parse_from_tokens(t.into_iter()),
        1 => RecursiveDescentParser::<Lex, Sym, Scripted>::from_grammar_and_first_follow_symbols(g, f).parse_from_tokens(t.into_iter()),
        _ => RecursiveDescentParser::<Lex, Sym, Scripted>::from_grammar_and_solver(g, s).parse_from_tokens(t.into_iter()),
    }
}
/// may the input of this case be parsed at a reasonable cost? (`with` a solver backtracking is not bounded by the reference)
pub fn parseable(c: &Case) -> bool {
    if !valid(c.eps, &c.prods) { return false; }
    let o = G::new(c.eps, c.start, &c.prods);
    if !o.non_left_recursive() || c.toks.len() > 12 { return false; }
    let r = Ref::new(&o, &c.toks, 600);
    r.sym(c.start, 0);
    !r.over()
}
pub fn observe(c: &Case, parse: bool) -> String { c_case(c, parse) }
