// ---------------------------------------------------------------- driver: observations of the extraction (see whole.py)
verus! {
#[verifier::external_derive]
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Y(u8);
}
impl std::hash::Hash for Y {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 % 23).hash(h) }
}
verus! {
impl VClone for Y { #[verifier::external_body] fn vclone(&self) -> Self { Y(self.0) } }
impl Sym for Y {
    proof fn lawful() { admit(); }
    #[verifier::external_body] fn veq(&self, o: &Self) -> bool { self.0 == o.0 }
    #[verifier::external_body] fn vne(&self, o: &Self) -> bool { self.0 != o.0 }
}
}
type Lex = usize;
impl VClone for usize { fn vclone(&self) -> Self { *self } }
fn a_grammar(c: &Case) -> ContextFreeGrammar<Y> {
    ContextFreeGrammar::new(Y(c.eps), Y(c.start), c.prods.iter().map(|(a, o)| ContextFreeGrammarProduction { input: Y(*a), output: o.iter().map(|x| Y(*x)).collect() }).collect())
}
fn a_set(s: Option<&HSet<Y>>) -> Option<std::collections::BTreeSet<u8>> { s.map(|h| { let mut v = vec![]; let mut i = h.v_iter(); while let Some(x) = i.next() { v.push(x) } v }.into_iter().map(|x| x.0).collect()) }
fn a_first(f: &FirstFollowSymbols<Y>, s: u8) -> Option<std::collections::BTreeSet<u8>> { a_set(f.get_first_symbols(&Y(s))) }
fn a_follow(f: &FirstFollowSymbols<Y>, s: u8) -> Option<std::collections::BTreeSet<u8>> { a_set(f.get_follow_symbols(&Y(s))) }
fn a_parse(g: &ContextFreeGrammar<Y>, f: &FirstFollowSymbols<Y>, k: usize, s: Scripted, t: Vec<Token<Lex, Y>>) -> ParseResult<Lex, Y> {
    let t = t.v_into_iter();
    match k {
        0 => RecursiveDescentParser::<Lex, Y, Scripted>::from_grammar(g).parse_from_tokens(t),
        1 => RecursiveDescentParser::<Lex, Y, Scripted>::from_grammar_and_first_follow_symbols(g, f).parse_from_tokens(t),
        _ => RecursiveDescentParser::<Lex, Y, Scripted>::from_grammar_and_solver(g, s).parse_from_tokens(t),
    }
}
/// reads what `harness observe` wrote; says where the extraction does something else
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let (mut n, mut parsed) = (0, 0);
    let mut it = t.split("\n\n");
    while let (Some(case), Some(want)) = (it.next(), it.next()) {
        let c = Case::from_text(case).expect("case");
        let parse = case.contains("parse=1");
        let got = c_case(&c, parse);
        if std::env::args().nth(2).is_some() { print!("{}\n\n{}\n\n", case, got); return; }
        n += 1;
        if parse { parsed += 1 }
        if got != want {
            println!("the extraction differs on\n{}\nreal: {}\nextraction: {}", case, want, got);
            std::process::exit(1);
        }
    }
    println!("{} {}", n, parsed);
}
