//! A concrete case: grammar, tokens, solver script, in a plain text form that can be replayed.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub eps: u8,
    pub start: u8,
    pub prods: Vec<(u8, Vec<u8>)>,
    pub toks: Vec<u8>,
    /// None: no solver. Some(seed): the scripted solver of check.rs with that seed.
    pub solver: Option<u64>,
}

fn nums(s: &str) -> Vec<u8> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "property={}", self.prop).unwrap();
        writeln!(s, "empty_symbol={}", self.eps).unwrap();
        writeln!(s, "initial_symbol={}", self.start).unwrap();
        for (a, o) in &self.prods {
            let o: Vec<String> = o.iter().map(|x| x.to_string()).collect();
            writeln!(s, "production={}:{}", a, o.join(",")).unwrap();
        }
        let t: Vec<String> = self.toks.iter().map(|x| x.to_string()).collect();
        writeln!(s, "tokens={}", t.join(",")).unwrap();
        if let Some(x) = self.solver {
            writeln!(s, "solver={}", x).unwrap();
        }
        s
    }

    pub fn from_text(text: &str) -> Option<Case> {
        let mut c = Case { prop: String::new(), eps: 0, start: 0, prods: vec![], toks: vec![], solver: None };
        let mut seen = 0;
        for l in text.lines() {
            let Some((k, v)) = l.split_once('=') else { continue };
            match k {
                "property" => { c.prop = v.to_string(); seen |= 1 }
                "empty_symbol" => { c.eps = v.parse().ok()?; seen |= 2 }
                "initial_symbol" => { c.start = v.parse().ok()?; seen |= 4 }
                "production" => {
                    let (a, o) = v.split_once(':')?;
                    c.prods.push((a.parse().ok()?, nums(o)));
                }
                "tokens" => { c.toks = nums(v); seen |= 8 }
                "solver" => c.solver = Some(v.parse().ok()?),
                _ => {}
            }
        }
        if seen == 15 { Some(c) } else { None }
    }
}
