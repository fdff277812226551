mod case;
mod check;
mod gen;
mod oracle;
use case::Case;
use check::{run, Out};
use gen::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

/// Where the case being run is noted, so that a crash or a hang can be attributed.
struct Cur { f: std::fs::File, n: u64, last: usize }
impl Cur {
    fn note(&mut self, c: &Case) {
        self.n += 1;
        let t = format!("# {}\n{}", self.n, c.to_text());
        let l = t.len();
        let mut b = t.into_bytes();
        if l < self.last { b.resize(self.last, b'\n'); }
        self.last = l;
        self.f.write_all_at(&b, 0).unwrap();
    }
}
fn bad(c: &Case, times: usize) -> Option<String> {
    for _ in 0..times { if let Out::Bad(e) = run(c) { return Some(e); } }
    None
}
fn shrink(c: &Case, deadline: Instant) -> Case {
    let mut c = c.clone();
    loop {
        let mut again = false;
        let mut alts: Vec<Case> = vec![];
        for i in 0..c.prods.len() { let mut d = c.clone(); d.prods.remove(i); alts.push(d); }
        for i in 0..c.toks.len() { let mut d = c.clone(); d.toks.remove(i); alts.push(d); }
        for i in 0..c.prods.len() { if c.prods[i].1.len() > 1 { for j in 0..c.prods[i].1.len() { let mut d = c.clone(); d.prods[i].1.remove(j); alts.push(d); } } }
        if c.solver.is_some() && c.prop != "C10" { let mut d = c.clone(); d.solver = None; alts.push(d); }
        for d in alts {
            if Instant::now() > deadline { return c; }
            if bad(&d, 12).is_some() { c = d; again = true; break; }
        }
        if !again { return c; }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let c = Case::from_text(&std::fs::read_to_string(&a[2]).unwrap()).expect("not a case file");
            let times = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(200);
            match bad(&c, times) {
                Some(e) => { println!("FAIL property={} {}", c.prop, e); std::process::exit(1) }
                None => { println!("held ({} runs)", times) }
            }
        }
        // search PROP SEED WORKER WORKERS BUDGET_S CURFILE OUTFILE
        Some("search") => {
            let (prop, seed, w, ws, budget) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<f64>().unwrap());
            let t0 = Instant::now();
            let end = t0 + Duration::from_secs_f64(budget);
            let mut cur = Cur { f: std::fs::File::create(&a[7]).unwrap(), n: 0, last: 0 };
            let (mut evals, mut held, mut tiny_done) = (0u64, 0u64, false);
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut fail: Option<(Case, String)> = None;
            let mut one = |c: &Case, cur: &mut Cur| -> bool {
                cur.note(c);
                evals += 1;
                match run(c) {
                    Out::Skip => false,
                    Out::Held => {
                        held += 1;
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        c.to_text().hash(&mut h);
                        if distinct.len() < 3_000_000 { distinct.insert(h.finish()); }
                        if samples.len() < 3 && held % 997 == 1 { samples.push(c.to_text()); }
                        false
                    }
                    Out::Bad(e) => { fail = Some((c.clone(), e)); true }
                }
            };
            // phase 1: the exhaustive universe, at most 60% of the time
            let tiny = Tiny::new(if needs_tokens(prop) { 2 } else { 3 });
            let tk = if needs_tokens(prop) { Tiny::tokens(3) } else { vec![vec![]] };
            let stop1 = t0 + Duration::from_secs_f64(budget * 0.6);
            let mut i = w;
            let mut found = false;
            'a: loop {
                if i >= tiny.total() { tiny_done = true; break; }
                let ps = tiny.get(i);
                for toks in tk.iter() {
                    let solvers: &[Option<u64>] = match prop { "C10" => &[Some(0), Some(1), Some(3), Some(4), Some(33)], "C06" | "C07" | "C09" => &[None, Some(1)], _ => &[None] };
                    for s in solvers {
                        let c = Case { prop: prop.into(), eps: EPS, start: 1, prods: ps.clone(), toks: toks.clone(), solver: *s };
                        if one(&c, &mut cur) { found = true; break 'a; }
                    }
                }
                i += ws;
                if Instant::now() > stop1 { break; }
            }
            // phase 2: random
            let mut r = Rng(seed.wrapping_mul(0x1000193).wrapping_add(w.wrapping_mul(0x9E3779B97F4A7C15)));
            let mut j = 0u64;
            while !found && next_held(&mut one, &mut cur, &mut r, prop, &mut j) {
                if Instant::now() > end { break; }
            }
            drop(one);
            let code = match &fail {
                None => 0,
                Some((c, e)) => {
                    let s = shrink(c, Instant::now() + Duration::from_secs(10));
                    let e2 = bad(&s, 50).unwrap_or(e.clone());
                    let s = if bad(&s, 50).is_some() { s } else { c.clone() };
                    std::fs::write(&a[8], format!("# {}\n{}", e2.replace('\n', " "), s.to_text())).unwrap();
                    1
                }
            };
            println!("{{\"evaluations\":{},\"held\":{},\"distinct\":{},\"tiny_complete\":{},\"samples\":{:?}}}", evals, held, distinct.len(), tiny_done, samples);
            std::io::stdout().flush().unwrap();
            std::process::exit(code);
        }
        // observe SEED N FILE: what the real crate does on N cases, written as "case, blank line, observation, blank line"
        Some("observe") => {
            let (seed, n) = (a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
            let mut r = Rng(seed ^ 0xABCDEF);
            let tiny = Tiny::new(2);
            let tk = Tiny::tokens(3);
            for i in 0..n {
                let c = if i % 4 == 0 {
                    let k = r.next() % tiny.total();
                    Case { prop: "C10".into(), eps: EPS, start: 1, prods: tiny.get(k), toks: tk[r.n(tk.len())].clone(), solver: Some(r.next() % 4096) }
                } else { random_case(&mut r, if i % 16 == 1 { "C02" } else if i % 8 == 2 { "C04" } else { "C10" }) };
                let parse = check::parseable(&c);
                writeln!(f, "{}parse={}\n\n{}\n", c.to_text(), parse as u8, check::observe(&c, parse)).unwrap();
            }
        }
        Some("observe-case") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let t = t.trim_end();
            let c = Case::from_text(t).expect("not a case file");
            std::fs::write(&a[3], format!("{}\n\n{}\n\n", t, check::observe(&c, t.contains("parse=1")))).unwrap();
        }
        _ => { eprintln!("usage: harness search|replay|observe"); std::process::exit(2) }
    }
}
/// runs one random case; true while nothing failed
fn next_held(one: &mut dyn FnMut(&Case, &mut Cur) -> bool, cur: &mut Cur, r: &mut Rng, prop: &str, j: &mut u64) -> bool {
    *j += 1;
    let c = random_case(r, prop);
    !one(&c, cur)
}
