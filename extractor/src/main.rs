//! Mechanical extraction of the crate's functions into the subset of Rust that Verus accepts.
//!
//! usage: extractor SRC_DIR SPEC_FILE
//! SPEC_FILE lines:
//!   fn KEY                 a function that keeps its identity (it has a contract); all others are inlined
//!   sig KEY                the same, but its body is proved elsewhere: only the signature is wanted
//!   after KEY CALLEE       wrap calls of CALLEE in KEY so that ghost code can follow them
//!   ghost CALLEE           calls of CALLEE carry a trailing ghost-argument marker
//!   trait NAME             emit that trait
//! Output on stdout: sections "=== types", "=== fn KEY loops=N locals=a,b,c params=..", "=== error KEY message".
mod alpha;
mod iter;
mod pre;
mod world;
mod xf;
use quote::ToTokens;
use std::collections::HashSet;

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spec = std::fs::read_to_string(&a[2]).unwrap();
    let mut contracted = vec![];
    let mut sigs = HashSet::new();
    let mut after = HashSet::new();
    let mut ghost = HashSet::new();
    let mut traits = HashSet::new();
    for l in spec.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() {
            ["fn", k] => contracted.push(k.to_string()),
            ["sig", k] => { contracted.push(k.to_string()); sigs.insert(k.to_string()); }
            ["after", k, c] => { after.insert((k.to_string(), c.to_string())); }
            ["ghost", c] => { ghost.insert(c.to_string()); }
            ["trait", c] => { traits.insert(c.to_string()); }
            _ => {}
        }
    }
    let w = match world::World::load(&a[1]) {
        Ok(w) => w,
        Err(e) => { println!("=== error * {}", e); return; }
    };
    println!("=== types");
    println!("{}", w.types(&traits));
    let set: HashSet<String> = contracted.iter().cloned().collect();
    for k in &contracted {
        let Some(f) = w.fns.get(k) else { println!("=== missing {}", k); continue };
        match xf::transform(&w, f, &set, &after, &ghost, sigs.contains(k)) {
            Ok(o) => {
                println!("=== fn {} loops={} kinds={} params={} locals={} rets={}", k, o.loops, o.kinds.join(","), o.params.join(","), o.locals.join(","), o.rets);
                println!("{}", o.text);
            }
            Err(e) => println!("=== error {} {}", k, e.replace('\n', " ")),
        }
    }
}
