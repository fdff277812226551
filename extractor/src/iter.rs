//! Iterator chains: recognised syntactically, emitted as plain loops over one stub iterator.
use crate::pre::*;
use crate::xf::*;
use syn::*;

#[derive(Clone)]
pub enum Op { Map(Expr), Filter(Expr), FilterMap(Expr), FlatMap(Expr), Enumerate, Deref, Take(Expr), Skip(Expr), TakeWhile(Expr), SkipWhile(Expr) }
#[derive(Clone)]
pub enum Src {
    /// `E.iter()`, `E.into_iter()`, `E.keys()`, ...
    Method(Expr, String),
    /// an iterator variable, consumed in place
    Var(Ident),
    /// anything `for` accepts
    Into(Expr),
    Range(Expr, Expr, bool),
    Cat(Box<Chain>, Box<Chain>),
}
#[derive(Clone)]
pub struct Chain { pub src: Src, pub ops: Vec<Op>, pub cells: bool }

pub fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e }
}
pub fn ident_of(e: &Expr) -> Option<Ident> {
    match strip(e) { Expr::Path(p) if p.qself.is_none() => p.path.get_ident().cloned(), _ => None }
}

impl<'w> Xf<'w> {
    pub fn chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip(e) {
            Expr::Reference(r) if r.mutability.is_some() => {
                let c = self.chain(&r.expr)?;
                Some(c)
            }
            Expr::Path(_) => {
                let i = ident_of(e)?;
                let s = i.to_string();
                if let Some(l) = self.lazy.get(&s).cloned() { return self.chain(&l); }
                if self.env.get(&s) == Some(&Kind::Iter) { return Some(Chain { src: Src::Var(i), ops: vec![], cells: false }); }
                None
            }
            Expr::Range(r) => {
                let (a, b) = (r.start.as_deref()?, r.end.as_deref()?);
                Some(Chain { src: Src::Range(a.clone(), b.clone(), matches!(r.limits, RangeLimits::Closed(_))), ops: vec![], cells: false })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("iter" | "keys" | "values" | "into_keys" | "into_values" | "drain" | "iter_mut", 0) => {
                        let cells = self.is_cells(&m.receiver);
                        Some(Chain { src: Src::Method((*m.receiver).clone(), n), ops: vec![], cells })
                    }
                    ("into_iter", 0) => {
                        if let Some(c) = self.chain(&m.receiver) { return Some(c); }
                        let cells = self.is_cells(&m.receiver);
                        Some(Chain { src: Src::Method((*m.receiver).clone(), n), ops: vec![], cells })
                    }
                    ("by_ref", 0) => self.chain(&m.receiver),
                    ("map" | "filter" | "filter_map" | "flat_map" | "take", 1) => {
                        let mut c = self.chain(&m.receiver)?;
                        let a = m.args[0].clone();
                        c.ops.push(match n.as_str() { "map" => Op::Map(a), "filter" => Op::Filter(a), "filter_map" => Op::FilterMap(a), "take" => Op::Take(a), _ => Op::FlatMap(a) });
                        Some(c)
                    }
                    ("skip" | "take_while" | "skip_while", 1) => {
                        let mut c = self.chain(&m.receiver)?;
                        let a = m.args[0].clone();
                        c.ops.push(match n.as_str() { "skip" => Op::Skip(a), "take_while" => Op::TakeWhile(a), _ => Op::SkipWhile(a) });
                        Some(c)
                    }
                    ("rev", 0) => {
                        let mut c = self.chain(&m.receiver)?;
                        // the closures of a chain have no effects the contracts speak of, so the order in which they run does not matter
                        if !c.ops.iter().all(|o| matches!(o, Op::Map(_) | Op::Filter(_) | Op::FilterMap(_) | Op::Deref)) { self.fail("rev after a positional adapter"); return None; }
                        match &mut c.src { Src::Method(_, n) if n == "iter" || n == "into_iter" => { n.push_str("_rev"); } _ => { self.fail("rev of this iterator"); return None; } }
                        Some(c)
                    }
                    ("enumerate", 0) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Enumerate); Some(c) }
                    ("cloned" | "copied", 0) => { let mut c = self.chain(&m.receiver)?; c.ops.push(Op::Deref); Some(c) }
                    ("union" | "intersection" | "difference", 1) => {
                        let i = Ident::new(&format!("v_{}", n), m.method.span());
                        let (r, a) = (&m.receiver, &m.args[0]);
                        Some(Chain { src: Src::Into(parse_quote!(#r.#i(#a))), ops: vec![], cells: false })
                    }
                    ("chain", 1) => {
                        let a = self.chain(&m.receiver)?;
                        let b = match self.chain(&m.args[0]) { Some(b) => b, None => Chain { src: Src::Into(m.args[0].clone()), ops: vec![], cells: false } };
                        Some(Chain { src: Src::Cat(Box::new(a), Box::new(b)), ops: vec![], cells: false })
                    }
                    _ => {
                        if let Some((raw, ret)) = self.inlinable(e) {
                            if ret.as_ref().map_or(false, iterish) { return self.chain_of_block(raw); }
                        }
                        None
                    }
                }
            }
            Expr::Call(_) => {
                let (raw, ret) = self.inlinable(e)?;
                if ret.as_ref().map_or(false, iterish) { self.chain_of_block(raw) } else { None }
            }
            Expr::Block(b) if b.block.stmts.len() == 1 => self.chain_of_block(Expr::Block(b.clone())),
            _ => None,
        }
    }
    fn chain_of_block(&mut self, raw: Expr) -> Option<Chain> {
        match strip(&raw) {
            Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => self.chain(e),
                _ => None,
            },
            Expr::Block(_) => { self.fail("an iterator-returning helper with statements"); None }
            e => { let e = e.clone(); self.chain(&e) }
        }
    }
    /// apply a closure (or function path) to an item, raw
    pub fn apply(&mut self, f: &Expr, item: Expr) -> Expr {
        match strip(f) {
            Expr::Closure(c) => self.apply_closure(c, vec![item]),
            Expr::Path(_) => {
                let mut name = String::new();
                if let Some(i) = ident_of(f) {
                    if let Some(c) = self.closures.get(&i.to_string()).cloned() { return self.apply_closure(&c, vec![item]); }
                }
                if let Expr::Path(p) = strip(f) { name = last(&p.path); }
                if name == "clone" { return parse_quote!((#item).clone()); }
                parse_quote!(#f(#item))
            }
            _ => { self.fail("a function value that is neither a closure nor a path"); item }
        }
    }
    pub fn apply_closure(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        if contains_return(&c.body) { self.fail("return inside a closure"); }
        let mut c = c.clone();
        self.freshen_closure(&mut c);
        let mut body = (*c.body).clone();
        let mut lets: Vec<Stmt> = vec![];
        if c.inputs.len() != args.len() { self.fail("closure arity"); }
        for (p, a) in c.inputs.iter().zip(args) {
            let (p, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
            let sub = match &p { Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => substitutable(&a).then(|| i.ident.to_string()), _ => None };
            match sub {
                Some(n) => { subst(&mut body, &n, &a); }
                None => {
                    let ty2 = ty;
                    lets.push(match ty2 { Some(t) => parse_quote!(let #p: #t = #a;), None => parse_quote!(let #p = #a;) });
                }
            }
        }
        if lets.is_empty() { return body; }
        match body {
            Expr::Block(b) if b.label.is_none() => { let s = b.block.stmts; parse_quote!({ #(#lets)* #(#s)* }) }
            b => parse_quote!({ #(#lets)* #b }),
        }
    }
    /// the loop(s) for a chain; `sink` turns the (transformed) item expression into statements
    pub fn emit(&mut self, c: &Chain, label: Option<&Label>, sink: &mut dyn FnMut(&mut Xf<'w>, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        self.emit_ops(c, &[], label, sink)
    }
    fn emit_ops(&mut self, c: &Chain, extra: &[Op], label: Option<&Label>, sink: &mut dyn FnMut(&mut Xf<'w>, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let ops: Vec<Op> = c.ops.iter().chain(extra).cloned().collect();
        if ops.iter().any(|o| matches!(o, Op::Take(_) | Op::TakeWhile(_))) {
            // these leave the loop, which has to be the only one; and a named iterator would have to be left where it was
            if matches!(c.src, Src::Cat(..) | Src::Var(_)) || ops.iter().any(|o| matches!(o, Op::FlatMap(_))) { self.fail("take over more than one loop"); }
        }
        if ops.iter().any(|o| matches!(o, Op::Skip(_) | Op::SkipWhile(_))) && (matches!(c.src, Src::Cat(..)) || ops.iter().any(|o| matches!(o, Op::FlatMap(_)))) { self.fail("skip over more than one loop"); }
        if let Src::Cat(a, b) = &c.src {
            let mut s = self.emit_ops(a, &ops, label, sink);
            s.extend(self.emit_ops(b, &ops, label, sink));
            return s;
        }
        let k = self.loops;
        self.loops += 1;
        // a loop over part of the items only is not the loop a contract was written for
        let part = if ops.iter().any(|o| matches!(o, Op::Take(_) | Op::Skip(_) | Op::TakeWhile(_) | Op::SkipWhile(_))) { "+part" } else { "" };
        let cells = c.cells;
        let x = self.id("x", k);
        let mut pre: Vec<Stmt> = vec![];
        let head: (Stmt, Expr); // (binding of the iterator), (next)
        match &c.src {
            Src::Range(a, b, closed) => {
                self.kinds.push(format!("range{}", part));
                let (i, e) = (self.id("i", k), self.id("end", k));
                let (a, b) = (self.expr(a.clone()), self.expr(b.clone()));
                pre.push(parse_quote!(let mut #i = #a;));
                pre.push(if *closed { parse_quote!(let #e = #b + 1;) } else { parse_quote!(let #e = #b;) });
                let (more, body) = self.body(&ops, x.clone(), cells, sink, &mut pre);
                let mk = self.mark("inv", k, &[i.clone(), x.clone()]);
                let (bs, be, be4, aft) = (self.mark("bs", k, &[i.clone(), x.clone()]), self.mark("be", k, &[i.clone(), x.clone()]), self.mark("before", k, &[i.clone()]), self.mark("after", k, &[i.clone()]));
                pre.extend(more);
                pre.push(be4);
                pre.push(Stmt::Expr(parse_quote!(#label loop { #mk if #i < #e { let #x = #i; #i = #i + 1; #bs #(#body)* #be } else { break; } }), None));
                pre.push(aft);
                return pre;
            }
            Src::Var(v) => {
                self.kinds.push(format!("var{}", part));
                let v2 = self.renamed(v);
                head = (parse_quote!(let _ = ();), parse_quote!(#v2.next()));
                let (more, body) = self.body(&ops, x.clone(), cells, sink, &mut pre);
                return self.finish(k, v2, x, pre, more, body, None, head.1, label);
            }
            Src::Method(r, n) => {
                self.kinds.push(format!("{}{}", n, if matches!(strip(r), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) { "+part" } else { part }));
                let it = self.id("it", k);
                let make: Expr = match strip(r) {
                    Expr::Index(i) if n.starts_with("iter") && matches!(strip(&i.index), Expr::Range(_)) => {
                        let Expr::Range(g) = strip(&i.index).clone() else { unreachable!() };
                        if n != "iter" { self.fail("slicing"); }
                        let b = self.receiver((*i.expr).clone());
                        let lo: Expr = match g.start { Some(x) => self.expr(*x), None => parse_quote!(0) };
                        match (g.end, g.limits) {
                            (None, _) => parse_quote!(#b.v_iter_from(#lo)),
                            (Some(x), RangeLimits::HalfOpen(_)) => { let hi = self.expr(*x); parse_quote!(#b.v_iter_range(#lo, #hi)) }
                            (Some(x), _) => { let hi = self.expr(*x); parse_quote!(#b.v_iter_range(#lo, #hi + 1)) }
                        }
                    }
                    _ => {
                        let r2 = self.receiver(r.clone());
                        let m = Ident::new(&format!("v_{}", n), proc_macro2::Span::call_site());
                        parse_quote!(#r2.#m())
                    }
                };
                head = (parse_quote!(let mut #it = #make;), parse_quote!(#it.next()));
                let (more, body) = self.body(&ops, x.clone(), cells, sink, &mut pre);
                return self.finish(k, it, x, pre, more, body, Some(head.0), head.1, label);
            }
            Src::Into(r) => {
                self.kinds.push(format!("into{}", part));
                let it = self.id("it", k);
                let r2 = self.expr(r.clone());
                head = (parse_quote!(let mut #it = (#r2).v_into_iter();), parse_quote!(#it.next()));
                let (more, body) = self.body(&ops, x.clone(), cells, sink, &mut pre);
                return self.finish(k, it, x, pre, more, body, Some(head.0), head.1, label);
            }
            Src::Cat(..) => unreachable!(),
        }
    }
    fn finish(&mut self, k: usize, it: Ident, x: Ident, mut pre: Vec<Stmt>, more: Vec<Stmt>, body: Vec<Stmt>, bind: Option<Stmt>, next: Expr, label: Option<&Label>) -> Vec<Stmt> {
        let a = [it.clone(), x.clone()];
        let (inv, bs, be, bf, af) = (self.mark("inv", k, &a), self.mark("bs", k, &a), self.mark("be", k, &a), self.mark("before", k, &a), self.mark("after", k, &a));
        let none = self.mark("none", k, &a);
        pre.extend(more);
        pre.extend(bind);
        pre.push(bf);
        pre.push(Stmt::Expr(parse_quote!(#label loop { #inv match #next { None => { #none break; } Some(#x) => { #bs #(#body)* #be } } }), None));
        pre.push(af);
        pre
    }
    /// body of the loop after binding the item; also statements to run before the loop
    fn body(&mut self, ops: &[Op], x: Ident, cells: bool, sink: &mut dyn FnMut(&mut Xf<'w>, Expr) -> Vec<Stmt>, _pre: &mut Vec<Stmt>) -> (Vec<Stmt>, Vec<Stmt>) {
        let mut more = vec![];
        let e: Expr = parse_quote!(#x);
        if cells { self.cell_items.insert(x.to_string()); }
        let b = self.ops(ops, e, sink, &mut more);
        (more, b)
    }
    fn ops(&mut self, ops: &[Op], item: Expr, sink: &mut dyn FnMut(&mut Xf<'w>, Expr) -> Vec<Stmt>, more: &mut Vec<Stmt>) -> Vec<Stmt> {
        let Some(op) = ops.first() else { return sink(self, item) };
        let rest = &ops[1..];
        let k = self.fresh();
        let y = self.id("y", k);
        let mut out: Vec<Stmt> = vec![];
        match op {
            Op::Map(f) => {
                let e = self.apply(f, item);
                let exp = if rest.is_empty() { self.item_exp.take() } else { None };
                let e = self.expr_exp(e, exp);
                out.push(parse_quote!(let #y = #e;));
                out.extend(self.ops(rest, parse_quote!(#y), sink, more));
            }
            Op::Deref => {
                out.push(parse_quote!(let #y = (#item).vclone();));
                out.extend(self.ops(rest, parse_quote!(#y), sink, more));
            }
            Op::Filter(f) => {
                let e = self.apply(f, parse_quote!(&#item));
                let e = self.expr(e);
                let r = self.ops(rest, item, sink, more);
                out.push(Stmt::Expr(parse_quote!(if #e { #(#r)* }), None));
            }
            Op::FilterMap(f) => {
                let e = self.apply(f, item);
                let e = self.expr(e);
                let r = self.ops(rest, parse_quote!(#y), sink, more);
                out.push(Stmt::Expr(parse_quote!(match #e { Some(#y) => { #(#r)* } None => {} }), None));
            }
            Op::FlatMap(f) => {
                let e = self.apply(f, item);
                let e = match e { Expr::Block(b) if b.block.stmts.len() > 1 => {
                    let mut b = b;
                    let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() else { self.fail("flat_map closure without a value"); return out };
                    let s = self.stmts(b.block.stmts, None);
                    out.extend(s);
                    t
                } e => e };
                let c = match self.chain(&e) { Some(c) => c, None => Chain { src: Src::Into(e), ops: vec![], cells: false } };
                let rest: Vec<Op> = rest.to_vec();
                let late = if rest.is_empty() { None } else { self.item_exp.take() };
                let s = self.emit(&c, None, &mut |s, y| { let mut m = vec![]; if late.is_some() { s.item_exp = late.clone(); } let r = s.ops(&rest, y, &mut *sink, &mut m); if !m.is_empty() { s.fail("enumerate after flat_map"); } r });
                out.extend(s);
            }
            Op::Enumerate => {
                let i = self.id("n", k);
                more.push(parse_quote!(let mut #i: usize = 0;));
                out.push(parse_quote!(let #y = (#i, #item);));
                out.push(parse_quote!(#i = v_inc(#i);));
                out.extend(self.ops(rest, parse_quote!(#y), sink, more));
            }
            Op::Take(n) | Op::Skip(n) => {
                let (i, l) = (self.id("n", k), self.id("l", k));
                let n = self.expr(n.clone());
                more.push(parse_quote!(let mut #i: usize = 0;));
                more.push(parse_quote!(let #l: usize = #n;));
                let r = self.ops(rest, item, sink, more);
                if matches!(op, Op::Take(_)) {
                    out.push(Stmt::Expr(parse_quote!(if #i >= #l { break; }), None));
                    out.push(parse_quote!(#i = v_inc(#i);));
                    out.extend(r);
                } else {
                    out.push(Stmt::Expr(parse_quote!(if #i < #l { #i = v_inc(#i); } else { #(#r)* }), None));
                }
            }
            Op::TakeWhile(f) => {
                let e = self.apply(f, parse_quote!(&#item));
                let e = self.expr(e);
                out.push(Stmt::Expr(parse_quote!(if !(#e) { break; }), None));
                out.extend(self.ops(rest, item, sink, more));
            }
            Op::SkipWhile(f) => {
                let s = self.id("s", k);
                more.push(parse_quote!(let mut #s: bool = true;));
                let e = self.apply(f, parse_quote!(&#item));
                let e = self.expr(e);
                out.push(Stmt::Expr(parse_quote!(if #s && !(#e) { #s = false; }), None));
                let r = self.ops(rest, item, sink, more);
                out.push(Stmt::Expr(parse_quote!(if !#s { #(#r)* }), None));
            }
        }
        out
    }
}
