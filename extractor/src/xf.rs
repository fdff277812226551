//! The function-body transformer.
use crate::iter::*;
use crate::pre::*;
use crate::world::*;
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { CellMap, Guard, Iter }

pub struct Out { pub text: String, pub loops: usize, pub kinds: Vec<String>, pub params: Vec<String>, pub locals: Vec<String>, pub rets: usize }

pub struct Xf<'w> {
    pub w: &'w World,
    me: &'w FnInfo,
    contracted: &'w HashSet<String>,
    after: &'w HashSet<(String, String)>,
    ghost: &'w HashSet<String>,
    n: usize,
    pub loops: usize,
    pub kinds: Vec<String>,
    pub env: HashMap<String, Kind>,
    pub lazy: HashMap<String, Expr>,
    pub closures: HashMap<String, ExprClosure>,
    cells: HashMap<String, (Expr, Expr)>,
    pub cell_items: HashSet<String>,
    cell_vals: HashSet<String>,
    err: Option<String>,
    depth: usize,
    calls: HashMap<String, usize>,
    rets: usize,
    ret_ty: Option<Type>,
    pub item_exp: Option<Type>,
}

pub fn contains_return(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut f = F(false);
    f.visit_expr(e);
    f.0
}
fn stmt_returns(s: &Stmt) -> bool { let b = parse_quote!({ #s }); contains_return(&b) }
/// does a break/continue leave these statements?
fn escapes(s: &[Stmt]) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    }
    let mut f = F(false);
    for x in s { f.visit_stmt(x); }
    f.0 || s.iter().any(stmt_returns)
}
pub fn substitutable(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Closure(_) => true,
        Expr::Reference(r) => matches!(strip(&r.expr), Expr::Path(_)) || matches!(strip(&r.expr), Expr::Field(f) if matches!(strip(&f.base), Expr::Path(_))),
        Expr::Lit(_) => true,
        _ => false,
    }
}
pub fn subst(e: &mut Expr, name: &str, by: &Expr) {
    struct S<'a>(&'a str, &'a Expr);
    impl<'a> VisitMut for S<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if ident_of(e).map_or(false, |i| i == self.0) { *e = self.1.clone(); return; }
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::MethodCall(m) => if let Expr::Reference(r) = strip(&m.receiver).clone() { m.receiver = r.expr; },
                Expr::Field(m) => if let Expr::Reference(r) = strip(&m.base).clone() { m.base = r.expr; },
                Expr::Unary(u) => if let (UnOp::Deref(_), Expr::Reference(r)) = (&u.op, strip(&u.expr).clone()) { *e = *r.expr; },
                _ => {}
            }
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
            visit_mut::visit_field_value_mut(self, f);
        }
    }
    S(name, by).visit_expr_mut(e);
}
struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.starts_with(|c: char| c.is_lowercase() || c == '_') && !self.0.contains(&s) { self.0.push(s); }
        visit::visit_pat_ident(self, p);
    }
}
struct Rename<'a>(&'a HashMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() { if let Some(n) = self.0.get(&i.to_string()) { let id = Ident::new(n, i.span()); p.path = id.into(); } }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
/// `return` in a helper body becomes structured control flow, so that the body can be inlined
fn elim_returns(b: Vec<Stmt>) -> std::result::Result<Vec<Stmt>, String> {
    let Some(i) = b.iter().position(stmt_returns) else { return Ok(b) };
    let mut out: Vec<Stmt> = b[..i].to_vec();
    let rest: Vec<Stmt> = b[i + 1..].to_vec();
    let with = |blk: Vec<Stmt>| -> std::result::Result<Vec<Stmt>, String> {
        let mut v = blk;
        let ends = matches!(v.last(), Some(Stmt::Expr(Expr::Return(_), _)));
        if !ends {
            if let Some(Stmt::Expr(_, semi)) = v.last_mut() { if semi.is_none() && !rest.is_empty() { *semi = Some(Default::default()); } }
            v.extend(rest.clone());
        }
        elim_returns(v)
    };
    let (e, semi) = match &b[i] { Stmt::Expr(e, s) => (e.clone(), s.is_some()), _ => return Err("return in a helper's let".into()) };
    let _ = semi;
    match e {
        Expr::Return(r) => {
            out.push(Stmt::Expr(match r.expr { Some(e) => *e, None => parse_quote!(()) }, None));
            Ok(out)
        }
        Expr::If(mut f) => {
            f.then_branch.stmts = with(f.then_branch.stmts)?;
            let els = match f.else_branch.take() { None => vec![], Some((_, e)) => match *e { Expr::Block(b) => b.block.stmts, e => vec![Stmt::Expr(e, None)] } };
            let els = with(els)?;
            f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#els)* }))));
            out.push(Stmt::Expr(Expr::If(f), None));
            Ok(out)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let body = match (*a.body).clone() { Expr::Block(b) => b.block.stmts, e => vec![Stmt::Expr(e, None)] };
                let s = with(body)?;
                a.body = Box::new(parse_quote!({ #(#s)* }));
                a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
            Ok(out)
        }
        Expr::Block(b) => { out.extend(with(b.block.stmts)?); Ok(out) }
        _ => Err("return inside a loop of a helper".into()),
    }
}

pub fn transform<'w>(w: &'w World, f: &'w FnInfo, contracted: &'w HashSet<String>, after: &'w HashSet<(String, String)>, ghost: &'w HashSet<String>, sig_only: bool) -> std::result::Result<Out, String> {
    let mut x = Xf {
        w, me: f, contracted, after, ghost, n: 0, loops: 0, kinds: vec![], env: HashMap::new(), lazy: HashMap::new(), closures: HashMap::new(),
        cells: HashMap::new(), cell_items: HashSet::new(), cell_vals: HashSet::new(), err: None, depth: 0, calls: HashMap::new(), rets: 0, ret_ty: None, item_exp: None,
    };
    let mut sig = f.sig.clone();
    let traits: HashSet<String> = w.traits.keys().cloned().collect();
    // iterator type parameters become the stub iterator
    let mut iters: Vec<(String, Type)> = vec![];
    let mut all = sig.generics.clone();
    if let Some(wh) = all.where_clause.take() { for p in wh.predicates { if let WherePredicate::Type(t) = p { let n = crate::toks(&t.bounded_ty); for tp in all.type_params_mut() { if tp.ident == n.as_str() { tp.bounds.extend(t.bounds.clone()); } } } } }
    for tp in all.type_params() {
        for b in &tp.bounds {
            if let TypeParamBound::Trait(t) = b { if last(&t.path) == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments {
                    for g in &a.args { if let GenericArgument::AssocType(at) = g { iters.push((tp.ident.to_string(), at.ty.clone())); } }
                }
            } else if last(&t.path).starts_with("Fn") { return Err("a contracted function with a closure parameter".into()); } }
        }
    }
    struct It<'a>(&'a [(String, Type)]);
    impl<'a> VisitMut for It<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() { for (n, x) in self.0 { if i == n { *t = parse_quote!(VIt<#x>); return; } } } }
            visit_mut::visit_type_mut(self, t);
        }
    }
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            let mut nt: Option<Type> = None;
            if let Type::ImplTrait(i) = &*t.ty {
                for b in &i.bounds { if let TypeParamBound::Trait(tb) = b { if last(&tb.path) == "Iterator" { if let PathArguments::AngleBracketed(ab) = &tb.path.segments.last().unwrap().arguments { for g in &ab.args { if let GenericArgument::AssocType(at) = g { let x = &at.ty; nt = Some(parse_quote!(VIt<#x>)); } } } } } }
            }
            if let Some(nt) = nt { *t.ty = nt; }
        }
    }
    let kept: Vec<GenericParam> = sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if iters.iter().any(|i| t.ident == i.0.as_str()))).cloned().collect();
    sig.generics.params = kept.into_iter().collect();
    It(&iters).visit_signature_mut(&mut sig);
    let mut block = if sig_only { parse_quote!({}) } else { f.block.clone() };
    It(&iters).visit_block_mut(&mut block);
    bounds(&mut sig.generics, &traits, false);
    sig.generics.where_clause = None;
    let mut params = vec![];
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                let n = i.ident.to_string();
                params.push(n.clone());
                let by_value = matches!(&*t.ty, Type::Path(p) if last(&p.path) == "VIt");
                if is_cell_map(&t.ty) { x.env.insert(n.clone(), Kind::CellMap); }
                if iterish(&t.ty) && !mentions(&t.ty, "Option") { x.env.insert(n.clone(), Kind::Iter); }
                if matches!(&*t.ty, Type::Path(p) if last(&p.path) == "RefMut") { return Err("a guard passed by value".into()); }
                if mentions(&t.ty, "dyn") { return Err("dyn parameter".into()); }
                if by_value { if let Pat::Ident(i) = &mut *t.pat { i.mutability = Some(Default::default()); } }
            } else { params.push("_".into()); }
        }
    }
    let mut b = Bound(vec![]);
    b.visit_block(&block);
    let locals = b.0;
    let ret: Option<Type> = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
    x.ret_ty = ret.clone();
    let body = x.stmts(block.stmts, ret.clone());
    if let Some(e) = x.err { return Err(e); }
    Types.visit_signature_mut(&mut sig);
    if sig.ident == "clone" { sig.ident = parse_quote!(vclone); }
    if sig.ident == "eq" { sig.ident = parse_quote!(veq); }
    if sig.ident == "ne" { sig.ident = parse_quote!(vne); }
    let rt: Type = match &sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
    sig.output = parse_quote!(-> RET<#rt>);
    let key = &f.key;
    let text = if f.in_trait {
        crate::toks(&quote::quote!(#sig { __sig!(#key); }))
    } else {
        let mut g = f.impl_generics.clone();
        bounds(&mut g, &traits, false);
        let ff = quote::quote!(pub #sig { __sig!(#key); __entry!(#key); #(#body)* });
        match &f.owner {
            Some(_) => { let o: proc_macro2::TokenStream = f.owner_args.parse().unwrap(); crate::toks(&quote::quote!(impl #g #o { #ff })) }
            None => crate::toks(&ff),
        }
    };
    Ok(Out { text, loops: x.loops, kinds: x.kinds, params, locals, rets: x.rets })
}

impl<'w> Xf<'w> {
    pub fn fail(&mut self, m: &str) { if self.err.is_none() { self.err = Some(m.to_string()); } }
    pub fn fresh(&mut self) -> usize { self.n += 1; self.n }
    pub fn id(&self, p: &str, k: usize) -> Ident { Ident::new(&format!("{}__{}", p, k), proc_macro2::Span::call_site()) }
    pub fn renamed(&self, v: &Ident) -> Ident { v.clone() }
    pub fn mark(&self, what: &str, k: usize, ids: &[Ident]) -> Stmt {
        let m = Ident::new(&format!("__{}", what), proc_macro2::Span::call_site());
        let k = k.to_string();
        parse_quote!(#m!(#k, #(#ids),*);)
    }
    pub fn is_cells(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Reference(r) => self.is_cells(&r.expr),
            e => ident_of(e).map_or(false, |i| self.env.get(&i.to_string()) == Some(&Kind::CellMap)),
        }
    }
    pub fn freshen_closure(&mut self, c: &mut ExprClosure) {
        let mut b = Bound(vec![]);
        b.visit_expr_closure(c);
        let k = self.fresh();
        let m: HashMap<String, String> = b.0.into_iter().filter(|n| n != "_").map(|n| { let v = format!("{}__{}", n, k); (n, v) }).collect();
        Rename(&m).visit_expr_closure_mut(c);
    }

    // ------------------------------------------------------------------ statements
    pub fn block(&mut self, b: Block, exp: Option<Type>) -> Block {
        let s = self.stmts(b.stmts, exp);
        Block { brace_token: Default::default(), stmts: s }
    }
    pub fn stmts(&mut self, mut stmts: Vec<Stmt>, exp: Option<Type>) -> Vec<Stmt> {
        // the type of a collection that is built up and returned, written down: ghost code before the first use of it needs to know
        if let (Some(Stmt::Expr(Expr::Path(p), None)), Some(t)) = (stmts.last(), &exp) {
            if let (Some(n), true) = (p.path.get_ident().cloned(), self.collect_kind(t).is_some() && !is_cell_map(t)) {
                for s in stmts.iter_mut() {
                    if let Stmt::Local(l) = s {
                        let bare = l.init.as_ref().map_or(false, |i| match strip(&i.expr) { Expr::Call(c) => c.args.is_empty(), Expr::Macro(m) => m.mac.path.is_ident("vec") && m.mac.tokens.is_empty(), _ => false });
                        let bare = bare || l.init.as_ref().map_or(false, |i| matches!(strip(&i.expr), Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none()));
                        if bare && matches!(&l.pat, Pat::Ident(i) if i.ident == n) {
                            let pat = l.pat.clone();
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(pat), colon_token: Default::default(), ty: Box::new(t.clone()) });
                        }
                    }
                }
            }
        }
        let mut out = vec![];
        let mut i = 0;
        while i < stmts.len() {
            if let Some(lets) = self.hoist(&mut stmts[i]) {
                let n = lets.len();
                for (j, l) in lets.into_iter().enumerate() { stmts.insert(i + j, l); }
                if n > 0 { continue; }
            }
            let is_last = i + 1 == stmts.len();
            match stmts[i].clone() {
                Stmt::Local(l) => {
                    let (pat, ty) = match l.pat.clone() { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p, None) };
                    let Some(init) = l.init.clone() else {
                        let mut l2 = l.clone();
                        self.types_local(&mut l2);
                        out.push(Stmt::Local(l2));
                        i += 1;
                        continue;
                    };
                    let name = if let Pat::Ident(p) = &pat { Some(p.ident.to_string()) } else { None };
                    // another name for the map of cells
                    if let (Some(n), Expr::Reference(r)) = (&name, strip(&init.expr)) {
                        if let (true, Some(o)) = (self.is_cells(&r.expr), ident_of(&r.expr)) {
                            let mut blk: Expr = { let rest = &stmts[i + 1..]; parse_quote!({ #(#rest)* }) };
                            let mut b = Bound(vec![]);
                            b.visit_expr(&blk);
                            if !b.0.contains(n) && !b.0.contains(&o.to_string()) {
                                subst(&mut blk, n, strip(&init.expr));
                                let Expr::Block(b) = blk else { unreachable!() };
                                stmts.truncate(i + 1);
                                stmts.extend(b.block.stmts);
                                i += 1;
                                continue;
                            }
                        }
                    }
                    // a closure bound to a name
                    if let (Some(n), Expr::Closure(c)) = (&name, strip(&init.expr)) {
                        self.closures.insert(n.clone(), c.clone());
                        i += 1;
                        continue;
                    }
                    // borrow guards: take the value out of its cell, put it back when the scope ends
                    if let Some((map, key)) = self.borrow_of(&init.expr) {
                        let Some(n) = name else { self.fail("guard pattern"); return out };
                        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
                        let dropped = rest.iter().position(|s| is_drop(s, &n));
                        let (inside, afterwards) = match dropped { Some(j) => (rest[..j].to_vec(), rest[j + 1..].to_vec()), None => (rest, vec![]) };
                        if escapes(&inside) { self.fail("control leaves the scope of a borrow guard"); return out; }
                        let k = self.fresh();
                        let (kk, nid) = (self.id("key", k), Ident::new(&n, proc_macro2::Span::call_site()));
                        let key = self.expr(key);
                        let map = self.receiver(map);
                        self.env.insert(n.clone(), Kind::Guard);
                        out.push(parse_quote!(let #kk = #key;));
                        out.push(parse_quote!(let mut #nid = #map.cell_take(#kk);));
                        let mut ins = self.stmts(inside, if dropped.is_some() { None } else { exp.clone() });
                        let put: Stmt = parse_quote!(#map.cell_put(#kk, #nid););
                        let mut put_mark: Vec<Stmt> = vec![];
                        if self.after.contains(&(self.me.key.clone(), "cell_put".to_string())) {
                            let n = *self.calls.entry("cell_put".into()).and_modify(|x| *x += 1).or_insert(0);
                            let ns = n.to_string();
                            put_mark = vec![parse_quote!(__bc!("cell_put", #ns);)];
                        }
                        if dropped.is_some() {
                            out.extend(ins);
                            out.extend(put_mark);
                            out.push(put);
                            out.extend(self.stmts(afterwards, exp));
                        } else {
                            let tail = match ins.last() { Some(Stmt::Expr(e, None)) if !is_unit_like(e) => Some(e.clone()), _ => None };
                            if let Some(t) = tail {
                                ins.pop();
                                let tk = self.id("tail", k);
                                out.extend(ins);
                                out.push(parse_quote!(let #tk = #t;));
                                out.extend(put_mark);
                                out.push(put);
                                out.push(Stmt::Expr(parse_quote!(#tk), None));
                            } else {
                                out.extend(ins);
                                out.extend(put_mark);
                                out.push(put);
                            }
                        }
                        return out;
                    }
                    // a cell bound to a name, borrowed later
                    if let Some((map, key)) = self.cell_of(&init.expr) {
                        if let Some(n) = name { if substitutable(&key) { self.cells.insert(n, (map, key)); i += 1; continue; } }
                        self.fail("cell bound by a pattern");
                        return out;
                    }
                    // lazily evaluated chains are spliced in where they are consumed
                    if let Some(n) = &name {
                        if let Some(c) = self.chain(&init.expr) {
                            let plain = c.ops.is_empty() && !matches!(c.src, Src::Cat(..) | Src::Range(..));
                            if !plain { self.forget(n); self.lazy.insert(n.clone(), *init.expr.clone()); i += 1; continue; }
                            let e = self.plain_iter(&c);
                            self.forget(n);
                            self.env.insert(n.clone(), Kind::Iter);
                            let nid = Ident::new(n, proc_macro2::Span::call_site());
                            out.push(parse_quote!(let mut #nid = #e;));
                            i += 1;
                            continue;
                        }
                    }
                    let called: Option<Type> = self.resolve_call(&init.expr).and_then(|(f, _, _)| match &f.sig.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None });
                    let e = self.expr_exp(*init.expr.clone(), ty.clone());
                    let mut bound = Bound(vec![]);
                    bound.visit_pat(&pat);
                    for n in &bound.0 { self.forget(n); }
                    let mut cell_map = false;
                    if let (Some(n), Some(t)) = (&name, ty.as_ref().or(called.as_ref())) {
                        if is_cell_map(t) { self.env.insert(n.clone(), Kind::CellMap); cell_map = true; }
                    }
                    // destructured cell items
                    if let Some(src) = ident_of(&init.expr) {
                        if self.cell_items.contains(&src.to_string()) {
                            if let Pat::Tuple(t) = &pat { if let Some(Pat::Ident(p)) = t.elems.iter().nth(1) { self.cell_vals.insert(p.ident.to_string()); } }
                        }
                    }
                    let mut l2 = l.clone();
                    l2.init = Some(LocalInit { eq_token: init.eq_token, expr: Box::new(e), diverge: init.diverge.map(|(t, d)| (t, Box::new(self.expr(*d)))) });
                    if let Some(t) = &ty { if mentions(t, "RefMut") || mentions(t, "Ref") { l2.pat = pat.clone(); } }
                    self.types_local(&mut l2);
                    if cell_map { match &mut l2.pat { Pat::Ident(p) => p.mutability = Some(Default::default()), Pat::Type(t) => if let Pat::Ident(p) = &mut *t.pat { p.mutability = Some(Default::default()) }, _ => {} } }
                    out.push(Stmt::Local(l2));
                }
                Stmt::Expr(e, semi) => {
                    let e2 = self.expr_exp(e, if is_last && semi.is_none() { exp.clone() } else { None });
                    if is_last && semi.is_none() && self.wants_exit() && exp.is_some() && self.depth == 0 && self.at_top(&out) { out.push(Stmt::Expr(e2, None)); }
                    else { out.push(Stmt::Expr(e2, semi)); }
                }
                Stmt::Item(Item::Const(ItemConst { ident, expr, ty, .. })) | Stmt::Item(Item::Static(ItemStatic { ident, expr, ty, .. })) if matches!(strip(&expr), Expr::Lit(_)) => {
                    let by: Expr = parse_quote!((#expr as #ty));
                    let by = if matches!(strip(&expr), Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) { by } else { (*expr).clone() };
                    let mut blk: Expr = { let rest = &stmts[i + 1..]; parse_quote!({ #(#rest)* }) };
                    subst(&mut blk, &ident.to_string(), &by);
                    let Expr::Block(b) = blk else { unreachable!() };
                    stmts.truncate(i + 1);
                    stmts.extend(b.block.stmts);
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => self.fail("item inside a function"),
                Stmt::Macro(m) => self.fail(&format!("macro {}", crate::toks(&m.mac.path))),
            }
            i += 1;
        }
        out
    }
    /// `let x = F(G(..), &H(..));` for a contracted F: what G and H give gets a name, as if it had been bound first
    fn hoist(&mut self, s: &mut Stmt) -> Option<Vec<Stmt>> {
        let e: &mut Expr = match s {
            Stmt::Local(l) => &mut *l.init.as_mut().filter(|i| i.diverge.is_none())?.expr,
            Stmt::Expr(e, _) => match e { Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) => &mut *b.right, Expr::Assign(a) => &mut *a.right, e => e },
            _ => return None,
        };
        let (f, slf, args) = self.resolve_call(e)?;
        if !self.contracted.contains(&f.key) || f.in_trait { return None; }
        if let Some(r) = &slf { if !matches!(strip(r), Expr::Path(_) | Expr::Field(_) | Expr::Reference(_)) { return None; } }
        let tys: Vec<Type> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.ty).clone()) } else { None }).collect();
        fn bare(e: &Expr) -> &Expr { match strip(e) { Expr::Reference(r) => bare(&r.expr), e => e } }
        let named = |e: &Expr| matches!(bare(e), Expr::Call(_)) || matches!(bare(e), Expr::MethodCall(m) if !matches!(m.method.to_string().as_str(), "clone" | "len" | "unwrap" | "get" | "as_ref" | "borrow" | "borrow_mut" | "expect" | "is_some" | "is_none"));
        let simple = |e: &Expr| matches!(bare(e), Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Unary(_) | Expr::Index(_) | Expr::Binary(_));
        if !args.iter().any(|a| named(a)) || !args.iter().all(|a| (named(a) || simple(a)) && !has_block(a)) || tys.iter().any(mentions_fn) { return None; }
        let off = match strip(e) { Expr::Call(c) => c.args.len() - args.len(), _ => 0 };
        let mut lets = vec![];
        let mut new = vec![];
        for a in &args {
            if !named(a) { new.push(a.clone()); continue; }
            let k = self.fresh();
            let id = self.id("arg", k);
            match strip(a) {
                Expr::Reference(r) if r.mutability.is_some() => { let x = &r.expr; lets.push(parse_quote!(let mut #id = #x;)); new.push(parse_quote!(&mut #id)); }
                Expr::Reference(r) => { let x = &r.expr; lets.push(parse_quote!(let #id = #x;)); new.push(parse_quote!(&#id)); }
                x => { lets.push(parse_quote!(let #id = #x;)); new.push(parse_quote!(#id)); }
            }
        }
        let mut e2 = strip(e).clone();
        match &mut e2 {
            Expr::Call(c) => for (j, a) in new.into_iter().enumerate() { c.args[off + j] = a; },
            Expr::MethodCall(c) => for (j, a) in new.into_iter().enumerate() { c.args[j] = a; },
            _ => return None,
        }
        *e = e2;
        Some(lets)
    }
    fn at_top(&self, _: &[Stmt]) -> bool { false }
    fn wants_exit(&self) -> bool { false }
    fn forget(&mut self, n: &str) {
        self.env.remove(n);
        self.lazy.remove(n);
        self.closures.remove(n);
        self.cells.remove(n);
        self.cell_items.remove(n);
        self.cell_vals.remove(n);
    }
    fn types_local(&mut self, l: &mut Local) { if let Pat::Type(t) = &mut l.pat { Types.visit_type_mut(&mut t.ty); } }
    fn plain_iter(&mut self, c: &Chain) -> Expr {
        match &c.src {
            Src::Method(r, n) => { let r = self.receiver(r.clone()); let m = Ident::new(&format!("v_{}", n), proc_macro2::Span::call_site()); parse_quote!(#r.#m()) }
            Src::Var(v) => parse_quote!(#v),
            Src::Into(e) => { let e = self.expr(e.clone()); parse_quote!((#e).v_into_iter()) }
            _ => { self.fail("iterator value"); parse_quote!(()) }
        }
    }
    /// `M.get(k).unwrap()` on a map of cells
    fn cell_of(&mut self, e: &Expr) -> Option<(Expr, Expr)> {
        match strip(e) {
            Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => match strip(&m.receiver) {
                Expr::MethodCall(g) if g.method == "get" && self.is_cells(&g.receiver) => Some(((*g.receiver).clone(), g.args[0].clone())),
                _ => None,
            },
            Expr::Index(i) if self.is_cells(&i.expr) => Some(((*i.expr).clone(), (*i.index).clone())),
            Expr::Reference(r) => self.cell_of(&r.expr),
            Expr::Path(_) => { let i = ident_of(e)?; self.cells.get(&i.to_string()).cloned() }
            _ => None,
        }
    }
    /// `CELL.borrow()` / `CELL.borrow_mut()`
    fn borrow_of(&mut self, e: &Expr) -> Option<(Expr, Expr)> {
        match strip(e) {
            Expr::MethodCall(m) if m.method == "borrow" || m.method == "borrow_mut" => self.cell_of(&m.receiver),
            _ => None,
        }
    }

    // ------------------------------------------------------------------ calls
    fn resolve_call(&self, e: &Expr) -> Option<(&'w FnInfo, Option<Expr>, Vec<Expr>)> {
        match strip(e) {
            Expr::Call(c) => {
                let Expr::Path(p) = strip(&c.func) else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match segs.as_slice() {
                    [f] => f.clone(),
                    [.., o, f] => if o == "Self" { format!("{}::{}", self.me.owner.clone()?, f) } else { format!("{}::{}", o, f) },
                    _ => return None,
                };
                let f = self.w.fns.get(&key)?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut slf = None;
                if f.sig.receiver().is_some() { if args.is_empty() { return None; } slf = Some(args.remove(0)); }
                Some((f, slf, args))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let is_self = matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                if is_self {
                    let key = format!("{}::{}", self.me.owner.clone()?, n);
                    if let Some(f) = self.w.fns.get(&key) { return Some((f, Some((*m.receiver).clone()), args)); }
                    return None;
                }
                let c: Vec<&'w FnInfo> = self.w.fns.values().filter(|f| f.sig.ident == n.as_str() && f.sig.receiver().is_some() && f.sig.inputs.len() == args.len() + 1).collect();
                if matches!(n.as_str(), "clone" | "eq" | "ne" | "len" | "get" | "push" | "iter" | "insert" | "contains" | "next" | "map" | "unwrap") { return None; }
                if c.len() == 1 { Some((c[0], Some((*m.receiver).clone()), args)) } else { None }
            }
            _ => None,
        }
    }
    /// if `e` calls a crate function without a contract: its body with the arguments put in (raw), and its return type
    pub fn inlinable(&mut self, e: &Expr) -> Option<(Expr, Option<Type>)> {
        let (f, slf, args) = self.resolve_call(e)?;
        if self.contracted.contains(&f.key) || f.in_trait { return None; }
        if self.depth > 24 { self.fail(&format!("recursion through {}", f.key)); return None; }
        let mut stmts = match elim_returns(f.block.stmts.clone()) { Ok(s) => s, Err(m) => { self.fail(&format!("{}: {}", f.key, m)); return None } };
        // names of the callee's locals and parameters become fresh
        let k = self.fresh();
        let mut blk: Expr = parse_quote!({ #(#stmts)* });
        let mut bound = Bound(vec![]);
        bound.visit_expr(&blk);
        let mut ptys = vec![];
        for a in &f.sig.inputs { if let FnArg::Typed(t) = a { bound.visit_pat(&t.pat); ptys.push(((*t.pat).clone(), (*t.ty).clone())); } }
        let m: HashMap<String, String> = bound.0.iter().filter(|n| *n != "_" && *n != "self").map(|n| (n.clone(), format!("{}__{}", n, k))).collect();
        Rename(&m).visit_expr_mut(&mut blk);
        // Self and foreign generics
        let same = f.owner == self.me.owner;
        let mut gens: HashSet<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if !same { gens.extend(f.impl_generics.type_params().map(|t| t.ident.to_string())); }
        struct G<'a>(&'a HashSet<String>, Option<&'a String>, bool);
        impl<'a> VisitMut for G<'a> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t { if let Some(i) = p.path.get_ident() {
                    if self.0.contains(&i.to_string()) { *t = parse_quote!(_); return; }
                    if i == "Self" { if let Some(o) = self.1 { let o = Ident::new(o, i.span()); *t = parse_quote!(#o<_>); } }
                } }
                if let Type::Reference(r) = t { if !self.2 { r.lifetime = None; } }
                visit_mut::visit_type_mut(self, t);
            }
            fn visit_path_mut(&mut self, p: &mut Path) {
                if let Some(o) = self.1 { if p.segments.first().map_or(false, |s| s.ident == "Self") { let i = Ident::new(o, proc_macro2::Span::call_site()); p.segments.first_mut().unwrap().ident = i; } }
                visit_mut::visit_path_mut(self, p);
            }
        }
        let mut ret: Option<Type> = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
        let mut g = G(&gens, if same { None } else { f.owner.as_ref() }, same);
        if !same { g.visit_expr_mut(&mut blk); } else { G(&gens, None, true).visit_expr_mut(&mut blk); }
        if let Some(r) = ret.as_mut() { G(&gens, if same { None } else { f.owner.as_ref() }, same).visit_type_mut(r); }
        let mut lets: Vec<Stmt> = vec![];
        if let Some(s) = slf {
            let is_self = matches!(strip(&s), Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let rcv = f.sig.receiver().unwrap();
                if rcv.reference.is_some() && rcv.mutability.is_none() {
                    let sid = self.id("self", k);
                    lets.push(parse_quote!(let #sid = &#s;));
                    subst(&mut blk, "self", &parse_quote!(#sid));
                } else { subst(&mut blk, "self", &s); }
            }
        }
        if ptys.len() != args.len() { self.fail("arity"); return None; }
        for ((p, ty), a) in ptys.into_iter().zip(args) {
            let mut p = p;
            if let Pat::Ident(i) = &mut p { if let Some(n) = m.get(&i.ident.to_string()) { i.ident = Ident::new(n, i.ident.span()); } }
            else { Rename(&m).visit_pat_mut(&mut p); }
            let simple = matches!(&p, Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none());
            let chainlike = iterish(&ty) && !matches!(strip(&a), Expr::Path(_)) ;
            if simple && (substitutable(&a) || chainlike || mentions_fn(&ty)) {
                let Pat::Ident(i) = &p else { unreachable!() };
                subst(&mut blk, &i.ident.to_string(), &a);
            } else {
                // a `mut` parameter or a computed argument: bind it first
                let collects = matches!(strip(&a), Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none());
                if collects && self.collect_kind(&ty).is_some() {
                    let mut t = ty.clone();
                    G(&gens, if same { None } else { f.owner.as_ref() }, same).visit_type_mut(&mut t);
                    lets.push(parse_quote!(let #p: #t = #a;));
                } else { lets.push(parse_quote!(let #p = #a;)); }
                if iterish(&ty) { if let Pat::Ident(i) = &p { self.pending_iter(i.ident.to_string()); } }
            }
        }
        let Expr::Block(b) = blk else { unreachable!() };
        stmts = b.block.stmts;
        let raw: Expr = if lets.is_empty() && stmts.len() == 1 && matches!(&stmts[0], Stmt::Expr(_, None)) {
            let Stmt::Expr(e, _) = stmts.remove(0) else { unreachable!() };
            parse_quote!((#e))
        } else {
            parse_quote!({ #(#lets)* #(#stmts)* })
        };
        Some((raw, ret))
    }
    fn pending_iter(&mut self, _n: String) {}

    fn args_for(&mut self, f: Option<&FnInfo>, args: Vec<Expr>) -> Vec<Expr> {
        let tys: Vec<Type> = f.map(|f| f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.ty).clone()) } else { None }).collect()).unwrap_or_default();
        args.into_iter().enumerate().map(|(i, a)| {
            let ty = tys.get(i).cloned();
            if ty.as_ref().map_or(false, is_cell_map) {
                return match strip(&a) {
                    Expr::Reference(r) if self.is_cells(&r.expr) => { let e = &r.expr; if self.ref_param(e) { parse_quote!(#e) } else { parse_quote!(&mut #e) } }
                    e => e.clone(),
                };
            }
            if let Expr::Closure(_) = strip(&a) { self.fail("closure passed to a contracted function"); }
            self.expr_exp(a, ty)
        }).collect()
    }
    fn ref_param(&self, e: &Expr) -> bool {
        let Some(i) = ident_of(e) else { return false };
        self.me.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == i) && matches!(&*t.ty, Type::Reference(_))))
    }
    fn finish_call(&mut self, f: &FnInfo, call: Expr) -> Expr { self.call_marks(f.key.clone(), call) }
    /// a method of one of the crate's traits, called on something that implements it
    fn trait_method(&self, n: &str) -> Option<String> {
        self.w.traits.iter().find(|(_, t)| t.items.iter().any(|i| matches!(i, TraitItem::Fn(f) if f.sig.ident == n))).map(|(k, _)| format!("{}::{}", k, n))
    }
    fn call_marks(&mut self, key: String, call: Expr) -> Expr {
        let n = *self.calls.entry(key.clone()).and_modify(|x| *x += 1).or_insert(0);
        let mut call = call;
        let ns = n.to_string();
        if self.ghost.contains(&key) {
            let g: Expr = parse_quote!(__gh!(#key, #ns));
            match &mut call { Expr::Call(c) => c.args.push(g), Expr::MethodCall(c) => c.args.push(g), _ => {} }
        }
        if self.after.contains(&(self.me.key.clone(), key.clone())) {
            let k = self.fresh();
            let r = self.id("r", k);
            return parse_quote!({ __bc!(#key, #ns); let #r = #call; __ac!(#key, #ns, #r); #r });
        }
        call
    }
    pub fn receiver(&mut self, e: Expr) -> Expr {
        let r = self.expr(e);
        match r {
            Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_) | Expr::Index(_) => r,
            r => parse_quote!((#r)),
        }
    }

    // ------------------------------------------------------------------ expressions
    pub fn expr(&mut self, e: Expr) -> Expr { self.expr_exp(e, None) }
    pub fn expr_exp(&mut self, e: Expr, exp: Option<Type>) -> Expr {
        if self.err.is_some() { return e; }
        match e {
            Expr::Paren(p) => { let x = self.expr_exp(*p.expr, exp); match x { Expr::Path(_) | Expr::Block(_) | Expr::Call(_) | Expr::MethodCall(_) => x, x => parse_quote!((#x)) } }
            Expr::Group(p) => self.expr_exp(*p.expr, exp),
            Expr::Block(b) => { let bl = self.block(b.block, exp); Expr::Block(ExprBlock { attrs: vec![], label: b.label, block: bl }) }
            Expr::If(mut f) => {
                f.cond = Box::new(self.expr(*f.cond));
                f.then_branch = self.block(f.then_branch, exp.clone());
                f.else_branch = f.else_branch.map(|(t, e)| (t, Box::new(self.expr_exp(*e, exp))));
                Expr::If(f)
            }
            Expr::Let(mut l) => { l.expr = Box::new(self.expr(*l.expr)); Expr::Let(l) }
            Expr::Match(mut m) => {
                m.expr = Box::new(self.expr(*m.expr));
                m.arms = m.arms.into_iter().map(|mut a| {
                    a.guard = a.guard.map(|(t, g)| (t, Box::new(self.expr(*g))));
                    a.body = Box::new(self.expr_exp(*a.body, exp.clone()));
                    a.comma = Some(Default::default());
                    a
                }).collect();
                Expr::Match(m)
            }
            Expr::ForLoop(f) => {
                let c = match self.chain(&f.expr) { Some(c) => c, None => { let cells = self.is_cells(&f.expr); Chain { src: Src::Into((*f.expr).clone()), ops: vec![], cells } } };
                let (pat, body) = ((*f.pat).clone(), f.body.clone());
                let s = self.emit(&c, f.label.as_ref(), &mut |x, item| {
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #item;)];
                    v.extend(body.stmts.iter().cloned());
                    if let Some(Stmt::Expr(_, semi)) = v.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
                    x.stmts(v, None)
                });
                parse_quote!({ #(#s)* })
            }
            Expr::While(mut wl) => {
                let k = self.loops;
                if let Expr::Let(l) = strip(&wl.cond).clone() {
                    // while let P = it.next()
                    self.loops += 1;
                    self.kinds.push("whilelet".into());
                    let (inv, bf, af, bs, be) = (self.mark("inv", k, &[]), self.mark("before", k, &[]), self.mark("after", k, &[]), self.mark("bs", k, &[]), self.mark("be", k, &[]));
                    let p = *l.pat;
                    let e = self.expr(*l.expr);
                    let b = self.stmts(wl.body.stmts, None);
                    let lab = wl.label;
                    return parse_quote!({ #bf #lab loop { #inv match #e { #p => { #bs #(#b)* #be } _ => { break; } } } #af });
                }
                let c0 = self.loops;
                self.loops += 1;
                let at = self.kinds.len();
                let cond = self.expr(*wl.cond);
                let simple = self.loops == c0 + 1 && !has_block(&cond);
                self.kinds.insert(at, "while".into());
                let (inv, bf, af, bs, be) = (self.mark("inv", k, &[]), self.mark("before", k, &[]), self.mark("after", k, &[]), self.mark("bs", k, &[]), self.mark("be", k, &[]));
                let b = self.stmts(std::mem::take(&mut wl.body.stmts), None);
                let lab = wl.label;
                if simple { parse_quote!({ #bf #lab while #cond { #inv #bs #(#b)* #be } #af }) }
                else { let c = self.id("c", k); parse_quote!({ #bf #lab loop { #inv #bs let #c: bool = #cond; if !#c { break; } #(#b)* #be } #af }) }
            }
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                self.kinds.push("loop".into());
                let (inv, bf, af, bs, be) = (self.mark("inv", k, &[]), self.mark("before", k, &[]), self.mark("after", k, &[]), self.mark("bs", k, &[]), self.mark("be", k, &[]));
                let mut b = self.stmts(l.body.stmts, None);
                if let Some(Stmt::Expr(_, semi)) = b.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
                let lab = l.label;
                parse_quote!({ #bf #lab loop { #inv #bs #(#b)* #be } #af })
            }
            Expr::Assign(mut a) => {
                a.left = Box::new(self.expr(*a.left));
                a.right = Box::new(self.expr(*a.right));
                Expr::Assign(a)
            }
            Expr::Binary(mut b) => {
                match b.op {
                    BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) => {
                        let r = self.expr(*b.right);
                        let l = self.expr(*b.left);
                        let t = { let k = self.fresh(); self.id("t", k) };
                        if matches!(b.op, BinOp::BitOrAssign(_)) { parse_quote!({ let #t = #r; #l = #l || #t; }) } else { parse_quote!({ let #t = #r; #l = #l && #t; }) }
                    }
                    BinOp::BitOr(_) | BinOp::BitAnd(_) => {
                        let l = self.expr(*b.left);
                        let r = self.expr(*b.right);
                        let k = self.fresh();
                        let (s, t) = (self.id("s", k), self.id("t", k));
                        if matches!(b.op, BinOp::BitOr(_)) { parse_quote!({ let #s = #l; let #t = #r; #s || #t }) } else { parse_quote!({ let #s = #l; let #t = #r; #s && #t }) }
                    }
                    BinOp::Eq(_) | BinOp::Ne(_) => {
                        let ne = matches!(b.op, BinOp::Ne(_));
                        let prim = numeric(&b.left) || numeric(&b.right);
                        let l = self.expr(*b.left);
                        let r = self.expr(*b.right);
                        if prim { if ne { parse_quote!(#l != #r) } else { parse_quote!(#l == #r) } }
                        else if ne { parse_quote!((#l).vne(&(#r))) } else { parse_quote!((#l).veq(&(#r))) }
                    }
                    _ => { b.left = Box::new(self.expr(*b.left)); b.right = Box::new(self.expr(*b.right)); Expr::Binary(b) }
                }
            }
            Expr::Unary(mut u) => {
                if let UnOp::Deref(_) = u.op {
                    if ident_of(&u.expr).map_or(false, |i| self.env.get(&i.to_string()) == Some(&Kind::Guard)) { return *u.expr; }
                }
                u.expr = Box::new(self.expr(*u.expr));
                Expr::Unary(u)
            }
            Expr::Reference(mut r) => {
                r.expr = Box::new(self.expr(*r.expr));
                Expr::Reference(r)
            }
            Expr::Field(mut f) => { f.base = Box::new(self.expr(*f.base)); Expr::Field(f) }
            Expr::Index(i) => {
                let b = self.expr(*i.expr);
                if let Expr::Range(_) = strip(&i.index) { self.fail("slicing"); return b; }
                let j = self.expr(*i.index);
                parse_quote!((*(#b).v_index(#j)))
            }
            Expr::Tuple(mut t) if matches!(&exp, Some(Type::Tuple(ty)) if ty.elems.len() == t.elems.len()) => {
                let Some(Type::Tuple(ty)) = exp else { unreachable!() };
                t.elems = t.elems.into_iter().zip(ty.elems).map(|(x, y)| self.expr_exp(x, Some(y))).collect();
                Expr::Tuple(t)
            }
            Expr::Tuple(mut t) => { t.elems = t.elems.into_iter().map(|x| self.expr(x)).collect(); Expr::Tuple(t) }
            Expr::Struct(mut s) => {
                if s.rest.is_some() { self.fail("struct update"); }
                let name = if s.path.is_ident("Self") { self.me.owner.clone().unwrap_or_default() } else { last(&s.path) };
                let tys: Vec<(String, Type)> = self.w.types.iter().find_map(|i| if let Item::Struct(d) = i { if d.ident == name { return Some(d.fields.iter().filter_map(|f| Some((f.ident.as_ref()?.to_string(), f.ty.clone()))).collect()); } None } else { None }).unwrap_or_default();
                s.fields = s.fields.into_iter().map(|mut f| {
                    f.colon_token = Some(Default::default());
                    let t = if let Member::Named(i) = &f.member { tys.iter().find(|(n, _)| i == n).map(|(_, t)| t.clone()) } else { None };
                    // only to know what a `collect` collects into: its generic arguments are the struct's, not ours
                    let t = t.and_then(|t| self.collect_kind(&t)).map(|k| -> Type { match k { "Vec" => parse_quote!(Vec), "HashSet" => parse_quote!(HashSet), _ => parse_quote!(HashMap) } });
                    f.expr = self.expr_exp(f.expr, t);
                    f
                }).collect();
                strip_path(&mut s.path);
                Expr::Struct(s)
            }
            Expr::Return(mut r) => {
                self.rets += 1;
                let t = self.ret_ty.clone();
                r.expr = r.expr.map(|e| Box::new(self.expr_exp(*e, t)));
                Expr::Return(r)
            }
            Expr::Break(mut r) => { r.expr = r.expr.map(|e| Box::new(self.expr(*e))); Expr::Break(r) }
            Expr::Cast(mut c) => { c.expr = Box::new(self.expr(*c.expr)); Expr::Cast(c) }
            Expr::Try(mut t) => { t.expr = Box::new(self.expr(*t.expr)); Expr::Try(t) }
            Expr::Path(mut p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.lazy.contains_key(&i.to_string()) { self.fail("an iterator chain used as a value"); }
                    if self.cells.contains_key(&i.to_string()) { self.fail("a cell used as a value"); }
                    if self.closures.contains_key(&i.to_string()) { self.fail("a closure used as a value"); }
                }
                strip_path(&mut p.path);
                Expr::Path(p)
            }
            Expr::Lit(_) | Expr::Continue(_) => e,
            Expr::Call(c) => self.call(c, exp),
            Expr::MethodCall(m) => self.method(m, exp),
            Expr::Closure(_) => { self.fail("closure value"); e }
            Expr::Macro(m) => { self.fail(&format!("macro {}", crate::toks(&m.mac.path))); Expr::Macro(m) }
            other => { self.fail(&format!("expression {}", crate::toks(&other).chars().take(60).collect::<String>())); other }
        }
    }
    fn collect(&mut self, c: Chain, what: &str, exp: Option<Type>) -> Expr {
        // a plain copy needs no loop
        if what == "Vec" && !c.cells {
            if let crate::iter::Src::Method(r, n) = &c.src {
                if matches!(n.as_str(), "iter" | "into_iter" | "iter_rev" | "into_iter_rev") && !matches!(strip(r), Expr::Index(_)) {
                    let end = match c.ops.as_slice() { [] => Some("v_collect"), [crate::iter::Op::Deref] => Some("v_collect_cloned"), _ => None };
                    if let Some(end) = end {
                        let r2 = self.receiver(r.clone());
                        let (m, e) = (Ident::new(&format!("v_{}", n), proc_macro2::Span::call_site()), Ident::new(end, proc_macro2::Span::call_site()));
                        return parse_quote!(#r2.#m().#e());
                    }
                }
            }
        }
        let k = self.loops;
        let acc = self.id("acc", k);
        // the collection's type, if it is written down
        let ta: Vec<Type> = match &exp {
            Some(Type::Path(p)) if self.collect_kind(exp.as_ref().unwrap()).is_some() && matches!(last(&p.path).as_str(), "Vec" | "HashMap" | "HashSet") => p.path.segments.last().map(type_args).unwrap_or_default(),
            _ => vec![],
        };
        let (ty, item): (Option<Type>, Option<Type>) = match (what, ta.as_slice()) {
            ("Vec", [x]) | ("HashSet", [x]) => (exp.clone(), Some(x.clone())),
            ("HashMap", [a, b]) => (exp.clone(), Some(parse_quote!((#a, #b)))),
            _ => (None, None),
        };
        let saved = std::mem::replace(&mut self.item_exp, item);
        let s = self.emit(&c, None, &mut |_x, item| {
            vec![match what {
                "Vec" => parse_quote!(#acc.push(#item);),
                "HashSet" => parse_quote!(#acc.insert(#item);),
                _ => parse_quote!(#acc.v_insert_pair(#item);),
            }]
        });
        self.item_exp = saved;
        let new: Expr = match what { "Vec" => parse_quote!(Vec::new()), "HashSet" => parse_quote!(HSet::new()), _ => parse_quote!(HMap::new()) };
        match ty {
            Some(mut t) => { Types.visit_type_mut(&mut t); parse_quote!({ let mut #acc: #t = #new; #(#s)* #acc }) }
            None => parse_quote!({ let mut #acc = #new; #(#s)* #acc }),
        }
    }
    fn collect_kind(&mut self, t: &Type) -> Option<&'static str> {
        match t {
            Type::Path(p) => match last(&p.path).as_str() {
                "Vec" => Some("Vec"),
                "HashSet" | "HSet" => Some("HashSet"),
                "HashMap" | "HMap" => Some("HashMap"),
                n => {
                    // a type alias
                    let a = self.w.types.iter().find_map(|i| if let Item::Type(t) = i { if t.ident == n { return Some((*t.ty).clone()); } None } else { None })?;
                    self.collect_kind(&a)
                }
            },
            _ => None,
        }
    }
    fn call(&mut self, c: ExprCall, exp: Option<Type>) -> Expr {
        let whole = Expr::Call(c.clone());
        match strip(&c.func) {
            Expr::Closure(cl) => { let cl = cl.clone(); let e = self.apply_closure(&cl, c.args.iter().cloned().collect()); return self.expr_exp(e, exp); }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(cl) = self.closures.get(&i.to_string()).cloned() { let e = self.apply_closure(&cl, c.args.iter().cloned().collect()); return self.expr_exp(e, exp); }
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.len();
                let (o, f) = (if n > 1 { segs[n - 2].as_str() } else { "" }, segs[n - 1].as_str());
                match (o, f) {
                    ("HashMap" | "HashSet" | "Vec", "from_iter") => {
                        let a = c.args[0].clone();
                        let ch = match self.chain(&a) { Some(c) => c, None => { let cells = self.is_cells(&a); Chain { src: Src::Into(a), ops: vec![], cells } } };
                        return self.collect(ch, o, exp);
                    }
                    ("HashMap", "new" | "with_capacity" | "default") => return parse_quote!(HMap::new()),
                    ("HashSet", "new" | "with_capacity" | "default") => return parse_quote!(HSet::new()),
                    ("Vec", "with_capacity" | "default") => return parse_quote!(Vec::new()),
                    ("RefCell", "new") => { let a = c.args[0].clone(); return self.expr(a); }
                    ("cmp" | "", "max" | "min") if c.args.len() == 2 && self.w.fns.get(f).is_none() => {
                        let i = Ident::new(&format!("v_{}", f), proc_macro2::Span::call_site());
                        let (a, b) = (self.expr(c.args[0].clone()), self.expr(c.args[1].clone()));
                        return parse_quote!(#i(#a, #b));
                    }
                    ("mem", "take") if c.args.len() == 1 => { let a = self.expr(c.args[0].clone()); return parse_quote!(v_take(#a)); }
                    ("mem", "replace") if c.args.len() == 2 => { let (a, b) = (self.expr(c.args[0].clone()), self.expr(c.args[1].clone())); return parse_quote!(v_replace(#a, #b)); }
                    ("mem", "swap") if c.args.len() == 2 => { let (a, b) = (self.expr(c.args[0].clone()), self.expr(c.args[1].clone())); return parse_quote!(std::mem::swap(#a, #b)); }
                    ("", "drop") | ("mem", "drop") => { let a = self.expr(c.args[0].clone()); return parse_quote!({ let _ = #a; }); }
                    ("Option" | "Result" | "", "Some" | "Ok" | "Err") => {
                        let a = c.args[0].clone();
                        let t = exp.and_then(|t| if let Type::Path(p) = t { let s = p.path.segments.last().cloned()?; let ta = type_args(&s); if f == "Err" { ta.get(1).cloned() } else { ta.first().cloned() } } else { None });
                        let a = self.expr_exp(a, t);
                        let i = Ident::new(f, proc_macro2::Span::call_site());
                        return parse_quote!(#i(#a));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if let Some((f, slf, args)) = self.resolve_call(&whole) {
            if self.contracted.contains(&f.key) || f.in_trait {
                let mut a = self.args_for(Some(f), args);
                if let Some(s) = slf { a.insert(0, self.expr(s)); }
                let Expr::Path(p) = strip(&c.func) else { unreachable!() };
                let mut p = p.clone();
                strip_path(&mut p.path);
                let call: Expr = parse_quote!(#p(#(#a),*));
                return self.finish_call(f, call);
            }
            if let Some((raw, ret)) = self.inlinable(&whole) {
                self.depth += 1;
                let r = self.expr_exp(raw, exp.or(ret));
                self.depth -= 1;
                return r;
            }
        }
        let mut c = c;
        let a: Vec<Expr> = c.args.iter().cloned().map(|a| self.expr(a)).collect();
        c.args = a.into_iter().collect();
        if let Expr::Path(p) = &mut *c.func { strip_path(&mut p.path); }
        Expr::Call(c)
    }
    fn method(&mut self, m: ExprMethodCall, exp: Option<Type>) -> Expr {
        let whole = Expr::MethodCall(m.clone());
        let n = m.method.to_string();
        let argc = m.args.len();
        // ---- iterator sinks
        if matches!((n.as_str(), argc), ("for_each", 1) | ("collect", 0) | ("any", 1) | ("all", 1) | ("fold", 2) | ("count", 0) | ("find", 1) | ("find_map", 1) | ("position", 1)) {
            if let Some(c) = self.chain(&m.receiver) {
                match n.as_str() {
                    "for_each" => {
                        let f = m.args[0].clone();
                        let s = self.emit(&c, None, &mut |x, item| { let e = x.apply(&f, item); let e = x.expr(e); match e { Expr::Block(b) if b.label.is_none() => { let mut s = b.block.stmts; if let Some(Stmt::Expr(_, semi)) = s.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } } s } e => vec![Stmt::Expr(e, Some(Default::default()))] } });
                        return parse_quote!({ #(#s)* });
                    }
                    "collect" => {
                        let t = m.turbofish.as_ref().and_then(|t| t.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None })).or(exp);
                        let Some(k) = t.as_ref().and_then(|t| self.collect_kind(t)) else { self.fail("collect into an unknown type"); return whole };
                        return self.collect(c, k, t);
                    }
                    "any" | "all" => {
                        let f = m.args[0].clone();
                        let acc = self.id("acc", self.loops);
                        let any = n == "any";
                        let s = self.emit(&c, None, &mut |x, item| {
                            let e = x.apply(&f, item);
                            let e = x.expr(e);
                            if any { vec![Stmt::Expr(parse_quote!(if #e { #acc = true; break; }), None)] } else { vec![Stmt::Expr(parse_quote!(if !(#e) { #acc = false; break; }), None)] }
                        });
                        let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                        return parse_quote!({ let mut #acc = #init; #(#s)* #acc });
                    }
                    "find" | "find_map" | "position" => {
                        let f = m.args[0].clone();
                        if matches!(c.src, crate::iter::Src::Cat(..) | crate::iter::Src::Var(_)) || c.ops.iter().any(|o| matches!(o, crate::iter::Op::FlatMap(_))) { self.fail("find over more than one loop"); return whole; }
                        let acc = self.id("acc", self.loops);
                        let k = self.fresh();
                        let (o, p) = (self.id("o", k), self.id("p", k));
                        let s = self.emit(&c, None, &mut |x, item| {
                            match n.as_str() {
                                "find" => { let e = x.apply(&f, parse_quote!(&#item)); let e = x.expr(e); vec![Stmt::Expr(parse_quote!(if #e { #acc = Some(#item); break; }), None)] }
                                "position" => { let e = x.apply(&f, item); let e = x.expr(e); vec![Stmt::Expr(parse_quote!(if #e { #acc = Some(#p); break; }), None), parse_quote!(#p = v_inc(#p);)] }
                                _ => { let e = x.apply(&f, item); let e = x.expr(e); vec![Stmt::Expr(parse_quote!(match #e { Some(#o) => { #acc = Some(#o); break; } None => {} }), None)] }
                            }
                        });
                        return if n == "position" { parse_quote!({ let mut #acc: Option<usize> = None; let mut #p: usize = 0; #(#s)* #acc }) } else { parse_quote!({ let mut #acc = None; #(#s)* #acc }) };
                    }
                    "fold" => {
                        let init = self.expr(m.args[0].clone());
                        let f = m.args[1].clone();
                        let acc = self.id("acc", self.loops);
                        let s = self.emit(&c, None, &mut |x, item| {
                            let Expr::Closure(cl) = strip(&f).clone() else { x.fail("fold with a function value"); return vec![] };
                            let e = x.apply_closure(&cl, vec![parse_quote!(#acc), item]);
                            let e = x.expr(e);
                            vec![parse_quote!(#acc = #e;)]
                        });
                        return parse_quote!({ let mut #acc = #init; #(#s)* #acc });
                    }
                    _ => {
                        let acc = self.id("acc", self.loops);
                        let s = self.emit(&c, None, &mut |_x, _item| vec![parse_quote!(#acc = v_inc(#acc);)]);
                        return parse_quote!({ let mut #acc: usize = 0; #(#s)* #acc });
                    }
                }
            }
        }
        if n == "extend" && argc == 1 {
            let a = m.args[0].clone();
            let c = match self.chain(&a) { Some(c) => c, None => Chain { src: Src::Into(a), ops: vec![], cells: false } };
            let r = self.receiver((*m.receiver).clone());
            let s = self.emit(&c, None, &mut |_x, item| vec![parse_quote!(#r.v_add(#item);)]);
            return parse_quote!({ #(#s)* });
        }
        // ---- map.entry(k).or_..(d)
        if matches!((n.as_str(), argc), ("or_default", 0) | ("or_insert", 1) | ("or_insert_with", 1)) {
            if let Expr::MethodCall(en) = strip(&m.receiver).clone() {
                if en.method == "entry" && en.args.len() == 1 {
                    let d: Expr = match n.as_str() {
                        "or_default" => parse_quote!(VDefault::v_default()),
                        "or_insert" => self.expr(m.args[0].clone()),
                        _ => match strip(&m.args[0]).clone() {
                            Expr::Closure(c) if c.inputs.is_empty() => self.expr((*c.body).clone()),
                            Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "new" || s.ident == "default") => self.expr(parse_quote!(#p())),
                            _ => { self.fail("or_insert_with"); return whole; }
                        },
                    };
                    // the default is built before the key is looked up: it must be free of effects
                    if !matches!(&d, Expr::Path(_) | Expr::Lit(_)) && !matches!(&d, Expr::Call(c) if matches!(crate::toks(&c.func).replace(' ', "").as_str(), "Vec::new" | "HSet::new" | "HMap::new" | "VDefault::v_default" | "vec1")) { self.fail("the default of an entry"); return whole; }
                    let r = self.receiver((*en.receiver).clone());
                    let key = self.expr(en.args[0].clone());
                    return parse_quote!(#r.v_entry(#key, #d));
                }
            }
        }
        // ---- cells
        if let Some((map, key)) = self.borrow_of(&m.receiver) {
            let k = self.fresh();
            let (kk, g, r) = (self.id("key", k), self.id("g", k), self.id("r", k));
            let key = self.expr(key);
            let map = self.receiver(map);
            self.env.insert(g.to_string(), Kind::Guard);
            let mut m2 = m.clone();
            m2.receiver = Box::new(parse_quote!(#g));
            if matches!(strip(&m.receiver), Expr::MethodCall(b) if b.method == "borrow") {
                let inner = self.expr(Expr::MethodCall(m2));
                return parse_quote!({ let #kk = #key; let #g = #map.cell_get(#kk); #inner });
            }
            let inner = self.expr(Expr::MethodCall(m2));
            return parse_quote!({ let #kk = #key; let mut #g = #map.cell_take(#kk); let #r = #inner; #map.cell_put(#kk, #g); #r });
        }
        if self.borrow_of(&whole).is_some() { self.fail("a borrow guard used as a value"); return whole; }
        if (n == "borrow" || n == "borrow_mut") && argc == 0 { return self.expr(*m.receiver); }
        if (n == "take" || n == "into_inner") && argc == 0 {
            if let Some(i) = ident_of(&m.receiver) { if self.cell_vals.contains(&i.to_string()) { return parse_quote!(#i); } }
        }
        // ---- Option combinators
        if self.resolve_call(&whole).is_none() {
            let k = self.fresh();
            let o = self.id("o", k);
            let a: Vec<Expr> = m.args.iter().cloned().collect();
            match (n.as_str(), argc) {
                ("map", 1) => {
                    let inner = exp.and_then(|t| if let Type::Path(p) = t { type_args(p.path.segments.last()?).first().cloned() } else { None });
                    let inner = inner.or_else(|| if let Expr::Closure(c) = strip(&a[0]) { if let ReturnType::Type(_, t) = &c.output { return Some((**t).clone()); } None } else { None });
                    let r = self.expr(*m.receiver);
                    let e = self.apply(&a[0], parse_quote!(#o));
                    let e = self.expr_exp(e, inner);
                    return parse_quote!((match #r { Some(#o) => Some(#e), None => None }));
                }
                ("unwrap_or", 1) => { let t = exp.clone(); let opt: Option<Type> = exp.map(|t| parse_quote!(Option<#t>)); let r = self.expr_exp(*m.receiver, opt); let d = self.expr_exp(a[0].clone(), t); return parse_quote!((match #r { Some(#o) => #o, None => #d })); }
                ("unwrap_or_else", 1) => { let opt: Option<Type> = exp.clone().map(|t| parse_quote!(Option<#t>)); let r = self.expr_exp(*m.receiver, opt); let Expr::Closure(c) = strip(&a[0]) else { let f = self.expr(a[0].clone()); return parse_quote!((match #r { Some(#o) => #o, None => #f() })) }; let d = self.expr_exp((*c.body).clone(), exp); return parse_quote!((match #r { Some(#o) => #o, None => #d })); }
                ("unwrap_or_default", 0) => { let opt: Option<Type> = exp.map(|t| parse_quote!(Option<#t>)); let r = self.expr_exp(*m.receiver, opt); return parse_quote!((match #r { Some(#o) => #o, None => VDefault::v_default() })); }
                ("and_then", 1) => { let r = self.expr(*m.receiver); let e = self.apply(&a[0], parse_quote!(#o)); let e = self.expr_exp(e, exp); return parse_quote!((match #r { Some(#o) => #e, None => None })); }
                ("map_or", 2) => { let r = self.expr(*m.receiver); let d = self.expr_exp(a[0].clone(), exp.clone()); let e = self.apply(&a[1], parse_quote!(#o)); let e = self.expr_exp(e, exp); return parse_quote!((match #r { Some(#o) => #e, None => #d })); }
                ("map_or_else", 2) => { let r = self.expr(*m.receiver); let Expr::Closure(c) = strip(&a[0]).clone() else { self.fail("map_or_else"); return whole }; let d = self.expr_exp((*c.body).clone(), exp.clone()); let e = self.apply(&a[1], parse_quote!(#o)); let e = self.expr_exp(e, exp); return parse_quote!((match #r { Some(#o) => #e, None => #d })); }
                ("is_some_and", 1) => { let r = self.expr(*m.receiver); let e = self.apply(&a[0], parse_quote!(#o)); let e = self.expr(e); return parse_quote!((match #r { Some(#o) => #e, None => false })); }
                ("is_none_or", 1) => { let r = self.expr(*m.receiver); let e = self.apply(&a[0], parse_quote!(#o)); let e = self.expr(e); return parse_quote!((match #r { Some(#o) => #e, None => true })); }
                ("ok_or", 1) => { let r = self.expr(*m.receiver); let d = self.expr(a[0].clone()); return parse_quote!((match #r { Some(#o) => Ok(#o), None => Err(#d) })); }
                ("filter", 1) if self.chain(&m.receiver).is_none() => { let r = self.expr(*m.receiver); let e = self.apply(&a[0], parse_quote!(&#o)); let e = self.expr(e); return parse_quote!((match #r { Some(#o) => if #e { Some(#o) } else { None }, None => None })); }
                ("or", 1) => { let r = self.expr_exp(*m.receiver, exp.clone()); let d = self.expr_exp(a[0].clone(), exp); let q = self.id("q", k); return parse_quote!((match (#r, #d) { (Some(#o), _) => Some(#o), (None, #q) => #q })); }
                ("or_else", 1) => { let Expr::Closure(c) = strip(&a[0]).clone() else { self.fail("or_else"); return whole }; if !c.inputs.is_empty() { self.fail("or_else"); return whole } let r = self.expr_exp(*m.receiver, exp.clone()); let d = self.expr_exp((*c.body).clone(), exp); return parse_quote!((match #r { Some(#o) => Some(#o), None => #d })); }
                ("xor", 1) => { let r = self.expr(*m.receiver); let d = self.expr(a[0].clone()); return parse_quote!((match (#r, #d) { (Some(#o), None) => Some(#o), (None, Some(#o)) => Some(#o), _ => None })); }
                ("zip", 1) if self.chain(&m.receiver).is_none() => { let r = self.expr(*m.receiver); let d = self.expr(a[0].clone()); let q = self.id("q", k); return parse_quote!((match (#r, #d) { (Some(#o), Some(#q)) => Some((#o, #q)), _ => None })); }
                ("for_each" | "collect" | "fold" | "filter" | "flat_map" | "filter_map" | "any" | "all" | "position" | "find" | "rev" | "zip" | "skip" | "take_while" | "skip_while", _) => { self.fail(&format!("iterator method {}", n)); return whole; }
                _ => {}
            }
        }
        // ---- crate functions
        if let Some((f, slf, args)) = self.resolve_call(&whole) {
            if self.contracted.contains(&f.key) || f.in_trait {
                let a = self.args_for(Some(f), args);
                let r = self.receiver(slf.unwrap());
                let id = &m.method;
                let call: Expr = parse_quote!(#r.#id(#(#a),*));
                return self.finish_call(f, call);
            }
            if let Some((raw, ret)) = self.inlinable(&whole) {
                self.depth += 1;
                let r = self.expr_exp(raw, exp.or(ret));
                self.depth -= 1;
                return r;
            }
        }
        if let Some(key) = self.trait_method(&n) {
            if self.ghost.contains(&key) {
                let r = self.receiver((*m.receiver).clone());
                let a: Vec<Expr> = m.args.iter().cloned().map(|a| self.expr(a)).collect();
                let id = &m.method;
                let call: Expr = parse_quote!(#r.#id(#(#a),*));
                return self.call_marks(key, call);
            }
        }
        // ---- std
        let r = self.receiver(*m.receiver);
        let mut a: Vec<Expr> = m.args.iter().cloned().map(|a| self.expr(a)).collect();
        let new = match (n.as_str(), argc) {
            ("clone", 0) | ("to_owned", 0) => "vclone",
            ("cloned", 0) | ("copied", 0) => "v_opt_cloned",
            ("eq", 1) => "veq",
            ("ne", 1) => "vne",
            ("expect", 1) => { a.clear(); "v_unwrap" }
            ("unwrap", 0) => "v_unwrap",
            ("get" | "get_mut" | "contains" | "contains_key" | "iter" | "into_iter" | "keys" | "values" | "reverse" | "last" | "first" | "is_empty" | "index" | "into_keys" | "into_values" | "split_last" | "remove" | "as_slice" | "get_or_insert" | "is_subset" | "is_superset" | "is_disjoint", _) => { let s = format!("v_{}", n); let i = Ident::new(&s, m.method.span()); return parse_quote!(#r.#i(#(#a),*)); }
            _ => n.as_str(),
        };
        let i = Ident::new(new, m.method.span());
        parse_quote!(#r.#i(#(#a),*))
    }
}
fn is_drop(s: &Stmt, n: &str) -> bool {
    if let Stmt::Expr(Expr::Call(c), _) = s { if let Expr::Path(p) = &*c.func { if last(&p.path) == "drop" { return c.args.first().and_then(ident_of).map_or(false, |i| i == n); } } }
    false
}
fn is_unit_like(e: &Expr) -> bool {
    match e {
        Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => is_unit_like(e), _ => true },
        Expr::If(f) => f.else_branch.is_none() || matches!(f.then_branch.stmts.last(), None | Some(Stmt::Expr(_, Some(_))) | Some(Stmt::Macro(_))),
        Expr::Loop(_) | Expr::While(_) | Expr::Macro(_) | Expr::Assign(_) => true,
        _ => false,
    }
}
fn numeric(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
        Expr::MethodCall(m) => m.method == "len" || m.method == "count",
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)),
        Expr::Cast(_) => true,
        _ => false,
    }
}
fn has_block(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F { fn visit_block(&mut self, _: &'a Block) { self.0 = true; } fn visit_expr_match(&mut self, _: &'a ExprMatch) { self.0 = true; } }
    let mut f = F(false);
    f.visit_expr(e);
    f.0
}
fn mentions_fn(t: &Type) -> bool { let s = crate::toks(t); s.contains("Fn (") || s.contains("FnMut (") || s.contains("fn (") }
fn strip_path(p: &mut Path) {
    // drop module prefixes, keep Type::item
    let n = p.segments.len();
    if n > 1 {
        let keep = if p.segments[n - 2].ident.to_string().starts_with(|c: char| c.is_uppercase()) || matches!(p.segments[n - 2].ident.to_string().as_str(), "usize" | "u8" | "u16" | "u32" | "u64" | "isize" | "i32" | "i64") { 2 } else { 1 };
        let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = segs.into_iter().collect();
        p.leading_colon = None;
    }
    for s in p.segments.iter_mut() {
        let id = s.ident.to_string();
        if id == "HashMap" { s.ident = parse_quote!(HMap); }
        if id == "HashSet" { s.ident = parse_quote!(HSet); }
        if let PathArguments::AngleBracketed(a) = &mut s.arguments { for g in a.args.iter_mut() { if let GenericArgument::Type(t) = g { Types.visit_type_mut(t); } } }
    }
}
