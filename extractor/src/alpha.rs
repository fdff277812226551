//! Pass 1: within one function every binder gets a name of its own, so that later passes may treat names as unique.
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Alpha { used: HashSet<String>, scopes: Vec<HashMap<String, String>>, n: usize }

struct Names(Vec<String>);
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.starts_with(|c: char| c.is_lowercase() || c == '_') && s != "_" && !self.0.contains(&s) { self.0.push(s); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr(&mut self, _: &'a Expr) {}
}

pub fn alpha(sig: &Signature, block: &mut Block) {
    let mut a = Alpha { used: HashSet::new(), scopes: vec![HashMap::new()], n: 900 };
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            let mut n = Names(vec![]);
            n.visit_pat(&t.pat);
            for x in n.0 { a.used.insert(x.clone()); a.scopes[0].insert(x.clone(), x); }
        }
    }
    a.visit_block_mut(block);
}

impl Alpha {
    fn get(&self, n: &str) -> Option<&String> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
    fn bind(&mut self, p: &mut Pat) {
        let mut n = Names(vec![]);
        n.visit_pat(p);
        let mut m = HashMap::new();
        for x in n.0 {
            let mut y = x.clone();
            while self.used.contains(&y) { self.n += 1; y = format!("{}__{}", x, self.n); }
            self.used.insert(y.clone());
            m.insert(x.clone(), y.clone());
        }
        struct R<'a>(&'a HashMap<String, String>);
        impl<'a> VisitMut for R<'a> {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()); }
                visit_mut::visit_pat_ident_mut(self, p);
            }
            fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
                if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
                visit_mut::visit_field_pat_mut(self, f);
            }
        }
        R(&m).visit_pat_mut(p);
        self.scopes.last_mut().unwrap().extend(m);
    }
    fn push(&mut self) { self.scopes.push(HashMap::new()); }
    fn pop(&mut self) { self.scopes.pop(); }
}
impl VisitMut for Alpha {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.push();
        for s in b.stmts.iter_mut() { self.visit_stmt_mut(s); }
        self.pop();
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = l.init.as_mut() {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = i.diverge.as_mut() { self.visit_expr_mut(d); }
        }
        self.bind(&mut l.pat);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let s = i.to_string();
            if let Some(n) = self.get(&s) { if *n != s { let id = Ident::new(n, i.span()); p.path = id.into(); } }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        self.visit_expr_mut(&mut l.expr);
        self.bind(&mut l.pat);
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        self.push();
        self.visit_expr_mut(&mut e.cond);
        self.visit_block_mut(&mut e.then_branch);
        self.pop();
        if let Some((_, b)) = e.else_branch.as_mut() { self.visit_expr_mut(b); }
    }
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) {
        self.push();
        self.visit_expr_mut(&mut e.cond);
        self.visit_block_mut(&mut e.body);
        self.pop();
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) {
        self.visit_expr_mut(&mut e.expr);
        self.push();
        self.bind(&mut e.pat);
        self.visit_block_mut(&mut e.body);
        self.pop();
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        self.visit_expr_mut(&mut e.expr);
        for a in e.arms.iter_mut() {
            self.push();
            self.bind(&mut a.pat);
            if let Some((_, g)) = a.guard.as_mut() { self.visit_expr_mut(g); }
            self.visit_expr_mut(&mut a.body);
            self.pop();
        }
    }
    fn visit_expr_closure_mut(&mut self, e: &mut ExprClosure) {
        self.push();
        for p in e.inputs.iter_mut() { self.bind(p); }
        self.visit_expr_mut(&mut e.body);
        self.pop();
    }
}
