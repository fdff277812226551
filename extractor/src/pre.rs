//! Pass 0: expand the standard macros, rewrite types, so that later passes see plain syntax.
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn last(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

pub struct MacroExpand { pub err: Option<String> }
fn args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}
impl MacroExpand {
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = last(&m.path);
        match name.as_str() {
            "vec" => {
                let Some(a) = args(m) else { self.err = Some("vec! with a repeat expression".into()); return None };
                Some(match a.len() {
                    0 => parse_quote!(Vec::new()),
                    1 => { let x = &a[0]; parse_quote!(vec1(#x)) }
                    2 => { let (x, y) = (&a[0], &a[1]); parse_quote!(vec2(#x, #y)) }
                    _ => { self.err = Some("vec! with more than two elements".into()); return None }
                })
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(v_panic())),
            "assert" | "debug_assert" => { let a = args(m)?; let c = &a[0]; Some(parse_quote!(if !(#c) { v_panic() })) }
            "assert_eq" | "debug_assert_eq" => { let a = args(m)?; let (c, d) = (&a[0], &a[1]); Some(parse_quote!(if !(#c == #d) { v_panic() })) }
            "matches" => {
                struct M { e: Expr, p: Pat, g: Option<Expr> }
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<M> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M { e, p, g })
                    }
                }
                let M { e, p, g } = m.parse_body::<M>().ok()?;
                Some(match g { None => parse_quote!(match #e { #p => true, _ => false }), Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }) })
            }
            "println" | "eprintln" | "print" | "eprint" | "dbg" => Some(parse_quote!({})),
            _ => { self.err = Some(format!("macro {}!", name)); None }
        }
    }
}
impl VisitMut for MacroExpand {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(n) = self.expand(&m.mac.clone()) { *e = n; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = self.expand(&m.mac.clone()) { *s = Stmt::Expr(n, m.semi_token); }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// Std container, iterator and cell types become the stub types of the prelude.
pub struct Types;
pub fn generic_args(p: &PathSegment) -> Vec<GenericArgument> {
    match &p.arguments { PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(), _ => vec![] }
}
pub fn type_args(p: &PathSegment) -> Vec<Type> {
    generic_args(p).into_iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t) } else { None }).collect()
}
pub fn mentions(t: &Type, name: &str) -> bool {
    struct F<'a>(&'a str, bool);
    impl<'a, 'b> visit::Visit<'b> for F<'a> {
        fn visit_path_segment(&mut self, s: &'b PathSegment) {
            if s.ident == self.0 { self.1 = true; }
            visit::visit_path_segment(self, s);
        }
    }
    let mut f = F(name, false);
    visit::Visit::visit_type(&mut f, t);
    f.1
}
/// a map whose values are cells, possibly behind a reference
pub fn is_cell_map(t: &Type) -> bool {
    match t {
        Type::Reference(r) => is_cell_map(&r.elem),
        Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "HashMap" && type_args(s).get(1).map_or(false, |v| matches!(v, Type::Path(q) if last(&q.path) == "RefCell"))),
        _ => false,
    }
}
impl VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if is_cell_map(&r.elem) { r.mutability = Some(Default::default()); }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Paren(p) = t { *t = (*p.elem).clone(); }
        if let Type::Path(p) = t {
            let Some(seg) = p.path.segments.last().cloned() else { return };
            let ta = type_args(&seg);
            let name = seg.ident.to_string();
            match name.as_str() {
                "HashMap" if ta.len() >= 2 => { let (k, v) = (&ta[0], &ta[1]); *t = parse_quote!(HMap<#k, #v>); }
                "HashSet" if !ta.is_empty() => { let k = &ta[0]; *t = parse_quote!(HSet<#k>); }
                "RefCell" | "RefMut" | "Ref" if !ta.is_empty() => { *t = ta[0].clone(); }
                "IntoIter" if ta.len() == 1 => { let x = &ta[0]; *t = parse_quote!(VIt<#x>); }
                "Iter" if ta.len() == 1 => {
                    let x = &ta[0];
                    let lt = generic_args(&seg).into_iter().find_map(|g| if let GenericArgument::Lifetime(l) = g { Some(l) } else { None });
                    *t = match lt { Some(l) => parse_quote!(VIt<&#l #x>), None => parse_quote!(VIt<&#x>) };
                }
                "PhantomData" => { p.path = Path { leading_colon: None, segments: [seg].into_iter().collect() }; }
                _ => { if p.qself.is_none() { let seg = drop_mono(seg); p.path = Path { leading_colon: None, segments: [seg].into_iter().collect() }; } }
            }
        }
    }
}
thread_local! {
    /// types with a type parameter bounded by Iterator: (name, index of the parameter). The parameter is fixed to the stub iterator.
    pub static MONO: std::cell::RefCell<std::collections::HashMap<String, usize>> = Default::default();
}
fn drop_mono(mut seg: PathSegment) -> PathSegment {
    let at = MONO.with(|m| m.borrow().get(&seg.ident.to_string()).cloned());
    if let (Some(at), PathArguments::AngleBracketed(a)) = (at, &mut seg.arguments) {
        a.args = a.args.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, g)| g.clone()).collect();
    }
    seg
}
/// fix the Iterator-bounded parameters of a type definition
pub fn mono_item(it: &mut Item) {
    let g = match it { Item::Struct(s) => &mut s.generics, Item::Enum(s) => &mut s.generics, _ => return };
    let Some((n, x)) = iter_param(g) else { return };
    g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == n.as_str())).cloned().collect();
    struct S(String, Type);
    impl VisitMut for S {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t { if p.path.is_ident(self.0.as_str()) { let x = &self.1; *t = parse_quote!(VIt<#x>); return; } }
            visit_mut::visit_type_mut(self, t);
        }
    }
    S(n, x).visit_item_mut(it);
}
pub fn iter_param(g: &Generics) -> Option<(String, Type)> {
    for tp in g.type_params() {
        for b in &tp.bounds {
            if let TypeParamBound::Trait(t) = b { if last(&t.path) == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments {
                    for g in &a.args { if let GenericArgument::AssocType(at) = g { return Some((tp.ident.to_string(), at.ty.clone())); } }
                }
            } }
        }
    }
    None
}
/// does this type denote an iterator?
pub fn iterish(t: &Type) -> bool {
    match t {
        Type::Reference(r) => iterish(&r.elem),
        Type::ImplTrait(i) => i.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last(&t.path).ends_with("Iterator"))),
        Type::TraitObject(i) => i.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if last(&t.path).ends_with("Iterator"))),
        Type::Paren(p) => iterish(&p.elem),
        Type::Path(p) => {
            let n = last(&p.path);
            if n == "Box" { return p.path.segments.last().map_or(false, |s| type_args(s).iter().any(iterish)); }
            matches!(n.as_str(), "Iter" | "IntoIter" | "Map" | "Filter" | "Chain" | "VIt" | "Keys" | "Values" | "Peekable")
        }
        _ => false,
    }
}
