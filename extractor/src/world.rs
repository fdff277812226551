//! The crate as parsed: its types, its functions.
use crate::pre::*;
use quote::ToTokens;
use std::collections::{BTreeMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub owner: Option<String>,
    pub owner_args: String,
    pub impl_generics: Generics,
    pub sig: Signature,
    pub block: Block,
    pub in_trait: bool,
}
pub struct World {
    pub fns: BTreeMap<String, FnInfo>,
    pub types: Vec<Item>,
    pub traits: BTreeMap<String, ItemTrait>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.to_token_stream().to_string(); s.contains("cfg") && s.contains("test") })
}

impl World {
    pub fn load(dir: &str) -> std::result::Result<World, String> {
        let mut files = vec![];
        let mut todo = vec![std::path::PathBuf::from(dir)];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() { todo.push(p); } else if p.extension().map_or(false, |x| x == "rs") && !p.to_string_lossy().ends_with("_spec.rs") { files.push(p); }
            }
        }
        files.sort();
        let mut w = World { fns: BTreeMap::new(), types: vec![], traits: BTreeMap::new() };
        for f in files {
            let s = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let ast = parse_file(&s).map_err(|e| format!("{}: {}", f.display(), e))?;
            w.items(ast.items)?;
        }
        let mut m = std::collections::HashMap::new();
        for t in &w.types {
            let (n, g) = match t { Item::Struct(s) => (s.ident.to_string(), &s.generics), Item::Enum(s) => (s.ident.to_string(), &s.generics), _ => continue };
            if let Some((p, _)) = iter_param(g) {
                let at = g.params.iter().position(|x| matches!(x, GenericParam::Type(t) if t.ident == p.as_str())).unwrap();
                m.insert(n, at);
            }
        }
        MONO.with(|x| *x.borrow_mut() = m);
        Ok(w)
    }
    fn items(&mut self, items: Vec<Item>) -> std::result::Result<(), String> {
        for it in items {
            match it {
                Item::Mod(m) => if !is_test(&m.attrs) { if let Some((_, i)) = m.content { self.items(i)?; } },
                Item::Struct(mut s) => { s.attrs.clear(); self.types.push(Item::Struct(s)) }
                Item::Enum(mut s) => { s.attrs.clear(); self.types.push(Item::Enum(s)) }
                Item::Type(mut s) => { s.attrs.clear(); self.types.push(Item::Type(s)) }
                Item::Const(s) => self.types.push(Item::Const(s)),
                Item::Trait(t) => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            self.add(Some(t.ident.to_string()), String::new(), &t.generics, f.sig.clone(), f.default.clone().unwrap_or(parse_quote!({})), true)?;
                        }
                    }
                    self.traits.insert(t.ident.to_string(), t);
                }
                Item::Impl(i) => {
                    if is_test(&i.attrs) { continue; }
                    let Type::Path(p) = &*i.self_ty else { continue };
                    let Some(seg) = p.path.segments.last() else { continue };
                    let owner = seg.ident.to_string();
                    let mut st = (*i.self_ty).clone();
                    Types.visit_type_mut(&mut st);
                    let tr = i.trait_.as_ref().map(|t| last(&t.1));
                    if let Some(t) = &tr {
                        // only the operator traits become inherent methods
                        if !matches!(t.as_str(), "Clone" | "PartialEq" | "Eq" | "Default") && !self.traits.contains_key(t) && !matches!(t.as_str(), "From") { continue; }
                    }
                    for it in &i.items {
                        if let ImplItem::Fn(f) = it {
                            if is_test(&f.attrs) { continue; }
                            self.add(Some(owner.clone()), crate::toks(&st), &i.generics, f.sig.clone(), f.block.clone(), false)?;
                        }
                    }
                }
                Item::Fn(f) => if !is_test(&f.attrs) { self.add(None, String::new(), &Generics::default(), f.sig.clone(), (*f.block).clone(), false)?; },
                _ => {}
            }
        }
        Ok(())
    }
    fn add(&mut self, owner: Option<String>, owner_args: String, g: &Generics, sig: Signature, mut block: Block, in_trait: bool) -> std::result::Result<(), String> {
        let name = sig.ident.to_string();
        let key = match &owner { Some(o) => format!("{}::{}", o, name), None => name };
        let mut m = MacroExpand { err: None };
        m.visit_block_mut(&mut block);
        crate::alpha::alpha(&sig, &mut block);
        // an unknown macro only matters if the function is needed: leave it in place, the transformer rejects it
        if self.fns.contains_key(&key) { return Err(format!("two functions called {}", key)); }
        self.fns.insert(key.clone(), FnInfo { key, owner, owner_args, impl_generics: g.clone(), sig, block, in_trait });
        Ok(())
    }
    /// which parameters of which types end up as keys of hash containers
    fn keys(&self) -> HashSet<(String, usize)> {
        let mut keys: HashSet<(String, usize)> = ["HashSet", "HashMap"].iter().map(|n| (n.to_string(), 0)).collect();
        loop {
            let n = keys.len();
            for t in &self.types {
                let (ident, generics) = match t {
                    Item::Struct(s) => (&s.ident, &s.generics),
                    Item::Enum(s) => (&s.ident, &s.generics),
                    Item::Type(s) => (&s.ident, &s.generics),
                    _ => continue,
                };
                let mut f = KeyParams { keys: &keys, found: HashSet::new() };
                syn::visit::Visit::visit_item(&mut f, t);
                let found = f.found;
                for (k, p) in generics.type_params().enumerate() {
                    if found.contains(&p.ident.to_string()) { keys.insert((ident.to_string(), k)); }
                }
            }
            if keys.len() == n { return keys; }
        }
    }
    /// struct and enum definitions, iterator bounds dropped
    pub fn types(&self, traits: &HashSet<String>) -> String {
        let mut out = String::new();
        let keys = self.keys();
        for t in &self.types {
            let mut t = t.clone();
            mono_item(&mut t);
            Types.visit_item_mut(&mut t);
            match &mut t {
                Item::Struct(s) => { bounds(&mut s.generics, traits, true); s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); } }
                Item::Enum(e) => { bounds(&mut e.generics, traits, true); e.vis = parse_quote!(pub); for v in e.variants.iter_mut() { v.attrs.clear(); } }
                Item::Type(e) => { e.vis = parse_quote!(pub); }
                _ => {}
            }
            if let Item::Struct(ItemStruct { ident, generics, attrs, .. }) | Item::Enum(ItemEnum { ident, generics, attrs, .. }) = &mut t {
                for (k, p) in generics.type_params().enumerate() {
                    let i = &p.ident;
                    if keys.contains(&(ident.to_string(), k)) { attrs.push(parse_quote!(#[verifier::reject_recursive_types(#i)])); }
                }
            }
            out.push_str(&crate::toks(&t));
            out.push('\n');
        }
        out
    }
}
/// Clone/Eq/Hash bounds become the lawful stub traits; iterator bounds go.
pub fn bounds(g: &mut Generics, traits: &HashSet<String>, on_type: bool) {
    if let Some(w) = g.where_clause.take() {
        for p in w.predicates {
            if let WherePredicate::Type(t) = p {
                let n = crate::toks(&t.bounded_ty);
                for tp in g.type_params_mut() { if tp.ident == n.as_str() { tp.bounds.extend(t.bounds.clone()); } }
            }
        }
    }
    for tp in g.type_params_mut() {
        let mut keep: punctuated::Punctuated<TypeParamBound, Token![+]> = Default::default();
        let (mut cl, mut sy) = (false, false);
        for b in tp.bounds.iter() {
            match b {
                TypeParamBound::Trait(t) => {
                    let n = last(&t.path);
                    match n.as_str() {
                        "Clone" | "Copy" => cl = true,
                        "PartialEq" | "Eq" | "Hash" | "Ord" | "PartialOrd" => sy = true,
                        "Iterator" => { let mut t2 = t.clone(); if let Some(s) = t2.path.segments.last_mut() { s.ident = parse_quote!(VIterT); } keep.push(TypeParamBound::Trait(t2)); }
                        "IntoIterator" | "Debug" | "Display" => {}
                        _ => if traits.contains(&n) { let mut b = b.clone(); Types.visit_type_param_bound_mut(&mut b); keep.push(b) },
                    }
                }
                TypeParamBound::Lifetime(_) => keep.push(b.clone()),
                _ => {}
            }
        }
        if !on_type {
            if sy { keep.push(parse_quote!(Sym)); } else if cl { keep.push(parse_quote!(VClone)); }
        }
        tp.bounds = keep;
        if tp.bounds.is_empty() { tp.colon_token = None; }
    }
}

struct KeyParams<'a> { keys: &'a HashSet<(String, usize)>, found: HashSet<String> }
impl<'a, 'b> syn::visit::Visit<'b> for KeyParams<'a> {
    fn visit_path(&mut self, p: &'b Path) {
        if let Some(s) = p.segments.last() {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let tys = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None });
                for (k, t) in tys.enumerate() {
                    if self.keys.contains(&(s.ident.to_string(), k)) {
                        struct All<'c>(&'c mut HashSet<String>);
                        impl<'c, 'b> syn::visit::Visit<'b> for All<'c> { fn visit_ident(&mut self, i: &'b Ident) { self.0.insert(i.to_string()); } }
                        syn::visit::Visit::visit_type(&mut All(&mut self.found), t);
                    }
                }
            }
        }
        syn::visit::visit_path(self, p);
    }
}
