//! Items nested in function bodies (functions, constants, statics) move to the module; a static cell becomes an opaque constant.
use quote::ToTokens;
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn atomic(t: &Type) -> Option<Type> {
    let s = match t { Type::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None };
    let p = match s.as_str() {
        "AtomicBool" => "bool", "AtomicU8" => "u8", "AtomicU16" => "u16", "AtomicU32" => "u32", "AtomicU64" => "u64", "AtomicUsize" => "usize",
        _ => return None,
    };
    parse_str(p).ok()
}

/// a static of a cell type: an opaque constant; any other immutable static: a constant
fn static_item(s: &ItemStatic) -> Option<Item> {
    if !matches!(s.mutability, StaticMutability::None) { return None; }
    let (n, ty, e) = (&s.ident, &s.ty, &s.expr);
    Some(if let Some(p) = atomic(ty) {
        parse_quote!(#[verifier::external_body] pub const #n: crate::vx::VxCell<#p> = crate::vx::VxCell(::core::marker::PhantomData);)
    } else {
        parse_quote!(pub const #n: #ty = #e;)
    })
}

struct Lift { names: HashSet<String>, out: Vec<Item> }
impl VisitMut for Lift {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let Stmt::Item(it) = s else { keep.push(s); continue };
            let (n, lifted) = match &it {
                Item::Fn(f) => (f.sig.ident.to_string(), Some(it.clone())),
                Item::Const(c) if c.ident != "_" => (c.ident.to_string(), Some(it.clone())),
                Item::Static(st) => (st.ident.to_string(), static_item(st)),
                _ => (String::new(), None),
            };
            match lifted {
                Some(l) if self.names.insert(n) => self.out.push(l),
                _ => keep.push(Stmt::Item(it)),
            }
        }
        b.stmts = keep;
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if v.len() >= 2 && v[v.len() - 2] == "Ordering" && ["Relaxed", "SeqCst", "Acquire", "Release", "AcqRel"].contains(&v[v.len() - 1].as_str()) {
            *p = parse_quote!(crate::vx::VxOrdering);
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if i.attrs.iter().any(|a| a.path().to_token_stream().to_string() == "automatically_derived") { return; }
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_mod_mut(&mut self, _: &mut ItemMod) {}
}

pub fn hoist(items: &mut Vec<Item>) {
    let mut names: HashSet<String> = HashSet::new();
    for i in items.iter() {
        match i {
            Item::Fn(f) => { names.insert(f.sig.ident.to_string()); }
            Item::Const(c) => { names.insert(c.ident.to_string()); }
            Item::Static(c) => { names.insert(c.ident.to_string()); }
            Item::Use(u) => { let s = u.to_token_stream().to_string(); names.extend(s.split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string())); }
            _ => {}
        }
    }
    let mut l = Lift { names, out: vec![] };
    for i in items.iter_mut() {
        match i {
            Item::Mod(m) => if let Some((_, c)) = &mut m.content { hoist(c); },
            Item::Static(s) => if let Some(n) = static_item(s) { *i = n; },
            _ => l.visit_item_mut(i),
        }
    }
    items.extend(l.out);
}
