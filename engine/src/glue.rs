//! serde's derived code (`const _: () = { extern crate serde as _serde; impl .. }`): the items nested in it move to the module
//! under names of their own, paths into serde's re-exports become plain ones, `expecting` (an error message) goes, and the
//! contracts are generated from the struct declaration: its fields in declaration order, each by the codec of its type.
use quote::ToTokens;
use std::collections::HashMap;
use std::fmt::Write;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn seg(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

/// rename identifiers in a token stream
fn rename(t: proc_macro2::TokenStream, m: &HashMap<String, String>) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) => TokenTree::Ident(match m.get(&i.to_string()) { Some(n) => Ident::new(n, i.span()), None => i }),
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename(g.stream(), m)); n.set_span(g.span()); TokenTree::Group(n) }
        o => o,
    }).collect()
}

struct Lift { ty: String, n: usize, out: Vec<Item>, bad: bool }
impl VisitMut for Lift {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut m = HashMap::new();
        for s in &b.stmts {
            let Stmt::Item(it) = s else { continue };
            let id = match it { Item::Struct(x) => &x.ident, Item::Enum(x) => &x.ident, Item::Const(x) => &x.ident, _ => continue };
            m.insert(id.to_string(), format!("Vx{}{}{}", id.to_string().trim_start_matches('_'), self.ty, self.n));
            self.n += 1;
        }
        if m.is_empty() { return; }
        match parse2::<Block>(rename(b.to_token_stream(), &m)) { Ok(n) => *b = n, Err(_) => { self.bad = true; return; } }
        // a name used by items lifted earlier (an inner item that mentions an outer one)
        for it in self.out.iter_mut() { if let Ok(n) = parse2::<Item>(rename(it.to_token_stream(), &m)) { *it = n; } }
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s { Stmt::Item(it) => self.out.push(it), s => keep.push(s) }
        }
        b.stmts = keep;
    }
}

/// the crate's types have methods of the same name of their own
fn np_ren(p: &mut Path, n: &str) {
    let m = if n == "vx_serialize" { ("ser", "Serialize") } else { ("de", "Deserialize") };
    let (a, t, i) = (Ident::new(m.0, proc_macro2::Span::call_site()), Ident::new(m.1, proc_macro2::Span::call_site()), Ident::new(n, proc_macro2::Span::call_site()));
    let args = p.segments.last().unwrap().arguments.clone();
    *p = parse_quote!(crate::ext::serde::#a::#t::#i);
    p.segments.last_mut().unwrap().arguments = args;
}
struct Paths;
impl Paths {
    fn fix(p: &mut Path) {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if v[0] != "_serde" { return; }
        let last = p.segments.last().unwrap().clone();
        let l = last.ident.to_string();
        let n = v.len();
        let mut np: Path = if v[1].starts_with("__private") {
            match l.as_str() {
                "Ok" | "Err" | "Some" | "None" => { let i = &last; *p = parse_quote!(#i); return; }
                "PhantomData" => parse_quote!(::core::marker::PhantomData),
                "Option" => parse_quote!(::core::option::Option),
                "Result" => parse_quote!(::core::result::Result),
                _ => return,
            }
        } else {
            match (v[n - 2].as_str(), l.as_str()) {
                ("Serializer", _) | ("SerializeStruct", _) => { let i = &last; *p = parse_quote!(crate::ext::serde::ser::#i); return; }
                ("Deserializer", _) => { let i = &last; *p = parse_quote!(crate::ext::serde::de::#i); return; }
                (_, "Serialize") | (_, "Serializer") | (_, "SerializeStruct") => { let i = &last.ident; parse_quote!(crate::ext::serde::ser::#i) }
                ("Deserialize", "deserialize") => { np_ren(p, "vx_deserialize"); return; }
                ("Serialize", "serialize") => { np_ren(p, "vx_serialize"); return; }
                ("SeqAccess", _) | ("MapAccess", _) | ("Error", _) | ("Deserialize", _) => { let (a, i) = (&p.segments[n - 2], &last.ident); parse_quote!(crate::ext::serde::de::#a::#i) }
                _ => { let i = &last.ident; parse_quote!(crate::ext::serde::de::#i) }
            }
        };
        np.segments.last_mut().unwrap().arguments = last.arguments;
        *p = np;
    }
}
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if !p.segments.is_empty() { Paths::fix(p); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Option::map(x, |w| w.value) and Option::is_some(&x) as method calls
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if v.len() == 4 && v[0] == "_serde" && (v[2] == "Option" || v[2] == "Result") {
                    let m = &p.path.segments[3].ident;
                    let a: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                    let mut r = c.args[0].clone();
                    if let Expr::Reference(x) = &r { r = (*x.expr).clone(); }
                    if let (Some(w), "Option") = (proj(&m.to_string(), &a), v[2].as_str()) { *e = parse_quote!(match (#r) { Some(vx_w) => Some(vx_w.#w), None => None }); }
                    else { *e = parse_quote!((#r).#m(#(#a),*)); }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = p.path.segments.len();
        visit_mut::visit_expr_path_mut(self, p);
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position = q.position + p.path.segments.len() - n; } }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        if let Some(q) = &mut p.qself { if q.position > 0 { q.position = q.position + p.path.segments.len() - n; } }
    }
}
/// `|w| w.field` handed to Option::map
fn proj(m: &str, a: &[Expr]) -> Option<Member> {
    let [Expr::Closure(c)] = a else { return None };
    let (Pat::Ident(i), Expr::Field(f)) = (c.inputs.first()?, &*c.body) else { return None };
    match &*f.base { Expr::Path(p) if m == "map" && p.path.is_ident(&i.ident) => Some(f.member.clone()), _ => None }
}

#[derive(Clone)]
enum Kind { El(String), Sc(String), Nested }
fn kind(t: &Type, locals: &HashMap<String, ItemStruct>) -> Option<Kind> {
    match t {
        Type::Path(p) => {
            let g = p.qself.as_ref().map(|q| ts(&q.ty));
            match (seg(&p.path).as_str(), g) {
                ("Elem", Some(g)) => Some(Kind::El(g)),
                ("Scalar", Some(g)) => Some(Kind::Sc(g)),
                (x, None) if locals.contains_key(x) && DERIVED.with(|d| d.borrow().contains(x)) => Some(Kind::Nested),
                _ => None,
            }
        }
        _ => None,
    }
}

pub struct Gen { pub text: String, pub notes: Vec<String> }

/// (field, kind) in declaration order
fn fields(s: &ItemStruct, locals: &HashMap<String, ItemStruct>) -> Option<Vec<(String, Type, Kind)>> {
    s.fields.iter().enumerate().map(|(i, f)| Some((f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone(), kind(&f.ty, locals)?))).collect()
}
fn structs(items: &[Item], out: &mut HashMap<String, ItemStruct>) {
    for i in items {
        match i {
            Item::Struct(s) => { out.insert(s.ident.to_string(), s.clone()); }
            Item::Mod(m) => if let Some((_, c)) = &m.content { structs(c, out) },
            _ => {}
        }
    }
}
const DE: &str = "crate::ext::serde::de";
const SER: &str = "crate::ext::serde::ser";
fn bytes(k: &Kind, x: &str) -> String {
    match k {
        Kind::El(g) => format!("{SER}::Tok::Bytes(ser_el::<{g}>({x}))"),
        Kind::Sc(g) => format!("{SER}::Tok::Bytes(ser_sc::<{g}>({x}))"),
        Kind::Nested => format!("{SER}::Serialize::tok(&{x})"),
    }
}
fn good(k: &Kind, t: &Type, x: &str) -> String {
    match k {
        Kind::El(g) => format!("{x} != ident::<{g}>()"),
        Kind::Sc(g) => format!("{x} != szero::<{g}>()"),
        Kind::Nested => format!("{}::vx_good({x})", turbo(t)),
    }
}
fn turbo(t: &Type) -> String { ts(t).replacen('<', "::<", 1).replace(" ", "") }
fn acc(k: &Kind, t: &Type, d: &str, v: &str) -> String {
    match k {
        Kind::El(g) => format!("{DE}::acc_el::<{g}, _>({d}, {v})"),
        Kind::Sc(g) => format!("{DE}::acc_sc::<{g}, _>({d}, {v})"),
        Kind::Nested => format!("<{} as {DE}::Deserialize>::acc({d}, {v})", ts(t)),
    }
}
fn rej(k: &Kind, t: &Type, d: &str) -> String {
    match k {
        Kind::El(g) => format!("{DE}::rej_el::<{g}, _>({d})"),
        Kind::Sc(g) => format!("{DE}::rej_sc::<{g}, _>({d})"),
        Kind::Nested => format!("<{} as {DE}::Deserialize>::rej({d})", ts(t)),
    }
}

fn tparams(g: &Generics) -> Vec<String> { g.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect() }

fn contracts(it: &Item, s: &ItemStruct, locals: &HashMap<String, ItemStruct>, out: &mut String) -> Option<()> {
    let Item::Impl(im) = it else { return Some(()) };
    let tr = seg(&im.trait_.as_ref()?.1);
    let Type::Path(p) = &*im.self_ty else { return None };
    let ty = seg(&p.path);
    let fs = fields(s, locals)?;
    let own = ty == s.ident.to_string();
    let newtype = matches!(s.fields, Fields::Unnamed(_)) && fs.len() == 1;
    let gens = tparams(&im.generics);
    let sig = |m: &str, ps: &str| -> Option<(String, ImplItemFn)> {
        let f = im.items.iter().find_map(|x| match x { ImplItem::Fn(f) if f.sig.ident == m => Some(f.clone()), _ => None })?;
        let g: Vec<String> = gens.iter().cloned().chain(tparams(&f.sig.generics)).collect();
        let _ = ps;
        let a: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
        Some((format!("fn {ty}:{tr}::{m} <{}> ({})\n", g.join(", "), a.join(", ")), f))
    };
    let arg0 = |f: &ImplItemFn| f.sig.inputs.iter().find_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None });
    match tr.as_str() {
        "Serialize" => {
            let (h, f) = sig("serialize", "")?;
            let a = arg0(&f)?;
            let tok = if own {
                let body = ts(&f.block);
                if fs.len() == 1 && !body.contains("serialize_newtype_struct") && !body.contains("serialize_struct") { bytes(&fs[0].2, &format!("self.{}", fs[0].0)) } // transparent
                else if newtype { format!("{SER}::Tok::Newtype(Box::new({}))", bytes(&fs[0].2, "self.0")) }
                else { format!("{SER}::Tok::Fields(seq![{}])", fs.iter().zip(names(&s.ident.to_string(), fs.len())?).map(|((n, _, k), nm)| format!("(\"{nm}\", {})", bytes(k, &format!("self.{n}")))).collect::<Vec<_>>().join(", ")) }
            } else {
                // __SerializeWith { values: (&T,), .. }
                let w = locals.get(&ty)?;
                let vt = w.fields.iter().find(|f| f.ident.as_ref().map_or(false, |i| i == "values"))?;
                let Type::Tuple(t) = &vt.ty else { return None };
                let Type::Reference(r) = t.elems.first()? else { return None };
                bytes(&kind(&r.elem, locals)?, "*self.values.0")
            };
            writeln!(out, "inject impl Serialize for {ty} {{\n  open spec fn tok(&self) -> {SER}::Tok {{ {tok} }}\n}}").unwrap();
            write!(out, "{}", h.replace("::serialize ", "::vx_serialize ")).unwrap();
            writeln!(out, "  ens [C11] $r is Ok ==> {SER}::emitted(${a}.id(), {SER}::Serialize::tok(self), $r->Ok_0)").unwrap();
            if own && !newtype { writeln!(out, "  start {{\n    assert(forall|a: (&'static str, {SER}::Tok), b: (&'static str, {SER}::Tok)| Seq::empty().push(a).push(b) =~= seq![a, b]);\n  }}").unwrap(); }
            writeln!(out, "end").unwrap();
        }
        "Deserialize" => {
            let (h, f) = sig("deserialize", "")?;
            let a = arg0(&f)?;
            let (ac, rj) = if own {
                ("Self::vx_good(v)".to_string(), "true".to_string())
            } else if let Some(w) = locals.get(&ty) {
                let vt = w.fields.iter().find(|f| f.ident.as_ref().map_or(false, |i| i == "value"))?;
                let k = kind(&vt.ty, locals)?;
                (acc(&k, &vt.ty, "d", "v.value"), rej(&k, &vt.ty, "d"))
            } else { (format!("v.vx_key() == {DE}::key_of(d)"), format!("{DE}::key_bad(d)")) };
            writeln!(out, "inject impl Deserialize for {ty} {{\n  open spec fn acc<VxD: {DE}::Deserializer<'de>>(d: VxD, v: Self) -> bool {{ {ac} }}\n  open spec fn rej<VxD: {DE}::Deserializer<'de>>(d: VxD) -> bool {{ {rj} }}\n}}").unwrap();
            write!(out, "{}", h.replace("::deserialize ", "::vx_deserialize ")).unwrap();
            writeln!(out, "  ens [C11] $r is Ok ==> <Self as {DE}::Deserialize>::acc(${a}, $r->Ok_0)\n  ens [C11] $r is Err ==> <Self as {DE}::Deserialize>::rej(${a})\nend").unwrap();
        }
        "Visitor" => {
            let vt = im.items.iter().find_map(|x| match x { ImplItem::Type(t) if t.ident == "Value" => Some(t.ty.clone()), _ => None })?;
            let Type::Path(vp) = &vt else { return None };
            if seg(&vp.path) != s.ident.to_string() {
                writeln!(out, "inject impl Visitor for {ty} {{\n  open spec fn good(v: Self::Value) -> bool {{ true }}\n  open spec fn key(k: int, v: Self::Value) -> bool {{ v.vx_key() == k }}\n}}").unwrap();
                if let (Some((h, f)), Some(ns)) = (sig("visit_str", ""), names(&s.ident.to_string(), fs.len())) {
                    let a = arg0(&f)?;
                    write!(out, "{h}").unwrap();
                    for (i, nm) in ns.iter().enumerate() { writeln!(out, "  ens [C11] ${a} == \"{nm}\" ==> $r is Ok && $r->Ok_0.vx_key() == {i}").unwrap(); }
                    writeln!(out, "end").unwrap();
                }
                if let Some((h, f)) = sig("visit_u64", "") {
                    let a = arg0(&f)?;
                    write!(out, "{h}").unwrap();
                    for i in 0..fs.len() { writeln!(out, "  ens [C11] ${a} == {i} ==> $r is Ok && $r->Ok_0.vx_key() == {i}").unwrap(); }
                    writeln!(out, "end").unwrap();
                }
                return Some(());
            }
            writeln!(out, "inject impl Visitor for {ty} {{\n  open spec fn good(v: Self::Value) -> bool {{ {}::vx_good(v) }}\n  open spec fn key(k: int, v: Self::Value) -> bool {{ true }}\n}}", turbo(&vt)).unwrap();
            if let Some((h, f)) = sig("visit_newtype_struct", "") {
                let a = arg0(&f)?;
                writeln!(out, "{h}  ens [C11] $r is Ok ==> {}\n  ens [C11] $r is Err ==> {}\nend", acc(&fs[0].2, &fs[0].1, &format!("${a}"), &format!("$r->Ok_0.{}", fs[0].0)), rej(&fs[0].2, &fs[0].1, &format!("${a}"))).unwrap();
            }
            if let Some((h, f)) = sig("visit_seq", "") {
                let a = arg0(&f)?;
                write!(out, "{h}").unwrap();
                let n = fs.len();
                writeln!(out, "  ens [C11] $r is Ok ==> ${a}.rest().len() >= {n}").unwrap();
                let mut rj = vec![format!("${a}.broken()"), format!("${a}.rest().len() < {n}")];
                for (i, (m, t, k)) in fs.iter().enumerate() {
                    let d = format!("${a}.rest()[{i}]");
                    writeln!(out, "  ens [C11] $r is Ok ==> {}", acc(k, t, &d, &format!("$r->Ok_0.{m}"))).unwrap();
                    rj.push(rej(k, t, &d));
                }
                writeln!(out, "  ens [C11] $r is Err ==> {}", rj.join(" || ")).unwrap();
                // what was written natively field by field is read back as the same value
                if fs.iter().all(|f| !matches!(f.2, Kind::Nested)) {
                    let y: Vec<String> = fs.iter().enumerate().map(|(i, (m, _, k))| match k { Kind::El(g) => format!("{DE}::yields_el::<{g}, _>(${a}.rest()[{i}], v.{m})"), Kind::Sc(g) => format!("{DE}::yields_sc::<{g}, _>(${a}.rest()[{i}], v.{m})"), _ => String::new() }).collect();
                    writeln!(out, "  ens [C11] forall|v: {}| #[trigger] {}::vx_good(v) && ${a}.rest().len() >= {n} && !${a}.broken() && {} ==> $r is Ok && $r->Ok_0 == v", ts(&vt), turbo(&vt), y.join(" && ")).unwrap();
                }
                writeln!(out, "end").unwrap();
            }
            if let Some((h, f)) = sig("visit_map", "") {
                let a = arg0(&f)?;
                writeln!(out, "{h}  attr verifier::exec_allows_no_decreases_clause").unwrap();
                let key = |m: &str, j: &str, i: usize| format!("{DE}::key_of({m}.ents()[{j}].0) == {i}");
                // each field comes from an entry of its name, by its codec
                for (i, (m, t, k)) in fs.iter().enumerate() {
                    let ac = |m: &str, v: &str| format!("(exists|j: int| 0 <= j < {m}.ents().len() && {} && {})", key(m, "j", i).replacen("ents()[j]", "ents()[j]", 1), acc(k, t, &format!("(#[trigger] {m}.ents()[j]).1"), v));
                    writeln!(out, "  ens [C11] $r is Ok ==> {}\n  ens [C11] $r is Ok ==> {}", good(k, t, &format!("$r->Ok_0.{m}")), ac(&format!("${a}"), &format!("$r->Ok_0.{m}"))).unwrap();
                }
                // refused only for a reason
                let m = format!("${a}");
                let mut why = vec![format!("{m}.broken()"), format!("(exists|j: int| 0 <= j < {m}.ents().len() && {DE}::key_bad((#[trigger] {m}.ents()[j]).0))"), format!("(exists|j: int| 0 <= j < {m}.ents().len() && {DE}::ignored_bad((#[trigger] {m}.ents()[j]).1))")];
                for (i, (_, t, k)) in fs.iter().enumerate() {
                    why.push(format!("(exists|j: int| 0 <= j < {m}.ents().len() && {} && {})", key(&m, "j", i), rej(k, t, &format!("(#[trigger] {m}.ents()[j]).1"))));
                    why.push(format!("(exists|j: int, l: int| 0 <= j < l < {m}.ents().len() && {DE}::key_of((#[trigger] {m}.ents()[j]).0) == {i} && {DE}::key_of((#[trigger] {m}.ents()[l]).0) == {i})"));
                    why.push(format!("(forall|j: int| 0 <= j < {m}.ents().len() ==> {DE}::key_of((#[trigger] {m}.ents()[j]).0) != {i})"));
                }
                writeln!(out, "  ens [C11] $r is Err ==> {}", why.join("\n    || ")).unwrap();
                writeln!(out, "  start {{\n    let ghost vx_m0 = {a};\n  }}").unwrap();
                let vs: Vec<String> = (0..fs.len()).map(|i| format!("__field{i}")).collect();
                writeln!(out, "  loop ({})", vs.join(", ")).unwrap();
                writeln!(out, "    inv [C11] {a}.ents() == vx_m0.ents() && {a}.broken() == vx_m0.broken() && 0 <= {a}.at() <= vx_m0.ents().len()\n    ens [C11] {a}.at() == vx_m0.ents().len()").unwrap();
                for (i, (v, (_, t, k))) in vs.iter().zip(&fs).enumerate() {
                    writeln!(out, "    inv [C11] {v} is Some ==> {}", good(k, t, &format!("{v}->0"))).unwrap();
                    writeln!(out, "    inv [C11] {v} is Some ==> (exists|j: int| 0 <= j < {a}.at() && {} && {})", key("vx_m0", "j", i), acc(k, t, "(#[trigger] vx_m0.ents()[j]).1", &format!("{v}->0"))).unwrap();
                    writeln!(out, "    inv [C11] {v} is None ==> (forall|j: int| 0 <= j < {a}.at() ==> {DE}::key_of((#[trigger] vx_m0.ents()[j]).0) != {i})").unwrap();
                }
                writeln!(out, "  end\nend").unwrap();
            }
        }
        _ => {}
    }
    Some(())
}

fn one(items: &[Item], locals: &HashMap<String, ItemStruct>, n: &mut HashMap<String, usize>, c: &ItemConst) -> Option<(Vec<Item>, String)> {
    let Expr::Block(b) = &*c.expr else { return None };
    if !b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::ExternCrate(x)) if x.ident == "serde")) { return None; }
    let im = b.block.stmts.iter().find_map(|s| match s { Stmt::Item(Item::Impl(i)) => Some(i.clone()), _ => None })?;
    let Type::Path(p) = &*im.self_ty else { return None };
    let s = locals.get(&seg(&p.path))?.clone();
    let _ = items;
    fields(&s, locals)?;
    let mut l = Lift { ty: s.ident.to_string(), n: n.get(&s.ident.to_string()).copied().unwrap_or(0), out: vec![], bad: false };
    let mut im = im;
    l.visit_item_impl_mut(&mut im);
    n.insert(s.ident.to_string(), l.n);
    if l.bad { return None; }
    let mut out = l.out;
    out.push(Item::Impl(im));
    let mut locals = locals.clone();
    structs(&out, &mut locals);
    let mut text = String::new();
    for it in out.iter_mut() {
        Paths.visit_item_mut(it);
        if let Item::Impl(i) = it {
            i.attrs = vec![parse_quote!(#[vx_glue])];
            let tr = i.trait_.as_ref().map(|t| seg(&t.1)).unwrap_or_default();
            if tr == "Visitor" {
                i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == "expecting" || f.sig.ident == "visit_bytes"));
            }
        }
        if let Item::Enum(e) = it {
            let arms: Vec<String> = e.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}", e.ident, v.ident, if v.ident.to_string().starts_with("__field") { i.to_string() } else { "-1".into() })).collect();
            writeln!(text, "inject enum {} {{\n  pub open spec fn vx_key(self) -> int {{ match self {{ {} }} }}\n}}", e.ident, arms.join(", ")).unwrap();
        }
        if let Item::Const(k) = it { k.attrs = vec![parse_quote!(#[verifier::external_body])]; }
        if let Item::Struct(k) = it { k.attrs.clear(); }
        contracts(it, &s, &locals, &mut text)?;
        if let Item::Impl(i) = it {
            if i.trait_.as_ref().map_or(false, |t| ["Serialize", "Deserialize"].contains(&seg(&t.1).as_str())) {
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x { if ["serialize", "deserialize"].contains(&f.sig.ident.to_string().as_str()) { f.sig.ident = Ident::new(&format!("vx_{}", f.sig.ident), proc_macro2::Span::call_site()); } }
                }
            }
        }
    }
    Some((out, text))
}

/// the field names a derived serialize writes, in order
struct Written(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Written {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let (Expr::Path(p), Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. }))) = (&*c.func, c.args.iter().nth(1)) {
            if seg(&p.path) == "serialize_field" { self.0.push(l.value()); }
        }
        syn::visit::visit_expr_call(self, c);
    }
}
fn names(ty: &str, n: usize) -> Option<Vec<String>> { NAMES.with(|x| x.borrow().get(ty).cloned()).filter(|x| x.len() == n && x.iter().all(|s| !s.contains(['"', '\\']))) }
thread_local! { static NAMES: std::cell::RefCell<HashMap<String, Vec<String>>> = Default::default(); }
thread_local! { static DERIVED: std::cell::RefCell<std::collections::HashSet<String>> = Default::default(); }
/// the types with both impls derived
fn derived(items: &[Item], n: &mut HashMap<String, usize>) {
    for i in items {
        match i {
            Item::Const(c) => if let Expr::Block(b) = &*c.expr {
                for s in &b.block.stmts {
                    if let Stmt::Item(Item::Impl(im)) = s {
                        if let (Some(t), Type::Path(p)) = (&im.trait_, &*im.self_ty) {
                            if seg(&t.1) == "Serialize" {
                                let mut w = Written(vec![]);
                                syn::visit::Visit::visit_item_impl(&mut w, im);
                                NAMES.with(|n| n.borrow_mut().insert(seg(&p.path), w.0));
                            }
                            if ["Serialize", "Deserialize"].contains(&seg(&t.1).as_str()) { *n.entry(seg(&p.path)).or_default() += 1; }
                        }
                    }
                }
            },
            Item::Mod(m) => if let Some((_, c)) = &m.content { derived(c, n) },
            _ => {}
        }
    }
}
pub fn glue(items: &mut Vec<Item>) -> Gen {
    let mut locals = HashMap::new();
    structs(items, &mut locals);
    let mut cnt = HashMap::new();
    derived(items, &mut cnt);
    DERIVED.with(|d| d.borrow_mut().extend(cnt.into_iter().filter(|x| x.1 == 2).map(|x| x.0)));
    let mut g = Gen { text: String::new(), notes: vec![] };
    let mut n = HashMap::new();
    let mut done = std::collections::HashSet::new();
    walk(items, &locals, &mut n, &mut g, &mut done);
    g
}
fn walk(items: &mut Vec<Item>, locals: &HashMap<String, ItemStruct>, n: &mut HashMap<String, usize>, g: &mut Gen, done: &mut std::collections::HashSet<String>) {
    let mut add = vec![];
    for i in items.iter() {
        let Item::Const(c) = i else { continue };
        if c.ident != "_" { continue; }
        if let Some((its, t)) = one(items, locals, n, c) {
            add.extend(its);
            g.text.push_str(&t);
        }
    }
    // the types with a Deserialize impl: what a valid value is
    for i in &add {
        let Item::Impl(im) = i else { continue };
        let Type::Path(p) = &*im.self_ty else { continue };
        let ty = seg(&p.path);
        let Some(s) = locals.get(&ty) else { continue };
        if seg(&im.trait_.as_ref().unwrap().1) != "Deserialize" || !done.insert(ty.clone()) { continue; }
        let Some(fs) = fields(s, locals) else { continue };
        let e: Vec<String> = fs.iter().map(|(m, t, k)| good(k, t, &format!("v.{m}"))).collect();
        g.notes.push(ty.clone());
        writeln!(g.text, "inject struct {ty} {{\n  pub open spec fn vx_good(v: Self) -> bool {{ {} }}\n}}", e.join(" && ")).unwrap();
    }
    items.extend(add);
    for i in items.iter_mut() {
        if let Item::Mod(m) = i { if let Some((_, c)) = &mut m.content { walk(c, locals, n, g, done); } }
    }
}
