//! Passes over the parsed sources before anything else: constants are put in place of their names, names of
//! private fields and of parameters of trait methods go back to those the contracts were written for, and
//! `derive(Clone)` is written out where the contracts know the impl.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Snapshot = BTreeMap<String, (usize, String, Vec<String>)>;
pub type Mods<'a> = Vec<(String, &'a mut File)>;

fn text(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}
fn join(module: &str, name: &str) -> String {
    if module.is_empty() { name.to_string() } else { format!("{}::{}", module, name) }
}
fn scalar(t: &Type) -> bool {
    matches!(text(t).as_str(), "f32" | "f64" | "usize" | "isize" | "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" | "bool")
}

// ---------------------------------------------------------------- constants

#[derive(Default)]
struct Consts {
    /// (module, name) -> value
    free: HashMap<(String, String), Expr>,
    by_name: HashMap<String, Vec<String>>,
    /// (type, name) -> value
    assoc: HashMap<(String, String), Expr>,
    module: String,
    self_ty: String,
    n: usize,
}

fn value(e: &Expr, t: &Type) -> Expr {
    let ty = text(t);
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty() && !ty.starts_with('f') => {
            let l = LitInt::new(&format!("{}{}", i, ty), i.span());
            parse_quote!(#l)
        }
        Expr::Lit(ExprLit { lit: Lit::Float(i), .. }) if i.suffix().is_empty() => {
            let l = LitFloat::new(&format!("{}{}", i, ty), i.span());
            parse_quote!(#l)
        }
        Expr::Lit(_) | Expr::Path(_) => e.clone(),
        e => parse_quote!((#e)),
    }
}

impl Consts {
    fn free_of(&self, name: &str) -> Option<Expr> {
        let v = self.by_name.get(name)?;
        let m = if v.contains(&self.module) { &self.module } else if v.len() == 1 { &v[0] } else { return None };
        self.free.get(&(m.clone(), name.to_string())).cloned()
    }
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.push(n.into());
                }
                TokenTree::Ident(id) => {
                    let before = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == ':' || p.as_char() == '.');
                    let after = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':');
                    match self.free_of(&id.to_string()) {
                        Some(e) if !before && !after => {
                            self.n += 1;
                            let e: Expr = parse_quote!((#e));
                            out.extend(e.to_token_stream());
                        }
                        _ => out.push(t.clone()),
                    }
                }
                t => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }
}

impl VisitMut for Consts {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if let Type::Path(p) = &*i.self_ty {
            self.self_ty = p.path.segments.last().unwrap().ident.to_string();
        }
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = s.last().unwrap().clone();
                let mut r = None;
                if s.len() >= 2 {
                    let t = if s[s.len() - 2] == "Self" { self.self_ty.clone() } else { s[s.len() - 2].clone() };
                    r = self.assoc.get(&(t, last.clone())).cloned();
                }
                let std = ["f32", "f64", "std", "core"].contains(&s[0].as_str());
                if r.is_none() && !std && (s.len() == 1 || ["self", "super", "crate"].contains(&s[0].as_str())) {
                    r = self.free_of(&last);
                }
                if let Some(x) = r {
                    self.n += 1;
                    *e = x;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

pub fn inline_consts(mods: &mut Mods) {
    let mut c = Consts::default();
    for (path, file) in mods.iter() {
        for it in &file.items {
            let (name, ty, e) = match it {
                Item::Const(k) => (k.ident.to_string(), &k.ty, &k.expr),
                Item::Static(k) if matches!(k.mutability, StaticMutability::None) => (k.ident.to_string(), &k.ty, &k.expr),
                Item::Impl(im) => {
                    if let Type::Path(p) = &*im.self_ty {
                        let t = p.path.segments.last().unwrap().ident.to_string();
                        for i in &im.items {
                            if let ImplItem::Const(k) = i {
                                if scalar(&k.ty) {
                                    c.assoc.insert((t.clone(), k.ident.to_string()), value(&k.expr, &k.ty));
                                }
                            }
                        }
                    }
                    continue;
                }
                _ => continue,
            };
            if scalar(ty) {
                c.free.insert((path.clone(), name.clone()), value(e, ty));
                c.by_name.entry(name).or_default().push(path.clone());
            }
        }
    }
    if c.free.is_empty() && c.assoc.is_empty() {
        return;
    }
    for _ in 0..6 {
        c.n = 0;
        for (path, file) in mods.iter_mut() {
            c.module = path.clone();
            for it in file.items.iter_mut() {
                c.visit_item_mut(it);
            }
        }
        if c.n == 0 {
            break;
        }
    }
}

// ---------------------------------------------------------------- names of fields and parameters

struct FieldNames(HashMap<String, String>);
impl FieldNames {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.push(n.into());
                }
                TokenTree::Ident(id) => {
                    let dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.') && !(i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == '.'));
                    let call = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                    match self.0.get(&id.to_string()) {
                        Some(n) if dot && !call => out.push(format_ident!("{}", n).into()),
                        _ => out.push(t.clone()),
                    }
                }
                t => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }
    fn member(&self, m: &mut Member) -> bool {
        if let Member::Named(i) = m {
            if let Some(n) = self.0.get(&i.to_string()) {
                *i = Ident::new(n, i.span());
                return true;
            }
        }
        false
    }
}
impl VisitMut for FieldNames {
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        self.member(&mut f.member);
        visit_mut::visit_expr_field_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if self.member(&mut f.member) && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if self.member(&mut f.member) && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

fn params(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(p) => text(&p.pat),
        })
        .collect()
}

/// lines of the snapshot for the names these passes restore
pub fn record(mods: &Mods, snap: &mut Snapshot) {
    for (path, file) in mods.iter() {
        for it in &file.items {
            match it {
                Item::Struct(s) => {
                    let v: Vec<String> = s.fields.iter().map(|f| format!("{}:{}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), text(&f.ty))).collect();
                    snap.insert(format!("struct {}", join(path, &s.ident.to_string())), (v.len(), String::new(), v));
                }
                Item::Trait(t) => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            let v = params(&f.sig);
                            snap.insert(format!("trait {}::{}", join(path, &t.ident.to_string()), f.sig.ident), (v.len(), String::new(), v));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn restore_names(mods: &mut Mods, snap: &Snapshot) {
    let mut map: HashMap<String, String> = HashMap::new();
    let mut clash: HashSet<String> = HashSet::new();
    let mut owners: HashMap<String, usize> = HashMap::new();
    for (_, file) in mods.iter() {
        for it in &file.items {
            if let Item::Struct(s) = it {
                for f in &s.fields {
                    if let Some(i) = &f.ident {
                        *owners.entry(i.to_string()).or_default() += 1;
                    }
                }
            }
        }
    }
    for (path, file) in mods.iter() {
        for it in &file.items {
            if let Item::Struct(s) = it {
                let Some((_, _, old)) = snap.get(&format!("struct {}", join(path, &s.ident.to_string()))) else { continue };
                let cur: Vec<(String, String)> = s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), text(&f.ty))).collect();
                let old: Vec<(String, String)> = old.iter().filter_map(|x| x.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
                let gone: Vec<&(String, String)> = old.iter().filter(|o| !cur.iter().any(|c| c.0 == o.0)).collect();
                let new: Vec<&(String, String)> = cur.iter().filter(|c| !old.iter().any(|o| o.0 == c.0)).collect();
                if gone.len() != new.len() {
                    continue;
                }
                for (g, n) in gone.iter().zip(new.iter()) {
                    if g.1 != n.1 || n.0.is_empty() {
                        continue;
                    }
                    match map.insert(n.0.clone(), g.0.clone()) {
                        Some(p) if p != g.0 => {
                            clash.insert(n.0.clone());
                        }
                        _ => {}
                    }
                    *owners.get_mut(&n.0).unwrap() -= 1;
                }
            }
        }
    }
    // a name that other structs use as well cannot be told apart without types
    map.retain(|k, _| !clash.contains(k) && owners.get(k) == Some(&0));
    if !map.is_empty() {
        let mut r = FieldNames(map.clone());
        for (_, file) in mods.iter_mut() {
            for it in file.items.iter_mut() {
                if let Item::Struct(s) = it {
                    for f in s.fields.iter_mut() {
                        if let Some(i) = f.ident.as_mut() {
                            if let Some(n) = map.get(&i.to_string()) {
                                *i = Ident::new(n, i.span());
                            }
                        }
                    }
                }
                r.visit_item_mut(it);
            }
        }
    }
    // parameters in the declarations of trait methods (without a body their names mean nothing)
    for (path, file) in mods.iter_mut() {
        for it in file.items.iter_mut() {
            if let Item::Trait(t) = it {
                let tn = join(path, &t.ident.to_string());
                for i in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = i {
                        if f.default.is_some() {
                            continue;
                        }
                        if let Some((n, _, old)) = snap.get(&format!("trait {}::{}", tn, f.sig.ident)) {
                            if *n == f.sig.inputs.len() {
                                for (a, o) in f.sig.inputs.iter_mut().zip(old) {
                                    if let FnArg::Typed(p) = a {
                                        if let (Pat::Ident(i), false) = (&mut *p.pat, o == "self") {
                                            i.ident = Ident::new(o, i.ident.span());
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- derive(Clone)

/// `#[derive(Clone)]` on a struct whose Clone impl the contracts know: the impl the derive stands for
pub fn derived_clone(mods: &mut Mods, known: &dyn Fn(&str) -> bool) {
    for (path, file) in mods.iter_mut() {
        let mut new: Vec<Item> = vec![];
        for it in &file.items {
            if let Item::Struct(s) = it {
                let derives = s.attrs.iter().any(|a| a.path().is_ident("derive") && text(a).trim_end_matches(")]").split(|c: char| !c.is_alphanumeric()).any(|w| w == "Clone"));
                let Fields::Named(n) = &s.fields else { continue };
                if derives && known(&join(path, &format!("<{} as Clone>::clone", s.ident))) {
                    let id = &s.ident;
                    let mut g = s.generics.clone();
                    for p in g.type_params_mut() {
                        p.bounds.push(parse_quote!(Clone));
                    }
                    let (ig, tg, wh) = g.split_for_impl();
                    let fs: Vec<&Ident> = n.named.iter().map(|f| f.ident.as_ref().unwrap()).collect();
                    new.push(parse_quote!(impl #ig Clone for #id #tg #wh { fn clone(&self) -> Self { #id { #(#fs: self.#fs.clone()),* } } }));
                }
            }
        }
        file.items.extend(new);
    }
}
