//! Behaviour-preserving rewrites of a whole source file, one kind at a time (developer tool: the
//! checks have to stay quiet on the result).  rf KIND FILE prints the rewritten file.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Rf {
    kind: String,
    n: usize,
    depth: usize,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}
fn text(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
/// no draw, no call that could change something
fn pure(e: &impl ToTokens) -> bool {
    let s = text(e);
    !["sample", "(& mut", "mutation", "cross", "create", "push", "pop", "next", "gen", "return", "?", "mut self", "can_stop", "drain", "append"].iter().any(|w| s.contains(w))
}
fn negate(e: &Expr) -> Expr {
    match e {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Paren(p) => negate(&p.expr),
        e => parse_quote!(!(#e)),
    }
}
fn has_control(t: &impl ToTokens) -> bool {
    let s = text(t);
    ["return", "break", "continue", "?"].iter().any(|w| s.contains(w))
}

struct Rename(HashMap<String, Ident>);
impl VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) {
                p.path = n.clone().into();
            }
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let (Member::Named(m), Expr::Path(p)) = (&f.member, &mut f.expr) {
                if let Some(n) = self.0.get(&m.to_string()) {
                    p.path = n.clone().into();
                    f.colon_token = Some(Default::default());
                    return;
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let s: proc_macro2::TokenStream = m
            .tokens
            .clone()
            .into_iter()
            .map(|t| match &t {
                proc_macro2::TokenTree::Ident(i) => self.0.get(&i.to_string()).map(|n| proc_macro2::TokenTree::Ident(n.clone())).unwrap_or(t),
                _ => t,
            })
            .collect();
        m.tokens = s;
    }
}
#[derive(Default)]
struct Locals(Vec<String>);
impl<'a> visit::Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !s.starts_with(char::is_uppercase) {
            self.0.push(s);
        }
    }
}

impl Rf {
    fn fresh(&mut self, base: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("{}_{}", base, self.n), Span::call_site())
    }
    fn is(&self, k: &str) -> bool {
        self.kind == k
    }
    fn block(&mut self, b: &mut Block, ret: bool) {
        let stmts = std::mem::take(&mut b.stmts);
        let last = stmts.len().wrapping_sub(1);
        let mut out: Vec<Stmt> = vec![];
        for (k, s) in stmts.into_iter().enumerate() {
            match s {
                // let x = call(args) -> the arguments first
                Stmt::Local(mut l) if self.is("hoist-args") => {
                    if let Some(i) = &mut l.init {
                        if let Expr::MethodCall(m) = &mut *i.expr {
                            for a in m.args.iter_mut() {
                                if matches!(a, Expr::MethodCall(_) | Expr::Binary(_) | Expr::Call(_)) && pure(a) && pure(&m.receiver) {
                                    let v = self.fresh("arg");
                                    out.push(parse_quote!(let #v = #a;));
                                    *a = parse_quote!(#v);
                                }
                            }
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Local(l) if self.is("let-twice") => {
                    if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                        if i.diverge.is_none() && p.by_ref.is_none() && !matches!(&*i.expr, Expr::Closure(_) | Expr::Reference(_)) {
                            let v = self.fresh("value");
                            let e = &i.expr;
                            out.push(parse_quote!(let #v = #e;));
                            out.push(parse_quote!(let #p = #v;));
                            continue;
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(Expr::MethodCall(mut m), semi) if self.is("hoist-args") => {
                    for a in m.args.iter_mut() {
                        if matches!(a, Expr::MethodCall(_) | Expr::Binary(_) | Expr::Call(_)) && pure(a) {
                            let v = self.fresh("arg");
                            out.push(parse_quote!(let #v = #a;));
                            *a = parse_quote!(#v);
                        }
                    }
                    out.push(Stmt::Expr(Expr::MethodCall(m), semi));
                }
                // the tail gets a name
                Stmt::Expr(e, None) if self.is("name-tail") && k == last && ret && !matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Reference(_)) => {
                    let v = self.fresh("result");
                    out.push(parse_quote!(let #v = #e;));
                    out.push(Stmt::Expr(parse_quote!(#v), None));
                }
                Stmt::Expr(e, None) if self.is("return-tail") && k == last && ret && !matches!(e, Expr::While(_) | Expr::ForLoop(_)) => {
                    out.push(parse_quote!(return #e;));
                }
                Stmt::Expr(Expr::If(i), None) if self.is("early-return") && k == last && ret && i.else_branch.is_some() => {
                    let c = &i.cond;
                    let t = &i.then_branch.stmts;
                    let pre = &t[..t.len() - 1];
                    let e = match t.last() {
                        Some(Stmt::Expr(e, None)) => e.clone(),
                        _ => {
                            out.push(Stmt::Expr(Expr::If(i), None));
                            continue;
                        }
                    };
                    out.push(parse_quote!(if #c { #(#pre)* return #e; }));
                    match &*i.else_branch.as_ref().unwrap().1 {
                        Expr::Block(b) => out.extend(b.block.stmts.clone()),
                        e => out.push(Stmt::Expr(e.clone(), None)),
                    }
                }
                // guard: if c { return a; } rest -> if c { a } else { rest }
                Stmt::Expr(Expr::ForLoop(f), semi) if self.is("for-while") => {
                    if let (Pat::Ident(p), Expr::Range(r)) = (&*f.pat, &*f.expr) {
                        if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            if !text(&f.body).contains("continue") {
                                let body = &f.body.stmts;
                                let i = &p.ident;
                                out.push(parse_quote!(let mut #i = #lo;));
                                out.push(parse_quote!(while #i < #hi { #(#body)* #i += 1; }));
                                continue;
                            }
                        }
                    }
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                Stmt::Expr(Expr::ForLoop(f), semi) if self.is("for-each") => {
                    if !has_control(&f.body) && f.label.is_none() {
                        let (p, b) = (&f.pat, &f.body);
                        let it: Expr = match &*f.expr {
                            Expr::Range(r) => parse_quote!((#r)),
                            Expr::Reference(r) if r.mutability.is_some() => {
                                let e = &r.expr;
                                parse_quote!(#e.iter_mut())
                            }
                            Expr::Reference(r) => {
                                let e = &r.expr;
                                parse_quote!(#e.iter())
                            }
                            e @ Expr::MethodCall(_) => e.clone(),
                            e => parse_quote!(#e.into_iter()),
                        };
                        out.push(parse_quote!(#it.for_each(|#p| #b);));
                        continue;
                    }
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                Stmt::Expr(Expr::ForLoop(mut f), semi) if self.is("explicit-iter") => {
                    if let Expr::Reference(r) = &*f.expr {
                        let e = &r.expr;
                        f.expr = if r.mutability.is_some() { parse_quote!(#e.iter_mut()) } else { parse_quote!(#e.iter()) };
                    }
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                // two neighbouring lets that do not depend on each other
                s => out.push(s),
            }
        }
        if self.is("guard-else") && ret && self.depth == 0 {
            if let Some(k) = out.iter().position(|s| matches!(s, Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))))) {
                let rest = out.split_off(k + 1);
                if let Some(Stmt::Expr(Expr::If(i), _)) = out.pop() {
                    let mut t = i.then_branch.stmts.clone();
                    if let Some(Stmt::Expr(Expr::Return(r), _)) = t.pop() {
                        let c = &i.cond;
                        let e = r.expr;
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* #e } else { #(#rest)* }), None));
                    }
                }
            }
        }
        if self.is("noop") && !out.is_empty() {
            out.insert(0, parse_quote!(let _ = ();));
        }
        if self.is("swap-lets") {
            let mut k = 0;
            while k + 1 < out.len() {
                if let (Stmt::Local(a), Stmt::Local(b)) = (&out[k], &out[k + 1]) {
                    if let (Pat::Ident(x), Pat::Ident(y), Some(i), Some(j)) = (&a.pat, &b.pat, &a.init, &b.init) {
                        let words = |e: &Expr| -> Vec<String> { text(e).split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|s| s.to_string()).collect() };
                        if pure(&i.expr) && pure(&j.expr) && !words(&j.expr).contains(&x.ident.to_string()) && !words(&i.expr).contains(&y.ident.to_string()) {
                            out.swap(k, k + 1);
                            k += 2;
                            continue;
                        }
                    }
                }
                k += 1;
            }
        }
        b.stmts = out;
    }
    fn function(&mut self, sig: &Signature, b: &mut Block) {
        let ret = !matches!(sig.output, ReturnType::Default);
        if self.is("rename") {
            let mut l = Locals::default();
            visit::Visit::visit_block(&mut l, b);
            let m: HashMap<String, Ident> = l.0.into_iter().filter(|x| x != "self").map(|x| (x.clone(), Ident::new(&format!("{}_x", x.trim_start_matches('_')), Span::call_site()))).collect();
            Rename(m).visit_block_mut(b);
            return;
        }
        if self.is("rename-short") {
            // single letters, the same ones the contracts use
            let mut l = Locals::default();
            visit::Visit::visit_block(&mut l, b);
            let mut m: HashMap<String, Ident> = HashMap::new();
            let letters = ["t", "p", "r", "o", "q", "m", "k", "s", "x", "y", "a", "b", "c", "d", "e", "f", "g", "h", "u", "v", "w", "z"];
            let params: Vec<String> = sig.inputs.iter().map(|a| text(a)).collect();
            let mut it = letters.iter().filter(|c| !params.iter().any(|p| p.split_whitespace().next() == Some(c)));
            for x in l.0 {
                if x != "self" && !m.contains_key(&x) {
                    if let Some(c) = it.next() {
                        m.insert(x, Ident::new(c, Span::call_site()));
                    }
                }
            }
            Rename(m).visit_block_mut(b);
            return;
        }
        self.depth = 0;
        self.block(b, ret);
        self.depth = 1;
        visit_mut::visit_block_mut(self, b);
    }
}

impl VisitMut for Rf {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !is_test(&m.attrs) {
            visit_mut::visit_item_mod_mut(self, m);
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if is_test(&f.attrs) {
            return;
        }
        let s = f.sig.clone();
        if self.is("helper-all") && !s.inputs.is_empty() {
            return;
        }
        self.function(&s, &mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let s = f.sig.clone();
        self.function(&s, &mut f.block);
    }
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        if self.is("helper") && im.trait_.is_none() {
            // every method delegates to a private one
            let mut extra = vec![];
            for i in im.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    let names: Vec<Ident> = f
                        .sig
                        .inputs
                        .iter()
                        .filter_map(|a| match a {
                            FnArg::Typed(p) => match &*p.pat {
                                Pat::Ident(i) => Some(i.ident.clone()),
                                _ => None,
                            },
                            _ => None,
                        })
                        .collect();
                    let recv = f.sig.receiver().is_some();
                    let mut g = f.clone();
                    g.vis = Visibility::Inherited;
                    g.sig.ident = Ident::new(&format!("do_{}", f.sig.ident), Span::call_site());
                    let n = &g.sig.ident;
                    for a in f.sig.inputs.iter_mut() {
                        match a {
                            FnArg::Typed(p) => {
                                if let Pat::Ident(i) = &mut *p.pat {
                                    i.mutability = None;
                                }
                            }
                            FnArg::Receiver(r) => {
                                if r.reference.is_none() {
                                    r.mutability = None;
                                }
                            }
                        }
                    }
                    f.block = if recv { parse_quote!({ self.#n(#(#names),*) }) } else { parse_quote!({ Self::#n(#(#names),*) }) };
                    extra.push(ImplItem::Fn(g));
                }
            }
            im.items.extend(extra);
            return;
        }
        if self.is("helper-trait") && im.trait_.is_some() {
            // trait methods delegate to inherent ones
            if !matches!(&*im.self_ty, Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident != "Vec") {
                return;
            }
            return;
        }
        visit_mut::visit_item_impl_mut(self, im);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if self.is("closure-block") && !matches!(&*c.body, Expr::Block(_)) {
            let e = &c.body;
            *c.body = parse_quote!({ #e });
        }
        if self.is("closure-let") && !matches!(&*c.body, Expr::Block(_)) {
            let e = &c.body;
            let v = self.fresh("made");
            *c.body = parse_quote!({ let #v = #e; #v });
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, false);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) if self.is("flip-compare") && pure(b) => {
                let (l, r) = (&b.left, &b.right);
                let x: Option<Expr> = match b.op {
                    BinOp::Lt(_) => Some(parse_quote!(#r > #l)),
                    BinOp::Gt(_) => Some(parse_quote!(#r < #l)),
                    BinOp::Le(_) => Some(parse_quote!(#r >= #l)),
                    BinOp::Ge(_) => Some(parse_quote!(#r <= #l)),
                    BinOp::Eq(_) => Some(parse_quote!(#r == #l)),
                    BinOp::Ne(_) => Some(parse_quote!(#r != #l)),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = if text(&x).contains("as") { return } else { x };
                }
            }
            Expr::Binary(b) if self.is("commute") && pure(b) => {
                let (l, r) = (&b.left, &b.right);
                let par = |e: &Expr| -> Expr {
                    if matches!(e, Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_)) {
                        parse_quote!((#e))
                    } else {
                        e.clone()
                    }
                };
                let (l, r) = (par(l), par(r));
                match b.op {
                    BinOp::Add(_) => *e = parse_quote!(#r + #l),
                    BinOp::Mul(_) => *e = parse_quote!(#r * #l),
                    _ => {}
                }
            }
            Expr::Binary(b) if self.is("op-assign") => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::AddAssign(_) => *e = parse_quote!(#l = #l + #r),
                    BinOp::SubAssign(_) => *e = parse_quote!(#l = #l - #r),
                    BinOp::MulAssign(_) => *e = parse_quote!(#l = #l * #r),
                    _ => {}
                }
            }
            Expr::Binary(b) if self.is("demorgan") => {
                let (l, r) = (negate(&b.left), negate(&b.right));
                match b.op {
                    BinOp::And(_) if !text(b).contains("let ") => *e = parse_quote!(!(#l || #r)),
                    BinOp::Or(_) => *e = parse_quote!(!(#l && #r)),
                    _ => {}
                }
            }
            Expr::If(i) if self.is("swap-branches") && i.else_branch.is_some() && !matches!(&*i.cond, Expr::Let(_)) => {
                let c = negate(&i.cond);
                let t = &i.then_branch;
                let f = &i.else_branch.as_ref().unwrap().1;
                let f: Expr = if matches!(&**f, Expr::Block(_)) { (**f).clone() } else { parse_quote!({ #f }) };
                *e = parse_quote!(if #c #f else #t);
            }
            Expr::If(i) if self.is("cond-let") && !matches!(&*i.cond, Expr::Let(_)) => {
                let c = &i.cond;
                let t = &i.then_branch;
                let v = self.fresh("flag");
                let els = i.else_branch.as_ref().map(|(_, x)| quote!(else #x));
                *e = syn::parse2(quote!({ let #v = #c; if #v #t #els })).unwrap();
            }
            Expr::If(i) if self.is("if-match") && i.else_branch.is_some() && !matches!(&*i.cond, Expr::Let(_)) => {
                let (c, t, f) = (&i.cond, &i.then_branch, &i.else_branch.as_ref().unwrap().1);
                *e = parse_quote!(match #c { true => #t, false => #f });
            }
            Expr::Match(m) if self.is("match-iflet") && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let none = m.arms.iter().position(|a| text(&a.pat) == "None" || text(&a.pat) == "_");
                if let Some(k) = none {
                    let (p, a, b) = (&m.arms[1 - k].pat, &m.arms[1 - k].body, &m.arms[k].body);
                    let s = &m.expr;
                    *e = parse_quote!(if let #p = #s { #a } else { #b });
                }
            }
            Expr::If(i) if self.is("iflet-match") => {
                if let (Expr::Let(l), els) = (&*i.cond, &i.else_branch) {
                    let (p, s, t) = (&l.pat, &l.expr, &i.then_branch);
                    let f: Expr = match els {
                        Some((_, f)) => (**f).clone(),
                        None => parse_quote!({}),
                    };
                    *e = parse_quote!(match #s { #p => #t, _ => #f });
                }
            }
            Expr::Macro(m) if self.is("vec-new") && text(&m.mac) == "vec ! []" => *e = parse_quote!(Vec::new()),
            Expr::Call(c) if self.is("vec-new") && text(&c.func).ends_with("with_capacity") && pure(&c.args) => *e = parse_quote!(Vec::new()),
            Expr::Call(c) if self.is("with-capacity") && text(&c.func) == "Vec :: new" => *e = parse_quote!(Vec::with_capacity(4)),
            Expr::Macro(m) if self.is("with-capacity") && text(&m.mac) == "vec ! []" => *e = parse_quote!(Vec::with_capacity(4)),
            Expr::MethodCall(m) if self.is("is-empty") && false => {
                let _ = m;
            }
            Expr::Binary(b) if self.is("is-empty") => {
                if let (BinOp::Eq(_), Expr::MethodCall(m), Expr::Lit(_)) = (&b.op, &*b.left, &*b.right) {
                    if m.method == "len" && text(&b.right) == "0" && !text(&m.receiver).contains("population") {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.is_empty());
                    }
                }
            }
            Expr::MethodCall(m) if self.is("len-zero") && m.method == "is_empty" => {
                let r = &m.receiver;
                *e = parse_quote!((#r.len() == 0));
            }
            Expr::MethodCall(m) if self.is("iter-into") && m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!((&#r).into_iter());
            }
            Expr::MethodCall(m) if self.is("clone-full") && m.method == "clone" => {
                let r = &m.receiver;
                *e = parse_quote!(Clone::clone(&#r));
            }
            Expr::MethodCall(m) if self.is("unwrap-expect") && m.method == "unwrap" => {
                let r = &m.receiver;
                *e = parse_quote!(#r.expect("a value"));
            }
            Expr::MethodCall(m) if self.is("unwrap-match") && m.method == "unwrap" => {
                let r = &m.receiver;
                *e = parse_quote!(match #r { Some(inner) => inner, None => panic!("no value") });
            }
            Expr::Struct(s) if self.is("struct-order") && s.rest.is_none() && s.fields.len() > 1 && pure(&s.fields) => {
                let mut f: Vec<FieldValue> = s.fields.iter().cloned().collect();
                f.reverse();
                s.fields = f.into_iter().collect();
            }
            Expr::MethodCall(m) if self.is("map-collect-loop") && m.method == "collect" => {
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "map" {
                        if let Some(Expr::Closure(c)) = mm.args.first() {
                            if c.inputs.len() == 1 && !has_control(&c.body) {
                                let (r, p, b) = (&mm.receiver, &c.inputs[0], &c.body);
                                let v = self.fresh("items");
                                *e = parse_quote!({ let mut #v = Vec::new(); for #p in #r { #v.push(#b); } #v });
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) if self.is("fold-loop") && m.method == "fold" && m.args.len() == 2 => {
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() == 2 && !has_control(&c.body) {
                        let (r, init, a, x, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.inputs[1], &c.body);
                        let v = self.fresh("total");
                        *e = parse_quote!({ let mut #v = #init; for #x in #r { let #a = #v; #v = #b; } #v });
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let mut r = Rf { kind: a[1].clone(), n: 0, depth: 0 };
    r.visit_file_mut(&mut f);
    structural(&a[1], &mut f);
    println!("{}", f.to_token_stream());
}

/// the receiver/`Self` spelled with the type's name; items in another order; one impl block per method
fn structural(kind: &str, f: &mut File) {
    let rest = |i: &Item| matches!(i, Item::Fn(_) | Item::Impl(_) | Item::Struct(_) | Item::Trait(_));
    match kind {
        "item-order" => {
            let (mut a, b): (Vec<Item>, Vec<Item>) = f.items.drain(..).partition(|i| rest(i));
            a.reverse();
            for i in a.iter_mut() {
                if let Item::Impl(i) = i {
                    i.items.reverse();
                }
                if let Item::Trait(i) = i {
                    i.items.reverse();
                }
                if let Item::Struct(i) = i {
                    if let Fields::Named(n) = &mut i.fields {
                        let mut x: Vec<Field> = n.named.iter().cloned().collect();
                        x.reverse();
                        n.named = x.into_iter().collect();
                    }
                }
            }
            f.items = b.into_iter().chain(a).collect();
        }
        "split-impl" => {
            let mut out = vec![];
            for i in f.items.drain(..) {
                match i {
                    Item::Impl(i) if i.trait_.is_none() => {
                        for m in &i.items {
                            let mut j = i.clone();
                            j.items = vec![m.clone()];
                            out.push(Item::Impl(j));
                        }
                    }
                    i => out.push(i),
                }
            }
            f.items = out;
        }
        "self-type" => {
            for i in f.items.iter_mut() {
                if let Item::Impl(i) = i {
                    let ty = (*i.self_ty).clone();
                    struct V(Type);
                    impl VisitMut for V {
                        fn visit_type_mut(&mut self, t: &mut Type) {
                            if text(t) == "Self" {
                                *t = self.0.clone();
                                return;
                            }
                            visit_mut::visit_type_mut(self, t);
                        }
                        fn visit_path_mut(&mut self, p: &mut Path) {
                            if p.segments.len() > 1 && p.segments[0].ident == "Self" && matches!(p.segments.len(), 2) {
                                if let Type::Path(t) = &self.0 {
                                    p.segments[0].ident = t.path.segments.last().unwrap().ident.clone();
                                }
                            } else if p.segments.len() == 1 && p.segments[0].ident == "Self" {
                                if let Type::Path(t) = &self.0 {
                                    p.segments[0].ident = t.path.segments.last().unwrap().ident.clone();
                                }
                            }
                            visit_mut::visit_path_mut(self, p);
                        }
                    }
                    V(ty).visit_item_impl_mut(i);
                }
            }
        }
        "generic-name" => {
            struct V;
            impl VisitMut for V {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "T" {
                        *i = Ident::new("Item", i.span());
                    } else if i == "G" {
                        *i = Ident::new("Real", i.span());
                    }
                }
            }
            V.visit_file_mut(f);
        }
        "where" => {
            struct V;
            impl VisitMut for V {
                fn visit_generics_mut(&mut self, g: &mut Generics) {
                    let mut preds: Vec<WherePredicate> = vec![];
                    for p in g.params.iter_mut() {
                        if let GenericParam::Type(t) = p {
                            if !t.bounds.is_empty() {
                                let (i, b) = (&t.ident, &t.bounds);
                                preds.push(parse_quote!(#i: #b));
                                t.bounds.clear();
                                t.colon_token = None;
                            }
                        }
                    }
                    if !preds.is_empty() {
                        let w = g.make_where_clause();
                        for p in preds {
                            w.predicates.push(p);
                        }
                    }
                }
            }
            V.visit_file_mut(f);
        }
        "vec-slice" => {
            // private and local functions take &[T]
            for i in f.items.iter_mut() {
                if let Item::Impl(i) = i {
                    if i.trait_.is_some() {
                        continue;
                    }
                    for m in i.items.iter_mut() {
                        if let ImplItem::Fn(m) = m {
                            if !matches!(m.vis, Visibility::Inherited) {
                                continue;
                            }
                            for a in m.sig.inputs.iter_mut() {
                                if let FnArg::Typed(t) = a {
                                    if let Type::Reference(r) = &mut *t.ty {
                                        if r.mutability.is_none() {
                                            if let Type::Path(p) = &*r.elem {
                                                let l = p.path.segments.last().unwrap();
                                                if l.ident == "Vec" {
                                                    if let PathArguments::AngleBracketed(x) = &l.arguments {
                                                        let e = x.args.first().unwrap();
                                                        *r.elem = parse_quote!([#e]);
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
