//! vx: produces the Verus text of the optlib crates from the current sources plus the contracts.
//!
//! usage: vx REPO CONTRACTS OUT.rs OUT.json [--demote KEY=REASON]... [--snapshot FILE] [--write-snapshot FILE]
mod bv;
mod contracts;
mod norm;
mod tx;
use contracts::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::fold::Fold;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use tx::*;

struct ModSrc {
    path: String,
    file: File,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") && !s.contains("not")
        }
    })
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        _ => &[],
    }
}

/// Drops the statements that do nothing: `let _ = ();`, `let _ = 0;`, `let _x = 0;` where _x is not
/// used again, `();`, `{}`, `assert!(true);`.
/// A `return` in tail position becomes the value, a name given to the value of the function just
/// before it is returned goes away.
struct NoOps;

fn tidy_tail(b: &mut Block, whole: bool) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        if let Some(e) = &r.expr {
            let e = (**e).clone();
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(e, None));
        } else if whole {
            b.stmts.pop();
        }
    }
    // let x = E; x
    let n = b.stmts.len();
    if n >= 2 {
        if let (Stmt::Local(l), Stmt::Expr(Expr::Path(p), None)) = (&b.stmts[n - 2], &b.stmts[n - 1]) {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if init.diverge.is_none() && i.by_ref.is_none() && i.subpat.is_none() && p.path.is_ident(&i.ident) {
                    let e = (*init.expr).clone();
                    b.stmts.truncate(n - 2);
                    b.stmts.push(Stmt::Expr(e, None));
                }
            }
        }
    }
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => tidy_tail_expr(e),
        _ => {}
    }
}

fn tidy_tail_expr(e: &mut Expr) {
    match e {
        Expr::If(i) if i.else_branch.is_some() => {
            tidy_tail(&mut i.then_branch, false);
            tidy_tail_expr(&mut i.else_branch.as_mut().unwrap().1);
        }
        Expr::Block(b) if b.label.is_none() => tidy_tail(&mut b.block, false),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                if let Expr::Return(r) = &*a.body {
                    if let Some(x) = &r.expr {
                        a.body = x.clone();
                    }
                }
                tidy_tail_expr(&mut a.body);
            }
        }
        _ => {}
    }
}

impl VisitMut for NoOps {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.visit_block_mut(&mut f.block);
        if !matches!(f.sig.output, ReturnType::Default) {
            tidy_tail(&mut f.block, false);
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.visit_block_mut(&mut f.block);
        if !matches!(f.sig.output, ReturnType::Default) {
            tidy_tail(&mut f.block, false);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        fn constant(e: &Expr) -> bool {
            match e {
                Expr::Lit(_) => true,
                Expr::Tuple(t) => t.elems.iter().all(constant),
                Expr::Paren(p) => constant(&p.expr),
                Expr::Unary(u) => constant(&u.expr),
                Expr::Binary(x) => matches!(&*x.left, Expr::Lit(_)) && matches!(&*x.right, Expr::Lit(_)) && matches!(x.op, BinOp::Add(_) | BinOp::Eq(_) | BinOp::Lt(_)),
                Expr::Block(x) => x.block.stmts.is_empty() && x.label.is_none(),
                _ => false,
            }
        }
        let n = b.stmts.len();
        let keep: Vec<bool> = b
            .stmts
            .iter()
            .enumerate()
            .map(|(k, s)| match s {
                Stmt::Local(l) => {
                    let e = match &l.init {
                        Some(i) if i.diverge.is_none() => &*i.expr,
                        _ => return true,
                    };
                    let mut pat = &l.pat;
                    if let Pat::Type(t) = pat {
                        pat = &t.pat;
                    }
                    match pat {
                        Pat::Wild(_) => !constant(e),
                        Pat::Ident(p) if p.ident.to_string().starts_with('_') => {
                            let rest: proc_macro2::TokenStream = b.stmts[k + 1..].iter().map(|s| s.to_token_stream()).collect();
                            !constant(e) || word_set(&rest.to_string()).contains(&p.ident.to_string())
                        }
                        _ => true,
                    }
                }
                Stmt::Expr(e, semi) => {
                    let unit = match e {
                        Expr::Tuple(t) => t.elems.is_empty(),
                        Expr::Block(x) => x.block.stmts.is_empty() && x.label.is_none() && x.attrs.is_empty(),
                        _ => false,
                    };
                    !(unit && (semi.is_some() || k + 1 < n))
                }
                Stmt::Macro(m) => !((m.mac.path.is_ident("assert") || m.mac.path.is_ident("debug_assert")) && m.mac.tokens.to_string() == "true"),
                _ => true,
            })
            .collect();
        let mut it = keep.iter();
        b.stmts.retain(|_| *it.next().unwrap());
    }
}

fn load_mod(dir: &std::path::Path, file: &std::path::Path, path: &str, out: &mut Vec<ModSrc>) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("vx: cannot read {:?}: {}", file, e);
        std::process::exit(3)
    });
    let f = match parse_file(&text) {
        Ok(mut f) => {
            NoOps.visit_file_mut(&mut f);
            f
        }
        Err(e) => {
            eprintln!("vx: cannot parse {:?}: {}", file, e);
            std::process::exit(3)
        }
    };
    let mut subs = vec![];
    for i in &f.items {
        if let Item::Mod(m) = i {
            if m.content.is_none() && !is_test(&m.attrs) {
                subs.push(m.ident.to_string());
            }
        }
    }
    out.push(ModSrc { path: path.to_string(), file: f });
    for s in subs {
        let p = if path.is_empty() { s.clone() } else { format!("{}::{}", path, s) };
        let a = dir.join(&s).join("mod.rs");
        let b = dir.join(format!("{}.rs", s));
        let file = if a.exists() { a } else { b };
        load_mod(&dir.join(&s), &file, &p, out);
    }
}

fn ty_str(t: &impl ToTokens) -> String {
    squeeze(&t.to_token_stream().to_string())
}

fn join(module: &str, name: &str) -> String {
    if module.is_empty() { name.to_string() } else { format!("{}::{}", module, name) }
}

fn self_key(t: &Type) -> String {
    // identifier of a plain type, whole text for foreign containers
    match type_ident(t) {
        Some(i) if i != "Vec" => i,
        _ => ty_str(t),
    }
}

fn impl_keys(module: &str, im: &ItemImpl) -> Vec<String> {
    let st = self_key(&im.self_ty);
    match &im.trait_ {
        None => vec![join(module, &st)],
        Some((_, p, _)) => {
            let full = ty_str(p);
            let mut p2 = p.clone();
            p2.segments.last_mut().unwrap().arguments = PathArguments::None;
            let short = p2.segments.last().unwrap().ident.to_string();
            vec![join(module, &format!("<{} as {}>", st, full)), join(module, &format!("<{} as {}>", st, short))]
        }
    }
}

fn lookup<'a, T>(m: &'a BTreeMap<String, T>, keys: &[String]) -> Option<(&'a String, &'a T)> {
    for k in keys {
        if let Some(kv) = m.get_key_value(k) {
            return Some(kv);
        }
    }
    None
}

// -------------------------------------------------------------------- printing

struct Printer<'a> {
    out: String,
    indent: usize,
    texts: &'a dyn Fn(&str) -> String,
    closure: &'a dyn Fn(usize) -> String,
}

impl<'a> Printer<'a> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
    }
    fn print(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            // markers
            if let TokenTree::Ident(id) = &toks[i] {
                if id == "__vx" && i + 2 < toks.len() {
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let s: LitStr = parse2(g.stream()).unwrap();
                        let text = (self.texts)(&s.value());
                        let is_inv = s.value().starts_with("inv ");
                        let is_expr = s.value() == "valid";
                        i += 3;
                        if is_expr {
                            self.out.push_str(&text);
                            continue;
                        }
                        if let Some(TokenTree::Punct(p)) = toks.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        if !text.trim().is_empty() {
                            if is_inv {
                                // goes before the brace just printed
                                let pos = self.out.rfind('{').unwrap();
                                self.out.truncate(pos);
                                self.out.push('\n');
                                self.out.push_str(&text);
                                self.out.push_str("\n{");
                                self.nl();
                            } else {
                                self.nl();
                                self.out.push_str(&text);
                                self.nl();
                            }
                        }
                        continue;
                    }
                }
                if id == "__vx_closure" && i + 2 < toks.len() {
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let s: LitStr = parse2(inner[0].clone().into()).unwrap();
                        let k: usize = s.value().split(' ').nth(1).unwrap().parse().unwrap();
                        let head = (self.closure)(k);
                        self.out.push_str(&head);
                        self.out.push(' ');
                        self.print(inner[1].clone().into());
                        i += 3;
                        continue;
                    }
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let brace = g.delimiter() == Delimiter::Brace;
                    self.out.push_str(a);
                    if brace {
                        self.indent += 1;
                        self.nl();
                    }
                    self.print(g.stream());
                    if brace {
                        self.indent -= 1;
                        self.nl();
                    }
                    while self.out.ends_with(' ') && !brace {
                        self.out.pop();
                    }
                    self.out.push_str(b);
                    if brace {
                        // `}` followed by else/./)/,/; stays on the line
                        let stay = match toks.get(i + 1) {
                            Some(TokenTree::Ident(x)) => x == "else",
                            Some(TokenTree::Punct(_)) => true,
                            _ => false,
                        };
                        if stay { self.out.push(' ') } else { self.nl() }
                    } else {
                        self.out.push(' ');
                    }
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                TokenTree::Ident(id) => {
                    let _ = write!(self.out, "{} ", id);
                }
                TokenTree::Literal(l) => {
                    let _ = write!(self.out, "{} ", l);
                }
            }
            i += 1;
        }
    }
}

fn rename_words(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let cs: Vec<char> = text.chars().collect();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    // open delimiters: a brace after a type name opens a struct literal; `pipe` is set between the bars of a binder list
    let mut open: Vec<(char, bool)> = vec![];
    let mut pipe = false;
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if w(c) {
            let mut j = i;
            while j < cs.len() && w(cs[j]) {
                j += 1;
            }
            let word: String = cs[i..j].iter().collect();
            match map.get(&word) {
                Some(n) => {
                    let t = out.trim_end();
                    let next = cs[j..].iter().position(|c| !c.is_whitespace()).map(|k| j + k);
                    let sep = next.map_or(' ', |k| cs[k]);
                    let colon = sep == ':' && next.map_or(true, |k| cs.get(k + 1) != Some(&':'));
                    let in_literal = open.last().map_or(false, |o| o.1) && !pipe && (t.ends_with('{') || t.ends_with(','));
                    if t.ends_with('.') && !t.ends_with("..") || t.ends_with("->") || in_literal && colon {
                        // a field or method name
                        out.push_str(&word);
                    } else if in_literal && (sep == ',' || sep == '}') {
                        out.push_str(&format!("{}: {}", word, n));
                    } else {
                        out.push_str(n);
                    }
                }
                None => out.push_str(&word),
            }
            i = j;
            continue;
        }
        match c {
            '{' | '(' | '[' => {
                let t = out.trim_end();
                let name: String = t.chars().rev().take_while(|c| w(*c)).collect::<Vec<_>>().into_iter().rev().collect();
                open.push((c, c == '{' && name.starts_with(|c: char| c.is_ascii_uppercase())));
                pipe = false;
            }
            '}' | ')' | ']' => {
                open.pop();
                pipe = false;
            }
            '|' => {
                let double = cs.get(i + 1) == Some(&'|') || i > 0 && cs[i - 1] == '|';
                if !double {
                    pipe = !pipe;
                }
            }
            _ => {}
        }
        out.push(c);
        i += 1;
    }
    out
}

fn word_set(text: &str) -> HashSet<String> {
    let mut r = HashSet::new();
    let mut w = String::new();
    for c in text.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else if !w.is_empty() {
            r.insert(std::mem::take(&mut w));
        }
    }
    r
}

// -------------------------------------------------------------------- emission

struct FnOut {
    key: String,
    start: usize,
    end: usize,
    props: Vec<String>,
    status: String,
    notes: Vec<String>,
    loops: usize,
    kinds: String,
    reshaped: bool,
    binders: Vec<String>,
    module: String,
    vname: String,
}

struct Gen {
    contracts: Contracts,
    index: CrateIndex,
    out: String,
    fns: Vec<FnOut>,
    demote: HashMap<String, String>,
    snapshot: BTreeMap<String, (usize, String, Vec<String>)>,
    dropped: Vec<String>,
    lifted: Vec<String>,
    #[allow(clippy::type_complexity)]
    pending: Vec<(String, String, Vec<String>, String, Vec<String>, usize, String, bool, Vec<String>, String, String)>,
}

impl Gen {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn tokens(&mut self, ts: TokenStream) {
        let mut p = Printer { out: String::new(), indent: 0, texts: &|_| String::new(), closure: &|_| String::new() };
        p.print(ts);
        self.out.push_str(&p.out);
        self.out.push('\n');
    }

    /// Emits one function. `lift`: free function carrying the body of a trait method.
    #[allow(clippy::too_many_arguments)]
    fn emit_fn(&mut self, keys: &[String], sig: &Signature, block: Option<&Block>, self_ty: Option<&Type>, impl_generics: Option<&Generics>, in_trait_impl: bool, in_trait_decl: bool, module: &str) {
        let found = lookup(&self.contracts.fns, keys).map(|(k, c)| (k.clone(), c.clone()));
        let key = found.as_ref().map(|x| x.0.clone()).unwrap_or_else(|| keys[0].clone());
        if let Some(c) = self.contracts.fns.get_mut(&key) {
            c.used = true;
        }
        let contract = found.map(|x| x.1);
        let mut mode = contract.as_ref().map(|c| c.mode.clone()).unwrap_or_else(|| "none".into());
        if mode == "drop" {
            self.dropped.push(key.clone());
            return;
        }
        let mut c = contract.unwrap_or_default();
        // developer option: every function gets an obligation that must fail unless its contract is vacuous
        if let Ok(w) = std::env::var("VX_PROBE") {
            if (mode == "normal" || mode == "lift") && (block.is_some()) {
                let t = c.ats.entry(w).or_default();
                t.push_str("\nassert(false);\n");
            }
        }
        let mut status = "verified".to_string();
        let mut notes = vec![];
        let mut sig = sig.clone();
        // ---- fn pointer parameters become generic closures
        let mut extra = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(p) = a {
                if let Type::BareFn(f) = &*p.ty {
                    let g = format_ident!("F{}__", extra.len());
                    let ins: Vec<&Type> = f.inputs.iter().map(|x| &x.ty).collect();
                    let out = &f.output;
                    extra.push((g.clone(), quote!(Fn(#(#ins),*) #out)));
                    *p.ty = parse_quote!(#g);
                }
            }
        }
        for (g, b) in &extra {
            let b: TypeParamBound = parse2(b.clone()).unwrap();
            sig.generics.params.push(parse_quote!(#g: #b));
        }
        // ---- transform the body
        let mut user_while = HashMap::new();
        let mut auto_inv: HashMap<usize, Vec<String>> = HashMap::new();
        let mut closure_moves: HashMap<usize, (bool, String)> = HashMap::new();
        let mut binders = vec![];
        let mut loops = 0;
        let mut kinds = String::new();
        let mut reshaped = false;
        let mut body: Option<Block> = None;
        if let Some(b) = block {
            let mut tx = Tx::new(&self.index, self_ty.cloned(), module);
            tx.closure_specs = c.closures.keys().copied().collect();
            tx.has_valid = c.valid.is_some();
            let mut prologue: Vec<Stmt> = vec![];
            let mut b = b.clone();
            for a in sig.inputs.iter_mut() {
                match a {
                    FnArg::Receiver(r) => {
                        if r.mutability.is_some() && r.reference.is_none() {
                            r.mutability = None;
                            *r = parse_quote!(self);
                            prologue.push(parse_quote!(let mut self__ = self;));
                            RenameIdent { from: "self".into(), to: format_ident!("self__") }.visit_block_mut(&mut b);
                            if let Some(t) = self_ty {
                                tx.env.insert("self__".into(), t.clone());
                            }
                        } else if r.reference.is_some() {
                            let t = self_ty.cloned().unwrap_or(parse_quote!(Self));
                            tx.env.insert("self".into(), if r.mutability.is_some() { parse_quote!(&mut #t) } else { parse_quote!(&#t) });
                        }
                    }
                    FnArg::Typed(p) => {
                        if let Pat::Ident(i) = &mut *p.pat {
                            binders.push(i.ident.to_string());
                            tx.env.insert(i.ident.to_string(), (*p.ty).clone());
                            if i.mutability.is_some() {
                                i.mutability = None;
                                let id = &i.ident;
                                prologue.push(parse_quote!(let mut #id = #id;));
                            }
                        }
                    }
                }
            }
            let mut bs = Binders::default();
            bs.visit_block(&b);
            binders.extend(bs.0);
            // the value of the whole function is an early exit of its loop
            if let Some(Stmt::Expr(Expr::MethodCall(m), None)) = b.stmts.last_mut() {
                if (m.method == "any" || m.method == "all") && m.args.len() == 1 {
                    m.method = format_ident!("{}__tail", m.method);
                }
            }
            StringToText.visit_block_mut(&mut b);
            let fb = tx.fold_block(b);
            let no_prologue = prologue.is_empty();
            let mut st = prologue;
            st.push(marker("at entry"));
            let mut stmts = fb.stmts;
            // the whole body is a helper's
            while stmts.len() == 1 {
                let mut e = match &stmts[0] {
                    Stmt::Expr(e, _) => e.clone(),
                    _ => break,
                };
                while let Expr::Paren(p) = e {
                    e = *p.expr;
                }
                match e {
                    Expr::Block(b) if b.label.is_none() && !tx.inlined.is_empty() => stmts = b.block.stmts,
                    _ => break,
                }
            }
            if let Some((ty, text)) = c.bv.clone() {
                // text: `requires` lines, then `ensures` with __result
                let (pre, post) = text.split_once("ensures").unwrap_or(("", &text));
                let pre = pre.trim().trim_start_matches("requires").trim().trim_end_matches(',').to_string();
                let mut sy = bv::Sym { env: HashMap::new() };
                match if no_prologue { sy.block(&stmts, &bv::Ctx::Val(ty)) } else { None } {
                    Some(e) => {
                        let m: HashMap<String, String> = [("__result".to_string(), e.clone())].into_iter().collect();
                        let goal = rename_words(post.trim().trim_end_matches(','), &m);
                        let var = match stmts.last() {
                            Some(Stmt::Expr(Expr::Path(p), None)) => ty_str(&p.path),
                            _ => "__result".into(),
                        };
                        c.ats.entry("exit".into()).or_default().push_str(&format!("    assert({} == {});\n    assert({}) by (bit_vector) requires {};\n", var, e, goal, pre));
                    }
                    None => notes.push("lost anchor: the value is not one integer expression (not desugared)".into()),
                }
            }
            for n in tx.inlined.clone() {
                if !n.starts_with("__") && !binders.contains(&n) {
                    binders.push(n);
                }
            }
            let has_exit = c.ats.contains_key("exit");
            if has_exit {
                match stmts.last().cloned() {
                    Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                        stmts.pop();
                        st.extend(stmts);
                        if matches!(e, Expr::Path(_)) {
                            st.push(marker("at exit"));
                            st.push(Stmt::Expr(e, None));
                        } else {
                            st.push(parse_quote!(let __result = #e;));
                            st.push(marker("at exit"));
                            st.push(parse_quote!(return __result;));
                        }
                    }
                    Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx") => {
                        st.extend(stmts);
                        st.push(marker("at exit"));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        stmts.pop();
                        st.extend(stmts);
                        st.push(Stmt::Expr(e, Some(Default::default())));
                        st.push(marker("at exit"));
                    }
                    _ => {
                        st.extend(stmts);
                        st.push(marker("at exit"));
                    }
                }
            } else {
                st.extend(stmts);
            }
            body = Some(Block { brace_token: Default::default(), stmts: st });
            loops = tx.loops;
            kinds = tx.kinds.range(..loops).map(|(_, v)| v.as_str()).collect::<Vec<_>>().join(" ");
            // contracts of closures go by position
            if tx.closure_ops.iter().collect::<HashSet<_>>().len() > 1 {
                kinds = format!("{} closures:{}", kinds, tx.closure_ops.join(","));
            }
            user_while = tx.user_while.clone();
            closure_moves = tx.closure_bodies.clone();
            auto_inv = tx.auto_inv.clone();
            notes.extend(tx.notes.clone());
            if self.index.operators.contains(module) {
                notes.push("the module has new operator impls (not desugared)".into());
            }
        }
        // ---- renaming map of the contract text
        let mut map: HashMap<String, String> = HashMap::new();
        if let Some((sl, sk, sb)) = self.snapshot.get(&key) {
            reshaped = block.is_some() && *sk != kinds;
            let cur: HashSet<&String> = binders.iter().collect();
            let old: HashSet<&String> = sb.iter().collect();
            let mut missing: Vec<&String> = vec![];
            for b in sb {
                if !cur.contains(b) && !missing.contains(&b) {
                    missing.push(b);
                }
            }
            let mut fresh: Vec<&String> = vec![];
            for b in &binders {
                if !old.contains(b) && !fresh.contains(&b) {
                    fresh.push(b);
                }
            }
            if !missing.is_empty() && missing.len() == fresh.len() {
                for (a, b) in missing.iter().zip(fresh.iter()) {
                    map.insert((*a).clone(), (*b).clone());
                }
            }
            // ghost variables keep out of the way of locals the contract does not know
            for t in c.loops.values().chain(c.ats.values()) {
                for x in t.split("let ghost ").skip(1) {
                    let x = x.trim_start().trim_start_matches("mut ");
                    let n: String = x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if cur.contains(&n) && !old.contains(&n) {
                        map.insert(n.clone(), format!("{}__gh", n));
                    }
                }
            }
            if block.is_some() && *sl != loops && !c.loops.is_empty() {
                notes.push(format!("lost anchor: {} loops, the contract was written for {}", loops, sl));
                if mode == "normal" || mode == "lift" {
                    status = "undecided".into();
                }
            }
            if block.is_some() && status == "verified" && mode != "external" {
                let mut text = String::new();
                for t in c.loops.values().chain(c.ats.values()) {
                    text.push_str(t);
                }
                let words = word_set(&text);
                for m in &missing {
                    if words.contains(*m) && !map.contains_key(*m) {
                        notes.push(format!("lost anchor: local {} is gone", m));
                        status = "undecided".into();
                    }
                }
            }
        }
        for n in &notes {
            if n.contains("not desugared") && mode != "none" && mode != "external" {
                status = "undecided".into();
            }
        }
        for (k, (x, n)) in &user_while {
            map.insert(format!("__i{}", k), x.clone());
            map.insert(format!("__n{}", k), format!("({})", n));
        }
        if let Some(r) = self.demote.get(&key) {
            status = "undecided".into();
            notes.push(r.clone());
        }
        if mode == "external" {
            status = "external".into();
        }
        if mode == "none" {
            status = "no contract".into();
            mode = "external".into();
        }
        let external = status != "verified";
        let mut c = c;
        if c.ret.is_empty() {
            c.ret = "r".into();
        }
        // the result must not have the name of a parameter
        let named = |n: &str| sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(p) if matches!(&*p.pat, Pat::Ident(i) if i.ident == n)));
        if named(&c.ret) {
            let m = std::iter::once((c.ret.clone(), "__ret".to_string())).collect();
            c.spec = rename_words(&c.spec, &m);
            c.ret = "__ret".into();
        }
        let stub_ret = if named("r") { "__ret" } else { "r" };
        let lift = mode == "lift";
        // ---- signature
        let make_sig = |sig: &Signature, ret: &str| -> String {
            let mut g = sig.generics.clone();
            let wh = g.where_clause.take();
            let name = &sig.ident;
            let inputs = &sig.inputs;
            let mut s = format!("fn {}{}({})", name, squeeze_types(&g.to_token_stream()), squeeze_types(&inputs.to_token_stream()));
            if let ReturnType::Type(_, t) = &sig.output {
                let _ = write!(s, " -> ({}: {})", ret, squeeze_types(&t.to_token_stream()));
            }
            if let Some(w) = wh {
                let _ = write!(s, "\n{}", squeeze_types(&w.to_token_stream()));
            }
            s
        };
        let snapshot_fix = |t: &str| rename_words(t, &map);
        let valid = c.valid.as_ref().map(|v| format!("Ghost(({}))", snapshot_fix(v)));
        let start;
        let vname;
        if lift {
            // stub in the impl (contract inherited from the trait), body as a free function
            let _ = writeln!(self.out, "#[verifier::external_body]");
            let mut s2 = sig.clone();
            for a in s2.inputs.iter_mut() {
                if let FnArg::Typed(p) = a {
                    if let Pat::Ident(i) = &mut *p.pat {
                        i.mutability = None;
                    }
                }
            }
            let _ = writeln!(self.out, "{}\n{{ unimplemented!() }}", make_sig(&s2, stub_ret));
            self.lifted.push(key.clone());
            // free function text is produced by the caller after the impl
        }
        let mut fsig = sig.clone();
        let mut spec = snapshot_fix(&c.spec);
        let mut text = String::new();
        let mut pre_attrs = c.attrs.clone();
        if external && body.is_some() {
            pre_attrs.push_str("#[verifier::external_body]\n");
        }
        if lift {
            let tyname = self_key(self_ty.unwrap()).chars().filter(|c| c.is_alphanumeric()).collect::<String>();
            let st = self_ty.unwrap();
            let suffix = key.rsplit(" as ").next().unwrap_or("").split(">::").next().unwrap_or("");
            let suffix: String = suffix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
            fsig.ident = format_ident!("{}_{}__{}", tyname, suffix.trim_matches('_'), sig.ident);
            let mut g = impl_generics.unwrap().clone();
            // methods' own generics
            let own = sig.generics.clone();
            let wh = own.where_clause.clone();
            for p in own.params {
                g.params.push(p);
            }
            if let Some(w) = wh {
                g.make_where_clause().predicates.extend(w.predicates);
            }
            // late-bound impl lifetimes first
            fsig.generics = g;
            for a in fsig.inputs.iter_mut() {
                if let FnArg::Receiver(r) = a {
                    let m = &r.mutability;
                    let lt = r.reference.as_ref().and_then(|(_, l)| l.clone());
                    let t: FnArg = if r.reference.is_some() { parse_quote!(self_: &#lt #m #st) } else { parse_quote!(self_: #st) };
                    *a = t;
                    break;
                }
            }
            struct SelfTy(Type);
            impl VisitMut for SelfTy {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::Path(p) = t {
                        if p.path.is_ident("Self") {
                            *t = self.0.clone();
                            return;
                        }
                    }
                    syn::visit_mut::visit_type_mut(self, t);
                }
            }
            SelfTy(st.clone()).visit_signature_mut(&mut fsig);
            if let Some(b) = body.as_mut() {
                RenameIdent { from: "self".into(), to: format_ident!("self_") }.visit_block_mut(b);
            }
            let mut m: HashMap<String, String> = HashMap::new();
            m.insert("self".into(), "self_".into());
            spec = rename_words(&spec, &m);
        }
        let fix = |t: &str| -> String {
            let t = snapshot_fix(t);
            if lift {
                let mut m: HashMap<String, String> = HashMap::new();
                m.insert("self".into(), "self_".into());
                rename_words(&t, &m)
            } else {
                t
            }
        };
        let is_pub = !in_trait_impl && !in_trait_decl || lift;
        if loops > 0 && !external && !pre_attrs.contains("loop_isolation") {
            text.push_str("#[verifier::loop_isolation(false)]\n");
        }
        if !pre_attrs.contains("allow_complex") && c.loops.values().any(|t| t.lines().any(|l| matches!(l.trim(), "invariant_except_break" | "ensures"))) {
            text.push_str("#[verifier::allow_complex_invariants]\n");
        }
        text.push_str(&pre_attrs);
        if is_pub {
            text.push_str("pub ");
        }
        text.push_str(&make_sig(&fsig, &c.ret));
        text.push('\n');
        text.push_str(&spec);
        vname = fsig.ident.to_string();
        match &body {
            None => text.push_str(";\n"),
            Some(_) if external => {
                let o = sig.output.to_token_stream().to_string();
                text.push_str(if o.contains("impl Fn") { "{ |_x| unimplemented!() }\n" } else { "{ unimplemented!() }\n" })
            }
            Some(b) => {
                let texts = |name: &str| -> String {
                    if name == "valid" {
                        return valid.clone().map(|v| if lift { let mut m = HashMap::new(); m.insert("self".to_string(), "self_".to_string()); rename_words(&v, &m) } else { v }).unwrap_or_default();
                    }
                    if let Some(n) = name.strip_prefix("raw ") {
                        return n.to_string();
                    }
                    if let Some(n) = name.strip_prefix("inv ") {
                        let (n, kind) = n.split_once(' ').unwrap_or((n, ""));
                        let k: usize = n.parse().unwrap();
                        let t = c.loops.get(&k).map(|t| fix(t)).unwrap_or_default();
                        let auto = auto_inv.get(&k).cloned().unwrap_or_default().iter().map(|t| format!("        {},\n", t)).collect::<String>();
                        let auto = if lift { let mut m = HashMap::new(); m.insert("self".to_string(), "self_".to_string()); rename_words(&auto, &m) } else { auto };
                        return loop_spec(&t, k, kind, &auto);
                    }
                    let name = name.strip_prefix("at ").unwrap_or(name);
                    let mut keyname = name.to_string();
                    if let Some(v) = name.strip_prefix("letafter ") {
                        // the contract uses the snapshot's name
                        for (a, b) in &map {
                            if b == v {
                                keyname = format!("letafter {}", a);
                            }
                        }
                    }
                    c.ats.get(&keyname).map(|t| fix(t)).unwrap_or_default()
                };
                let closure = |k: usize| -> String {
                    let t = fix(c.closures.get(&k).unwrap());
                    let mv = closure_moves.get(&k).map_or(false, |x| x.0);
                    format!("{}{}", if mv { "move " } else { "" }, t.trim_end())
                };
                let mut p = Printer { out: String::new(), indent: 0, texts: &texts, closure: &closure };
                p.print(b.to_token_stream());
                text.push_str(&p.out);
                text.push('\n');
            }
        }
        if lift {
            // emitted after the impl
            self.pending.push((key.clone(), text, c.props.clone(), status.clone(), notes, loops, kinds, reshaped, binders, module.to_string(), vname));
            return;
        }
        start = self.line();
        self.out.push_str(&text);
        let end = self.line();
        self.fns.push(FnOut { key, start, end, props: c.props, status, notes, loops, kinds, reshaped, binders, module: module.to_string(), vname });
    }
}

/// invariant clause of loop `k`; canonical loops (kind c, or l with a lower bound) get their counter
/// facts and the termination measure
fn loop_spec(text: &str, k: usize, kind: &str, auto: &str) -> String {
    let mut sec: BTreeMap<&str, String> = BTreeMap::new();
    let mut cur = "invariant";
    for line in text.lines() {
        match line.trim() {
            "invariant_except_break" => cur = "invariant_except_break",
            "invariant" => cur = "invariant",
            "ensures" => cur = "ensures",
            "decreases" => cur = "decreases",
            _ => {
                let e = sec.entry(cur).or_default();
                e.push_str(line);
                e.push('\n');
            }
        }
    }
    if !auto.is_empty() {
        sec.entry("invariant").or_default().insert_str(0, auto);
    }
    match kind {
        "c" => {
            sec.entry("invariant").or_default().insert_str(0, &format!("        __i{0} <= __n{0},\n", k));
            sec.entry("decreases").or_default().push_str(&format!("        __n{0} - __i{0}\n", k));
        }
        "l" => {
            sec.entry("invariant").or_default().insert_str(0, &format!("        __l{0} <= __i{0}, __i{0} <= __n{0} || __i{0} == __l{0},\n", k));
            sec.entry("decreases").or_default().push_str(&format!("        __n{0} - __i{0}\n", k));
        }
        _ => {}
    }
    let mut o = String::new();
    for s in ["invariant_except_break", "invariant", "ensures", "decreases"] {
        if let Some(t) = sec.get(s) {
            if !t.trim().is_empty() {
                let _ = write!(o, "    {}\n{}", s, t);
            }
        }
    }
    o
}

fn squeeze_types(ts: &TokenStream) -> String {
    let mut p = Printer { out: String::new(), indent: 0, texts: &|_| String::new(), closure: &|_| String::new() };
    p.print(ts.clone());
    p.out.trim().replace('\n', " ")
}

/// `String` in bodies is crate::shim::Text
struct StringToText;
impl VisitMut for StringToText {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments.first().map_or(false, |s| s.ident == "String") && p.leading_colon.is_none() {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            *p = if rest.is_empty() { parse_quote!(crate::shim::Text) } else { parse_quote!(crate::shim::Text #(::#rest)*) };
        }
    }
}

struct VisFix;
impl VisitMut for VisFix {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

impl Gen {
    fn flush_pending(&mut self) {
        for (key, text, props, status, notes, loops, kinds, reshaped, binders, module, vname) in std::mem::take(&mut self.pending) {
            let start = self.line();
            self.out.push_str(&text);
            let end = self.line();
            self.fns.push(FnOut { key, start, end, props, status, notes, loops, kinds, reshaped, binders, module, vname });
        }
    }

    fn use_item(&mut self, u: &ItemUse, module: &str) {
        let s = squeeze(&u.tree.to_token_stream().to_string());
        if s == "std::f64" || s == "std::f32" || s == "std::mem" || s == "std::ops" {
            return;
        }
        // the printing traits and clocks are stood in for by crate::shim
        let s = match s.as_str() {
            "std::io" | "std::time" => s.replacen("std::", "crate::shim::", 1),
            x if x.starts_with("std::io::") || x.starts_with("std::time::") => s.replacen("std::", "crate::shim::", 1),
            "std::fmt::Display" => "crate::shim::Display".to_string(),
            _ => s,
        };
        let tree = if s.starts_with("num::") || s.starts_with("rand::") { format!("crate::{}", s) } else { s };
        let _ = module;
        let _ = writeln!(self.out, "pub use {};", tree);
    }

    fn type_dropped(&self, module: &str, name: &str) -> bool {
        self.contracts.structs.get(&join(module, name)).map_or(false, |t| t.trim() == "drop")
    }

    fn emit_module(&mut self, mods: &[ModSrc], idx: usize) {
        let path = mods[idx].path.clone();
        let name = path.rsplit("::").next().unwrap().to_string();
        if !path.is_empty() {
            let _ = writeln!(self.out, "pub mod {} {{", name);
            let _ = writeln!(self.out, "#[allow(unused_imports)] use vstd::prelude::*;");
            let _ = writeln!(self.out, "#[allow(unused_imports)] use crate::spec::*;");
        }
        let items = mods[idx].file.items.clone();
        for it in &items {
            if is_test(item_attrs(it)) {
                continue;
            }
            match it {
                Item::Mod(m) => {
                    if m.content.is_none() {
                        let p = join(&path, &m.ident.to_string());
                        if let Some(k) = mods.iter().position(|x| x.path == p) {
                            self.emit_module(mods, k);
                        }
                    } else {
                        self.dropped.push(format!("inline module {}", m.ident));
                    }
                }
                Item::Use(u) => self.use_item(u, &path),
                Item::ExternCrate(_) => {}
                Item::Type(t) => {
                    let mut t = t.clone();
                    VisFix.visit_item_type_mut(&mut t);
                    self.tokens(t.to_token_stream());
                }
                Item::Const(t) => {
                    let mut t = t.clone();
                    // its value stands in place of its name; the item remains for imports
                    if ["f32", "f64"].contains(&squeeze_types(&t.ty.to_token_stream()).as_str()) {
                        self.out.push_str("#[verifier::external_body]\n");
                    }
                    VisFix.visit_item_const_mut(&mut t);
                    self.tokens(t.to_token_stream());
                }
                Item::Struct(s) => {
                    if self.type_dropped(&path, &s.ident.to_string()) {
                        self.dropped.push(join(&path, &s.ident.to_string()));
                        continue;
                    }
                    let mut s = s.clone();
                    VisFix.visit_item_struct_mut(&mut s);
                    for f in s.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                    for p in s.generics.type_params() {
                        let _ = writeln!(self.out, "#[verifier::reject_recursive_types({})]", p.ident);
                    }
                    if let Some(a) = self.contracts.structs.get(&join(&path, &s.ident.to_string())) {
                        self.out.push_str(a);
                    }
                    self.tokens(s.to_token_stream());
                }
                Item::Enum(s) => {
                    let mut s = s.clone();
                    VisFix.visit_item_enum_mut(&mut s);
                    self.tokens(s.to_token_stream());
                }
                Item::Trait(t) => self.emit_trait(t, &path),
                Item::Impl(im) => self.emit_impl(im, &path),
                Item::Fn(f) => {
                    let keys = vec![join(&path, &f.sig.ident.to_string())];
                    self.emit_fn(&keys, &f.sig, Some(&f.block), None, None, false, false, &path);
                }
                other => self.dropped.push(squeeze(&other.to_token_stream().to_string()).chars().take(60).collect()),
            }
        }
        if let Some(t) = self.contracts.modules.get(&path).cloned() {
            let start = self.line();
            self.out.push_str(&t);
            let end = self.line();
            self.fns.push(FnOut { key: format!("ghost text of module {}", path), start, end, props: vec![], status: "ghost".into(), notes: vec![], loops: 0, kinds: String::new(), reshaped: false, binders: vec![], module: path.clone(), vname: String::new() });
        }
        if !path.is_empty() {
            let _ = writeln!(self.out, "}} // mod {}", name);
        }
    }

    fn emit_trait(&mut self, t: &ItemTrait, path: &str) {
        let name = t.ident.to_string();
        let g = squeeze_types(&t.generics.to_token_stream());
        let st = if t.supertraits.is_empty() { String::new() } else { format!(": {}", squeeze_types(&t.supertraits.to_token_stream())) };
        let _ = writeln!(self.out, "pub trait {}{}{} {{", name, g, st);
        if let Some(x) = self.contracts.traits.get(&join(path, &name)).cloned() {
            self.out.push_str(&x);
        }
        for i in &t.items {
            match i {
                TraitItem::Fn(f) => {
                    let keys = vec![join(path, &format!("{}::{}", name, f.sig.ident))];
                    self.emit_fn(&keys, &f.sig, f.default.as_ref(), None, None, false, true, path);
                }
                TraitItem::Type(ty) => {
                    let mut ty = ty.clone();
                    ty.attrs.clear();
                    self.tokens(ty.to_token_stream());
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
    }

    fn emit_impl(&mut self, im: &ItemImpl, path: &str) {
        let tn = self_key(&im.self_ty);
        if self.type_dropped(path, &tn) {
            self.dropped.push(format!("impl for {}", tn));
            return;
        }
        let keys = impl_keys(path, im);
        let trait_name = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        // std CrateIndex/IndexMut impls become inherent methods
        let as_inherent = matches!(trait_name.as_deref(), Some("Index") | Some("IndexMut"));
        let mut g = im.generics.clone();
        let wh = g.where_clause.take();
        let mut head = format!("impl{} ", squeeze_types(&g.to_token_stream()));
        if let (Some((_, p, _)), false) = (&im.trait_, as_inherent) {
            let _ = write!(head, "{} for ", squeeze_types(&p.to_token_stream()));
        }
        let _ = write!(head, "{}", squeeze_types(&im.self_ty.to_token_stream()));
        if let Some(w) = wh {
            let _ = write!(head, " {}", squeeze_types(&w.to_token_stream()));
        }
        let _ = writeln!(self.out, "{} {{", head);
        if let Some((_, t)) = lookup(&self.contracts.impls, &keys) {
            let t = t.clone();
            self.out.push_str(&t);
        }
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => {
                    let k: Vec<String> = keys.iter().map(|k| format!("{}::{}", k, f.sig.ident)).collect();
                    self.emit_fn(&k, &f.sig, Some(&f.block), Some(&im.self_ty), Some(&im.generics), im.trait_.is_some() && !as_inherent, false, path);
                }
                ImplItem::Type(t) if !as_inherent => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    self.tokens(t.to_token_stream());
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
        self.flush_pending();
    }
}

/// Function pointers `fn(&A) -> R` kept in a struct field (and in the signatures of that struct's impls) become
/// the opaque `crate::shim::FnRef<A, R>`, which records its calls.
fn fn_pointers(mods: &mut Vec<ModSrc>) {
    struct Rewrite(bool);
    impl VisitMut for Rewrite {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            if let Type::BareFn(f) = t {
                if let (1, ReturnType::Type(_, r)) = (f.inputs.len(), &f.output) {
                    if let Type::Reference(a) = &f.inputs[0].ty {
                        let a = &a.elem;
                        *t = parse_quote!(crate::shim::FnRef<#a, #r>);
                        self.0 = true;
                    }
                }
            }
        }
    }
    let mut owners = vec![];
    for m in mods.iter_mut() {
        for it in m.file.items.iter_mut() {
            if let Item::Struct(s) = it {
                let mut r = Rewrite(false);
                r.visit_fields_mut(&mut s.fields);
                if r.0 {
                    owners.push(s.ident.to_string());
                }
            }
        }
    }
    for m in mods.iter_mut() {
        for it in m.file.items.iter_mut() {
            if let Item::Impl(im) = it {
                if owners.contains(&self_key(&im.self_ty)) {
                    for f in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = f {
                            Rewrite(false).visit_signature_mut(&mut f.sig);
                        }
                    }
                }
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

/// `rv(L) == L` for every float literal L of the extracted text.  A spelling that is not the only one
/// of its machine number is left out: two different reals cannot both be its meaning.
fn literal_facts(text: &str) -> String {
    let b = text.as_bytes();
    let mut seen: std::collections::BTreeMap<u64, Vec<String>> = Default::default();
    let mut i = 0;
    while i < b.len() {
        let start = b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.'));
        if !start {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'_') {
            j += 1;
        }
        if j + 1 < b.len() && b[j] == b'.' && b[j + 1].is_ascii_digit() {
            j += 1;
            while j < b.len() && (b[j].is_ascii_digit() || (b[j] == b'_' && j + 1 < b.len() && b[j + 1].is_ascii_digit())) {
                j += 1;
            }
            let exponent = j + 1 < b.len() && (b[j] == b'e' || b[j] == b'E');
            let t: String = text[i..j].chars().filter(|c| *c != '_').collect();
            if let (false, Ok(x)) = (exponent, t.parse::<f64>()) {
                let t = t.trim_start_matches('0').trim_end_matches('0').to_string();
                let t = format!("{}{}{}", if t.starts_with('.') { "0" } else { "" }, t, if t.ends_with('.') { "0" } else { "" });
                let v = seen.entry((x as f32).to_bits() as u64).or_default();
                if !v.contains(&t) {
                    v.push(t);
                }
            }
        }
        i = j.max(i + 1);
    }
    let mut r = String::new();
    for v in seen.values().filter(|v| v.len() == 1) {
        for ty in ["f64", "f32"] {
            let _ = write!(r, " && rv({0}{1}) == {0}real && fin({0}{1})", v[0], ty);
        }
    }
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, cdir, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
    let mut demote = HashMap::new();
    let mut snapshot: norm::Snapshot = BTreeMap::new();
    let mut names: norm::Snapshot = BTreeMap::new();
    let mut write_snapshot = None;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--demote" => {
                let (k, r) = args[i + 1].split_once("=>").unwrap();
                demote.insert(k.to_string(), r.to_string());
                i += 1;
            }
            "--snapshot" => {
                if let Ok(t) = std::fs::read_to_string(&args[i + 1]) {
                    for l in t.lines() {
                        let p: Vec<&str> = l.split('\t').collect();
                        let b: Vec<String> = if p[3].is_empty() { vec![] } else { p[3].split(' ').map(|s| s.to_string()).collect() };
                        snapshot.insert(p[0].to_string(), (p[1].parse().unwrap(), p[2].to_string(), b));
                    }
                }
                i += 1;
            }
            "--write-snapshot" => {
                write_snapshot = Some(args[i + 1].clone());
                i += 1;
            }
            a => panic!("unknown argument {}", a),
        }
        i += 1;
    }
    let contracts = load(cdir);
    let mut mods = vec![];
    let src = std::path::Path::new(repo).join("optlib/src");
    load_mod(&src, &src.join("lib.rs"), "", &mut mods);
    let tf = std::path::Path::new(repo).join("optlib-testfunc/src");
    load_mod(&tf, &tf.join("lib.rs"), "testfunc", &mut mods);

    {
        let mut v: norm::Mods = mods.iter_mut().map(|m| (m.path.clone(), &mut m.file)).collect();
        norm::record(&v, &mut names);
        norm::restore_names(&mut v, &snapshot);
        norm::inline_consts(&mut v);
        norm::derived_clone(&mut v, &|k| contracts.fns.contains_key(k));
    }
    fn_pointers(&mut mods);
    let mut index = CrateIndex::default();
    for m in &mods {
        for it in &m.file.items {
            if is_test(item_attrs(it)) {
                continue;
            }
            match it {
                Item::Struct(s) => {
                    let f = s.fields.iter().enumerate().map(|(n, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string()), f.ty.clone())).collect();
                    index.structs.insert(s.ident.to_string(), f);
                }
                Item::Type(t) => {
                    index.aliases.insert(t.ident.to_string(), (t.generics.clone(), (*t.ty).clone()));
                }
                Item::Fn(f) => {
                    let key = join(&m.path, &f.sig.ident.to_string());
                    let has = contracts.fns.contains_key(&key);
                    index.free.entry(f.sig.ident.to_string()).or_default().push(FnInfo { key, sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, has_contract: has, is_trait_impl: false, module: m.path.clone() });
                }
                Item::Trait(t) if !snapshot.is_empty() => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            if !snapshot.contains_key(&format!("trait {}::{}", join(&m.path, &t.ident.to_string()), f.sig.ident)) {
                                index.unknown.insert(f.sig.ident.to_string());
                            }
                        }
                    }
                }
                Item::Impl(im) => {
                    let keys = impl_keys(&m.path, im);
                    let tn = self_key(&im.self_ty);
                    let new = im.trait_.is_some() && !snapshot.is_empty() && !im.items.is_empty() && im.items.iter().all(|i| match i {
                        ImplItem::Fn(f) => !keys.iter().any(|k| { let k = format!("{}::{}", k, f.sig.ident); snapshot.contains_key(&k) || contracts.fns.contains_key(&k) }),
                        _ => true,
                    });
                    if new {
                        let t = im.trait_.as_ref().unwrap().1.segments.last().unwrap().ident.to_string();
                        match t.as_str() {
                            "Add" | "Sub" | "Mul" | "Div" | "Rem" | "Neg" | "Not" | "AddAssign" | "SubAssign" | "MulAssign" | "DivAssign" | "PartialEq" | "PartialOrd" | "Ord" | "Index" | "IndexMut" | "Deref" | "DerefMut" | "Drop"
                            | "Iterator" | "IntoIterator" | "FromIterator" | "Extend" | "Sum" | "Product" => {
                                index.operators.insert(m.path.clone());
                            }
                            "From" | "Into" | "TryFrom" => {
                                index.unknown.insert("into".into());
                            }
                            "Debug" | "Display" | "Clone" => {}
                            _ => {
                                for i in &im.items {
                                    if let ImplItem::Fn(f) = i {
                                        index.unknown.insert(f.sig.ident.to_string());
                                    }
                                }
                            }
                        }
                    }
                    for i in &im.items {
                        if let ImplItem::Fn(f) = i {
                            let ks: Vec<String> = keys.iter().map(|k| format!("{}::{}", k, f.sig.ident)).collect();
                            let has = ks.iter().any(|k| contracts.fns.contains_key(k));
                            index.methods.entry((tn.clone(), f.sig.ident.to_string())).or_default().push(FnInfo {
                                key: ks[0].clone(), sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*im.self_ty).clone()), has_contract: has, is_trait_impl: im.trait_.is_some() && (snapshot.is_empty() || ks.iter().any(|k| snapshot.contains_key(k))), module: m.path.clone(),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
    }

    let mut g = Gen { contracts, index, out: String::new(), fns: vec![], demote, snapshot, dropped: vec![], lifted: vec![], pending: vec![] };
    g.out.push_str("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_assignments, unused_labels, unused_must_use)]\n");
    g.out.push_str("use vstd::prelude::*;\nverus! {\n#[allow(unused_imports)] use crate::spec::*;\n");
    let shim = std::fs::read_to_string(std::path::Path::new(cdir).join("shim.rs")).unwrap();
    let s0 = g.line();
    g.out.push_str(&shim);
    let s1 = g.line();
    g.fns.push(FnOut { key: "shim".into(), start: s0, end: s1, props: vec![], status: "ghost".into(), notes: vec![], loops: 0, kinds: String::new(), reshaped: false, binders: vec![], module: "shim".into(), vname: String::new() });
    g.emit_module(&mods, 0);
    let tfi = mods.iter().position(|m| m.path == "testfunc").unwrap();
    g.emit_module(&mods, tfi);
    g.out.push_str("} // verus!\nfn main() {}\n");
    let lits = literal_facts(&g.out[shim.len()..]);
    g.out = g.out.replacen("/*LITS*/", &lits, 1);
    std::fs::write(out_rs, &g.out).unwrap();

    if let Some(f) = write_snapshot {
        let mut t = String::new();
        for x in &g.fns {
            if x.status != "ghost" {
                let _ = writeln!(t, "{}\t{}\t{}\t{}", x.key, x.loops, x.kinds, x.binders.join(" "));
            }
        }
        for (k, (n, _, v)) in &names {
            let _ = writeln!(t, "{}\t{}\t\t{}", k, n, v.join(" "));
        }
        std::fs::write(f, t).unwrap();
    }
    let mut j = String::from("{\n\"functions\": [\n");
    let mut first = true;
    for x in &g.fns {
        if !first {
            j.push_str(",\n");
        }
        first = false;
        let _ = write!(j, "{{\"key\":{},\"start\":{},\"end\":{},\"props\":{},\"status\":{},\"notes\":{},\"module\":{},\"vname\":{},\"loops\":{},\"reshaped\":{}}}", json_str(&x.key), x.start, x.end, json_list(&x.props), json_str(&x.status), json_list(&x.notes), json_str(&x.module), json_str(&x.vname), x.loops, x.reshaped);
    }
    j.push_str("\n],\n");
    let unused: Vec<String> = g.contracts.fns.values().filter(|c| !c.used).map(|c| c.key.clone()).collect();
    let _ = write!(j, "\"unused_contracts\": {},\n\"unused_props\": {},\n\"dropped\": {},\n\"lifted\": {}\n}}\n", json_list(&unused),
        format!("{{{}}}", g.contracts.fns.values().filter(|c| !c.used).map(|c| format!("{}:{}", json_str(&c.key), json_list(&c.props))).collect::<Vec<_>>().join(",")),
        json_list(&g.dropped), json_list(&g.lifted));
    std::fs::write(out_json, j).unwrap();
}
