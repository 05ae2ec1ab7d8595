//! Function-body transformation: desugars for loops and iterator chains into index loops, replaces
//! run-time checks and casts with shims, inlines helpers without a contract, inserts markers for
//! the ghost code of the contract.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::fold::Fold;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub has_contract: bool,
    pub is_trait_impl: bool,
    pub module: String,
}

#[derive(Default)]
pub struct CrateIndex {
    /// methods of traits and impls the contracts do not know
    pub unknown: HashSet<String>,
    /// modules with new impls of operators
    pub operators: HashSet<String>,
    /// struct name -> fields
    pub structs: HashMap<String, Vec<(String, Type)>>,
    pub aliases: HashMap<String, (Generics, Type)>,
    /// free function name -> infos
    pub free: HashMap<String, Vec<FnInfo>>,
    /// (type, method) -> infos
    pub methods: HashMap<(String, String), Vec<FnInfo>>,
}

#[derive(Clone, Debug)]
enum Item_ {
    Ref(Expr),
    RefMut(Expr),
    RefVar(Expr),
    Val(Expr),
    Tuple(Vec<Item_>),
}

#[derive(Clone)]
enum Src {
    Range(Expr, Expr, bool),
    Ref(Expr),
    RefMut(Expr),
    Own(Expr),
    Zip(Box<Src>, Box<Src>),
    Enumerate(Box<Src>),
    Take(Box<Src>, Expr),
}

fn src_kind(s: &Src) -> String {
    match s {
        Src::Range(..) => "range".into(),
        Src::Ref(_) => "ref".into(),
        Src::RefMut(_) => "mut".into(),
        Src::Own(_) => "own".into(),
        Src::Zip(a, b) => format!("zip({},{})", src_kind(a), src_kind(b)),
        Src::Enumerate(a) => format!("enumerate({})", src_kind(a)),
        Src::Take(a, _) => src_kind(a),
    }
}

#[derive(Clone)]
enum Stage {
    Map(ExprClosure),
    Filter(ExprClosure),
    FilterMap(ExprClosure),
    Cloned,
}

#[derive(Clone)]
struct Pipe {
    src: Src,
    stages: Vec<Stage>,
}

pub struct Tx<'a> {
    pub index: &'a CrateIndex,
    pub env: HashMap<String, Type>,
    pub loops: usize,
    /// how each loop is written (for, while, collect ...); only tells whether a failed proof can be held against the code
    pub kinds: BTreeMap<usize, String>,
    kind: String,
    pub closures: usize,
    pub tmp: usize,
    pub depth: usize,
    pub self_ty: Option<Type>,
    pub module: String,
    pub auto_inv: HashMap<usize, Vec<String>>,
    pub user_while: HashMap<usize, (String, String)>,
    aliases: HashMap<String, Pipe>,
    pub closure_specs: HashSet<usize>,
    pub closure_bodies: HashMap<usize, (bool, String)>,
    pub has_valid: bool,
    pub notes: Vec<String>,
    /// the local names of the helpers put in place of their calls
    pub inlined: Vec<String>,
    /// the operators of each closure that has a contract, in order
    pub closure_ops: Vec<String>,
}

pub fn type_ident(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

pub fn peel(t: &Type) -> Type {
    match t {
        Type::Reference(r) => peel(&r.elem),
        Type::Paren(r) => peel(&r.elem),
        Type::Group(r) => peel(&r.elem),
        _ => t.clone(),
    }
}

fn elem_type(t: &Type) -> Option<Type> {
    match t {
        Type::Slice(s) => Some((*s.elem).clone()),
        Type::Path(p) => {
            let seg = p.path.segments.last()?;
            if seg.ident != "Vec" {
                return None;
            }
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
            None
        }
        _ => None,
    }
}

fn ident_of(e: &Expr) -> Option<Ident> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.clone()),
        _ => None,
    }
}

/// Place expressions that may be evaluated repeatedly without side effects.
pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && is_simple_index(&i.index),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

fn is_simple_index(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Binary(b) => is_simple_index(&b.left) && is_simple_index(&b.right),
        Expr::Paren(p) => is_simple_index(&p.expr),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

/// Replaces uses of a variable holding `&mut PLACE` / `&PLACE` by the place itself.
struct SubstPlace {
    name: String,
    place: Expr,
    mutable: bool,
}
impl SubstPlace {
    fn is_me(&self, e: &Expr) -> bool {
        ident_of(e).map_or(false, |i| i == self.name)
    }
}
impl VisitMut for SubstPlace {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if self.is_me(&m.receiver) => {
                m.receiver = Box::new(self.place.clone());
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Index(m) if self.is_me(&m.expr) => {
                m.expr = Box::new(self.place.clone());
                self.visit_expr_mut(&mut m.index);
                return;
            }
            Expr::Field(m) if self.is_me(&m.base) => {
                m.base = Box::new(self.place.clone());
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is_me(&u.expr) => {
                *e = self.place.clone();
                return;
            }
            Expr::Reference(r) if self.is_me(&r.expr) => {
                // &mut x with x: &mut T (auto-dereferenced by the callee)
                r.expr = Box::new(self.place.clone());
                return;
            }
            Expr::Closure(c) => {
                let mut b = Binders::default();
                for p in &c.inputs {
                    b.visit_pat(p);
                }
                if b.0.contains(&self.name) {
                    return;
                }
            }
            _ => {}
        }
        if self.is_me(e) {
            let p = &self.place;
            *e = if self.mutable { parse_quote!(&mut #p) } else { parse_quote!(&#p) };
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}

/// a place as it is written in a specification (indices are mathematical integers there)
struct SpecIndex;
impl VisitMut for SpecIndex {
    fn visit_expr_index_mut(&mut self, i: &mut ExprIndex) {
        syn::visit_mut::visit_expr_index_mut(self, i);
        let ix = (*i.index).clone();
        if !matches!(ix, Expr::Lit(_)) {
            *i.index = parse_quote!((#ix) as int);
        }
    }
}
fn spec_place(p: &Expr) -> String {
    let mut q = p.clone();
    SpecIndex.visit_expr_mut(&mut q);
    q.to_token_stream().to_string()
}

pub struct RenameIdent {
    pub from: String,
    pub to: Ident,
}
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = self.to.clone();
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(i) = &f.member {
            if *i == self.from && f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream, from: &str, to: &Ident) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(to.clone()),
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), from, to)))
                    }
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &self.from, &self.to);
    }
}

#[derive(Default)]
pub struct Binders(pub Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if !s.chars().next().unwrap().is_uppercase() {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

#[derive(Default)]
struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
/// `if c { return a; } rest` is `if c { a } else { rest }`
fn guards_to_else(b: &mut Block) {
    let mut k = 0;
    while k < b.stmts.len() {
        let guard = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
            _ => false,
        };
        if guard {
            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(k + 1) };
            if let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() {
                if let Some(Stmt::Expr(Expr::Return(r), _)) = i.then_branch.stmts.pop() {
                    if let Some(e) = r.expr {
                        i.then_branch.stmts.push(Stmt::Expr(*e, None));
                    }
                }
                guards_to_else(&mut i.then_branch);
                guards_to_else(&mut rest);
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                b.stmts.push(Stmt::Expr(Expr::If(i), None));
            }
            return;
        }
        k += 1;
    }
    if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
        tail_returns(e);
        if let Expr::Return(r) = e {
            if let Some(x) = r.expr.take() {
                let x = *x;
                b.stmts.pop();
                b.stmts.push(Stmt::Expr(x, None));
            }
        }
    }
}
fn tail_returns(e: &mut Expr) {
    match e {
        Expr::If(i) if i.else_branch.is_some() => {
            guards_to_else(&mut i.then_branch);
            tail_returns(&mut i.else_branch.as_mut().unwrap().1);
        }
        Expr::Block(b) if b.label.is_none() => guards_to_else(&mut b.block),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                if let Expr::Return(r) = &*a.body {
                    if let Some(x) = &r.expr {
                        a.body = x.clone();
                    }
                }
                tail_returns(&mut a.body);
            }
        }
        _ => {}
    }
}

fn has_return_block(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(e);
    h.0
}

#[derive(Default)]
struct HasContinue(bool);
impl<'ast> Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
}

pub fn marker(text: &str) -> Stmt {
    let lit = LitStr::new(text, Span::call_site());
    parse_quote!(__vx!(#lit);)
}

fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}

impl<'a> Tx<'a> {
    pub fn new(index: &'a CrateIndex, self_ty: Option<Type>, module: &str) -> Self {
        Tx {
            index,
            env: HashMap::new(),
            loops: 0,
            closures: 0,
            tmp: 0,
            depth: 0,
            self_ty,
            module: module.to_string(),
            auto_inv: HashMap::new(),
            user_while: HashMap::new(),
            aliases: HashMap::new(),
            closure_specs: HashSet::new(),
            closure_bodies: HashMap::new(),
            kinds: BTreeMap::new(),
            kind: "for".into(),
            has_valid: false,
            notes: vec![],
            inlined: vec![],
            closure_ops: vec![],
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }

    fn resolve_alias(&self, t: Type) -> Type {
        if let Some(n) = type_ident(&t) {
            if let Some((g, target)) = self.index.aliases.get(&n) {
                // substitute the (single) parameters
                let mut target = target.clone();
                if let Type::Path(p) = &t {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        for (gp, ga) in g.type_params().zip(a.args.iter()) {
                            if let GenericArgument::Type(ga) = ga {
                                struct S(Ident, Type);
                                impl VisitMut for S {
                                    fn visit_type_mut(&mut self, t: &mut Type) {
                                        if let Type::Path(p) = t {
                                            if p.path.is_ident(&self.0) {
                                                *t = self.1.clone();
                                                return;
                                            }
                                        }
                                        syn::visit_mut::visit_type_mut(self, t);
                                    }
                                }
                                S(gp.ident.clone(), ga.clone()).visit_type_mut(&mut target);
                            }
                        }
                    }
                }
                return self.resolve_alias(target);
            }
        }
        t
    }

    pub fn ty(&self, e: &Expr) -> Option<Type> {
        let t = match e {
            Expr::Path(_) => {
                let i = ident_of(e)?.to_string();
                if i == "self" {
                    self.env.get("self").cloned().or(self.self_ty.clone())
                } else {
                    self.env.get(&i).cloned()
                }
            }
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Reference(r) => {
                let t = self.ty(&r.expr)?;
                if r.mutability.is_some() {
                    Some(parse_quote!(&mut #t))
                } else {
                    Some(parse_quote!(&#t))
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match self.ty(&u.expr)? {
                Type::Reference(r) => Some(*r.elem),
                _ => None,
            },
            Expr::Field(f) => {
                let base = self.resolve_alias(peel(&self.ty(&f.base)?));
                match (&f.member, &base) {
                    (Member::Named(n), _) => {
                        let s = self.index.structs.get(&type_ident(&base)?)?;
                        s.iter().find(|x| *n == x.0).map(|x| x.1.clone())
                    }
                    (Member::Unnamed(n), Type::Tuple(t)) => t.elems.iter().nth(n.index as usize).cloned(),
                    (Member::Unnamed(n), _) => {
                        let s = self.index.structs.get(&type_ident(&base)?)?;
                        s.iter().find(|x| x.0 == n.index.to_string()).map(|x| x.1.clone())
                    }
                }
            }
            Expr::Index(i) => {
                let base = self.resolve_alias(peel(&self.ty(&i.expr)?));
                elem_type(&base)
            }
            Expr::MethodCall(m) if str_lit(&m.receiver).is_some() && (m.method == "to_string" || m.method == "to_owned" || m.method == "into") => Some(parse_quote!(Text)),
            Expr::MethodCall(m) => {
                if matches!(m.method.to_string().as_str(), "min_by" | "max_by" | "min_by_key" | "max_by_key" | "first" | "last" | "find" | "position" | "pop" | "next" | "get_best_solution" | "partial_cmp" | "checked_sub" | "checked_add" | "checked_div" | "get_average_goal" | "get_standard_deviation_goal") {
                    return Some(parse_quote!(Option<_>));
                }
                let base = peel(&self.ty(&m.receiver)?);
                if m.method == "clone" {
                    return Some(base);
                }
                let inf = self.index.methods.get(&(type_ident(&base)?, m.method.to_string()))?.first()?;
                match &inf.sig.output {
                    ReturnType::Type(_, t) => Some((**t).clone()),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 4 && segs[2] == "Text" || segs.len() == 3 && segs[2] == "text_cat" {
                        return Some(parse_quote!(Text));
                    }
                    if segs.len() == 2 && segs[0] == "Vec" {
                        return Some(parse_quote!(Vec<_>));
                    }
                    if segs.len() == 1 {
                        if let Some(v) = self.index.free.get(&segs[0]) {
                            if let ReturnType::Type(_, t) = &v.first()?.sig.output {
                                return Some((**t).clone());
                            }
                        }
                    }
                }
                None
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => Some(parse_quote!(Vec<_>)),
            Expr::Macro(m) if m.mac.path.is_ident("format") => Some(parse_quote!(Text)),
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && self.is_text(&b.left) => Some(parse_quote!(Text)),
            _ => None,
        }?;
        Some(self.resolve_alias(t))
    }

    // ---------------------------------------------------------------- text output

    fn is_text(&self, e: &Expr) -> bool {
        self.ty(e).map_or(false, |t| type_ident(&peel(&t)).as_deref() == Some("Text"))
    }

    /// statements appending the fixed text to `t`
    fn lit_pieces(&self, t: &Ident, text: &str) -> Vec<Stmt> {
        let mut st: Vec<Stmt> = vec![];
        for (n, part) in text.split('\n').enumerate() {
            if n > 0 {
                st.push(parse_quote!(#t.nl();));
            }
            if !part.is_empty() {
                let free = |c: char| !(c.is_alphanumeric() || matches!(c, '.' | '-' | '+' | '_'));
                let left = free(part.chars().next().unwrap());
                let right = free(part.chars().last().unwrap());
                let wordy = part.chars().any(|c| c.is_alphabetic());
                st.push(parse_quote!(#t.lit(#left, #right, #wordy);));
            }
        }
        st
    }

    fn text_of_lit(&mut self, text: &str) -> Expr {
        let t = self.fresh("text");
        let st = self.lit_pieces(&t, text);
        parse_quote!({ let mut #t = crate::shim::Text::new(); #(#st)* #t })
    }

    /// an expression that is a text or a reference to one, as a reference to a text
    fn text_ref(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.text_ref(&p.expr),
            Expr::Reference(r) => self.text_ref(&r.expr),
            Expr::MethodCall(m) if (m.method == "as_str" || m.method == "as_bytes") && m.args.is_empty() => self.text_ref(&m.receiver),
            _ => {
                if let Some(l) = str_lit(e) {
                    let x = self.text_of_lit(&l);
                    return Some(parse_quote!(&#x));
                }
                if self.is_text(e) {
                    let x = self.fold_expr(e.clone());
                    return Some(parse_quote!(&#x));
                }
                None
            }
        }
    }

    /// the text of `format!(fmt, args)`
    fn format_args(&mut self, tokens: &TokenStream, nl: bool) -> Option<Expr> {
        let args = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, tokens.clone()).ok()?;
        let mut args = args.into_iter();
        let fmt = match args.next() {
            None => String::new(),
            Some(e) => str_lit(&e)?,
        };
        let mut named: HashMap<String, Expr> = HashMap::new();
        let mut pos: Vec<Expr> = vec![];
        for a in args {
            match a {
                Expr::Assign(x) => {
                    named.insert(ident_of(&x.left)?.to_string(), (*x.right).clone());
                }
                a => pos.push(a),
            }
        }
        let t = self.fresh("text");
        let mut st: Vec<Stmt> = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            i += 1;
            if (c == '{' || c == '}') && i < cs.len() && cs[i] == c {
                lit.push(c);
                i += 1;
                continue;
            }
            if c == '}' {
                return None;
            }
            if c != '{' {
                lit.push(c);
                continue;
            }
            let close = (i..cs.len()).find(|&x| cs[x] == '}')?;
            let inner: String = cs[i..close].iter().collect();
            i = close + 1;
            let (name, spec) = match inner.split_once(':') {
                Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                None => (inner.trim().to_string(), String::new()),
            };
            let arg = |s: &str| -> Option<Expr> {
                if let Ok(n) = s.parse::<usize>() {
                    return pos.get(n).cloned();
                }
                if let Some(e) = named.get(s) {
                    return Some(e.clone());
                }
                let id: Ident = parse_str(s).ok()?;
                Some(parse_quote!(#id))
            };
            // [[fill]align][width][.precision]
            let mut sp: &str = &spec;
            let two: Vec<char> = sp.chars().take(2).collect();
            if two.len() == 2 && matches!(two[1], '<' | '>' | '^') {
                sp = &sp[two[0].len_utf8() + 1..];
            } else if sp.starts_with(|c| matches!(c, '<' | '>' | '^')) {
                sp = &sp[1..];
            }
            let (width, prec) = match sp.split_once('.') {
                Some((w, p)) => (w, Some(p)),
                None => (sp, None),
            };
            let width_ok = width.is_empty() || width.ends_with('$') || (width.chars().all(|c| c.is_ascii_digit()) && !width.starts_with('0'));
            if !width_ok {
                return None;
            }
            let p: Expr = match prec {
                None => parse_quote!(None),
                Some("*") => {
                    let e = pos.get(next).cloned()?;
                    next += 1;
                    let e = self.fold_expr(e);
                    parse_quote!(Some(#e))
                }
                Some(p) => {
                    let e: Expr = if let Some(n) = p.strip_suffix('$') { arg(n)? } else { parse_str::<Expr>(p).ok()? };
                    let e = self.fold_expr(e);
                    parse_quote!(Some(#e))
                }
            };
            let e = if name.is_empty() {
                next += 1;
                pos.get(next - 1).cloned()?
            } else {
                arg(&name)?
            };
            st.extend(self.lit_pieces(&t, &lit));
            lit.clear();
            if let Some(x) = self.text_ref(&e) {
                if prec.is_some() {
                    return None;
                }
                st.push(parse_quote!(#t.append(#x);));
            } else {
                let x = self.fold_expr(e);
                st.push(parse_quote!(#t.val(&(#x), #p);));
            }
        }
        if nl {
            lit.push('\n');
        }
        st.extend(self.lit_pieces(&t, &lit));
        Some(parse_quote!({ let mut #t = crate::shim::Text::new(); #(#st)* #t }))
    }

    fn text_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if let Some(l) = str_lit(&m.receiver) {
            if matches!(name.as_str(), "to_string" | "to_owned" | "into") {
                return Some(self.text_of_lit(&l));
            }
        }
        match (name.as_str(), m.args.len()) {
            ("push_str", 1) if self.is_text(&m.receiver) => {
                let x = self.text_ref(&m.args[0])?;
                let r = &m.receiver;
                Some(parse_quote!(#r.append(#x)))
            }
            ("push", 1) if self.is_text(&m.receiver) => {
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] {
                    let x = self.text_of_lit(&c.value().to_string());
                    let r = &m.receiver;
                    return Some(parse_quote!(#r.append(&#x)));
                }
                None
            }
            ("write_all", 1) => {
                let x = self.text_ref(&m.args[0])?;
                let r = self.fold_expr((*m.receiver).clone());
                Some(parse_quote!(#r.put(#x)))
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- pipelines

    fn parse_src(&self, e: &Expr) -> Option<Pipe> {
        match e {
            Expr::Paren(p) => self.parse_src(&p.expr),
            Expr::Range(r) => {
                let lo = r.start.clone()?;
                let hi = r.end.clone()?;
                Some(Pipe { src: Src::Range(*lo, *hi, matches!(r.limits, RangeLimits::Closed(_))), stages: vec![] })
            }
            Expr::Path(_) => self.aliases.get(&ident_of(e)?.to_string()).cloned(),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        let r = self.inline_accessor(&m.receiver, "iter").unwrap_or((*m.receiver).clone());
                        Some(Pipe { src: Src::Ref(r), stages: vec![] })
                    }
                    ("iter_mut", 0) => {
                        let r = self.inline_accessor(&m.receiver, "iter_mut").unwrap_or((*m.receiver).clone());
                        Some(Pipe { src: Src::RefMut(r), stages: vec![] })
                    }
                    ("into_iter", 0) => {
                        let mut r = &*m.receiver;
                        while let Expr::Paren(p) = r {
                            r = &p.expr;
                        }
                        if let Expr::Reference(x) = r {
                            let e = (*x.expr).clone();
                            return Some(Pipe { src: if x.mutability.is_some() { Src::RefMut(e) } else { Src::Ref(e) }, stages: vec![] });
                        }
                        if let Some(p) = self.parse_src(&m.receiver) {
                            return Some(p);
                        }
                        Some(self.src_by_type(&m.receiver))
                    }
                    ("clone", 0) => {
                        let i = ident_of(&m.receiver)?.to_string();
                        self.aliases.get(&i).cloned()
                    }
                    ("by_ref", 0) => self.parse_src(&m.receiver),
                    ("cloned", 0) | ("copied", 0) => {
                        let mut p = self.parse_src(&m.receiver)?;
                        p.stages.push(Stage::Cloned);
                        Some(p)
                    }
                    ("enumerate", 0) => {
                        let p = self.parse_src(&m.receiver)?;
                        if !p.stages.is_empty() {
                            return None;
                        }
                        Some(Pipe { src: Src::Enumerate(Box::new(p.src)), stages: vec![] })
                    }
                    ("take", 1) => {
                        let p = self.parse_src(&m.receiver)?;
                        if !p.stages.is_empty() || matches!(p.src, Src::Range(..)) {
                            return None;
                        }
                        Some(Pipe { src: Src::Take(Box::new(p.src), m.args[0].clone()), stages: vec![] })
                    }
                    ("zip", 1) => {
                        let a = self.parse_src(&m.receiver)?;
                        let b = match self.parse_src(&m.args[0]) {
                            Some(b) => b,
                            None => match &m.args[0] {
                                Expr::Reference(r) if r.mutability.is_none() => {
                                    Pipe { src: Src::Ref((*r.expr).clone()), stages: vec![] }
                                }
                                _ => return None,
                            },
                        };
                        if !a.stages.is_empty() || !b.stages.is_empty() {
                            return None;
                        }
                        Some(Pipe { src: Src::Zip(Box::new(a.src), Box::new(b.src)), stages: vec![] })
                    }
                    ("map", 1) | ("filter", 1) | ("filter_map", 1) => {
                        let mut p = self.parse_src(&m.receiver)?;
                        let c = closure_of(&m.args[0])?;
                        if has_return(&c.body) {
                            return None;
                        }
                        p.stages.push(match name.as_str() {
                            "map" => Stage::Map(c),
                            "filter" => Stage::Filter(c),
                            _ => Stage::FilterMap(c),
                        });
                        Some(p)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// The value of a body without effects as one expression: lets of places and references to places
    /// are put in, a final `return E` is E.
    fn single_value(b: &Block) -> Option<Expr> {
        fn simple(e: &Expr) -> bool {
            match e {
                Expr::Reference(r) => is_place(&r.expr),
                Expr::Lit(_) => true,
                e => is_place(e),
            }
        }
        struct Tidy;
        impl VisitMut for Tidy {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                // (&x)[i], (&x).f, *&x
                let strip = |e: &Expr| -> Option<Expr> {
                    let mut x = e;
                    while let Expr::Paren(p) = x {
                        x = &p.expr;
                    }
                    match x {
                        Expr::Reference(r) => Some((*r.expr).clone()),
                        _ => None,
                    }
                };
                match e {
                    Expr::Index(i) => {
                        if let Some(x) = strip(&i.expr) {
                            *i.expr = x;
                        }
                    }
                    Expr::Field(f) => {
                        if let Some(x) = strip(&f.base) {
                            *f.base = x;
                        }
                    }
                    Expr::MethodCall(m) => {
                        if let Some(x) = strip(&m.receiver) {
                            *m.receiver = x;
                        }
                    }
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                        if let Some(x) = strip(&u.expr) {
                            *e = x;
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut sub: Vec<(String, Expr)> = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let mut v = match s {
                Stmt::Local(l) => {
                    let id = match &l.pat {
                        Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => p.ident.to_string(),
                        _ => return None,
                    };
                    let mut e = (*l.init.as_ref()?.expr).clone();
                    for (a, x) in &sub {
                        SubstExpr(a.clone(), x.clone()).visit_expr_mut(&mut e);
                    }
                    // the tail may be a name for the whole value
                    let last = matches!(b.stmts.get(i + 1), Some(Stmt::Expr(t, None)) if i + 2 == n && ident_of(t).map_or(false, |x| x == id));
                    if !last && !simple(&e) {
                        return None;
                    }
                    let e = if matches!(e, Expr::Reference(_)) { parse_quote!((#e)) } else { e };
                    sub.push((id, e));
                    continue;
                }
                Stmt::Expr(Expr::Return(r), _) if i + 1 == n => (**r.expr.as_ref()?).clone(),
                Stmt::Expr(e, None) if i + 1 == n => e.clone(),
                _ => return None,
            };
            for (a, x) in &sub {
                SubstExpr(a.clone(), x.clone()).visit_expr_mut(&mut v);
            }
            while let Expr::Paren(p) = &v {
                v = (*p.expr).clone();
            }
            Tidy.visit_expr_mut(&mut v);
            return Some(v);
        }
        None
    }

    /// The value of a method without effects, through the helpers it delegates to.
    fn method_value(&self, tn: &str, inf: &FnInfo, depth: usize) -> Option<Expr> {
        let v = Self::single_value(&inf.block)?;
        if let Expr::MethodCall(m) = &v {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            if depth < 4 && ident_of(r).map_or(false, |i| i == "self") {
                let f = self.index.methods.get(&(tn.to_string(), m.method.to_string()))?.first()?;
                if f.has_contract || f.sig.inputs.len() != m.args.len() + 1 {
                    return Some(v);
                }
                let mut e = self.method_value(tn, f, depth + 1)?;
                for (p, x) in f.sig.inputs.iter().skip(1).zip(m.args.iter()) {
                    match p {
                        FnArg::Typed(p) => match &*p.pat {
                            Pat::Ident(i) => SubstExpr(i.ident.to_string(), x.clone()).visit_expr_mut(&mut e),
                            _ => return None,
                        },
                        _ => return None,
                    }
                }
                return Some(e);
            }
        }
        Some(v)
    }

    /// `recv.iter()` where iter is a method of the crate with the value `PLACE.iter()`.
    fn inline_accessor(&self, recv: &Expr, name: &str) -> Option<Expr> {
        let t = peel(&self.ty(recv)?);
        let tn = type_ident(&t)?;
        let inf = self.index.methods.get(&(tn.clone(), name.to_string()))?.first()?;
        if let Some(Expr::MethodCall(m)) = &self.method_value(&tn, inf, 0) {
            if m.method == name && is_place(&m.receiver) {
                let mut place = (*m.receiver).clone();
                SubstSelf(recv.clone()).visit_expr_mut(&mut place);
                return Some(place);
            }
        }
        None
    }

    /// `recv[i]` where recv has a user-defined CrateIndex: returns the place it denotes.
    fn inline_index(&self, ix: &ExprIndex) -> Option<Expr> {
        let t = peel(&self.ty(&ix.expr)?);
        let tn = type_ident(&t)?;
        let a = self.index.methods.get(&(tn.clone(), "index".into()))?.first()?;
        let place = |inf: &FnInfo| -> Option<Expr> {
            let arg = match inf.sig.inputs.iter().nth(1)? {
                FnArg::Typed(p) => match &*p.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => return None,
                },
                _ => return None,
            };
            if let Some(Expr::Reference(r)) = &self.method_value(&tn, inf, 0) {
                let mut p = (*r.expr).clone();
                if !is_place(&p) {
                    return None;
                }
                let idx = (*ix.index).clone();
                SubstExpr(arg, idx).visit_expr_mut(&mut p);
                SubstSelf((*ix.expr).clone()).visit_expr_mut(&mut p);
                return Some(p);
            }
            None
        };
        let pa = place(a)?;
        if let Some(b) = self.index.methods.get(&(tn.clone(), "index_mut".into())) {
            let pb = place(b.first()?)?;
            if pa.to_token_stream().to_string() != pb.to_token_stream().to_string() {
                return None;
            }
        }
        Some(pa)
    }

    fn src_by_type(&self, e: &Expr) -> Pipe {
        let src = match e {
            Expr::Reference(r) if r.mutability.is_some() => Src::RefMut((*r.expr).clone()),
            Expr::Reference(r) => Src::Ref((*r.expr).clone()),
            _ => match self.ty(e) {
                Some(Type::Reference(r)) if r.mutability.is_some() => Src::RefMut(e.clone()),
                Some(Type::Reference(_)) => Src::Ref(e.clone()),
                Some(t) if elem_type(&t).is_some() || type_ident(&t).map_or(false, |i| i == "Vec") => Src::Own(e.clone()),
                _ => match e {
                    Expr::Path(_) | Expr::Field(_) => Src::Ref(e.clone()),
                    _ => Src::Own(e.clone()),
                },
            },
        };
        Pipe { src, stages: vec![] }
    }

    /// Statements binding a pattern to an item, plus substitutions for `&mut` bindings.
    fn bind(&mut self, pat: &Pat, item: &Item_, subst: &mut Vec<(String, Expr)>) -> Vec<Stmt> {
        match pat {
            Pat::Type(p) => self.bind(&p.pat, item, subst),
            Pat::Paren(p) => self.bind(&p.pat, item, subst),
            Pat::Wild(_) => vec![],
            Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                let x = &p.ident;
                let m = &p.mutability;
                match item {
                    Item_::Ref(e) => {
                        if let Some(t) = self.ty(e) {
                            self.env.insert(x.to_string(), parse_quote!(&#t));
                        } else {
                            self.env.insert(x.to_string(), parse_quote!(&_));
                        }
                        vec![parse_quote!(let #m #x = &#e;)]
                    }
                    Item_::RefMut(e) => {
                        subst.push((x.to_string(), e.clone()));
                        vec![]
                    }
                    Item_::RefVar(e) => {
                        self.env.insert(x.to_string(), parse_quote!(&_));
                        vec![parse_quote!(let #m #x = #e;)]
                    }
                    Item_::Val(e) => {
                        match self.ty(e) {
                            Some(t) => {
                                self.env.insert(x.to_string(), t);
                            }
                            None => {
                                self.env.remove(&x.to_string());
                            }
                        }
                        vec![parse_quote!(let #m #x = #e;)]
                    }
                    Item_::Tuple(_) => {
                        let e = self.item_expr(item);
                        vec![parse_quote!(let #m #x = #e;)]
                    }
                }
            }
            Pat::Reference(r) => match item {
                Item_::Ref(e) | Item_::RefMut(e) => self.bind(&r.pat, &Item_::Val(e.clone()), subst),
                Item_::RefVar(e) => self.bind(&r.pat, &Item_::Val(parse_quote!(*#e)), subst),
                _ => {
                    let e = self.item_expr(item);
                    vec![parse_quote!(let #pat = #e;)]
                }
            },
            Pat::Tuple(t) => {
                let n = t.elems.len();
                let mut out = vec![];
                let parts: Vec<Item_> = match item {
                    Item_::Tuple(v) if v.len() == n => v.clone(),
                    Item_::Ref(e) => (0..n).map(|k| { let k = syn::Index::from(k); Item_::Ref(parse_quote!(#e.#k)) }).collect(),
                    Item_::RefMut(e) => (0..n).map(|k| { let k = syn::Index::from(k); Item_::RefMut(parse_quote!(#e.#k)) }).collect(),
                    Item_::RefVar(e) => (0..n).map(|k| { let k = syn::Index::from(k); Item_::Ref(parse_quote!(#e.#k)) }).collect(),
                    _ => {
                        let e = self.item_expr(item);
                        return vec![parse_quote!(let #pat = #e;)];
                    }
                };
                for (p, i) in t.elems.iter().zip(parts.iter()) {
                    out.extend(self.bind(p, i, subst));
                }
                out
            }
            _ => {
                let e = self.item_expr(item);
                vec![parse_quote!(let #pat = #e;)]
            }
        }
    }

    fn item_expr(&self, item: &Item_) -> Expr {
        match item {
            Item_::Ref(e) => parse_quote!(&#e),
            Item_::RefMut(e) => parse_quote!(&mut #e),
            Item_::RefVar(e) | Item_::Val(e) => e.clone(),
            Item_::Tuple(v) => {
                let v: Vec<Expr> = v.iter().map(|i| self.item_expr(i)).collect();
                parse_quote!((#(#v),*))
            }
        }
    }

    /// Leaves of a source get their variables; returns the item for index variable j and the
    /// length expressions.
    fn prepare(&mut self, s: &Src, k: usize, sub: &mut usize, pre: &mut Vec<Stmt>, lens: &mut Vec<Expr>, j: &Ident) -> Option<Item_> {
        Some(match s {
            Src::Range(..) => return None,
            Src::Ref(e) => {
                let mut p = self.fold_expr(e.clone());
                if !is_place(&p) {
                    let v = format_ident!("__s{}_{}", k, *sub);
                    *sub += 1;
                    if let Some(t) = self.ty(&p) {
                        self.env.insert(v.to_string(), t);
                    }
                    pre.push(parse_quote!(let #v = #p;));
                    p = parse_quote!(#v);
                }
                lens.push(parse_quote!(#p.len()));
                self.auto_inv.entry(k).or_default().push(format!("__n{} <= ({}).len()", k, spec_place(&p)));
                Item_::Ref(parse_quote!(#p[#j]))
            }
            Src::RefMut(e) => {
                let p = self.fold_expr(e.clone());
                if !is_place(&p) {
                    return None;
                }
                lens.push(parse_quote!(#p.len()));
                self.auto_inv.entry(k).or_default().push(format!("__n{} <= ({}).len()", k, spec_place(&p)));
                Item_::RefMut(parse_quote!(#p[#j]))
            }
            Src::Own(e) => {
                let t = self.ty(e);
                let p = self.fold_expr(e.clone());
                let v = format_ident!("__s{}_{}", k, *sub);
                *sub += 1;
                if let Some(t) = t {
                    self.env.insert(v.to_string(), t);
                }
                pre.push(parse_quote!(let mut #v = #p;));
                let g = v.to_string().replace("__s", "__g");
                pre.push(marker(&format!("raw let ghost {} = {}@;", g, v)));
                self.auto_inv.entry(k).or_default().extend(vec![
                    format!("{}@.len() == {}.len()", v, g),
                    format!("__n{} <= {}.len()", k, g),
                    format!("forall|k__: int| __i{} <= k__ < {}.len() ==> {}@[k__] == {}[k__]", k, g, v, g),
                ]);
                lens.push(parse_quote!(#v.len()));
                let f = format_ident!("__e{}_{}", k, *sub);
                let et = self.ty(&parse_quote!(#v)).and_then(|t| elem_type(&t));
                if let Some(t) = et {
                    self.env.insert(f.to_string(), t);
                }
                // taken out at the start of the iteration
                Item_::Val(parse_quote!(crate::shim::vec_take(&mut #v, #j)))
            }
            Src::Zip(a, b) => {
                let x = self.prepare(a, k, sub, pre, lens, j)?;
                let y = self.prepare(b, k, sub, pre, lens, j)?;
                Item_::Tuple(vec![x, y])
            }
            Src::Take(a, n) => {
                let x = self.prepare(a, k, sub, pre, lens, j)?;
                let v = format_ident!("__h{}_{}", k, *sub);
                *sub += 1;
                let n = self.fold_expr(n.clone());
                pre.push(parse_quote!(let #v: usize = #n;));
                lens.push(parse_quote!(#v));
                x
            }
            Src::Enumerate(a) => {
                let x = self.prepare(a, k, sub, pre, lens, j)?;
                Item_::Tuple(vec![Item_::Val(parse_quote!(#j)), x])
            }
        })
    }

    /// Generates the loop. `term` gets the item and returns the statements of the innermost body.
    fn gen(&mut self, p: &Pipe, pre_init: Vec<Stmt>, result: Option<Expr>, term: &mut dyn FnMut(&mut Self, usize, Item_) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let k = self.loops;
        let saved = self.clone_state();
        self.loops += 1;
        let kind = std::mem::replace(&mut self.kind, "for".into());
        self.note_kind(k, &format!("{}:{}", kind, src_kind(&p.src)));
        let i = format_ident!("__i{}", k);
        let n = format_ident!("__n{}", k);
        let j = format_ident!("__j{}", k);
        let mut pre: Vec<Stmt> = vec![];
        let mut head: Vec<Stmt> = vec![];
        let cond: Expr;
        let item;
        let mut low = false;
        match &p.src {
            Src::Range(lo, hi, closed) => {
                let lo = self.fold_expr(lo.clone());
                let hi = self.fold_expr(hi.clone());
                pre.push(parse_quote!(let #n = #hi;));
                let lo_s = lo.to_token_stream().to_string();
                if lo_s == "0" {
                    pre.push(parse_quote!(let mut #i = 0;));
                } else {
                    let l = format_ident!("__l{}", k);
                    pre.push(parse_quote!(let #l = #lo;));
                    pre.push(parse_quote!(let mut #i = #l;));
                    low = true;
                }
                if *closed {
                    self.restore(saved);
                    return None;
                }
                cond = parse_quote!(#i < #n);
                self.env.insert(j.to_string(), parse_quote!(usize));
                item = Item_::Val(parse_quote!(#j));
            }
            s => {
                let mut sub = 0;
                let mut lens = vec![];
                let it = self.prepare(s, k, &mut sub, &mut pre, &mut lens, &j);
                item = match it {
                    Some(x) => x,
                    None => {
                        self.restore(saved);
                        return None;
                    }
                };
                let mut l = lens[0].clone();
                for x in &lens[1..] {
                    l = parse_quote!(crate::shim::min_usize(#l, #x));
                }
                pre.push(parse_quote!(let #n = #l;));
                pre.push(parse_quote!(let mut #i: usize = 0;));
                cond = parse_quote!(#i < #n);
            }
        }
        head.push(parse_quote!(let #j = #i;));
        head.push(parse_quote!(#i = #i + 1;));
        // owned elements are moved out first
        let item = self.take_owned(item, k, &mut head);
        let stages = p.stages.clone();
        let body = match self.stages(&stages, 0, k, item, term) {
            Some(b) => b,
            None => {
                self.restore(saved);
                return None;
            }
        };
        let body: Vec<Stmt> = body
            .into_iter()
            .map(|s| match s {
                Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) => Stmt::Expr(e, Some(Default::default())),
                s => s,
            })
            .collect();
        let inv = marker(&format!("inv {} {}", k, if low { "l" } else { "c" }));
        let m_before = marker(&format!("at loop {} before", k));
        let m_begin = marker(&format!("at loop {} begin", k));
        let m_end = marker(&format!("at loop {} end", k));
        let m_after = marker(&format!("at loop {} after", k));
        Some(match result {
            Some(r) => parse_quote!({ #(#pre)* #(#pre_init)* #m_before while #cond { #inv #(#head)* #m_begin #(#body)* #m_end } #m_after #r }),
            None => parse_quote!({ #(#pre)* #(#pre_init)* #m_before while #cond { #inv #(#head)* #m_begin #(#body)* #m_end } #m_after }),
        })
    }

    fn note_kind(&mut self, k: usize, kind: &str) {
        let i = if self.depth > 0 { "helper:" } else { "" };
        self.kinds.insert(k, format!("{}{}", i, kind));
    }

    fn take_owned(&mut self, item: Item_, k: usize, head: &mut Vec<Stmt>) -> Item_ {
        match item {
            Item_::Val(e) if e.to_token_stream().to_string().contains("vec_take") => {
                let v = format_ident!("__x{}", k);
                // type of the element
                if let Expr::Call(c) = &e {
                    if let Expr::Reference(r) = &c.args[0] {
                        if let Some(t) = self.ty(&r.expr).and_then(|t| elem_type(&t)) {
                            self.env.insert(v.to_string(), t);
                        }
                    }
                }
                head.push(parse_quote!(let #v = #e;));
                Item_::Val(parse_quote!(#v))
            }
            Item_::Tuple(v) => Item_::Tuple(v.into_iter().map(|x| self.take_owned(x, k, head)).collect()),
            x => x,
        }
    }

    fn clone_state(&self) -> (usize, usize, usize, HashMap<String, Type>) {
        (self.loops, self.closures, self.tmp, self.env.clone())
    }
    fn restore(&mut self, s: (usize, usize, usize, HashMap<String, Type>)) {
        self.loops = s.0;
        self.closures = s.1;
        self.tmp = s.2;
        self.env = s.3;
    }

    fn closure_stmts(&mut self, c: &ExprClosure, items: &[Item_]) -> (Vec<Stmt>, Expr) {
        let mut subst = vec![];
        let mut st = vec![];
        for (p, it) in c.inputs.iter().zip(items) {
            st.extend(self.bind(p, it, &mut subst));
        }
        let mut body = (*c.body).clone();
        for (name, place) in subst {
            SubstPlace { name, place, mutable: true }.visit_expr_mut(&mut body);
        }
        let body = self.fold_expr(body);
        (st, body)
    }

    fn closure_value(&mut self, c: &ExprClosure, items: &[Item_]) -> Expr {
        let (st, body) = self.closure_stmts(c, items);
        if st.is_empty() {
            return body;
        }
        match body {
            Expr::Block(b) if b.label.is_none() => {
                let inner = b.block.stmts;
                parse_quote!({ #(#st)* #(#inner)* })
            }
            body => parse_quote!({ #(#st)* #body }),
        }
    }

    fn stages(&mut self, stages: &[Stage], s: usize, k: usize, item: Item_, term: &mut dyn FnMut(&mut Self, usize, Item_) -> Option<Vec<Stmt>>) -> Option<Vec<Stmt>> {
        if s == stages.len() {
            return term(self, k, item);
        }
        match &stages[s] {
            Stage::Map(c) => {
                let v = format_ident!("__m{}_{}", k, s);
                let e = self.closure_value(c, &[item]);
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #e;)];
                out.push(marker(&format!("at loop {} map {}", k, s)));
                out.extend(self.stages(stages, s + 1, k, Item_::Val(parse_quote!(#v)), term)?);
                Some(out)
            }
            Stage::Cloned => {
                let e: Expr = match &item {
                    Item_::Ref(e) | Item_::RefMut(e) => parse_quote!(#e.clone()),
                    Item_::RefVar(e) => parse_quote!((*#e).clone()),
                    _ => return None,
                };
                self.stages(stages, s + 1, k, Item_::Val(e), term)
            }
            Stage::Filter(c) => {
                let r = format_ident!("__r{}_{}", k, s);
                let e = self.item_expr(&item);
                let mut out: Vec<Stmt> = vec![parse_quote!(let #r = #e;)];
                let cond = self.closure_value(c, &[Item_::Ref(parse_quote!(#r))]);
                let it2 = match item {
                    Item_::Ref(_) | Item_::RefVar(_) => Item_::RefVar(parse_quote!(#r)),
                    Item_::Val(_) => Item_::Val(parse_quote!(#r)),
                    x => x,
                };
                let inner = self.stages(stages, s + 1, k, it2, term)?;
                let b = format_ident!("__b{}_{}", k, s);
                out.push(parse_quote!(let #b = #cond;));
                out.push(parse_quote!(if #b { #(#inner)* }));
                Some(out)
            }
            Stage::FilterMap(c) => {
                let p = format_ident!("__p{}_{}", k, s);
                let is_ref = matches!(&*c.body, Expr::MethodCall(m) if m.method == "as_ref");
                let e = self.closure_value(c, &[item]);
                let it2 = if is_ref { Item_::RefVar(parse_quote!(#p)) } else { Item_::Val(parse_quote!(#p)) };
                let inner = self.stages(stages, s + 1, k, it2, term)?;
                let o = format_ident!("__o{}_{}", k, s);
                Some(vec![parse_quote!(let #o = #e;), parse_quote!(if let Some(#p) = #o { #(#inner)* })])
            }
        }
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let p = match name.as_str() {
            "collect" | "fold" | "for_each" | "count" | "sum" | "min_by" | "max_by" | "any" | "all" | "any__tail" | "all__tail" => self.parse_src(&m.receiver)?,
            _ => return None,
        };
        for a in &m.args {
            if let Expr::Closure(c) = a {
                if has_return(&c.body) {
                    return None;
                }
            }
        }
        let k = self.loops;
        let f = format_ident!("__f{}", k);
        let c = format_ident!("__c{}", k);
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        self.kind = name.clone();
        let r = self.terminal_of(name.as_str(), &p, k, f, c, args);
        self.kind = "for".into();
        r
    }

    fn terminal_of(&mut self, name: &str, p: &Pipe, k: usize, f: Ident, c: Ident, args: Vec<Expr>) -> Option<Expr> {
        match name {
            // the value of the whole function
            "any__tail" | "all__tail" => {
                let cl = closure_of(&args[0])?;
                let any = name == "any__tail";
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                self.gen(p, vec![], Some(init), &mut |tx, _, it| {
                    let v = tx.closure_value(&cl, &[it]);
                    let b = format_ident!("__q{}", k);
                    Some(if any {
                        vec![parse_quote!(let #b = #v;), parse_quote!(if #b { return true; })]
                    } else {
                        vec![parse_quote!(let #b = #v;), parse_quote!(if !#b { return false; })]
                    })
                })
            }
            "collect" => self.gen(p, vec![parse_quote!(let mut #c = Vec::new();)], Some(parse_quote!(#c)), &mut |tx, _, it| {
                let e = tx.item_expr(&it);
                Some(vec![parse_quote!(#c.push(#e);)])
            }),
            "count" => self.gen(p, vec![parse_quote!(let mut #f: usize = 0;)], Some(parse_quote!(#f)), &mut |_, _, _| {
                Some(vec![parse_quote!(#f = #f + 1;)])
            }),
            "sum" => self.gen(p, vec![parse_quote!(let mut #f = crate::shim::Zero_::zero_();)], Some(parse_quote!(#f)), &mut |_, _, it| {
                let e: Expr = match &it {
                    Item_::Ref(e) => e.clone(),
                    Item_::RefVar(e) => parse_quote!(*#e),
                    Item_::Val(e) => e.clone(),
                    _ => return None,
                };
                Some(vec![parse_quote!(#f = #f + #e;)])
            }),
            "for_each" => {
                let cl = closure_of(&args[0])?;
                self.gen(p, vec![], None, &mut |tx, _, it| {
                    let (mut st, body) = tx.closure_stmts(&cl, &[it]);
                    match body {
                        Expr::Block(b) if b.label.is_none() => st.extend(b.block.stmts),
                        e => st.push(Stmt::Expr(e, Some(Default::default()))),
                    }
                    Some(st)
                })
            }
            "fold" => {
                let init = self.fold_expr(args[0].clone());
                let cl = closure_of(&args[1])?;
                self.gen(p, vec![parse_quote!(let mut #f = #init;)], Some(parse_quote!(#f)), &mut |tx, _, it| {
                    let v = tx.closure_value(&cl, &[Item_::Val(parse_quote!(#f)), it]);
                    Some(vec![parse_quote!(#f = #v;)])
                })
            }
            "any" | "all" => {
                let cl = closure_of(&args[0])?;
                let any = name == "any";
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                self.gen(p, vec![parse_quote!(let mut #f: bool = #init;)], Some(parse_quote!(#f)), &mut |tx, _, it| {
                    let v = tx.closure_value(&cl, &[it]);
                    let b = format_ident!("__q{}", k);
                    Some(if any {
                        vec![parse_quote!(let #b = #v;), parse_quote!(if #b { #f = true; break; })]
                    } else {
                        vec![parse_quote!(let #b = #v;), parse_quote!(if !#b { #f = false; break; })]
                    })
                })
            }
            "min_by" | "max_by" => {
                let cl = closure_of(&args[0])?;
                let min = name == "min_by";
                self.gen(p, vec![parse_quote!(let mut #f = None;)], Some(parse_quote!(#f)), &mut |tx, _, it| {
                    let x = format_ident!("__y{}", k);
                    let cur = format_ident!("__z{}", k);
                    let t = format_ident!("__t{}", k);
                    let e = tx.item_expr(&it);
                    let cmp = tx.closure_value(&cl, &[Item_::Ref(parse_quote!(#cur)), Item_::Ref(parse_quote!(#x))]);
                    let arms: Expr = if min {
                        parse_quote!(match #cmp { std::cmp::Ordering::Greater => true, _ => false })
                    } else {
                        parse_quote!(match #cmp { std::cmp::Ordering::Greater => false, _ => true })
                    };
                    let owned = !matches!(it, Item_::Ref(_) | Item_::RefVar(_));
                    let mut st: Vec<Stmt> = vec![parse_quote!(let #x = #e;)];
                    if !owned {
                        // fixes the type of the accumulator, nothing else
                        st.push(parse_quote!(if false { #f = Some(#x); }));
                    }
                    st.extend(vec![
                        parse_quote!(let #t = match #f { None => true, Some(#cur) => #arms };),
                        parse_quote!(if #t { #f = Some(#x); }),
                    ] as Vec<Stmt>);
                    Some(st)
                })
            }
            _ => None,
        }
    }

    /// `OPTION.map(|x| body)` and friends are the `match` they stand for
    fn option_match(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if (name == "cloned" || name == "copied") && m.args.is_empty() {
            let t = self.ty(&m.receiver)?;
            if type_ident(&t).as_deref() != Some("Option") {
                return None;
            }
            let e = &m.receiver;
            let x = self.fresh("x");
            return Some(parse_quote!(match #e { None => None, Some(#x) => Some((*#x).clone()) }));
        }
        // no other type of the crates has these methods
        let sure = matches!(name.as_str(), "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "unwrap_or_else");
        if !sure && !matches!(name.as_str(), "map" | "and_then" | "filter" | "or_else") {
            return None;
        }
        let cl = closure_of(m.args.last()?)?;
        if has_return(&cl.body) {
            return None;
        }
        let mut owned = true;
        let scrutinee: Expr = match &*m.receiver {
            Expr::MethodCall(r) if r.method == "as_ref" && r.args.is_empty() && is_place(&r.receiver) => {
                owned = false;
                let x = &r.receiver;
                parse_quote!(&#x)
            }
            e => {
                match self.ty(e) {
                    Some(t) if type_ident(&t).as_deref() == Some("Option") => (),
                    None if sure && !matches!(e, Expr::MethodCall(r) if r.method == "as_mut" || r.method == "as_deref") => (),
                    _ => return None,
                }
                e.clone()
            }
        };
        let pat = |c: &ExprClosure| -> Option<Pat> {
            match c.inputs.iter().collect::<Vec<_>>().as_slice() {
                [Pat::Type(t)] => Some((*t.pat).clone()),
                [p] => Some((*p).clone()),
                _ => None,
            }
        };
        let body = &cl.body;
        let x = self.fresh("x");
        match (name.as_str(), m.args.len()) {
            ("map", 1) => {
                let p = pat(&cl)?;
                Some(parse_quote!(match #scrutinee { None => None, Some(#p) => Some(#body) }))
            }
            ("and_then", 1) => {
                let p = pat(&cl)?;
                Some(parse_quote!(match #scrutinee { None => None, Some(#p) => #body }))
            }
            ("is_some_and", 1) => {
                let p = pat(&cl)?;
                Some(parse_quote!(match #scrutinee { None => false, Some(#p) => #body }))
            }
            ("is_none_or", 1) => {
                let p = pat(&cl)?;
                Some(parse_quote!(match #scrutinee { None => true, Some(#p) => #body }))
            }
            ("filter", 1) if owned => {
                let p = pat(&cl)?;
                let q = self.fresh("q");
                Some(parse_quote!(match #scrutinee { None => None, Some(#x) => { let #q = { let #p = &#x; #body }; if #q { Some(#x) } else { None } } }))
            }
            ("unwrap_or_else", 1) if owned && cl.inputs.is_empty() => Some(parse_quote!(match #scrutinee { None => #body, Some(#x) => #x })),
            ("or_else", 1) if owned && cl.inputs.is_empty() => Some(parse_quote!(match #scrutinee { None => #body, Some(#x) => Some(#x) })),
            ("map_or_else", 2) => {
                let p = pat(&cl)?;
                let d = closure_of(&m.args[0])?;
                if has_return(&d.body) || !d.inputs.is_empty() {
                    return None;
                }
                let d = &d.body;
                Some(parse_quote!(match #scrutinee { None => #d, Some(#p) => #body }))
            }
            ("map_or", 2) => {
                let p = pat(&cl)?;
                let d = &m.args[0];
                let plain = match d {
                    Expr::Lit(_) | Expr::Path(_) => true,
                    Expr::Unary(u) => matches!(&*u.expr, Expr::Lit(_)),
                    _ => false,
                };
                if plain {
                    Some(parse_quote!(match #scrutinee { None => #d, Some(#p) => #body }))
                } else {
                    // the default is evaluated after the receiver, whatever that is
                    let (s, y) = (self.fresh("s"), self.fresh("d"));
                    Some(parse_quote!({ let #s = #scrutinee; let #y = #d; match #s { None => #y, Some(#p) => #body } }))
                }
            }
            _ => None,
        }
    }

    /// PLACE.retain(closure)
    fn retain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let cl = closure_of(&m.args[0])?;
        if has_return(&cl.body) || !is_place(&m.receiver) {
            return None;
        }
        let mut place = self.fold_expr((*m.receiver).clone());
        if let Some(Type::Reference(_)) = self.ty(&place) {
            place = parse_quote!(*#place);
        }
        let k = self.loops;
        let c = format_ident!("__c{}", k);
        let src = format_ident!("__s{}_0", k);
        let p = Pipe { src: Src::Own(parse_quote!(crate::shim::vec_take_all(&mut #place))), stages: vec![] };
        let _ = src;
        let r: Expr = self.gen(&p, vec![parse_quote!(let mut #c = Vec::new();)], Some(parse_quote!(#place = #c)), &mut |tx, _, it| {
            let x = tx.item_expr(&it);
            let q = format_ident!("__q{}", k);
            let cond = tx.closure_value(&cl, &[Item_::Ref(x.clone())]);
            Some(vec![parse_quote!(let #q = #cond;), parse_quote!(if #q { #c.push(#x); })])
        })?;
        Some(r)
    }

    // ---------------------------------------------------------------- helper inlining

    /// A function of the crate is called that has no contract and cannot be put in place of the call.
    fn opaque(&mut self, inf: &FnInfo) {
        if !inf.is_trait_impl {
            self.notes.push(format!("calls {}, which has no contract (not desugared)", inf.key));
        }
    }

    fn try_inline(&mut self, inf: &FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if inf.has_contract || inf.is_trait_impl || self.depth > 6 {
            return None;
        }
        let mut block = inf.block.clone();
        if has_return_block(&block) {
            guards_to_else(&mut block);
            if has_return_block(&block) {
                return None;
            }
        }
        let mut params: Vec<(Pat, Type)> = vec![];
        let mut recv_expr = None;
        for a in inf.sig.inputs.iter() {
            match a {
                FnArg::Receiver(_) => recv_expr = Some(recv.clone()?),
                FnArg::Typed(p) => params.push(((*p.pat).clone(), (*p.ty).clone())),
            }
        }
        let mut args = args;
        if recv.is_some() && recv_expr.is_none() {
            return None;
        }
        if recv.is_none() && inf.sig.receiver().is_some() {
            // Type::method(recv, ...)
            return None;
        }
        if params.len() != args.len() {
            return None;
        }
        if let Some(owner) = inf.self_ty.as_ref().and_then(type_ident) {
            if self.self_ty.as_ref().and_then(type_ident).as_ref() != Some(&owner) {
                RenameIdent { from: "Self".into(), to: format_ident!("{}", owner) }.visit_block_mut(&mut block);
            }
        }
        // make local binders of the helper unique
        let mut b = Binders::default();
        b.visit_block(&block);
        let taken: HashSet<String> = self.env.keys().cloned().collect();
        for n in b.0.iter().collect::<HashSet<_>>() {
            if taken.contains(n.as_str()) {
                let to = self.fresh(&format!("{}_h", n));
                RenameIdent { from: n.clone(), to }.visit_block_mut(&mut block);
            }
        }
        let mut names = Binders::default();
        names.visit_block(&block);
        // `mut self` by value: a local of its own
        let own = matches!(inf.sig.receiver(), Some(r) if r.reference.is_none() && r.mutability.is_some());
        let mut pre: Vec<Stmt> = vec![];
        if let (Some(r), true) = (&recv_expr, own) {
            let v = self.fresh("self_h");
            RenameIdent { from: "self".into(), to: v.clone() }.visit_block_mut(&mut block);
            if let Some(t) = self.ty(r) {
                self.env.insert(v.to_string(), t);
            }
            pre.push(parse_quote!(let mut #v = #r;));
        } else if let Some(r) = recv_expr {
            if !is_place(&r) {
                return None;
            }
            if ident_of(&r).map_or(true, |i| i != "self") {
                SubstSelf(r).visit_block_mut(&mut block);
            }
        }
        for ((pat, ty), arg) in params.into_iter().zip(args.drain(..)) {
            let (name, mutable) = match &pat {
                Pat::Ident(i) => (i.ident.clone(), i.mutability.is_some()),
                _ => return None,
            };
            // rename the parameter to something fresh first (capture avoidance)
            let fresh = self.fresh(&format!("{}_h", name));
            RenameIdent { from: name.to_string(), to: fresh.clone() }.visit_block_mut(&mut block);
            let is_ref = matches!(&ty, Type::Reference(_));
            match &arg {
                Expr::Reference(r) if is_ref && is_place(&r.expr) => {
                    SubstPlace { name: fresh.to_string(), place: (*r.expr).clone(), mutable: r.mutability.is_some() }.visit_block_mut(&mut block);
                }
                Expr::Path(_) if ident_of(&arg).is_some() && !mutable => {
                    let to = ident_of(&arg).unwrap();
                    RenameIdent { from: fresh.to_string(), to }.visit_block_mut(&mut block);
                }
                _ => {
                    let m: Option<Token![mut]> = if mutable { Some(Default::default()) } else { None };
                    if let Some(t) = self.ty(&arg) {
                        self.env.insert(fresh.to_string(), t);
                    } else if let Type::Reference(_) = &ty {
                        self.env.insert(fresh.to_string(), ty.clone());
                    }
                    pre.push(parse_quote!(let #m #fresh = #arg;));
                }
            }
        }
        self.inlined.extend(names.0);
        self.notes.push(format!("inlined {}", inf.key));
        let stmts = block.stmts;
        self.depth += 1;
        let e: Expr = if pre.is_empty() && stmts.len() == 1 {
            match &stmts[0] {
                Stmt::Expr(e, None) => parse_quote!((#e)),
                _ => parse_quote!({ #(#stmts)* }),
            }
        } else {
            parse_quote!({ #(#pre)* #(#stmts)* })
        };
        let e = self.fold_expr(e);
        self.depth -= 1;
        Some(e)
    }

    fn record_pat_type(&mut self, pat: &Pat, ty: Option<Type>) {
        if let Pat::Ident(p) = pat {
            match ty {
                Some(t) => {
                    self.env.insert(p.ident.to_string(), t);
                }
                None => {
                    self.env.insert(p.ident.to_string(), parse_quote!(_));
                }
            }
        } else {
            let mut b = Binders::default();
            b.visit_pat(pat);
            for n in b.0 {
                self.env.insert(n, parse_quote!(_));
            }
        }
    }

    fn assert_call(&mut self, c: Expr) -> Expr {
        let c = self.fold_expr(c);
        if self.has_valid {
            parse_quote!(crate::shim::rt_assert_if(#c, __vx!("valid")))
        } else {
            parse_quote!(crate::shim::rt_assert(#c))
        }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "__vx" => None,
            "assert" | "debug_assert" => {
                let a = args()?;
                Some(self.assert_call(a.first()?.clone()))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (a.first()?, a.iter().nth(1)?);
                Some(self.assert_call(parse_quote!(#x == #y)))
            }
            "assert_ne" => {
                let a = args()?;
                let (x, y) = (a.first()?, a.iter().nth(1)?);
                Some(self.assert_call(parse_quote!(#x != #y)))
            }
            "panic" | "unreachable" => Some(if self.has_valid { parse_quote!(crate::shim::rt_panic_if(__vx!("valid"))) } else { parse_quote!(crate::shim::rt_panic()) }),
            "format" => self.format_args(&m.tokens, false),
            "write" | "writeln" => {
                let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let comma = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).unwrap_or(toks.len());
                let mut w: Expr = parse2(toks[..comma].iter().cloned().collect()).ok()?;
                let rest: TokenStream = toks.iter().skip(comma + 1).cloned().collect();
                while let Expr::Reference(r) = w {
                    w = *r.expr;
                }
                let w = self.fold_expr(w);
                let x = self.format_args(&rest, name == "writeln")?;
                Some(parse_quote!(#w.put(&#x)))
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                if let Some(a) = args() {
                    let v = self.fresh("v");
                    let a: Vec<Expr> = a.into_iter().map(|e| self.fold_expr(e)).collect();
                    return Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }));
                }
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                let r: Rep = m.parse_body().ok()?;
                let (a, n) = (self.fold_expr(r.0), self.fold_expr(r.1));
                Some(parse_quote!(crate::shim::vec_repeat(#a, #n)))
            }
            _ => None,
        }
    }
}

fn str_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Paren(p) => str_lit(&p.expr),
        Expr::Reference(r) => str_lit(&r.expr),
        _ => None,
    }
}

pub struct SubstSelf(pub Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if ident_of(e).map_or(false, |i| i == "self") {
            *e = self.0.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}
struct SubstExpr(String, Expr);
impl VisitMut for SubstExpr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if ident_of(e).map_or(false, |i| i == self.0) {
            *e = self.1.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn is_float_ty(t: &Type) -> bool {
    matches!(type_ident(t).as_deref(), Some("f64") | Some("f32") | Some("GoalValue"))
}

impl<'a> Fold for Tx<'a> {
    fn fold_item(&mut self, i: Item) -> Item {
        i
    }

    fn fold_block(&mut self, b: Block) -> Block {
        let saved_aliases = self.aliases.clone();
        let mut out = vec![];
        for s in b.stmts {
            match s {
                Stmt::Local(l) => {
                    // iterator alias
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Some(pipe) = self.parse_src(&init.expr) {
                            if !matches!(pipe.src, Src::Range(..)) && matches!(&*init.expr, Expr::MethodCall(m) if m.method != "into_iter") {
                                self.aliases.insert(p.ident.to_string(), pipe);
                                self.env.insert(p.ident.to_string(), parse_quote!(_));
                                continue;
                            }
                        }
                    }
                    let (pat, ty) = match &l.pat {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), l.init.as_ref().and_then(|i| self.ty(&i.expr))),
                    };
                    let name = if let Pat::Ident(p) = &pat { Some(p.ident.to_string()) } else { None };
                    let mut l = l;
                    l.attrs.clear();
                    l.init = l.init.map(|mut i| {
                        i.expr = Box::new(self.fold_expr(*i.expr));
                        i.diverge = i.diverge.map(|(t, e)| (t, Box::new(self.fold_expr(*e))));
                        i
                    });
                    self.record_pat_type(&pat, ty);
                    out.push(Stmt::Local(l));
                    if let Some(n) = name {
                        out.push(marker(&format!("at letafter {}", n)));
                    }
                }
                Stmt::Macro(m) => {
                    if m.mac.path.is_ident("__vx") {
                        out.push(Stmt::Macro(m));
                    } else if let Some(e) = self.macro_expr(&m.mac) {
                        out.push(Stmt::Expr(e, m.semi_token));
                    } else {
                        out.push(Stmt::Macro(m));
                    }
                }
                Stmt::Expr(e, semi) => {
                    let e = self.fold_expr(e);
                    out.push(Stmt::Expr(e, semi));
                }
                s => out.push(s),
            }
        }
        self.aliases = saved_aliases;
        Block { brace_token: b.brace_token, stmts: out }
    }

    fn fold_expr(&mut self, e: Expr) -> Expr {
        match e {
            Expr::ForLoop(f) => {
                let p = match self.parse_src(&f.expr) {
                    Some(p) => p,
                    None => self.src_by_type(&f.expr),
                };
                let pat = (*f.pat).clone();
                let body = f.body.clone();
                let r = self.gen(&p, vec![], None, &mut |tx, _, it| {
                    let mut subst = vec![];
                    let mut st = tx.bind(&pat, &it, &mut subst);
                    let mut b = body.clone();
                    for (name, place) in subst {
                        SubstPlace { name, place, mutable: true }.visit_block_mut(&mut b);
                    }
                    let b = tx.fold_block(b);
                    st.extend(b.stmts);
                    // the value of the body is ()
                    if let Some(Stmt::Expr(_, semi)) = st.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    Some(st)
                });
                match r {
                    Some(e) => e,
                    None => {
                        self.notes.push("for loop not desugared".into());
                        Expr::ForLoop(f)
                    }
                }
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.note_kind(k, "while");
                // while X < N { ..; X += 1; }
                if let Expr::Binary(b) = &*w.cond {
                    if matches!(b.op, BinOp::Lt(_)) {
                        if let Some(x) = ident_of(&b.left) {
                            let mut hc = HasContinue(false);
                            hc.visit_block(&w.body);
                            let inc = match w.body.stmts.last() {
                                Some(Stmt::Expr(Expr::Binary(i), _)) => matches!(i.op, BinOp::AddAssign(_)) && ident_of(&i.left).map_or(false, |y| y == x),
                                Some(Stmt::Expr(Expr::Assign(i), _)) => ident_of(&i.left).map_or(false, |y| y == x),
                                _ => false,
                            };
                            if inc && !hc.0 {
                                self.user_while.insert(k, (x.to_string(), b.right.to_token_stream().to_string()));
                            }
                        }
                    }
                }
                let cond = self.fold_expr(*w.cond);
                let body = self.fold_block(w.body);
                let st = body.stmts;
                let inv = marker(&format!("inv {}", k));
                let m_before = marker(&format!("at loop {} before", k));
                let m_begin = marker(&format!("at loop {} begin", k));
                let m_end = marker(&format!("at loop {} end", k));
                let m_after = marker(&format!("at loop {} after", k));
                parse_quote!({ #m_before while #cond { #inv #m_begin #(#st)* #m_end } #m_after })
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.note_kind(k, "loop");
                let body = self.fold_block(w.body);
                let st = body.stmts;
                let inv = marker(&format!("inv {}", k));
                let m_before = marker(&format!("at loop {} before", k));
                let m_begin = marker(&format!("at loop {} begin", k));
                let m_end = marker(&format!("at loop {} end", k));
                let label = w.label;
                parse_quote!({ #m_before #label loop { #inv #m_begin #(#st)* #m_end } })
            }
            Expr::MethodCall(m) => {
                if m.method == "retain" && m.args.len() == 1 {
                    self.kind = "retain".into();
                    let r = self.retain(&m);
                    self.kind = "for".into();
                    if let Some(e) = r {
                        return e;
                    }
                }
                if let Some(e) = self.text_method(&m) {
                    return e;
                }
                if let Some(e) = self.terminal(&m) {
                    return e;
                }
                if m.method == "any__tail" || m.method == "all__tail" {
                    let mut m2 = m.clone();
                    m2.method = format_ident!("{}", &m.method.to_string()[..3]);
                    return self.fold_expr(Expr::MethodCall(m2));
                }
                if let Some(e) = self.option_match(&m) {
                    return self.fold_expr(e);
                }
                // helper inlining
                let mut known = false;
                if let Some(t) = self.ty(&m.receiver) {
                    if let Some(tn) = type_ident(&peel(&t)) {
                        known = self.index.structs.contains_key(&tn) || tn == "Vec";
                        if let Some(v) = self.index.methods.get(&(tn, m.method.to_string())) {
                            known = true;
                            let here = v.iter().find(|i| i.module == self.module).or(if v.len() == 1 { v.first() } else { None }).cloned();
                            if let Some(inf) = here {
                                if !inf.has_contract {
                                    if let Some(e) = self.try_inline(&inf, Some((*m.receiver).clone()), m.args.iter().cloned().collect()) {
                                        return e;
                                    }
                                    self.opaque(&inf);
                                }
                            }
                        }
                    }
                }
                if !known && self.index.unknown.contains(&m.method.to_string()) {
                    self.notes.push(format!("calls {}, which has no contract (not desugared)", m.method));
                }
                Expr::MethodCall(syn::fold::fold_expr_method_call(self, m))
            }
            Expr::Call(c) => {
                if let (Expr::Paren(f), 1) = (&*c.func, c.args.len()) {
                    if self.ty(&f.expr).and_then(|t| type_ident(&peel(&t))).map_or(false, |t| t == "FnRef") {
                        let (f, x) = ((*f.expr).clone(), c.args[0].clone());
                        return self.fold_expr(parse_quote!(#f.call(#x)));
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() == 4 && segs[2] == "Text" && last == "from" && c.args.len() == 1 {
                        if let Some(l) = str_lit(&c.args[0]) {
                            return self.text_of_lit(&l);
                        }
                    }
                    if segs.len() >= 2 && segs[segs.len() - 2] == "mem" && (last == "size_of" || last == "size_of_val") {
                        let mut c2 = c.clone();
                        if let Expr::Path(p2) = &mut *c2.func {
                            let mut seg = p2.path.segments.last().unwrap().clone();
                            seg.ident = format_ident!("{}", last);
                            p2.path = parse_quote!(crate::shim::#seg);
                        }
                        return Expr::Call(syn::fold::fold_expr_call(self, c2));
                    }
                    // helper inlining
                    let cand: Option<FnInfo> = if segs.len() == 1 {
                        self.index.free.get(&last).and_then(|v| {
                            v.iter().find(|i| i.module == self.module).or(if v.len() == 1 { v.first() } else { None })
                        }).cloned()
                    } else if segs.len() == 2 {
                        let t = if segs[0] == "Self" { self.self_ty.as_ref().and_then(type_ident).unwrap_or_default() } else { segs[0].clone() };
                        self.index.methods.get(&(t, last.clone())).and_then(|v| v.iter().find(|i| i.module == self.module).or(if v.len() == 1 { v.first() } else { None })).cloned()
                    } else {
                        self.index.free.get(&last).and_then(|v| if v.len() == 1 { v.first() } else { None }).cloned()
                    };
                    if cand.is_none() && segs.len() > 1 && segs[0] != "std" && segs[0] != "crate" && self.index.unknown.contains(&last) && !["f32", "f64", "Vec"].contains(&segs[segs.len() - 2].as_str()) {
                        self.notes.push(format!("calls {}, which has no contract (not desugared)", segs.join("::")));
                    }
                    if let Some(inf) = cand {
                        if !inf.has_contract {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let recv = if inf.sig.receiver().is_some() && !args.is_empty() { Some(args.remove(0)) } else { None };
                            let recv = recv.map(|r| match r { Expr::Reference(r) => *r.expr, r => r });
                            if let Some(e) = self.try_inline(&inf, recv, args) {
                                return e;
                            }
                            self.opaque(&inf);
                        }
                    }
                }
                Expr::Call(syn::fold::fold_expr_call(self, c))
            }
            Expr::Index(ix) => {
                if let Some(p) = self.inline_index(&ix) {
                    return self.fold_expr(p);
                }
                Expr::Index(syn::fold::fold_expr_index(self, ix))
            }
            Expr::Macro(m) => {
                if let Some(e) = self.macro_expr(&m.mac) {
                    return e;
                }
                Expr::Macro(m)
            }
            Expr::Cast(c) => {
                if is_float_ty(&c.ty) {
                    if let Expr::Lit(l) = &*c.expr {
                        if let Lit::Int(i) = &l.lit {
                            let f = LitFloat::new(&format!("{}.0", i.base10_digits()), Span::call_site());
                            return parse_quote!(#f);
                        }
                    }
                    let e = self.fold_expr(*c.expr);
                    let f = if matches!(type_ident(&c.ty).as_deref(), Some("f32")) { quote!(as_f32) } else { quote!(as_f64) };
                    return parse_quote!(crate::shim::#f(#e));
                }
                Expr::Cast(syn::fold::fold_expr_cast(self, c))
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.len();
                if n >= 2 && (segs[n - 2] == "f64" || segs[n - 2] == "f32") && segs[n - 1].chars().all(|c| c.is_uppercase() || c == '_') {
                    let f = format_ident!("{}_{}", segs[n - 2], segs[n - 1]);
                    return parse_quote!(crate::shim::#f());
                }
                if n == 3 && segs[0] == "std" && segs[2].chars().all(|c| c.is_uppercase()) {
                    let a = &p.path.segments[1];
                    let b = &p.path.segments[2];
                    return parse_quote!(#a::#b);
                }
                if n >= 2 && segs[0] == "rand" {
                    let pp = &p.path;
                    return parse_quote!(crate::#pp);
                }
                Expr::Path(p)
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    _ => None,
                };
                // String + &str
                if (matches!(b.op, BinOp::Add(_)) || matches!(b.op, BinOp::AddAssign(_))) && self.is_text(&b.left) {
                    if let Some(r) = self.text_ref(&b.right) {
                        let l = self.fold_expr((*b.left).clone());
                        if op.is_some() {
                            return parse_quote!(#l.append(#r));
                        }
                        return parse_quote!(crate::shim::text_cat(#l, #r));
                    }
                }
                if let Some(op) = op {
                    let l = self.fold_expr(*b.left);
                    let r = self.fold_expr(*b.right);
                    if is_place(&l) {
                        return parse_quote!(#l = #l #op (#r));
                    }
                    let bop = b.op;
                    return parse_quote!(#l #bop #r);
                }
                Expr::Binary(syn::fold::fold_expr_binary(self, b))
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let is_move = c.capture.is_some();
                if self.closure_specs.contains(&k) {
                    let pats: Vec<String> = c.inputs.iter().map(|p| p.to_token_stream().to_string()).collect();
                    let body = self.fold_expr((*c.body).clone());
                    // tuple patterns of the single parameter are destructured by field access
                    let mut lets: Vec<Stmt> = vec![];
                    for (n, p) in c.inputs.iter().enumerate() {
                        let v = format_ident!("__a{}", n);
                        let p2 = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let mut s = vec![];
                        if matches!(p2, Pat::Tuple(_)) {
                            lets.extend(self.bind(&p2, &Item_::RefVar(parse_quote!(#v)), &mut s));
                        } else {
                            lets.push(parse_quote!(let #p2 = #v;));
                        }
                    }
                    let _ = pats;
                    let stmts: Vec<Stmt> = match body { Expr::Block(b) if b.label.is_none() => b.block.stmts, e => vec![Stmt::Expr(e, None)] };
                    let blk: Block = parse_quote!({ #(#lets)* #(#stmts)* });
                    let m = format!("closure {}", k);
                    self.closure_bodies.insert(k, (is_move, String::new()));
                    let ops: String = c.body.to_token_stream().to_string().replace("->", "").chars().filter(|c| "+-/<>".contains(*c)).collect();
                    self.closure_ops.push(ops);
                    return parse_quote!(__vx_closure!(#m #blk));
                }
                Expr::Closure(syn::fold::fold_expr_closure(self, c))
            }
            e => syn::fold::fold_expr(self, e),
        }
    }
}
