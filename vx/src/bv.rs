//! The value of a straight-line integer function as one expression over its parameters, for the
//! solver's bit-vector mode (`@@bv TYPE`).  Every step is re-checked: the emitted text first asserts
//! that the result of the real code equals this expression.
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub enum Ctx {
    /// a value of the given integer type
    Val(String),
    /// anything else (shift amounts, conditions)
    Amount,
}

fn width(t: &str) -> Option<(u32, bool)> {
    Some(match t {
        "u8" => (8, false),
        "u16" => (16, false),
        "u32" => (32, false),
        "u64" | "usize" => (64, false),
        "i8" => (8, true),
        "i16" => (16, true),
        "i32" => (32, true),
        "i64" | "isize" => (64, true),
        _ => return None,
    })
}

fn size_of(t: &str) -> Option<u32> {
    match t {
        "f32" => Some(4),
        "f64" => Some(8),
        t => width(t).map(|w| w.0 / 8),
    }
}

pub struct Sym {
    pub env: HashMap<String, Expr>,
}

impl Sym {
    pub fn block(&mut self, stmts: &[Stmt], ctx: &Ctx) -> Option<String> {
        let n = stmts.len();
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Macro(m) if m.mac.path.is_ident("__vx") => {}
                Stmt::Local(l) => {
                    let id = match &l.pat {
                        Pat::Ident(p) => p.ident.to_string(),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) => p.ident.to_string(),
                            _ => return None,
                        },
                        _ => return None,
                    };
                    let e = self.close(&l.init.as_ref()?.expr)?;
                    self.env.insert(id, e);
                }
                Stmt::Expr(Expr::Assign(a), _) => {
                    let id = match &*a.left {
                        Expr::Path(p) => p.path.get_ident()?.to_string(),
                        _ => return None,
                    };
                    let e = self.close(&a.right)?;
                    self.env.insert(id, e);
                }
                Stmt::Expr(e, None) if i + 1 == n => return self.expr(e, ctx),
                _ => return None,
            }
        }
        None
    }

    /// the expression over the parameters
    fn close(&mut self, e: &Expr) -> Option<Expr> {
        Some(match e {
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => self.env.get(&i.to_string()).cloned().unwrap_or_else(|| e.clone()),
                None => e.clone(),
            },
            Expr::Lit(_) => e.clone(),
            Expr::Paren(x) => {
                let y = self.close(&x.expr)?;
                parse_quote!((#y))
            }
            Expr::Group(x) => self.close(&x.expr)?,
            Expr::Unary(u) => {
                let op = u.op;
                let y = self.close(&u.expr)?;
                parse_quote!((#op #y))
            }
            Expr::Binary(b) => {
                let op = b.op;
                let l = self.close(&b.left)?;
                let r = self.close(&b.right)?;
                parse_quote!((#l #op #r))
            }
            Expr::Cast(c) => {
                let t = &c.ty;
                let y = self.close(&c.expr)?;
                parse_quote!((#y as #t))
            }
            Expr::Block(b) if b.label.is_none() => {
                let save = self.env.clone();
                let r = self.tail(&b.block.stmts);
                self.env = save;
                r?
            }
            Expr::If(i) => {
                let c = self.close(&i.cond)?;
                let save = self.env.clone();
                let a = self.tail(&i.then_branch.stmts);
                self.env = save.clone();
                let b = self.close(&i.else_branch.as_ref()?.1);
                self.env = save;
                let (a, b) = (a?, b?);
                parse_quote!(if #c { #a } else { #b })
            }
            Expr::Call(_) => e.clone(),
            _ => return None,
        })
    }

    fn tail(&mut self, stmts: &[Stmt]) -> Option<Expr> {
        let (last, init) = stmts.split_last()?;
        for s in init {
            match s {
                Stmt::Macro(m) if m.mac.path.is_ident("__vx") => {}
                Stmt::Local(l) => {
                    let id = match &l.pat {
                        Pat::Ident(p) => p.ident.to_string(),
                        _ => return None,
                    };
                    let e = self.close(&l.init.as_ref()?.expr)?;
                    self.env.insert(id, e);
                }
                _ => return None,
            }
        }
        match last {
            Stmt::Expr(e, None) => self.close(e),
            _ => None,
        }
    }

    fn expr(&mut self, e: &Expr, ctx: &Ctx) -> Option<String> {
        let e = self.close(e)?;
        self.render(&e, ctx)
    }

    fn render(&self, e: &Expr, ctx: &Ctx) -> Option<String> {
        Some(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if i.suffix().is_empty() => match ctx {
                    Ctx::Val(t) => format!("{}{}", i.base10_digits(), t),
                    Ctx::Amount => i.base10_digits().to_string(),
                },
                Lit::Int(i) => format!("{}{}", i.base10_digits(), i.suffix()),
                _ => return None,
            },
            Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                match s.len() {
                    1 => s[0].clone(),
                    n => {
                        let t = &s[n - 2];
                        let (w, signed) = width(t)?;
                        let max: u128 = if signed { (1u128 << (w - 1)) - 1 } else { (1u128 << w) - 1 };
                        match s[n - 1].as_str() {
                            "MAX" => format!("{}{}", max, t),
                            "MIN" if !signed => format!("0{}", t),
                            "MIN" => format!("(-{}{} - 1{}) as {}", max, t, t, t),
                            "BITS" => format!("{}", w),
                            _ => return None,
                        }
                    }
                }
            }
            Expr::Paren(x) => format!("({})", self.render(&x.expr, ctx)?),
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => format!("(!{})", self.render(&u.expr, ctx)?),
                UnOp::Neg(_) => match ctx {
                    Ctx::Val(t) => format!("((-{}) as {})", self.render(&u.expr, ctx)?, t),
                    Ctx::Amount => return None,
                },
                _ => return None,
            },
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    Shl(_) | Shr(_) => {
                        let op = if matches!(b.op, Shl(_)) { "<<" } else { ">>" };
                        format!("({} {} {})", self.render(&b.left, ctx)?, op, self.amount(&b.right)?)
                    }
                    BitAnd(_) | BitOr(_) | BitXor(_) => {
                        let op = match b.op {
                            BitAnd(_) => "&",
                            BitOr(_) => "|",
                            _ => "^",
                        };
                        format!("({} {} {})", self.render(&b.left, ctx)?, op, self.render(&b.right, ctx)?)
                    }
                    Add(_) | Sub(_) | Mul(_) => {
                        let op = match b.op {
                            Add(_) => "+",
                            Sub(_) => "-",
                            _ => "*",
                        };
                        let t = match ctx {
                            Ctx::Val(t) => t.clone(),
                            Ctx::Amount => "usize".into(),
                        };
                        format!("(({} {} {}) as {})", self.render(&b.left, ctx)?, op, self.render(&b.right, ctx)?, t)
                    }
                    Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) => {
                        let op = match b.op {
                            Lt(_) => "<",
                            Le(_) => "<=",
                            Gt(_) => ">",
                            Ge(_) => ">=",
                            Eq(_) => "==",
                            _ => "!=",
                        };
                        format!("({} {} {})", self.render(&b.left, &Ctx::Amount)?, op, self.render(&b.right, &Ctx::Amount)?)
                    }
                    And(_) => format!("({} && {})", self.render(&b.left, &Ctx::Amount)?, self.render(&b.right, &Ctx::Amount)?),
                    Or(_) => format!("({} || {})", self.render(&b.left, &Ctx::Amount)?, self.render(&b.right, &Ctx::Amount)?),
                    _ => return None,
                }
            }
            Expr::Cast(c) => {
                let t = crate::tx::type_ident(&c.ty)?;
                width(&t)?;
                format!("({} as {})", self.render(&c.expr, &Ctx::Amount)?, t)
            }
            Expr::If(i) => {
                let a = match i.then_branch.stmts.last()? {
                    Stmt::Expr(e, None) => self.render(e, ctx)?,
                    _ => return None,
                };
                let b = self.render(&i.else_branch.as_ref()?.1, ctx)?;
                format!("(if {} {{ {} }} else {{ {} }})", self.render(&i.cond, &Ctx::Amount)?, a, b)
            }
            Expr::Block(b) => match b.block.stmts.last()? {
                Stmt::Expr(e, None) if b.block.stmts.len() == 1 => self.render(e, ctx)?,
                _ => return None,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let seg = p.path.segments.last()?;
                    if seg.ident == "size_of" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            if let Some(GenericArgument::Type(t)) = a.args.first() {
                                return Some(format!("{}", size_of(&crate::tx::type_ident(t)?)?));
                            }
                        }
                    }
                }
                return None;
            }
            _ => return None,
        })
    }

    fn amount(&self, e: &Expr) -> Option<String> {
        let s = self.render(e, &Ctx::Amount)?;
        Some(if s.chars().all(|c| c.is_ascii_digit()) { format!("{}usize", s) } else { s })
    }
}
