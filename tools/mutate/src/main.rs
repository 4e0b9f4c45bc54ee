//! mutate SRC_DIR OUT_DIR LIST [EXCLUDED...]
//! Rewrites every file of SRC_DIR so that small changes (mutants) can be switched on at run time by the
//! environment variable MUTANT; LIST gets one line per mutant: number, file, line, what.
//! A development aid: it says which changes no check notices. No check uses it.

use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    file: String,
    next: u32,
    excluded: HashSet<u32>,
    list: String,
}

impl M {
    fn new_id(&mut self, span: Span, what: String) -> Option<u32> {
        let k = self.next;
        self.next += 1;
        if self.excluded.contains(&k) {
            return None;
        }
        let _ = writeln!(self.list, "{}\t{}\t{}\t{}", k, self.file, span.start().line, what.replace(['\n', '\t'], " "));
        Some(k)
    }
    fn alt(&mut self, span: Span, what: String, e: &mut Expr, other: TokenStream) {
        if let Some(k) = self.new_id(span, what) {
            let old = e.to_token_stream();
            *e = Expr::Verbatim(quote! { (if crate::mutant::on(#k) { #other } else { #old }) });
        }
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

fn short(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    s.chars().take(90).collect()
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("test") && s.contains("cfg") || s.contains("# [test")
    })
}

impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Static(_) | Item::Type(_) | Item::Use(_) | Item::Macro(_) | Item::Struct(_) | Item::Enum(_) => {}
            Item::Mod(m) if is_test(&m.attrs) => {}
            Item::Fn(f) if f.sig.constness.is_some() || is_test(&f.attrs) => {}
            Item::Impl(im) => {
                if let Some((p, ..)) = im.trait_.as_ref().map(|t| (t.1.to_token_stream().to_string(), 0)) {
                    if p.contains("Debug") || p.contains("Display") {
                        return;
                    }
                }
                visit_mut::visit_item_impl_mut(self, im)
            }
            _ => visit_mut::visit_item_mut(self, i),
        }
    }
    fn visit_impl_item_mut(&mut self, i: &mut ImplItem) {
        match i {
            ImplItem::Const(_) | ImplItem::Type(_) => {}
            ImplItem::Fn(f) if f.sig.constness.is_some() => {}
            _ => visit_mut::visit_impl_item_mut(self, i),
        }
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for s in &mut b.stmts {
            let (span, del) = match s {
                Stmt::Expr(e, Some(_)) => (
                    e.span(),
                    match e {
                        Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Continue(_) | Expr::Break(_) => true,
                        Expr::Return(r) => r.expr.is_none(),
                        Expr::Binary(b) => matches!(
                            b.op,
                            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)
                        ),
                        // already rewritten (an assignment with an operator)
                        Expr::Verbatim(_) => false,
                        _ => false,
                    },
                ),
                _ => continue,
            };
            if del {
                if let Some(k) = self.new_id(span, format!("delete {}", short(&*s))) {
                    let old = s.to_token_stream();
                    *s = Stmt::Expr(Expr::Verbatim(quote! { if !crate::mutant::on(#k) { #old } }), None);
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let span = e.span();
        let what = short(&*e);
        match e {
            Expr::Repeat(r) => {
                self.visit_expr_mut(&mut r.expr);
                return;
            }
            Expr::Let(l) => {
                self.visit_expr_mut(&mut l.expr);
                return;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        match e {
            Expr::Binary(b) => {
                if has_let(&b.left) || has_let(&b.right) {
                    return;
                }
                let (l, r) = (b.left.to_token_stream(), b.right.to_token_stream());
                let alts: Vec<TokenStream> = match b.op {
                    BinOp::Lt(_) => vec![quote!(#l <= #r), quote!(#l >= #r)],
                    BinOp::Le(_) => vec![quote!(#l < #r), quote!(#l > #r)],
                    BinOp::Gt(_) => vec![quote!(#l >= #r), quote!(#l <= #r)],
                    BinOp::Ge(_) => vec![quote!(#l > #r), quote!(#l < #r)],
                    BinOp::Eq(_) => vec![quote!(#l != #r)],
                    BinOp::Ne(_) => vec![quote!(#l == #r)],
                    BinOp::And(_) => vec![quote!(#l || #r), quote!(#l), quote!(#r)],
                    BinOp::Or(_) => vec![quote!(#l && #r), quote!(#l), quote!(#r)],
                    BinOp::Add(_) => vec![quote!(#l - #r), quote!(#l)],
                    BinOp::Sub(_) => vec![quote!(#l + #r), quote!(#l)],
                    BinOp::BitAnd(_) => vec![quote!(#l | #r)],
                    BinOp::BitOr(_) => vec![quote!(#l & #r)],
                    BinOp::AddAssign(_) => vec![quote!(#l -= #r)],
                    BinOp::BitOrAssign(_) => vec![quote!(#l &= #r), quote!(#l = #r)],
                    BinOp::BitAndAssign(_) => vec![quote!(#l |= #r), quote!(#l = #r)],
                    _ => vec![],
                };
                let assign = matches!(b.op, BinOp::AddAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_));
                let mut cur = e.to_token_stream();
                let mut any = false;
                for a in alts {
                    let w = short(&a);
                    // text of the plain alternative without nested switches
                    let w = if w.contains("mutant") { "(nested)".into() } else { w };
                    if let Some(k) = self.new_id(span, format!("{}   =>   {}", what, w)) {
                        any = true;
                        cur = if assign {
                            quote! { if crate::mutant::on(#k) { #a } else { #cur } }
                        } else {
                            quote! { (if crate::mutant::on(#k) { #a } else { #cur }) }
                        };
                    }
                }
                if any {
                    *e = Expr::Verbatim(cur);
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => {
                    if let Ok(n) = i.base10_parse::<u128>() {
                        let s = format!("{}{}", n + 1, i.suffix());
                        let o: TokenStream = s.parse().unwrap();
                        self.alt(span, format!("{} => {}", what, s), e, o);
                    }
                }
                Lit::Bool(b) => {
                    let v = !b.value;
                    self.alt(span, format!("{} => {}", what, v), e, quote!(#v));
                }
                _ => {}
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let x = u.expr.to_token_stream();
                self.alt(span, format!("drop ! of {}", what), e, x);
            }
            Expr::If(i) => {
                let c = &mut *i.cond;
                let plain = matches!(c, Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Field(_) | Expr::Macro(_));
                if plain {
                    let w = format!("negate {}", short(&*c));
                    let old = c.to_token_stream();
                    let sp = c.span();
                    if let Some(k) = self.new_id(sp, w) {
                        *c = Expr::Verbatim(quote! { (crate::mutant::on(#k) ^ (#old)) });
                    }
                }
            }
            Expr::MethodCall(m) => {
                let alt = match &m.method.to_string()[..] {
                    "min" => "max",
                    "max" => "min",
                    "first" => "last",
                    "last" => "first",
                    "next" => "prev",
                    "prev" => "next",
                    "any" => "all",
                    "all" => "any",
                    "is_some" => "is_none",
                    "is_none" => "is_some",
                    "start" => "end",
                    "end" => "start",
                    "from" => "to",
                    "to" => "from",
                    "union_from" => "intersect_from",
                    "intersect_from" => "union_from",
                    "insert" => "remove",
                    "push" => "",
                    _ => "",
                };
                if !alt.is_empty() {
                    let mut n = m.clone();
                    n.method = Ident::new(alt, Span::call_site());
                    let n = n.to_token_stream();
                    self.alt(span, format!("{} => .{}", what, alt), e, n);
                }
            }
            Expr::Call(_) | Expr::Path(_) | Expr::Field(_) => {
                // one-word alternatives
                let p = match e {
                    Expr::Path(p) => Some(&mut p.path),
                    _ => None,
                };
                if let Some(p) = p {
                    if let Some(l) = p.segments.last() {
                        let alt = match &l.ident.to_string()[..] {
                            "Before" => "After",
                            "After" => "Before",
                            "before" => "after",
                            "after" => "before",
                            "Early" => "Late",
                            "Late" => "Early",
                            "Use" => "Def",
                            "Def" => "Use",
                            "Cold" => "Hot",
                            "Hot" => "Cold",
                            _ => "",
                        };
                        if !alt.is_empty() && p.segments.len() > 1 {
                            let mut q = p.clone();
                            q.segments.last_mut().unwrap().ident = Ident::new(alt, Span::call_site());
                            self.alt(span, format!("{} => {}", what, alt), e, quote!(#q));
                        }
                    }
                }
                if let Expr::Field(f) = e {
                    if let Member::Named(n) = &f.member {
                        let alt = match &n.to_string()[..] {
                            "from" => "to",
                            "to" => "from",
                            _ => "",
                        };
                        if !alt.is_empty() {
                            let mut g = f.clone();
                            g.member = Member::Named(Ident::new(alt, Span::call_site()));
                            let g = g.to_token_stream();
                            // not on the left of assignments; such cases do not compile and are excluded
                            self.alt(span, format!("{} => .{}", what, alt), e, g);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
        // the place on the left stays as it is, except for indices
        if let Expr::Index(i) = &mut *a.left {
            self.visit_expr_mut(&mut i.index);
        }
        self.visit_expr_mut(&mut a.right);
    }
    fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
        if r.mutability.is_some() {
            return;
        }
        // a reference to a rewritten place would be one to a temporary
        match &mut *r.expr {
            Expr::Field(_) | Expr::Path(_) => {}
            Expr::Index(i) => self.visit_expr_mut(&mut i.index),
            e => self.visit_expr_mut(e),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let excluded = a[4..].iter().map(|x| x.parse().unwrap()).collect();
    let mut m = M { file: String::new(), next: 1, excluded, list: String::new() };
    let files = [
        "cfg.rs", "checker.rs", "domtree.rs", "index.rs", "indexset.rs", "lib.rs", "moves.rs", "postorder.rs", "serialize.rs", "ssa.rs",
        "fastalloc/iter.rs", "fastalloc/lru.rs", "fastalloc/mod.rs", "fastalloc/vregset.rs", "ion/data_structures.rs",
        "ion/liveranges.rs", "ion/merge.rs", "ion/mod.rs", "ion/moves.rs", "ion/process.rs", "ion/redundant_moves.rs",
        "ion/reg_traversal.rs", "ion/requirement.rs", "ion/spill.rs",
    ];
    for (n, f) in files.iter().enumerate() {
        // numbers of a file do not depend on the others
        m.next = (n as u32 + 1) * 10000;
        m.file = f.to_string();
        let s = std::fs::read_to_string(format!("{}/{}", a[1], f)).unwrap();
        let mut t = parse_file(&s).unwrap();
        m.visit_file_mut(&mut t);
        let mut o = t.to_token_stream().to_string();
        if *f == "lib.rs" {
            o.push_str(
                "\n#[allow(missing_docs)] pub mod mutant { extern crate std; use core::sync::atomic::{AtomicU32, AtomicBool, Ordering::Relaxed};\n\
                 pub static M: AtomicU32 = AtomicU32::new(u32::MAX); pub static SEEN: [AtomicBool; 300000] = [const { AtomicBool::new(false) }; 300000]; pub static TRACE: AtomicBool = AtomicBool::new(false);\n\
                 #[inline(always)] pub fn on(k: u32) -> bool { let m = M.load(Relaxed); if m == k { return true; } if m >= u32::MAX - 1 { return slow(k); } false }\n\
                 #[inline(never)] fn slow(k: u32) -> bool { if M.load(Relaxed) == u32::MAX { let m = std::env::var(\"MUTANT\").ok().and_then(|x| x.parse().ok()).unwrap_or(0u32); M.store(m, Relaxed); return m == k; }\n\
                 if !SEEN[k as usize].load(Relaxed) { SEEN[k as usize].store(true, Relaxed); } false }\n\
                 }\n",
            );
        }
        let out = format!("{}/{}", a[2], f);
        std::fs::write(&out, o).unwrap();
        let _ = std::process::Command::new("rustfmt").args(["--edition", "2024", "--config", "max_width=140", &out]).status();
    }
    std::fs::write(&a[3], &m.list).unwrap();
    println!("{} mutants", m.list.lines().count());
}
