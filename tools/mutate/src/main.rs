//! Mutant schemata: rewrite source files so that every mutation is guarded by
//! `crate::__m(N)` and one build holds all of them.
//!
//! usage: mutate ROOT OUT.tsv SKIP.txt FILE...   (files relative to ROOT, rewritten in place)
//! OUT.tsv: id, file, line, kind, original -> replacement. Mutants whose "file:line:col:kind"
//! is listed in SKIP.txt are left out (they do not compile).
use proc_macro2::Span;
use std::collections::HashSet;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct Edit {
    at: usize,
    /// Sort: closers before openers at the same place; inner closers first.
    prio: i64,
    text: String,
}
struct M<'a> {
    src: &'a str,
    lines: Vec<usize>,
    file: String,
    next: &'a mut u32,
    out: &'a mut String,
    skip: &'a HashSet<String>,
    edits: Vec<Edit>,
    depth: i64,
}
impl M<'_> {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let start = self.lines[lc.line - 1];
        let line = &self.src[start..];
        start + line.char_indices().nth(lc.column).map_or(line.len(), |x| x.0)
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    /// Wrap the expression at `s`: `alts` are replacement texts.
    fn wrap(&mut self, s: Span, kind: &str, alts: &[String], paren: bool) {
        let (a, b) = self.range(s);
        let orig = self.src[a..b].to_string();
        let mut open = String::new();
        let mut n = 0;
        for (i, alt) in alts.iter().enumerate() {
            let key = format!("{}:{}:{}:{kind}{i}", self.file, s.start().line, s.start().column);
            if self.skip.contains(&key) {
                continue;
            }
            let id = *self.next;
            *self.next += 1;
            let flat = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            writeln!(self.out, "{id}\t{key}\t{}\t{}", flat(&orig), flat(alt)).unwrap();
            write!(open, "if crate::__m({id}) {{ {alt} }} else ").unwrap();
            n += 1;
        }
        if n == 0 {
            return;
        }
        let (o, c) = if paren { ("(", ")") } else { ("", "") };
        self.depth += 1;
        // Line structure is kept: openers must not hold newlines.
        let open = open.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join(" ");
        self.edits.push(Edit { at: a, prio: 1_000_000 + self.depth, text: format!("{o}{open}{{ ") });
        self.edits.push(Edit { at: b, prio: -self.depth, text: format!(" }}{c}") });
    }
    fn text(&self, s: Span) -> String {
        let (a, b) = self.range(s);
        // Comments would swallow the rest of the line once flattened.
        self.src[a..b]
            .lines()
            .map(|l| l.split("//").next().unwrap())
            .collect::<Vec<_>>()
            .join(" ")
    }
}
fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && format!("{:?}", a.meta).contains("\"test\"") || a.path().is_ident("test"))
}
impl<'ast> Visit<'ast> for M<'_> {
    fn visit_item_const(&mut self, _: &'ast ItemConst) {}
    fn visit_item_static(&mut self, _: &'ast ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'ast ImplItemConst) {}
    fn visit_type(&mut self, _: &'ast Type) {}
    fn visit_pat(&mut self, _: &'ast Pat) {}
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_generic_argument(&mut self, _: &'ast GenericArgument) {}
    fn visit_variant(&mut self, _: &'ast Variant) {}
    fn visit_item_mod(&mut self, i: &'ast ItemMod) {
        if !is_cfg_test(&i.attrs) {
            visit::visit_item_mod(self, i);
        }
    }
    fn visit_item_fn(&mut self, i: &'ast ItemFn) {
        if i.sig.constness.is_none() && !is_cfg_test(&i.attrs) {
            visit::visit_item_fn(self, i);
        }
    }
    fn visit_impl_item_fn(&mut self, i: &'ast ImplItemFn) {
        if i.sig.constness.is_none() && i.sig.ident != "fmt" {
            visit::visit_impl_item_fn(self, i);
        }
    }
    fn visit_expr_repeat(&mut self, i: &'ast ExprRepeat) {
        self.visit_expr(&i.expr);
    }
    fn visit_macro(&mut self, _: &'ast Macro) {}
    fn visit_block(&mut self, b: &'ast Block) {
        for s in &b.stmts {
            if let Stmt::Expr(e, Some(semi)) = s {
                let del = match e {
                    Expr::Assign(_) => true,
                    Expr::Binary(x) => matches!(
                        x.op,
                        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)
                            | BinOp::MulAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                    ),
                    Expr::MethodCall(_) | Expr::Call(_) => true,
                    Expr::Try(t) => matches!(*t.expr, Expr::MethodCall(_) | Expr::Call(_)),
                    _ => false,
                };
                if del {
                    let (a, _) = self.range(e.span());
                    let (_, z) = self.range(semi.span());
                    let key = format!("{}:{}:{}:del0", self.file, e.span().start().line, e.span().start().column);
                    if !self.skip.contains(&key) {
                        let id = *self.next;
                        *self.next += 1;
                        let orig = self.src[a..z].split_whitespace().collect::<Vec<_>>().join(" ");
                        writeln!(self.out, "{id}\t{key}\t{orig}\t(deleted)").unwrap();
                        self.depth += 1;
                        self.edits.push(Edit { at: a, prio: 1_000_000 + self.depth, text: format!("if !crate::__m({id}) {{ ") });
                        self.edits.push(Edit { at: z, prio: -self.depth, text: " }".into() });
                    }
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        if !matches!(*i.cond, Expr::Let(_)) && !contains_let(&i.cond) {
            let t = self.text(i.cond.span());
            if !matches!(&*i.cond, Expr::Binary(b) if is_cmp(&b.op)) {
                self.wrap(i.cond.span(), "neg", &[format!("!({t})")], true);
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        let l = self.text(b.left.span());
        let r = self.text(b.right.span());
        if contains_let(&b.left) || contains_let(&b.right) {
            return visit::visit_expr_binary(self, b);
        }
        let alt: Vec<String> = match b.op {
            BinOp::Lt(_) => vec![format!("{l} <= {r}"), format!("{l} >= {r}")],
            BinOp::Le(_) => vec![format!("{l} < {r}"), format!("{l} > {r}")],
            BinOp::Gt(_) => vec![format!("{l} >= {r}"), format!("{l} <= {r}")],
            BinOp::Ge(_) => vec![format!("{l} > {r}"), format!("{l} < {r}")],
            BinOp::Eq(_) => vec![format!("{l} != {r}")],
            BinOp::Ne(_) => vec![format!("{l} == {r}")],
            BinOp::Add(_) => vec![format!("{l} - {r}")],
            BinOp::Sub(_) => vec![format!("{l} + {r}")],
            BinOp::Mul(_) => vec![format!("{l} / {r}")],
            BinOp::Div(_) | BinOp::Rem(_) => vec![format!("{l} * {r}")],
            BinOp::BitAnd(_) => vec![format!("{l} | {r}"), l.clone()],
            BinOp::BitOr(_) => vec![format!("{l} & {r}"), l.clone()],
            BinOp::BitXor(_) => vec![format!("{l} | {r}")],
            BinOp::Shl(_) => vec![format!("{l} >> {r}")],
            BinOp::Shr(_) => vec![format!("{l} << {r}")],
            BinOp::And(_) => vec![l.clone(), r.clone()],
            BinOp::Or(_) => vec![l.clone(), r.clone()],
            _ => vec![],
        };
        if !alt.is_empty() {
            self.wrap(b.span(), "bin", &alt, true);
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_lit(&mut self, e: &'ast ExprLit) {
        match &e.lit {
            Lit::Int(i) => {
                if let Ok(v) = i.base10_parse::<u128>() {
                    let s = i.suffix();
                    let mut alts = vec![format!("{}{s}", v + 1)];
                    if v > 1 {
                        alts.push(format!("{}{s}", v - 1));
                    }
                    self.wrap(e.span(), "int", &alts, true);
                }
            }
            Lit::Bool(b) => self.wrap(e.span(), "bool", &[format!("{}", !b.value)], true),
            _ => {}
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
        // tuple-field receivers are visited as usual
        visit::visit_expr_method_call(self, e);
    }
}
fn is_cmp(op: &BinOp) -> bool {
    matches!(op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_))
}
fn contains_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => contains_let(&b.left) || contains_let(&b.right),
        Expr::Paren(p) => contains_let(&p.expr),
        Expr::Unary(u) => contains_let(&u.expr),
        _ => false,
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = &a[1];
    let skip: HashSet<String> = std::fs::read_to_string(&a[3]).unwrap_or_default().lines().map(str::to_string).collect();
    let mut next = 1;
    let mut out = String::new();
    for f in &a[4..] {
        let path = format!("{root}/{f}");
        let src = std::fs::read_to_string(&path).unwrap();
        let ast = syn::parse_file(&src).unwrap();
        let mut lines = vec![0];
        lines.extend(src.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1));
        let mut m = M { src: &src, lines, file: f.clone(), next: &mut next, out: &mut out, skip: &skip, edits: vec![], depth: 0 };
        m.visit_file(&ast);
        let mut edits = m.edits;
        // At one offset: closers first (inner = larger depth first), then openers outer first.
        edits.sort_by_key(|e| (e.at, e.prio));
        let mut res = String::new();
        let mut pos = 0;
        for e in edits {
            res.push_str(&src[pos..e.at]);
            res.push_str(&e.text);
            pos = e.at;
        }
        res.push_str(&src[pos..]);
        std::fs::write(path, res).unwrap();
    }
    std::fs::write(&a[2], out).unwrap();
    println!("{} mutants", next - 1);
}
