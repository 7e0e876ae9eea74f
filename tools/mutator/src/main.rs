//! mutator SRC OUT EXCLUDE MUTANTS: rewrites every Rust file under each source folder so that one
//! build holds every mutant, chosen at run time by the environment variable MUT. Used to measure the
//! checks (tools/mutation.py); no check uses it.
//!
//! Each mutated expression E becomes `if __m(k) { variant of the original E } else { E' }`, E' being
//! E with its own parts mutated, so the text grows with depth times size only.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    exclude: HashSet<u32>,
    file: String,
    path: proc_macro2::TokenStream,
    out: Vec<serde_json::Value>,
    func: Vec<String>,
}
fn short<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().take(160).collect()
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
impl M {
    fn id(&mut self, span: Span, what: &str, from: String, to: String) -> Option<u32> {
        let k = self.next;
        self.next += 1;
        if self.exclude.contains(&k) {
            return None;
        }
        self.out.push(serde_json::json!({"id": k, "file": self.file, "line": span.start().line, "fn": self.func.join("::"), "what": what, "from": from, "to": to}));
        Some(k)
    }
    fn wrap(&mut self, orig: &Expr, cur: Expr, variants: Vec<(&str, Expr)>) -> Expr {
        let mut cur = cur;
        let path = self.path.clone();
        for (what, v) in variants {
            if let Some(k) = self.id(orig.span(), what, short(orig), short(&v)) {
                cur = parse_quote!((if #path::__m(#k) { #v } else { #cur }));
            }
        }
        cur
    }
}
impl M {
    fn arm(&mut self, a: &mut Arm, total: bool) {
        let wild = matches!(a.pat, Pat::Wild(_)) || matches!(&a.pat, Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_lowercase));
        let pat = short(&a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        self.visit_expr_mut(&mut a.body);
        if !wild && total {
            if let Some(k) = self.id(a.pat.span(), "arm off", pat, String::new()) {
                let path = self.path.clone();
                let g: Expr = match &a.guard {
                    Some((_, g)) => parse_quote!((#g) && !#path::__m(#k)),
                    None => parse_quote!(!#path::__m(#k)),
                };
                a.guard = Some((Default::default(), Box::new(g)));
            }
        }
    }
}
fn swap(op: &BinOp) -> Vec<BinOp> {
    macro_rules! ops { ($($t:tt)*) => { vec![$(parse_quote!($t)),*] } }
    match op {
        BinOp::Eq(_) => ops![!=],
        BinOp::Ne(_) => ops![==],
        BinOp::Lt(_) => ops![<= >=],
        BinOp::Le(_) => ops![< >],
        BinOp::Gt(_) => ops![>= <=],
        BinOp::Ge(_) => ops![> <],
        BinOp::Add(_) => ops![-],
        BinOp::Sub(_) => ops![+],
        BinOp::Mul(_) => ops![+ /],
        BinOp::Div(_) => ops![* %],
        BinOp::Rem(_) => ops![/ +],
        BinOp::And(_) => ops![||],
        BinOp::Or(_) => ops![&&],
        BinOp::Shl(_) => ops![>>],
        BinOp::Shr(_) => ops![<<],
        BinOp::BitAnd(_) => ops![|],
        BinOp::BitOr(_) => ops![&],
        BinOp::BitXor(_) => ops![|],
        BinOp::AddAssign(_) => ops![-=],
        BinOp::SubAssign(_) => ops![+=],
        BinOp::MulAssign(_) => ops![+=],
        BinOp::ShlAssign(_) => ops![>>=],
        BinOp::ShrAssign(_) => ops![<<=],
        BinOp::BitOrAssign(_) => ops![&=],
        _ => vec![],
    }
}
fn has_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg (test)") || s.contains("test") && !s.contains("not")
    })
}
fn leaves(s: &Stmt) -> bool {
    // a deleted statement that always leaves its function changes the types; skip plain ones
    matches!(s, Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _))
}
impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Mod(m) if has_test(&m.attrs) => {}
            Item::Fn(f) if has_test(&f.attrs) || f.sig.constness.is_some() => {}
            Item::Const(_) | Item::Static(_) | Item::Macro(_) | Item::Use(_) | Item::Type(_) | Item::Enum(_) | Item::Struct(_) => {}
            Item::Fn(f) => {
                self.func.push(f.sig.ident.to_string());
                visit_mut::visit_item_fn_mut(self, f);
                self.func.pop();
            }
            Item::Impl(im) => {
                self.func.push(short(&im.self_ty));
                visit_mut::visit_item_impl_mut(self, im);
                self.func.pop();
            }
            _ => visit_mut::visit_item_mut(self, i),
        }
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if f.sig.constness.is_some() {
            return;
        }
        self.func.push(f.sig.ident.to_string());
        visit_mut::visit_block_mut(self, &mut f.block);
        self.func.pop();
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        self.func.push(f.sig.ident.to_string());
        if let Some(b) = &mut f.default {
            visit_mut::visit_block_mut(self, b);
        }
        self.func.pop();
    }
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_trait_item_const_mut(&mut self, _: &mut TraitItemConst) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_expr_repeat_mut(&mut self, r: &mut ExprRepeat) {
        self.visit_expr_mut(&mut r.expr);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let wild = |a: &Arm| a.guard.is_none() && (matches!(a.pat, Pat::Wild(_)) || matches!(&a.pat, Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_lowercase)));
        let total = m.arms.last().map_or(false, wild);
        self.visit_expr_mut(&mut m.expr);
        for a in &mut m.arms {
            self.arm(a, total);
        }
    }
    fn visit_arm_mut(&mut self, _: &mut Arm) {
        unreachable!()
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let orig = s.clone();
            self.visit_stmt_mut(s);
            let deletable = match &orig {
                Stmt::Expr(e, Some(_)) => !leaves(&orig) && !matches!(e, Expr::Macro(_)),
                Stmt::Expr(Expr::If(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Match(_), None) => i + 1 < n,
                _ => false,
            };
            if deletable {
                if let Some(k) = self.id(orig.span(), "statement off", short(&orig), String::new()) {
                    let path = self.path.clone();
                    let cur = s.clone();
                    *s = parse_quote!(if !#path::__m(#k) { #cur });
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        // places stay places
        match e {
            Expr::Assign(a) => {
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => return,
            Expr::Const(_) | Expr::Macro(_) | Expr::Path(_) | Expr::Let(_) => {
                if let Expr::Let(l) = e {
                    self.visit_expr_mut(&mut l.expr);
                }
                return;
            }
            _ => {}
        }
        match e {
            Expr::Binary(b) if matches!(orig, Expr::Binary(ref o) if o.op.to_token_stream().to_string().ends_with('=') && !matches!(o.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_))) => {
                self.visit_expr_mut(&mut b.right)
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let mut v: Vec<(&str, Expr)> = vec![];
        match &orig {
            Expr::Binary(b) if !has_let(&orig) => {
                for op in swap(&b.op) {
                    let mut x = b.clone();
                    x.op = op;
                    v.push(("operator", Expr::Binary(x)));
                }
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    v.push(("left only", (*b.left).clone()));
                    v.push(("right only", (*b.right).clone()));
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => v.push(("not removed", (*u.expr).clone())),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(n) => {
                    if let Ok(x) = n.base10_parse::<u128>() {
                        let s = n.suffix();
                        for y in [x.wrapping_add(1), x.wrapping_sub(1)] {
                            if y < u128::MAX / 2 && y != x {
                                let t: LitInt = LitInt::new(&format!("{y}{s}"), Span::call_site());
                                v.push(("integer", parse_quote!(#t)));
                            }
                        }
                    }
                }
                Lit::Bool(b) => {
                    let y = !b.value;
                    v.push(("bool", parse_quote!(#y)));
                }
                Lit::Str(s) => {
                    let y = if s.value().is_empty() { "X".to_string() } else { String::new() };
                    v.push(("string", parse_quote!(#y)));
                }
                Lit::Char(_) => v.push(("char", parse_quote!('\u{1}'))),
                _ => {}
            },
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f == "Some" {
                    v.push(("none", parse_quote!(None)));
                }
                if f == "Ok" && c.args.len() == 1 {
                    let a = c.args[0].to_token_stream().to_string();
                    if a != "()" {
                        v.push(("default", parse_quote!(Ok(Default::default()))));
                    }
                }
                if c.args.len() >= 2 && f != "Some" && f != "Ok" {
                    for i in 0..c.args.len() - 1 {
                        if c.args[i] != c.args[i + 1] {
                            let mut x = c.clone();
                            let t = x.args[i].clone();
                            x.args[i] = x.args[i + 1].clone();
                            x.args[i + 1] = t;
                            v.push(("arguments", Expr::Call(x)));
                        }
                    }
                }
                for i in 0..c.args.len() {
                    if f != "Some" && f != "Ok" && c.args[i].to_token_stream().to_string() != "None" {
                        let mut x = c.clone();
                        x.args[i] = parse_quote!(None);
                        v.push(("argument none", Expr::Call(x)));
                    }
                }
            }
            Expr::MethodCall(c) => {
                let m = c.method.to_string();
                let mut ren = |n: &str| {
                    let mut x = c.clone();
                    x.method = Ident::new(n, Span::call_site());
                    v.push(("method", Expr::MethodCall(x)));
                };
                match m.as_str() {
                    "min" => ren("max"),
                    "max" => ren("min"),
                    "is_some" => ren("is_none"),
                    "is_none" => ren("is_some"),
                    "is_ok" => ren("is_err"),
                    "is_err" => ren("is_ok"),
                    "any" => ren("all"),
                    "all" => ren("any"),
                    "starts_with" => ren("ends_with"),
                    "ends_with" => ren("starts_with"),
                    "first" => ren("last"),
                    "last" => ren("first"),
                    "to_be_bytes" => ren("to_le_bytes"),
                    "to_le_bytes" => ren("to_be_bytes"),
                    "find" => ren("rfind"),
                    "rfind" => ren("find"),
                    "trim_start_matches" => ren("trim_end_matches"),
                    "unwrap_or_default" | "as_str" | "clone" | "to_string" => {}
                    _ => {}
                }
                if matches!(m.as_str(), "rev" | "skip" | "take" | "filter" | "trim" | "to_lowercase" | "to_uppercase" | "skip_while" | "take_while" | "chain" | "step_by" | "to_ascii_lowercase" | "to_ascii_uppercase") {
                    v.push(("method dropped", (*c.receiver).clone()));
                }
                if matches!(m.as_str(), "is_empty" | "contains" | "contains_key" | "is_some" | "is_none" | "eq" | "any" | "all" | "starts_with" | "ends_with" | "is_ascii") || m.starts_with("is_") || m.starts_with("has_") {
                    v.push(("true", parse_quote!(true)));
                    v.push(("false", parse_quote!(false)));
                }
                if c.args.len() >= 2 {
                    for i in 0..c.args.len() - 1 {
                        if c.args[i] != c.args[i + 1] {
                            let mut x = c.clone();
                            let t = x.args[i].clone();
                            x.args[i] = x.args[i + 1].clone();
                            x.args[i + 1] = t;
                            v.push(("arguments", Expr::MethodCall(x)));
                        }
                    }
                }
                for i in 0..c.args.len() {
                    if c.args[i].to_token_stream().to_string() != "None" {
                        let mut x = c.clone();
                        x.args[i] = parse_quote!(None);
                        v.push(("argument none", Expr::MethodCall(x)));
                    }
                }
            }
            Expr::If(i) if !has_let(&i.cond) => {
                if let Expr::If(cur) = e {
                    let cond = (*cur.cond).clone();
                    let c = self.wrap(&i.cond, cond, vec![("condition true", parse_quote!(true)), ("condition false", parse_quote!(false))]);
                    *cur.cond = c;
                }
            }
            Expr::While(i) if !has_let(&i.cond) => {
                if let Expr::While(cur) = e {
                    let cond = (*cur.cond).clone();
                    let c = self.wrap(&i.cond, cond, vec![("condition false", parse_quote!(false))]);
                    *cur.cond = c;
                }
            }
            Expr::Range(r) => {
                if let (Some(s), true) = (&r.start, true) {
                    let mut x = r.clone();
                    x.start = Some(parse_quote!((#s) + 1));
                    v.push(("range start", Expr::Range(x)));
                }
                if let Some(s) = &r.end {
                    let mut x = r.clone();
                    x.end = Some(parse_quote!((#s) - 1));
                    v.push(("range end", Expr::Range(x)));
                }
            }
            Expr::Break(_) if false => {}
            _ => {}
        }
        // statement-position op-assign and everything else
        if !v.is_empty() {
            let cur = std::mem::replace(e, Expr::Verbatim(quote!(())));
            *e = self.wrap(&orig, cur, v);
        }
    }
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p)
        }
    }
}
fn main() {
    // mutator REPO OUT EXCLUDE.json MUTANTS.json
    let a: Vec<String> = std::env::args().collect();
    let (repo, out) = (std::path::Path::new(&a[1]), std::path::Path::new(&a[2]));
    let exclude: HashSet<u32> = std::fs::read_to_string(&a[3]).ok().and_then(|t| serde_json::from_str::<Vec<u32>>(&t).ok()).unwrap_or_default().into_iter().collect();
    let mut m = M { next: 1, exclude, file: String::new(), path: quote!(crate), out: vec![], func: vec![] };
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    for (dir, path) in [("src", quote!(crate)), ("wasm/src", quote!(cesride_core))] {
        m.path = path;
        let mut files = vec![];
        walk(&repo.join(dir), &mut files);
        for f in files {
            let rel = f.strip_prefix(repo).unwrap().display().to_string();
            let mut t = parse_file(&std::fs::read_to_string(&f).unwrap()).unwrap();
            m.file = rel.clone();
            let before = m.out.len();
            m.visit_file_mut(&mut t);
            per.insert(rel.clone(), (m.out.len() - before) as u32);
            t.attrs.retain(|a| !a.path().is_ident("deny"));
            let mut text = t.to_token_stream().to_string();
            if rel == "src/lib.rs" {
                text.push_str("\n#[doc(hidden)] pub fn __m(k: u32) -> bool { static V: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); *V.get_or_init(|| std::env::var(\"MUT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0)) == k }\n");
            }
            std::fs::write(out.join(&rel), text).unwrap();
        }
    }
    std::fs::write(&a[4], serde_json::to_string(&m.out).unwrap()).unwrap();
    for (k, v) in per {
        println!("{v:5} {k}");
    }
}
