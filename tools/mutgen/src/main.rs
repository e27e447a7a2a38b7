//! Compiles every small mutation of a crate into it at once, each behind `crate::mutants::m(N)`; UC_MUT=N selects one at run time.
//! mutgen SRC OUT SKIP.json: reads SRC/**/*.rs, writes OUT/**/*.rs and OUT/mutants.json; ids in SKIP are left out.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Node {start: usize, end: usize, /// (what, replacement); None: the negation; Some("") for a statement: deleted
    alts: Vec<(String, Alt)>, stmt: bool}
enum Alt {Text(String), Negate, Delete}

struct Finder<'a> {src: &'a str, nodes: Vec<Node>}
fn range(x: &impl Spanned) -> (usize, usize) {let r = x.span().byte_range(); (r.start, r.end)}
impl Finder<'_> {
    fn text(&self, x: &impl Spanned) -> String {let (s, e) = range(x); self.src[s..e].to_string()}
    fn add(&mut self, x: &impl Spanned, what: String, alt: Alt) {self.add_at(range(x), what, alt, false)}
    fn add_at(&mut self, (start, end): (usize, usize), what: String, alt: Alt, stmt: bool) {
        if let Some(n) = self.nodes.iter_mut().find(|n| n.start == start && n.end == end && n.stmt == stmt) {n.alts.push((what, alt)); return;}
        self.nodes.push(Node {start, end, alts: vec![(what, alt)], stmt});
    }
}
const SWAPS: &[(&str, &str)] = &[
    ("is_some", "is_none"), ("is_ok", "is_err"), ("find", "rfind"), ("split_once", "rsplit_once"), ("starts_with", "ends_with"), ("strip_prefix", "strip_suffix"), ("next", "next_back"),
    ("first", "last"), ("any", "all"), ("min", "max"), ("take", "skip"), ("split", "rsplit"), ("splitn", "rsplitn"), ("replace", "to_string_ignoring"), ("to_lowercase", "to_uppercase"), ("to_ascii_lowercase", "to_ascii_uppercase"),
    ("and_then", "map"), ("saturating_sub", "saturating_add"), ("checked_sub", "checked_add"), ("trim_start", "trim_end"), ("trim_start_matches", "trim_end_matches"), ("contains", "is_superset"), ("insert", "remove"), ("push", "insert_front"), ("is_empty", "is_not_empty"), ("or", "and"), ("or_else", "and_then"), ("is_subset", "is_superset"), ("iter", "rev_iter"), ("chars", "rev_chars")
];
impl<'ast> Visit<'ast> for Finder<'_> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if m.attrs.iter().any(|a| self.text(a).contains("cfg(test)")) {return;}
        visit::visit_item_mod(self, m);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {if f.sig.constness.is_none() && !f.attrs.iter().any(|a| self.text(a).contains("test")) {visit::visit_block(self, &f.block);}}
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {if f.sig.constness.is_none() {visit::visit_block(self, &f.block);}}
    fn visit_item_const(&mut self, _: &'ast syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'ast syn::ItemStatic) {}
    fn visit_type(&mut self, _: &'ast syn::Type) {}
    fn visit_attribute(&mut self, _: &'ast syn::Attribute) {}
    fn visit_item_enum(&mut self, _: &'ast syn::ItemEnum) {}
    fn visit_pat(&mut self, _: &'ast syn::Pat) {}
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            if !matches!(e, syn::Expr::Return(_) | syn::Expr::Break(_) | syn::Expr::Continue(_)) {let t: String = self.text(s).chars().take(80).collect(); let r = range(s); self.add_at(r, format!("delete `{t}`"), Alt::Delete, true);}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        fn has_let(e: &syn::Expr) -> bool {match e {syn::Expr::Let(_) => true, syn::Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), _ => false}}
        if !has_let(&i.cond) {self.add(&i.cond, "negate condition".into(), Alt::Negate);}
        visit::visit_expr_if(self, i);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let Some((_, g)) = &a.guard && !matches!(**g, syn::Expr::Let(_)) {self.add(&**g, "negate guard".into(), Alt::Negate);}
        visit::visit_arm(self, a);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        for w in m.arms.windows(2) {
            let t = self.text(&*w[1].body);
            if t.len() < 200 {self.add(&*w[0].body, format!("arm body `{}`", t.chars().take(60).collect::<String>()), Alt::Text(t));}
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                let new: &[&str] = match b.op {
                    Eq(_) => &["!="], Ne(_) => &["=="], Lt(_) => &["<=", ">="], Le(_) => &["<", ">"], Gt(_) => &[">=", "<="], Ge(_) => &[">", "<"], And(_) => &["||"], Or(_) => &["&&"], Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["+"], BitAnd(_) => &["|"], BitOr(_) => &["&"], _ => &[]
                };
                let has_let = self.text(e).contains("let ");
                if !has_let {
                    for n in new {let t = format!("{} {n} {}", self.text(&*b.left), self.text(&*b.right)); self.add(e, format!("`{}` to {n}", self.text(e).chars().take(80).collect::<String>()), Alt::Text(t));}
                    if matches!(b.op, And(_) | Or(_)) {for x in [&b.left, &b.right] {let t = self.text(&**x); self.add(e, format!("only `{}`", t.chars().take(80).collect::<String>()), Alt::Text(t));}}
                }
            },
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {let t = self.text(&*u.expr); self.add(e, "drop !".into(), Alt::Text(t));},
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Bool(b) => self.add(e, format!("{} flipped", b.value), Alt::Text((!b.value).to_string())),
                syn::Lit::Int(i) => {let t = format!("({} + 1)", i); self.add(e, format!("{i} + 1"), Alt::Text(t)); if i.base10_digits() != "0" {self.add(e, format!("{i} - 1"), Alt::Text(format!("({i} - 1)")));}},
                syn::Lit::Str(s) if s.value().len() == 1 => {let t = if s.value() == "." {"\"/\""} else {"\".\""}; self.add(e, format!("{:?} to {t}", s.value()), Alt::Text(t.into()));},
                syn::Lit::Char(c) => {let t = if c.value() == '.' {"'/'"} else {"'.'"}; self.add(e, format!("{:?} to {t}", c.value()), Alt::Text(t.into()));},
                _ => {}
            },
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                for (a, b) in SWAPS {
                    for (x, y) in [(a, b), (b, a)] {
                        if name == *x {
                            let (s, en) = range(&m.method); let (bs, be) = range(e);
                            let y = match *y {"rev_iter" => "iter().rev".to_string(), "rev_chars" => "chars().rev".to_string(), y => y.to_string()};
                            let t = format!("{}{y}{}", &self.src[bs..s], &self.src[en..be]);
                            self.add(e, format!("{name} to {y}"), Alt::Text(t));
                        }
                    }
                }
                // A call on a chain that can be left out.
                let t = self.text(&*m.receiver);
                self.add(e, format!("without .{name}()"), Alt::Text(t));
                if m.args.len() == 2 {let (bs, _) = range(e); let (a0, _) = range(&m.args[0]); let t = format!("{}{}, {})", &self.src[bs..a0], self.text(&m.args[1]), self.text(&m.args[0])); self.add(e, format!("swap arguments of {name}"), Alt::Text(t));}
            },
            syn::Expr::Call(c) => {
                let f = self.text(&*c.func);
                if f == "Some" {self.add(e, format!("`{}` to None", self.text(e).chars().take(60).collect::<String>()), Alt::Text("None".into()));}
                if c.args.len() >= 2 {
                    for i in 0..c.args.len() - 1 {
                        let mut a: Vec<String> = c.args.iter().map(|x| self.text(x)).collect(); a.swap(i, i + 1);
                        self.add(e, format!("swap arguments {i} of {f}"), Alt::Text(format!("{f}({})", a.join(", "))));
                    }
                }
            },
            syn::Expr::Path(p) if p.path.is_ident("None") => self.add(e, "None to Some(Default)".into(), Alt::Text("Some(Default::default())".into())),
            syn::Expr::Field(f) => if let syn::Member::Named(n) = &f.member {
                for (a, b) in [("start", "end"), ("flags", "vars"), ("left", "right"), ("find", "replace"), ("params", "common_args"), ("from", "to"), ("then", "else"), ("if_null", "else"), ("min", "max")] {
                    for (x, y) in [(a, b), (b, a)] {if n == x {let t = format!("{}.{y}", self.text(&*f.base)); self.add(e, format!("field {x} to {y}"), Alt::Text(t));}}
                }
            },
            syn::Expr::Try(t) => {let x = self.text(&*t.expr); self.add(e, "error to default".into(), Alt::Text(format!("({x}).unwrap_or_default()")));},
            syn::Expr::Range(r) => if let (Some(_), Some(_)) = (&r.start, &r.end) {
                let (s, x) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                let o = if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {"..="} else {".."};
                let t = format!("({}{o}{})", self.text(&**s), self.text(&**x)); self.add(e, format!("range {o}"), Alt::Text(t));
            },
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        use syn::punctuated::Punctuated;
        let Ok(args) = m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) else {return};
        // The parsed arguments live long enough: the visitor keeps no references.
        for a in &args {let a: &'static syn::Expr = Box::leak(Box::new(a.clone())); let mut f = Finder {src: self.src, nodes: std::mem::take(&mut self.nodes)}; f.visit_expr(a); self.nodes = f.nodes;}
    }
    // Places that are assigned to or borrowed are not replaced by values.
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {self.visit_expr(&a.right);}
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {if r.mutability.is_none() {self.visit_expr(&r.expr);}}
}

fn render(src: &str, nodes: &[Node], i: &mut usize, from: usize, to: usize, ids: &[Vec<u32>], skip: &BTreeSet<u32>, out: &mut String) {
    let mut pos = from;
    while *i < nodes.len() && nodes[*i].start < to {
        let k = *i; let n = &nodes[k];
        out.push_str(&src[pos..n.start]);
        *i += 1;
        let mut inner = String::new();
        render(src, nodes, i, n.start, n.end, ids, skip, &mut inner);
        let live: Vec<_> = n.alts.iter().zip(&ids[k]).filter(|(_, id)| !skip.contains(id)).collect();
        let mut neg = String::new(); let mut text = String::new(); let mut del = String::new();
        // Markers let fit.py attribute compile errors.
        let all: Vec<String> = live.iter().map(|(_, id)| id.to_string()).collect();
        for ((_, a), id) in live {match a {
            Alt::Negate => neg += &format!("/*[{id}*/crate::mutants::m({id})/*{id}]*/ ^ "), Alt::Text(t) => text += &format!("if crate::mutants::m({id}) {{/*[{id}*/{t}/*{id}]*/}} else "), Alt::Delete => del += &format!("if !crate::mutants::m({id}) ")
        }}
        if !del.is_empty() {inner = format!("{del}{{{inner}}}");}
        if !text.is_empty() {inner = if inner.starts_with('{') {format!("{{{text}{{{inner}}}}}")} else {format!("({text}{{{inner}}})")};}
        if !neg.is_empty() {inner = format!("({neg}({inner}))");}
        if !all.is_empty() {let a = all.join(","); inner = format!("/*<{a}*/{inner}/*{a}>*/");}
        out.push_str(&inner);
        pos = n.end;
    }
    out.push_str(&src[pos..to]);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, out) = (Path::new(&a[1]), Path::new(&a[2]));
    let skip: BTreeSet<u32> = std::fs::read_to_string(&a[3]).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()).map(|v| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
    let mut files = Vec::new();
    fn walk(p: &Path, f: &mut Vec<PathBuf>) {for e in std::fs::read_dir(p).unwrap() {let p = e.unwrap().path(); if p.is_dir() {walk(&p, f)} else if p.extension().is_some_and(|x| x == "rs") {f.push(p)}}}
    walk(src, &mut files); files.sort();
    let (mut next, mut list) = (1u32, Vec::new());
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let rel = f.strip_prefix(src).unwrap().to_owned();
        let ast = syn::parse_file(&text).unwrap();
        let mut fi = Finder {src: &text, nodes: Vec::new()};
        fi.visit_file(&ast);
        let mut nodes = fi.nodes;
        nodes.sort_by_key(|n| (n.start, std::cmp::Reverse(n.end), !n.stmt));
        let ids: Vec<Vec<u32>> = nodes.iter().map(|n| n.alts.iter().map(|_| {next += 1; next - 1}).collect()).collect();
        for (n, i) in nodes.iter().zip(&ids) {for ((what, _), id) in n.alts.iter().zip(i) {
            if !skip.contains(id) {let line = text[..n.start].matches('\n').count() + 1; list.push(serde_json::json!({"id": id, "file": rel, "line": line, "what": what, "code": text.lines().nth(line - 1).unwrap_or("").trim()}));}
        }}
        let mut o = String::new(); let mut i = 0;
        render(&text, &nodes, &mut i, 0, text.len(), &ids, &skip, &mut o);
        if rel == Path::new("lib.rs") || rel == Path::new("main.rs") {o.push_str("\n#[allow(missing_docs)] #[doc(hidden)] pub mod mutants;\n");}
        let to = out.join(rel); std::fs::create_dir_all(to.parent().unwrap()).unwrap(); std::fs::write(to, o).unwrap();
    }
    std::fs::write(out.join("mutants.rs"), include_str!("runtime.rs")).unwrap();
    std::fs::write(out.join("mutants.json"), serde_json::to_string_pretty(&list).unwrap()).unwrap();
    eprintln!("{} mutants", list.len());
}
