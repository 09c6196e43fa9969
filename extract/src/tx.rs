//! Body transformations: every rule is semantics preserving and named; the rules applied are
//! counted in the report.
use crate::emit::Text;
use crate::spec::{Db, Entry, Section};
use crate::types::Types;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx<'a> {
    pub types: &'a Types,
    pub db: &'a Db,
    pub texts: Vec<Text>,
    pub rules: BTreeMap<String, usize>,
    pub lost: Vec<String>,
    pub unsupported: Vec<String>,
    pub crate_mods: Vec<String>,
    pub file: String,
    pub fresh: usize,
    pub used: Vec<(String, String)>,
    pub external: std::collections::BTreeSet<String>,
    pub fns: Vec<crate::items::FnInfo>,
    pub trusted: Vec<String>,
    pub lifted: Vec<(String, TokenStream)>,
    pub hofs: BTreeMap<String, Hof>,
    pub mono: Option<(String, Path)>,
    /// `module::Trait` of the crate's traits
    pub traits: std::collections::BTreeSet<String>,
}

/// A function of the crate that takes a function argument: inlined at its calls.
#[derive(Clone)]
pub struct Hof {
    pub file: String,
    pub self_name: bool,
    pub params: Vec<(Pat, String, bool)>,
    /// declared results of function parameters, type parameters left open
    pub rets: BTreeMap<String, Type>,
    pub block: Block,
    /// only with a closure as argument
    pub weak: bool,
}
impl Hof {
    fn body(&self) -> Expr {
        let b = &self.block;
        parse_quote!(#b)
    }
    fn applies<'x>(&self, args: impl Iterator<Item = &'x Expr>) -> bool {
        !self.weak || self.params.iter().zip(args).any(|(p, a)| p.2 && matches!(strip_parens(a), Expr::Closure(_)))
    }
}
/// Names of the items of a module, from anywhere.
struct Own<'x> {
    own: &'x [String],
    module: &'x str,
}
impl<'x> VisitMut for Own<'x> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_none() && self.own.contains(&p.segments[0].ident.to_string()) {
            for s in self.module.split("::").collect::<Vec<_>>().into_iter().rev() {
                p.segments.insert(0, PathSegment::from(Ident::new(s, Span::call_site())));
            }
            p.segments.insert(0, PathSegment::from(Ident::new("crate", Span::call_site())));
        }
    }
}
/// A function parameter that is passed on to another function; a builder that is used.
struct PassOn<'x> {
    name: String,
    closure: &'x Expr,
    count: usize,
}
impl<'x> VisitMut for PassOn<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(&self.name));
        match e {
            Expr::MethodCall(m) if m.method == "build_once" && is(&m.receiver) && m.args.len() == 1 => {
                let (f, a) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(#f(#a));
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    if matches!(&*a, Expr::Path(p) if p.path.is_ident(&self.name)) {
                        *a = self.closure.clone();
                        self.count += 1;
                    }
                }
            }
            _ => {}
        }
    }
}

/// (module path, file, type, function)
const HOFS: &[(&str, &str, &str, &str)] = &[
    ("modifier", "modifier/mod.rs", "State", "step"),
    ("modifier", "modifier/mod.rs", "", "passthrough"),
    ("modifier::attribute", "modifier/attribute.rs", "", "attribute_step"),
    ("modifier::repeat", "modifier/repeat.rs", "RepeatOrElseState", "step"),
    ("modifier::repeat", "modifier/repeat.rs", "State", "step"),
];
/// The same, but only where the argument is a closure: they also take builders, and have a contract.
const CLOSURE_HOFS: &[(&str, &str, &str, &str)] = &[
    ("template", "template.rs", "Template", "transform"),
    ("transform", "transform.rs", "", "build_once"),
];

/// A type parameter or a projection of one.
fn generic_ty(t: &str) -> bool {
    t.len() == 1 || t.starts_with('<')
}
/// The last generic argument of a type.
fn last_arg(t: &str) -> String {
    let b = match t.find('<') {
        Some(i) if t.ends_with('>') => &t[i + 1..t.len() - 1],
        _ => return String::new(),
    };
    let (mut d, mut from) = (0i32, 0);
    for (i, c) in b.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => from = i + 1,
            _ => {}
        }
    }
    b[from..].trim().to_string()
}

/// The traits of the crate, as `module::Trait`: a path to one used as a type is a trait object.
pub fn load_traits(cx: &mut Cx, root: &str, at: &str) {
    let mut ds = vec![];
    if let Ok(d) = std::fs::read_dir(root) {
        for e in d.flatten() {
            ds.push(e.path());
        }
    }
    for p in ds {
        let stem = p.file_stem().map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
        if p.is_dir() {
            load_traits(cx, &p.to_string_lossy(), &stem);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let m = if stem == "mod" { at.to_string() } else { stem };
            if let Ok(ast) = std::fs::read_to_string(&p).map_err(|_| ()).and_then(|s| parse_file(&s).map_err(|_| ())) {
                for i in ast.items {
                    if let Item::Trait(t) = i {
                        cx.traits.insert(format!("{}::{}", m, t.ident));
                    }
                }
            }
        }
    }
}

pub fn load_hofs(cx: &mut Cx, root: &str) {
    for (m, f, ty, name, weak) in HOFS.iter().map(|h| (h.0, h.1, h.2, h.3, false)).chain(CLOSURE_HOFS.iter().map(|h| (h.0, h.1, h.2, h.3, true))) {
        let src = match std::fs::read_to_string(format!("{}/{}", root, f)) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let ast = match parse_file(&src) {
            Ok(a) => a,
            Err(_) => continue,
        };
        let mut found: Option<(Signature, Block)> = None;
        let own: Vec<String> = ast
            .items
            .iter()
            .filter_map(|i| match i {
                Item::Struct(s) => Some(s.ident.to_string()),
                Item::Enum(s) => Some(s.ident.to_string()),
                Item::Fn(s) => Some(s.sig.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut ips: Vec<String> = vec![];
        for i in ast.items {
            match i {
                Item::Fn(f) if ty.is_empty() && f.sig.ident == name => found = Some((f.sig, *f.block)),
                Item::Impl(im) if im.trait_.is_none() => {
                    if let Type::Path(p) = &*im.self_ty {
                        if p.path.segments.last().unwrap().ident == ty {
                            for it in im.items {
                                if let ImplItem::Fn(f) = it {
                                    if f.sig.ident == name {
                                        ips = im.generics.type_params().map(|t| t.ident.to_string()).collect();
                                        found = Some((f.sig, f.block));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some((sig, mut block)) = found {
            if weak {
                Own { own: &own, module: m }.visit_block_mut(&mut block);
            }
            let mut fparams = vec![];
            let mut outs: BTreeMap<String, Type> = BTreeMap::new();
            let tps: Vec<String> = sig.generics.type_params().map(|t| t.ident.to_string()).chain(ips).collect();
            if let Some(w) = &sig.generics.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(t) = p {
                        let s = t.bounds.to_token_stream().to_string();
                        if s.contains("FnOnce") || s.contains("FnMut") || s.contains("Fn (") || s.contains("BuildOnce <") {
                            let n = t.bounded_ty.to_token_stream().to_string();
                            fparams.push(n.clone());
                            for b in &t.bounds {
                                if let TypeParamBound::Trait(b) = b {
                                    if let PathArguments::Parenthesized(a) = &b.path.segments.last().unwrap().arguments {
                                        if let ReturnType::Type(_, o) = &a.output {
                                            let mut o = (**o).clone();
                                            Open { tps: &tps, module: m, mods: &cx.crate_mods }.visit_type_mut(&mut o);
                                            outs.insert(n.clone(), o);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let mut params = vec![];
            let mut rets = BTreeMap::new();
            let mut self_name = false;
            for a in &sig.inputs {
                match a {
                    FnArg::Receiver(_) => self_name = true,
                    FnArg::Typed(t) => {
                        let n = t.pat.to_token_stream().to_string().replace("mut ", "");
                        let isf = fparams.contains(&t.ty.to_token_stream().to_string());
                        if let Some(o) = outs.get(&t.ty.to_token_stream().to_string()) {
                            if !matches!(o, Type::Infer(_)) {
                                rets.insert(n.clone(), o.clone());
                            }
                        }
                        params.push(((*t.pat).clone(), n, isf));
                    }
                }
            }
            let key = if ty.is_empty() { format!("{}::{}", m, name) } else { format!("{}::{}::{}", m, ty, name) };
            cx.hofs.insert(key, Hof { file: format!("src/{}", f), self_name, params, rets, block, weak });
        }
    }
}

pub fn strip_generics(p: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    for c in p.chars() {
        match c {
            '<' => d += 1,
            '>' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
    }
    o.replace("::::", "::")
}

/// Type parameters become `_`, names of the module get their full path.
struct Open<'x> {
    tps: &'x [String],
    module: &'x str,
    mods: &'x [String],
}
impl<'x> VisitMut for Open<'x> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.get_ident().map(|i| self.tps.contains(&i.to_string())).unwrap_or(false) {
                *t = parse_quote!(_);
                return;
            }
            let f = p.path.segments[0].ident.to_string();
            if p.path.leading_colon.is_none() && self.mods.contains(&f) {
                let q = p.path.clone();
                p.path = parse_quote!(crate::#q);
            } else if p.path.segments.len() == 1 && !["Option", "Result", "Vec", "bool", "usize"].contains(&&*f) {
                let m: Path = parse_str(self.module).unwrap();
                let q = p.path.clone();
                p.path = parse_quote!(crate::#m::#q);
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// the call of a function parameter at the head of an expression
fn head_call<'e>(e: &'e Expr, name: &str, tried: bool) -> Option<(&'e ExprCall, bool)> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.is_ident(name) => Some((c, tried)),
            _ => None,
        },
        Expr::Try(t) => head_call(&t.expr, name, true),
        Expr::Paren(p) => head_call(&p.expr, name, tried),
        Expr::Match(m) => head_call(&m.expr, name, tried),
        Expr::MethodCall(m) => head_call(&m.receiver, name, false),
        _ => None,
    }
}
/// the statement of a block that begins with the call of a function parameter
fn head_stmt(b: &Block, name: &str) -> Option<(usize, bool)> {
    for (i, s) in b.stmts.iter().enumerate() {
        let e = match s {
            Stmt::Local(l) => match &l.init {
                Some(i) if i.diverge.is_none() => &*i.expr,
                _ => continue,
            },
            Stmt::Expr(e, _) => e,
            _ => continue,
        };
        if let Some((_, t)) = head_call(e, name, false) {
            return Some((i, t));
        }
    }
    None
}
/// `return x` of a closure becomes the return of what the caller makes of `x`
struct Returns<'x> {
    f: &'x dyn Fn(Expr) -> Expr,
}
impl<'x> VisitMut for Returns<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if let Some(x) = r.expr.take() {
                let k = (self.f)(*x);
                *e = parse_quote!(return #k);
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

struct SelfTo(Ident);
impl VisitMut for SelfTo {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
}

struct Idents(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Idents {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.push(i.to_string());
    }
}
struct Bound(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
        self.0.push(i.ident.to_string());
        if let Some((_, p)) = &i.subpat {
            self.visit_pat(p);
        }
    }
    fn visit_field_pat(&mut self, f: &'ast FieldPat) {
        self.visit_pat(&f.pat);
    }
}

/// replaces calls of the function parameter `name` by the given expression builder
struct Beta<'x> {
    name: String,
    f: &'x dyn Fn(Vec<Expr>) -> Expr,
}
impl<'x> VisitMut for Beta<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    *e = (self.f)(args);
                }
            }
        }
    }
}

pub fn span_range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

impl<'a> Cx<'a> {
    pub fn rule(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_default() += 1;
    }
    pub fn text(&mut self, s: &Section) -> usize {
        self.texts.push(Text { text: s.text.clone(), file: s.file.clone(), line: s.line });
        self.texts.len() - 1
    }
    pub fn text_raw(&mut self, s: String) -> usize {
        self.texts.push(Text { text: s, file: String::new(), line: 0 });
        self.texts.len() - 1
    }
    pub fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", p, self.fresh)
    }
    pub fn mark(&self, n: usize) -> Stmt {
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__v_text!(#l);)
    }
    pub fn premark(&self, n: usize) -> Stmt {
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__v_pre!(#l);)
    }
}

pub struct Body<'a, 'c> {
    pub cx: &'c mut Cx<'a>,
    pub key: String,
    pub entry: Option<&'a Entry>,
    /// the entry textual anchors come from (also inside inlined functions)
    pub anchors: Option<&'a Entry>,
    pub loops: usize,
    pub closures: usize,
    pub lits: Vec<String>,
    pub fmt_param: Option<String>,
    pub pending: Vec<(String, Stmt)>,
    pub used_anchors: Vec<String>,
    pub lifted: Vec<(String, TokenStream)>,
    /// tail expressions of the function and of closures passed to inlined functions
    pub tails: std::collections::BTreeSet<(String, usize, usize)>,
    /// the error type the function returns
    pub err: Option<Type>,
}
/// `E` of a declared result `Result<T, E>`
pub fn err_type(o: &ReturnType) -> Option<Type> {
    if let ReturnType::Type(_, t) = o {
        if let Type::Path(p) = &**t {
            let l = p.path.segments.last()?;
            if let (true, PathArguments::AngleBracketed(a)) = (l.ident == "Result", &l.arguments) {
                if let (2, Some(GenericArgument::Type(t))) = (a.args.len(), a.args.last()) {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

impl<'a, 'c> Body<'a, 'c> {
    pub fn mark_tails(&mut self, e: &Expr) {
        let (l, h) = span_range(e);
        self.tails.insert((self.cx.file.clone(), l, h));
        match e {
            Expr::Block(b) => self.mark_tail_block(&b.block),
            Expr::Paren(p) => self.mark_tails(&p.expr),
            Expr::Match(m) => {
                for a in &m.arms {
                    self.mark_tails(&a.body)
                }
            }
            Expr::If(i) => {
                self.mark_tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark_tails(e)
                }
            }
            Expr::Return(r) => {
                if let Some(e) = &r.expr {
                    self.mark_tails(e)
                }
            }
            _ => {}
        }
    }
    pub fn mark_tail_block(&mut self, b: &Block) {
        for s in &b.stmts {
            match s {
                Stmt::Expr(e, None) => self.mark_tails(e),
                Stmt::Expr(e @ Expr::Return(_), _) => self.mark_tails(e),
                _ => {}
            }
        }
    }
}

struct HasExit(bool);
impl<'ast> syn::visit::Visit<'ast> for HasExit {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
struct HasTry(bool);
impl<'ast> syn::visit::Visit<'ast> for HasTry {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_try(e: &Expr) -> bool {
    let mut h = HasTry(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn count_calls(b: &Block, name: &str) -> usize {
    let mut i = Idents(vec![]);
    syn::visit::Visit::visit_block(&mut i, b);
    i.0.iter().filter(|x| *x == name).count()
}
fn has_exit(e: &Expr) -> bool {
    let mut h = HasExit(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

/// `core::option::Option::<T>::map` and friends to (type, method)
fn combinator(path: &str) -> Option<(&'static str, &str)> {
    let m = path.rsplit("::").next().unwrap();
    if path.starts_with("std::option::Option::") || path.starts_with("core::option::Option::") {
        Some(("Option", m))
    } else if path.starts_with("std::result::Result::") || path.starts_with("core::result::Result::") {
        Some(("Result", m))
    } else {
        None
    }
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        e => e,
    }
}

impl<'a, 'c> Body<'a, 'c> {
    fn pat_clean(&mut self, p: &Pat) -> (Pat, Vec<Stmt>) {
        // drop type ascriptions, replace `&x` patterns (not in Verus' subset) by a deref
        match p {
            Pat::Type(t) => self.pat_clean(&t.pat),
            Pat::Reference(r) => {
                let v = self.cx.fresh("r");
                let inner = &r.pat;
                self.cx.rule("ref-pattern");
                (parse_quote!(#v), vec![parse_quote!(let #inner = *#v;)])
            }
            p => (p.clone(), vec![]),
        }
    }

    /// pattern and body of a function-like argument applied to one value
    fn apply1(&mut self, arg: Expr) -> (Pat, Expr) {
        if let Expr::Closure(c) = &arg {
            if c.inputs.len() == 1 && !has_exit(&c.body) {
                let (p, st) = self.pat_clean(&c.inputs[0]);
                let b = &c.body;
                return if st.is_empty() { (p, (**b).clone()) } else { (p, parse_quote!({ #(#st)* #b })) };
            }
        }
        let v = self.cx.fresh("v");
        (parse_quote!(#v), parse_quote!((#arg)(#v)))
    }
    fn apply0(&mut self, arg: Expr) -> Expr {
        if let Expr::Closure(c) = &arg {
            if c.inputs.is_empty() && !has_exit(&c.body) {
                return (*c.body).clone();
            }
        }
        parse_quote!((#arg)())
    }
    fn can_inline(&self, m: &ExprMethodCall) -> bool {
        m.args.iter().all(|a| match strip_parens(a) {
            Expr::Closure(c) => !has_exit(&c.body),
            Expr::Path(_) => true,
            _ => false,
        })
    }

    fn method(&mut self, m: ExprMethodCall, path: &str, recv_ty: &str, res_ty: &str, arg_tys: &[String]) -> Expr {
        let name = m.method.to_string();
        let recv = m.receiver.clone();
        let r = &recv;
        if path == "std::cell::RefCell::<T>::borrow_mut" {
            // the handle is what is left without derefs
            let mut base = &*recv;
            loop {
                base = match base {
                    Expr::Paren(p) => &p.expr,
                    Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => &u.expr,
                    Expr::Reference(r) => &r.expr,
                    Expr::MethodCall(c) if c.args.is_empty() && (c.method == "as_ref" || c.method == "deref" || c.method == "deref_mut") => &c.receiver,
                    _ => break,
                };
            }
            let ty = self.ty_of(base);
            let rc = "std::rc::Rc<std::cell::RefCell<";
            if matches!(base, Expr::Path(_) | Expr::Field(_)) && (ty.starts_with(rc) || ty.strip_prefix("&mut ").map_or(false, |t| t.starts_with(rc))) {
                self.cx.rule("shared-borrow-mut");
                return if ty.starts_with(rc) { parse_quote!(crate::shim::cell::v_borrow_mut(&mut #base)) } else { parse_quote!(crate::shim::cell::v_borrow_mut(&mut *#base)) };
            }
        }
        if let Some((ty, meth)) = combinator(path) {
            let inl = self.can_inline(&m);
            let rule = format!("inline-{}::{}", ty, meth);
            let a0 = m.args.first().cloned();
            match (ty, meth) {
                ("Option", "map") | ("Option", "and_then") | ("Option", "or_else") | ("Option", "unwrap_or_else")
                | ("Option", "map_or") | ("Option", "ok_or_else")
                | ("Result", "map") | ("Result", "map_err") | ("Result", "and_then") | ("Result", "unwrap_or_else")
                    if inl =>
                {
                    self.cx.rule(&rule);
                    let a0 = a0.unwrap();
                    return match (ty, meth) {
                        ("Option", "map") => {
                            let (p, b) = self.apply1(a0);
                            parse_quote!((match #r { Some(#p) => Some(#b), None => None }))
                        }
                        ("Option", "and_then") => {
                            let (p, b) = self.apply1(a0);
                            parse_quote!((match #r { Some(#p) => #b, None => None }))
                        }
                        ("Option", "or_else") => {
                            let b = self.apply0(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Some(#v) => Some(#v), None => #b }))
                        }
                        ("Option", "ok_or_else") => {
                            let b = self.apply0(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) }))
                        }
                        ("Option", "unwrap_or_else") => {
                            let b = self.apply0(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Some(#v) => #v, None => #b }))
                        }
                        ("Result", "map") => {
                            let (p, b) = self.apply1(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }))
                        }
                        ("Result", "map_err") => {
                            let v = self.cx.fresh("v");
                            // `.map_err(Into::into)`
                            if let Expr::Path(p) = &a0 {
                                if p.path.segments.last().map(|s| s.ident == "into").unwrap_or(false) {
                                    let w = self.cx.fresh("v");
                                    let (from, to) = (last_arg(recv_ty), last_arg(res_ty));
                                    if !generic_ty(&from) && from != to {
                                        if let Some(p) = self.local_type(&to) {
                                            self.cx.rule("into-to-from");
                                            return parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#w) => Err(#p::from(#w)) }));
                                        }
                                    }
                                    return parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#w) => Err(crate::shim::v_into(#w)) }));
                                }
                            }
                            let (p, b) = self.apply1(a0);
                            parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }))
                        }
                        ("Result", "and_then") => {
                            let (p, b) = self.apply1(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Ok(#p) => #b, Err(#v) => Err(#v) }))
                        }
                        ("Result", "unwrap_or_else") => {
                            let (p, b) = self.apply1(a0);
                            let v = self.cx.fresh("v");
                            parse_quote!((match #r { Ok(#v) => #v, Err(#p) => #b }))
                        }
                        _ => unreachable!(),
                    };
                }
                ("Option", "map_or") if matches!(m.args.last().map(strip_parens), Some(Expr::Closure(c)) if !has_exit(&c.body)) => {
                    self.cx.rule(&rule);
                    let d = m.args[0].clone();
                    let (p, b) = self.apply1(m.args[1].clone());
                    let v = self.cx.fresh("v");
                    return parse_quote!({ let #v = #d; match #r { Some(#p) => #b, None => #v } });
                }
                ("Option", "cloned") | ("Option", "copied") => {
                    self.cx.rule(&rule);
                    let v = self.cx.fresh("v");
                    return parse_quote!((match #r { Some(#v) => Some((*#v).clone()), None => None }));
                }
                _ => {}
            }
        }
        let ren = |s: &mut Self, new: &str| -> Expr {
            s.cx.rule(&format!("std-contract {}", path));
            let mut m = m.clone();
            m.method = Ident::new(new, m.method.span());
            m.turbofish = None;
            Expr::MethodCall(m)
        };
        // str methods go to contracts on the real std functions
        if path.starts_with("core::str::<impl str>::") || path.starts_with("std::str::<impl str>::")
            || path.starts_with("alloc::str::<impl str>::") || path.starts_with("core::str::traits::") {
            let suffix = match arg_tys.first().map(|s| s.as_str()) {
                Some("char") => "_char",
                Some(t) if t.ends_with("str") => "_str",
                Some(t) if t.contains("[char") => "_set",
                Some(t) if t.contains("closure") => "_fn",
                _ => "",
            };
            let n = match name.as_str() {
                "find" | "rfind" | "starts_with" | "ends_with" | "contains" | "matches" | "match_indices" | "split" | "splitn" | "strip_prefix" | "strip_suffix" =>
                    format!("v_{}{}", name, suffix),
                "trim_left" | "trim_start" => "v_trim_start".into(),
                "trim_right" | "trim_end" => "v_trim_end".into(),
                "parse" => {
                    self.cx.rule("std-contract str::parse");
                    let ty = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                    return match ty {
                        Some(t) => parse_quote!(crate::shim::str::v_parse::<#t>(&#r)),
                        None => parse_quote!(crate::shim::str::v_parse(&#r)),
                    };
                }
                _ => format!("v_{}", name),
            };
            return ren(self, &n);
        }
        if name == "eq_ignore_ascii_case" || (name == "is_ascii" && !path.starts_with("std::char") && !path.starts_with("core::char")) {
            return ren(self, &format!("v_{}", name));
        }
        if path.contains("<impl char>::is_") || path.contains("<impl char>::to_ascii_") || path.ends_with("char::methods::<impl char>::is_whitespace") || path.ends_with("<impl char>::escape_default")
            || path.ends_with("<impl char>::is_whitespace") || path.ends_with("<impl char>::len_utf8") {
            return ren(self, &format!("v_{}", name));
        }
        if path.ends_with("<impl [T]>::iter") {
            return ren(self, "v_iter");
        }
        if path == "std::convert::Into::into" || path == "core::convert::Into::into" {
            self.cx.rule("into-to-from");
            let refd = if recv_ty.starts_with('&') || !(recv_ty == "str") { quote!(#r) } else { quote!(&#r) };
            if res_ty == "std::string::String" {
                return parse_quote!(crate::shim::string_from_str(#refd));
            }
            if res_ty.starts_with("tendril::Tendril<tendril::fmt::UTF8") {
                return parse_quote!(crate::shim::tendril::StrTendril::from(#refd));
            }
            if let (Some(p), false) = (self.local_type(res_ty), generic_ty(recv_ty)) {
                return parse_quote!(#p::from(#refd));
            }
            return parse_quote!(crate::shim::v_into(#refd));
        }
        if path == "std::iter::Iterator::collect" {
            self.cx.rule("iterator-collect");
            let new = if res_ty.starts_with("std::result::Result<std::vec::Vec<") { "v_collect_result" } else { "v_collect" };
            let mut m = m.clone();
            m.method = Ident::new(new, m.method.span());
            m.turbofish = None;
            return Expr::MethodCall(m);
        }
        if path.starts_with("std::result::Result::<") && name == "expect" {
            return ren(self, "v_expect");
        }
        if path == "std::iter::IntoIterator::into_iter" && !generic_ty(recv_ty) {
            return ren(self, "v_into_iter");
        }
        if path == "std::convert::AsRef::as_ref" {
            return ren(self, "v_as_ref");
        }
        Expr::MethodCall(m)
    }

    /// Inlines a call of a function-taking function of the crate.
    fn inline_hof(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let err = self.err.take();
        let x = self.inline_hof_body(key, recv, args);
        self.err = err;
        x
    }
    fn inline_hof_body(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let h = self.cx.hofs.get(key)?.clone();
        if h.params.len() != args.len() || h.self_name != recv.is_some() {
            return None;
        }
        self.cx.rule(&format!("inline-function {}", key));
        let mut block = h.block.clone();
        let mut passed: Vec<String> = vec![];
        if h.weak {
            for ((_, name, isf), a) in h.params.iter().zip(&args) {
                if *isf && matches!(strip_parens(a), Expr::Closure(_)) {
                    let uses = count_calls(&block, name);
                    let c = strip_parens(a).clone();
                    let mut po = PassOn { name: name.clone(), closure: &c, count: 0 };
                    po.visit_block_mut(&mut block);
                    if po.count > 0 {
                        let mut ids = Idents(vec![]);
                        syn::visit::Visit::visit_expr(&mut ids, &c);
                        if po.count != 1 || uses != 1 || h.file != self.cx.file || ids.0.iter().any(|i| i == "self") {
                            self.cx.unsupported.push(format!("{}: closure passed on by {}", self.key, key));
                        }
                        passed.push(name.clone());
                    }
                }
            }
        }
        // the callee's own bindings
        let mut bd = Bound(vec![]);
        syn::visit::Visit::visit_block(&mut bd, &block);
        for (p, _, isf) in &h.params {
            if !isf {
                syn::visit::Visit::visit_pat(&mut bd, p);
            }
        }
        let old = std::mem::replace(&mut self.cx.file, h.file.clone());
        let oe = self.entry.take();
        self.mark_tail_block(&block);
        self.visit_block_mut(&mut block);
        self.entry = oe;
        self.cx.file = old;
        let mut lets: Vec<Stmt> = vec![];
        if let Some(r) = recv {
            // a place used through `&mut self`, or a value moved in
            let me = self.cx.fresh("me");
            let by_ref = matches!(&r, Expr::Field(_));
            SelfTo(me.clone()).visit_block_mut(&mut block);
            if by_ref {
                lets.push(parse_quote!(let #me = &mut #r;));
            } else {
                lets.push(parse_quote!(let #me = #r;));
            }
        }
        for ((p, name, isf), a) in h.params.iter().zip(args) {
            if !*isf {
                lets.push(parse_quote!(let #p = #a;));
                continue;
            }
            if passed.contains(name) {
                continue;
            }
            match strip_parens(&a).clone() {
                Expr::Closure(c) => {
                    let n = self.closures;
                    self.closures += 1;
                    let mut body = (*c.body).clone();
                    self.mark_tails(&c.body);
                    self.visit_expr_mut(&mut body);
                    let lift = self.entry.and_then(|e| e.sections.iter().find(|s| s.name == "lift" && s.arg.split_whitespace().next() == Some(&n.to_string()))).cloned();
                    let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
                    if let Some(s) = lift {
                        let mut w = s.arg.split_whitespace();
                        w.next();
                        let fname = format_ident!("{}", w.next().expect("lift name"));
                        let caps: Vec<Ident> = w.map(|x| format_ident!("{}", x)).collect();
                        let k = self.cx.text(&s);
                        let l = proc_macro2::Literal::usize_unsuffixed(k);
                        let pr = self.entry.and_then(|e| e.get_arg("liftstart", &n.to_string())).cloned();
                        let mut st: Vec<Stmt> = vec![];
                        let mut ls = self.lits.clone();
                        ls.sort();
                        ls.dedup();
                        if !ls.is_empty() {
                            let t: String = ls.iter().map(|l| format!("reveal_strlit({:?});", l)).collect();
                            let k = self.cx.text_raw(format!("proof {{ {} }}", t));
                            st.push(self.cx.mark(k));
                        }
                        if let Some(s) = pr {
                            let k = self.cx.text(&s);
                            st.push(self.cx.mark(k));
                        }
                        let mut lt: Vec<Stmt> = vec![];
                        for (i, p) in pats.iter().enumerate() {
                            if !matches!(p, Pat::Ident(_)) {
                                let a = format_ident!("__arg{}", i);
                                lt.push(parse_quote!(let #p = #a;));
                            }
                        }
                        self.cx.rule("lift-closure");
                        let key = format!("{}#{}", self.key, fname);
                        self.lifted.push((key.clone(), quote!(__v_text!(#l); { #(#st)* #(#lt)* #body })));
                        self.cx.fns.push(crate::items::FnInfo { key, file: self.cx.file.clone(), line: c.or1_token.spans[0].start().line, contract: true, ..Default::default() });
                        let build = move |a: Vec<Expr>| -> Expr { parse_quote!(#fname(#(#a,)* #(#caps),*)) };
                        Beta { name: name.clone(), f: &build }.visit_block_mut(&mut block);
                    } else {
                        // beta reduction; refuse capture of the callee's variables
                        let mut ids = Idents(vec![]);
                        syn::visit::Visit::visit_expr(&mut ids, &body);
                        let mut own = Bound(vec![]);
                        for p in &pats {
                            syn::visit::Visit::visit_pat(&mut own, p);
                        }
                        syn::visit::Visit::visit_expr(&mut own, &body);
                        if ids.0.iter().any(|i| bd.0.contains(i) && !own.0.contains(i)) && !matches!(&*c.body, Expr::Struct(_)) {
                            self.cx.unsupported.push(format!("{}: closure passed to {} shares a name with it", self.key, key));
                        }
                        let ann = h.rets.get(name).cloned();
                        let uses = count_calls(&block, name);
                        let wrap = |x: Expr| -> Expr {
                            match &ann {
                                Some(t) => parse_quote!({ let __cl: #t = #x; __cl }),
                                None => x,
                            }
                        };
                        if has_exit(&body) {
                            match head_stmt(&block, name) {
                                // an error the closure returns is returned by its caller
                                Some((i, tried)) if uses == 1 && (tried || !has_try(&body)) => {
                                    let rest: Vec<Stmt> = block.stmts[i..].to_vec();
                                    let f = |x: Expr| -> Expr {
                                        let mut b: Block = parse_quote!({ #(#rest)* });
                                        let build = |_: Vec<Expr>| wrap(x.clone());
                                        Beta { name: name.clone(), f: &build }.visit_block_mut(&mut b);
                                        parse_quote!(#b)
                                    };
                                    Returns { f: &f }.visit_expr_mut(&mut body);
                                }
                                _ => self.cx.unsupported.push(format!("{}: closure passed to {} returns early", self.key, key)),
                            }
                        }
                        let build = |a: Vec<Expr>| -> Expr {
                            if pats.len() == 1 {
                                let (p, a) = (&pats[0], &a[0]);
                                let w = wrap(body.clone());
                                parse_quote!({ let #p = #a; #w })
                            } else {
                                let w = wrap(body.clone());
                                parse_quote!({ let (#(#pats),*) = (#(#a),*); #w })
                            }
                        };
                        Beta { name: name.clone(), f: &build }.visit_block_mut(&mut block);
                    }
                }
                f => {
                    let mut f = f;
                    self.visit_expr_mut(&mut f);
                    let build = move |a: Vec<Expr>| -> Expr { parse_quote!(#f(#(#a),*)) };
                    Beta { name: name.clone(), f: &build }.visit_block_mut(&mut block);
                }
            }
        }
        let st = &block.stmts;
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }

    /// Types and a postcondition `ret == <body>` for a closure whose body is a pure expression.
    fn auto_closure(&mut self, c: &ExprClosure, lo: usize, hi: usize) -> Option<(Vec<Type>, String)> {
        let t = self.cx.types.closure(&self.cx.file, lo, hi).cloned()?;
        if !c.inputs.iter().all(|p| matches!(p, Pat::Ident(_))) || c.inputs.is_empty() {
            return None;
        }
        let sp = self.spec_of(&c.body)?;
        let mut tys = vec![];
        for x in t.ty.split(';') {
            tys.push(self.rust_type(x)?);
        }
        let r = self.rust_type(&t.aty)?;
        Some((tys, format!("-> (__ret: {}) ensures __ret == ({}),", r.to_token_stream(), sp.to_token_stream())))
    }
    fn rust_type(&self, t: &str) -> Option<Type> {
        let mut ty: Type = syn::parse_str(t).ok()?;
        struct L(Vec<String>, bool);
        impl VisitMut for L {
            fn visit_path_mut(&mut self, p: &mut Path) {
                let f = p.segments[0].ident.to_string();
                if p.segments.len() > 1 && self.0.contains(&f) {
                    p.segments.insert(0, PathSegment::from(Ident::new("crate", Span::call_site())));
                } else if p.segments.len() > 1 && f != "std" {
                    self.1 = false;
                }
                visit_mut::visit_path_mut(self, p);
            }
        }
        let mut l = L(self.cx.crate_mods.clone(), true);
        l.visit_type_mut(&mut ty);
        if l.1 { Some(ty) } else { None }
    }
    fn ty_of(&self, e: &Expr) -> String {
        let (l, h) = span_range(e);
        self.cx.types.get(&self.cx.file, l, h).map(|t| t.ty.clone()).unwrap_or_default()
    }
    fn spec_of(&self, e: &Expr) -> Option<Expr> {
        const PRIM: &[&str] = &["char", "bool", "usize", "u8", "u32", "u64", "i32"];
        match e {
            Expr::Lit(_) => Some(e.clone()),
            Expr::Path(p) if p.path.get_ident().is_some() => Some(e.clone()),
            Expr::Paren(p) => self.spec_of(&p.expr).map(|x| parse_quote!((#x))),
            Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(x, None) => self.spec_of(x),
                _ => None,
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) => {
                let x = self.spec_of(&u.expr)?;
                let op = &u.op;
                Some(parse_quote!(#op #x))
            }
            Expr::Binary(b) => {
                let ok = match b.op {
                    BinOp::And(_) | BinOp::Or(_) => true,
                    BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                        let (l, r) = (self.ty_of(&b.left), self.ty_of(&b.right));
                        PRIM.contains(&l.trim_start_matches('&')) && l == r
                    }
                    _ => false,
                };
                if !ok {
                    return None;
                }
                let refs = self.ty_of(&b.left).starts_with('&');
                let (l, r) = (self.spec_of(&b.left)?, self.spec_of(&b.right)?);
                let op = &b.op;
                Some(if refs { parse_quote!(*(#l) #op *(#r)) } else { parse_quote!(#l #op #r) })
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let (l, h) = span_range(e);
                let t = self.cx.types.method(&self.cx.file, l, h)?;
                let r = self.spec_of(&m.receiver)?;
                if t.path.ends_with("<impl char>::is_whitespace") {
                    return Some(if t.recv.starts_with('&') { parse_quote!(crate::theory::is_ws(*#r)) } else { parse_quote!(crate::theory::is_ws(#r)) });
                }
                None
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => None,
            _ => None,
        }
    }

    fn local_type(&self, t: &str) -> Option<Path> {
        if let Some((v, p)) = &self.cx.mono {
            if v == t {
                return Some(p.clone());
            }
        }
        let first = t.split("::").next().unwrap();
        if self.cx.crate_mods.iter().any(|m| m == first) && t.contains("::") && !t.contains('<') && !t.contains(' ') {
            syn::parse_str(&format!("crate::{}", t)).ok()
        } else if t.len() == 1 {
            syn::parse_str(t).ok()
        } else {
            None
        }
    }

    fn write_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> =
            mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let dest = it.next()?;
        let f = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s,
            _ => return None,
        };
        let mut pieces: Vec<Expr> = vec![];
        let s = f.value();
        let mut lit = String::new();
        let is_fmt = matches!(&dest, Expr::Path(p) if p.path.get_ident().map(|i| Some(i.to_string()) == self.fmt_param).unwrap_or(false));
        let d: TokenStream = if is_fmt { quote!(&mut *#dest) } else { quote!(&mut #dest) };
        let mut cs = s.chars().peekable();
        let flush = |lit: &mut String, pieces: &mut Vec<Expr>, me: &mut Self| {
            if !lit.is_empty() {
                let l = LitStr::new(lit, f.span());
                me.lits.push(lit.clone());
                pieces.push(parse_quote!(crate::shim::fmt::v_write_str(#d, #l)));
                lit.clear();
            }
        };
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    if cs.next() != Some('}') {
                        return None;
                    }
                    flush(&mut lit, &mut pieces, self);
                    let a = it.next()?;
                    pieces.push(parse_quote!(crate::shim::fmt::v_display(&#a, #d)));
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut pieces, self);
        let mut acc: Expr = match pieces.pop() {
            None => parse_quote!(Ok(())),
            Some(p) => p,
        };
        while let Some(p) = pieces.pop() {
            let v = self.cx.fresh("e");
            acc = parse_quote!(match #p { Ok(_) => #acc, Err(#v) => Err(#v) });
        }
        self.cx.rule("write-macro");
        Some(acc)
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let n = mac.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "write" => {
                let mut e = self.write_macro(mac)?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            "panic" | "unreachable" | "unimplemented" => {
                self.cx.rule("panic-unreachable");
                Some(parse_quote!(crate::shim::v_panic()))
            }
            "vec" if mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
            _ => None,
        }
    }

    fn loop_specs(&mut self, n: usize, body: &mut Block) {
        let mut pre = vec![];
        if let Some(e) = self.entry {
            let a = n.to_string();
            if let Some(s) = e.get_arg("loop", &a) {
                let k = self.cx.text(s);
                pre.push(self.cx.premark(k));
            }
            if let Some(s) = e.get_arg("loopstart", &a) {
                let k = self.cx.text(s);
                pre.push(self.cx.mark(k));
            }
            if let Some(s) = e.get_arg("loopend", &a) {
                let k = self.cx.text(s);
                let m = self.cx.mark(k);
                body.stmts.push(m);
            }
        }
        for (i, s) in pre.into_iter().enumerate() {
            body.stmts.insert(i, s);
        }
    }
    fn around_loop(&mut self, n: usize, e: Expr) -> Expr {
        let a = n.to_string();
        let (b, f) = match self.entry {
            Some(en) => (en.get_arg("before", &a).cloned(), en.get_arg("after", &a).cloned()),
            None => (None, None),
        };
        if b.is_none() && f.is_none() {
            return e;
        }
        let b: Vec<Stmt> = b.map(|s| { let k = self.cx.text(&s); self.cx.mark(k) }).into_iter().collect();
        let f: Vec<Stmt> = f.map(|s| { let k = self.cx.text(&s); self.cx.mark(k) }).into_iter().collect();
        parse_quote!({ #(#b)* #e #(#f)* })
    }
}

pub fn fix_path(cx: &mut Cx, p: &mut Path) {
    if p.leading_colon.is_some() {
        p.leading_colon = None;
        let first = p.segments[0].ident.to_string();
        if first == "std" || first == "core" {
            return;
        }
        cx.rule("path-2015");
        p.segments.insert(0, PathSegment::from(Ident::new("crate", Span::call_site())));
    }
}

impl<'a, 'c> VisitMut for Body<'a, 'c> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(self.cx, p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_lit_str_mut(&mut self, l: &mut LitStr) {
        self.lits.push(l.value());
    }
    fn visit_item_mut(&mut self, i: &mut Item) {
        // nested items
        match i {
            Item::Use(u) => {
                let s = u.to_token_stream().to_string();
                if s.contains("AsciiExt") || s.contains("Write") || s.contains("BufRead") {
                    *i = Item::Verbatim(quote!());
                } else {
                    crate::items::fix_use(self.cx, u);
                }
            }
            Item::Const(c) => {
                visit_mut::visit_expr_mut(self, &mut c.expr);
                let t = crate::items::const_item(self.cx, c);
                // (a block that follows would be read as part of the contract)
                *i = Item::Verbatim(quote!(#t ;));
            }
            Item::Fn(f) => {
                let key = format!("{}/{}", self.key, f.sig.ident);
                crate::items::do_fn(self.cx, &key, &mut f.attrs, &mut f.sig, Some(&mut f.block), None);
            }
            _ => visit_mut::visit_item_mut(self, i),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token.is_some();
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n.starts_with("__v_") {
                return;
            }
            if let Some(e) = self.macro_expr(&m.mac.clone()) {
                *s = if semi { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
                return;
            }
            self.cx.unsupported.push(format!("{}: macro {}!", self.key, n));
            return;
        }
        // textual anchors
        let anchored: Vec<Section> = match self.anchors {
            Some(e) => {
                let toks = s.to_token_stream().to_string();
                let norm: String = toks.split_whitespace().collect();
                e.all("stmt")
                    .filter(|x| {
                        let a: String = x.arg.split_whitespace().collect();
                        norm.starts_with(&a)
                    })
                    .cloned()
                    .collect()
            }
            None => vec![],
        };
        visit_mut::visit_stmt_mut(self, s);
        for a in anchored {
            let k = self.cx.text(&a);
            let m = self.cx.mark(k);
            let _ = &m;
            self.pending.push((a.arg.clone(), m));
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let before = self.pending.len();
            self.visit_stmt_mut(&mut s);
            let marks: Vec<_> = self.pending.drain(before..).collect();
            for (a, m) in marks {
                self.used_anchors.push(a);
                out.push(m);
            }
            out.push(s);
        }
        // a loop with a contract followed by a block would be read as part of the contract
        let n = out.len();
        for s in out.iter_mut().take(n.saturating_sub(1)) {
            if let Stmt::Expr(e, semi @ None) = s {
                if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::Block(_)) {
                    *semi = Some(Default::default());
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (lo, hi) = span_range(e);
        match e {
            Expr::MethodCall(m) => {
                let info = self.cx.types.method(&self.cx.file, lo, hi).cloned();
                let arg_tys: Vec<String> = m
                    .args
                    .iter()
                    .map(|a| {
                        let (l, h) = span_range(a);
                        self.cx.types.get(&self.cx.file, l, h).map(|t| t.ty.clone()).unwrap_or_default()
                    })
                    .collect();
                if let Some(t) = &info {
                    let k = strip_generics(&t.path);
                    if self.cx.hofs.get(&k).map(|h| h.applies(m.args.iter())).unwrap_or(false) {
                        let tail = self.tails.contains(&(self.cx.file.clone(), lo, hi));
                        if !tail && (!self.cx.hofs[&k].weak || has_exit(&self.cx.hofs[&k].body())) {
                            self.cx.unsupported.push(format!("{}: {} not in tail position", self.key, k));
                        }
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                        let h = self.cx.hofs[&k].clone();
                        for (a, p) in args.iter_mut().zip(&h.params) {
                            if !p.2 {
                                self.visit_expr_mut(a);
                            }
                        }
                        if let Some(x) = self.inline_hof(&k, Some(r), args) {
                            *e = x;
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                match info {
                    Some(t) => {
                        let m = m.clone();
                        *e = self.method(m, &t.path, &t.recv, &t.ty, &arg_tys);
                    }
                    None => {
                        let n = m.method.to_string();
                        if lo != hi && !n.starts_with("v_") && n != "next" {
                            self.cx.rule(&format!("untyped-method {}", n));
                        }
                    }
                }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) && {
                let (l, h) = span_range(&c.func);
                self.cx.types.path(&self.cx.file, l, h).map(|t| self.cx.hofs.get(&strip_generics(&t.path)).map(|h| h.applies(c.args.iter())).unwrap_or(false)).unwrap_or(false)
            } => {
                let (l, hh) = span_range(&c.func);
                let k = strip_generics(&self.cx.types.path(&self.cx.file, l, hh).unwrap().path);
                let tail = self.tails.contains(&(self.cx.file.clone(), lo, hi));
                if !tail && (!self.cx.hofs[&k].weak || has_exit(&self.cx.hofs[&k].body())) {
                    self.cx.unsupported.push(format!("{}: {} not in tail position", self.key, k));
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let h = self.cx.hofs[&k].clone();
                for (a, p) in args.iter_mut().zip(&h.params) {
                    if !p.2 {
                        self.visit_expr_mut(a);
                    }
                }
                if let Some(x) = self.inline_hof(&k, None, args) {
                    *e = x;
                }
            }
            // the conversion of the error that a `?` does
            Expr::Try(t) if self.err.is_some() => {
                let (l, h) = span_range(&t.expr);
                let from = self.cx.types.tried(&self.cx.file, l, h).map(|t| last_arg(&t.ty)).unwrap_or_default();
                let to = self.err.clone().unwrap();
                let name = |x: &str| x.rsplit("::").next().unwrap_or("").trim().to_string();
                self.visit_expr_mut(&mut t.expr);
                if !to.to_token_stream().to_string().starts_with("Self") && self.local_type(&from).is_some() && !generic_ty(&from) && name(&from) != name(&to.to_token_stream().to_string()) {
                    self.cx.rule("try-conversion");
                    let (v, w) = (self.cx.fresh("v"), self.cx.fresh("v"));
                    let x = &t.expr;
                    *e = parse_quote!((match #x { Ok(#v) => #v, Err(#w) => return Err(<#to as From<_>>::from(#w)) }));
                }
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                let auto = if self.entry.map(|e| e.get_arg("closure", &n.to_string()).is_some()).unwrap_or(false) {
                    None
                } else {
                    self.auto_closure(c, lo, hi)
                };
                let err = self.err.take();
                visit_mut::visit_expr_closure_mut(self, c);
                self.err = err;
                if let Some((tys, text)) = auto {
                    self.cx.rule("closure-self-contract");
                    for (p, t) in c.inputs.iter_mut().zip(tys) {
                        if !matches!(p, Pat::Type(_)) {
                            let q = p.clone();
                            *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) });
                        }
                    }
                    let k = self.cx.text_raw(text);
                    let pm = self.cx.premark(k);
                    c.output = ReturnType::Default;
                    let b = &c.body;
                    c.body = Box::new(parse_quote!({ #pm #b }));
                    return;
                }
                let mut lets = vec![];
                for p in c.inputs.iter_mut() {
                    let p0 = p.clone();
                    let (q, st) = match &p0 {
                        Pat::Type(_) => (p0.clone(), vec![]),
                        Pat::Reference(_) => self.pat_clean(&p0),
                        Pat::Ident(_) | Pat::Wild(_) => (p0.clone(), vec![]),
                        other => {
                            // Verus closures take plain identifiers
                            let v = self.cx.fresh("p");
                            let o = other.clone();
                            self.cx.rule("closure-pattern");
                            (parse_quote!(#v), vec![parse_quote!(let #o = #v;)])
                        }
                    };
                    *p = q;
                    lets.extend(st);
                }
                if let Some(en) = self.entry {
                    if let Some(s) = en.get_arg("clparams", &n.to_string()) {
                        // typed parameter list supplied (types only; names stay)
                        let tys: Vec<&str> = s.text.trim().split(';').map(|x| x.trim()).collect();
                        for (p, t) in c.inputs.iter_mut().zip(tys) {
                            if !matches!(p, Pat::Type(_)) {
                                let ty: Type = syn::parse_str(t).expect("closure parameter type");
                                let q = p.clone();
                                *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(ty) });
                            }
                        }
                    }
                    if let Some(s) = en.get_arg("closure", &n.to_string()) {
                        let k = self.cx.text(s);
                        let pm = self.cx.premark(k);
                        let mut st = vec![pm];
                        if let Some(s) = en.get_arg("clstart", &n.to_string()) {
                            let k = self.cx.text(s);
                            st.push(self.cx.mark(k));
                        }
                        st.extend(lets);
                        c.output = ReturnType::Default;
                        let b = &c.body;
                        let nb: Expr = match &**b {
                            Expr::Block(bl) if bl.label.is_none() && bl.attrs.is_empty() => {
                                let ss = &bl.block.stmts;
                                parse_quote!({ #(#st)* #(#ss)* })
                            }
                            b => parse_quote!({ #(#st)* #b }),
                        };
                        c.body = Box::new(nb);
                        return;
                    }
                }
                if !lets.is_empty() {
                    let b = &c.body;
                    c.body = Box::new(parse_quote!({ #(#lets)* #b }));
                }
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(strip_parens(&r.expr), Expr::Index(ix) if matches!(strip_parens(&ix.index), Expr::Range(_))) => {
                let ix = match strip_parens(&r.expr) {
                    Expr::Index(ix) => ix.clone(),
                    _ => unreachable!(),
                };
                let mut base = (*ix.expr).clone();
                self.visit_expr_mut(&mut base);
                let rg = match strip_parens(&ix.index) {
                    Expr::Range(r) => r.clone(),
                    _ => unreachable!(),
                };
                if matches!(rg.limits, RangeLimits::Closed(_)) {
                    self.cx.unsupported.push(format!("{}: inclusive range slice", self.key));
                }
                let (mut a, mut b) = (rg.start.clone(), rg.end.clone());
                if let Some(a) = a.as_mut() {
                    self.visit_expr_mut(a)
                }
                if let Some(b) = b.as_mut() {
                    self.visit_expr_mut(b)
                }
                self.cx.rule("range-slice");
                *e = match (a, b) {
                    (None, Some(b)) => parse_quote!(#base.v_slice_to(#b)),
                    (Some(a), None) => parse_quote!(#base.v_slice_from(#a)),
                    (Some(a), Some(b)) => parse_quote!(#base.v_slice(#a, #b)),
                    (None, None) => parse_quote!(#base.v_slice_full()),
                };
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                let (l, h) = span_range(&f.expr);
                let ty = self.cx.types.inner(&self.cx.file, l, h).map(|t| t.ty.clone()).unwrap_or_default();
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let (p, st) = match &*f.pat {
                    Pat::Reference(_) => self.pat_clean(&f.pat.clone()),
                    p => (p.clone(), vec![]),
                };
                let ex = &f.expr;
                if ty.starts_with("std::ops::Range<") || ty.starts_with("std::ops::RangeInclusive<") {
                    self.loop_specs(n, &mut f.body);
                    return;
                }
                self.cx.rule("for-desugar");
                let it = format_ident!("__it{}", n);
                let label = &f.label;
                let mut body = f.body.clone();
                for (i, s) in st.into_iter().enumerate() {
                    body.stmts.insert(i, s);
                }
                if let Some(en) = self.entry {
                    if let Some(s) = en.get_arg("forstart", &n.to_string()) {
                        let k = self.cx.text(s);
                        body.stmts.insert(0, self.cx.mark(k));
                    }
                    if let Some(s) = en.get_arg("forend", &n.to_string()) {
                        let k = self.cx.text(s);
                        body.stmts.push(self.cx.mark(k));
                    }
                }
                let none: Vec<Stmt> = match self.entry.and_then(|en| en.get_arg("fornone", &n.to_string())) {
                    Some(s) => {
                        let k = self.cx.text(s);
                        vec![self.cx.mark(k)]
                    }
                    None => vec![],
                };
                let (init, place): (Option<Stmt>, Expr) = if let (true, Expr::Reference(r)) = (ty.starts_with("&mut "), strip_parens(ex)) {
                    let inner = &r.expr;
                    (None, parse_quote!(#inner))
                } else if ty.starts_with('&') || ty.starts_with("std::vec::Vec<") {
                    (Some(parse_quote!(let mut #it = (#ex).v_into_iter();)), parse_quote!(#it))
                } else {
                    (Some(parse_quote!(let mut #it = #ex;)), parse_quote!(#it))
                };
                let mut lb: Block = parse_quote!({ match #place.next() { Some(#p) => #body, None => { #(#none)* break } } });
                self.loop_specs(n, &mut lb);
                let (bf, af) = match self.entry {
                    Some(en) => (en.get_arg("before", &n.to_string()).cloned(), en.get_arg("after", &n.to_string()).cloned()),
                    None => (None, None),
                };
                let bf: Vec<Stmt> = bf.map(|s| { let k = self.cx.text(&s); self.cx.mark(k) }).into_iter().collect();
                let af: Vec<Stmt> = af.map(|s| { let k = self.cx.text(&s); self.cx.mark(k) }).into_iter().collect();
                let init: Vec<Stmt> = init.into_iter().collect();
                *e = parse_quote!({ #(#init)* #(#bf)* #label loop #lb #(#af)* });
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                self.loop_specs(n, &mut w.body);
                let x = e.clone();
                *e = self.around_loop(n, x);
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                self.loop_specs(n, &mut w.body);
                let x = e.clone();
                *e = self.around_loop(n, x);
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.macro_expr(&mac) {
                    Some(x) => *e = x,
                    None => {
                        let n = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if !n.starts_with("__v_") {
                            self.cx.unsupported.push(format!("{}: macro {}!", self.key, n));
                        }
                    }
                }
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                if s == "usize::max_value" || s == "std::usize::MAX" {
                    *e = parse_quote!(crate::shim::usize_max_value);
                    return;
                }
                if let Some(t) = self.cx.types.path(&self.cx.file, lo, hi) {
                    // bare functions of shimmed std modules keep their path through `use`
                    let _ = t;
                }
                visit_mut::visit_expr_path_mut(self, p);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
