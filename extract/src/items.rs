//! Item level translation: visibility, imports, derives, contracts on functions.
use crate::spec::Entry;
use crate::tx::{fix_path, span_range, Body, Cx};
use quote::{format_ident, quote, ToTokens};
use proc_macro2::TokenStream;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const SHIM_MODS: &[&str] = &["fmt", "cell", "str", "io", "fs", "path", "iter"];

pub fn norm(ts: TokenStream) -> String {
    // drop lifetimes and white space
    fn go(ts: TokenStream, o: &mut String) {
        let v: Vec<_> = ts.into_iter().collect();
        let mut i = 0;
        let mut word = false;
        while i < v.len() {
            match &v[i] {
                proc_macro2::TokenTree::Punct(p) if p.as_char() == '\'' => {
                    i += 2;
                    if let Some(proc_macro2::TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ',' {
                            i += 1;
                        }
                    }
                    word = false;
                    continue;
                }
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        _ => ("", ""),
                    };
                    o.push_str(a);
                    go(g.stream(), o);
                    o.push_str(b);
                    word = false;
                }
                proc_macro2::TokenTree::Punct(p) => {
                    o.push(p.as_char());
                    word = false;
                }
                t => {
                    if word {
                        o.push(' ');
                    }
                    o.push_str(&t.to_string());
                    word = true;
                }
            }
            i += 1;
        }
    }
    let mut o = String::new();
    go(ts, &mut o);
    o.replace("<>", "")
}

pub fn fix_use(cx: &mut Cx, u: &mut ItemUse) {
    u.leading_colon = None;
    u.vis = parse_quote!(pub);
    if let UseTree::Path(p) = &u.tree {
        let a = p.ident.to_string();
        if a == "std" {
            let sub = match &*p.tree {
                UseTree::Path(q) => q.ident.to_string(),
                UseTree::Name(n) => n.ident.to_string(),
                _ => String::new(),
            };
            if SHIM_MODS.contains(&sub.as_str()) {
                let rest = &p.tree;
                u.tree = parse_quote!(crate::shim::#rest);
            }
            return;
        }
        if a == "self" || a == "super" || a == "crate" {
            return;
        }
    }
    let t = &u.tree;
    let first = match t {
        UseTree::Path(p) => p.ident.to_string(),
        UseTree::Name(n) => n.ident.to_string(),
        _ => String::new(),
    };
    if first == "tendril" {
        u.tree = parse_quote!(crate::shim::#t);
    } else if cx.crate_mods.contains(&first) {
        u.tree = parse_quote!(crate::#t);
    }
}

pub fn drop_use(u: &ItemUse) -> bool {
    let s = u.to_token_stream().to_string().replace(' ', "");
    s.contains("std::error") || s.contains("std::ascii") || s.contains("AsciiExt") || s.contains("BufRead") || s.contains("fmt::{Write}") || s.contains("fmt::Write")
}

pub fn const_item(cx: &mut Cx, c: &ItemConst) -> TokenStream {
    let name = &c.ident;
    let mut ty = (*c.ty).clone();
    let e = &c.expr;
    if let Type::Reference(r) = &mut ty {
        if r.lifetime.is_none() {
            r.lifetime = Some(parse_quote!('static));
        }
    }
    // `&[ 'a', ... ]`
    if let Expr::Reference(r) = &**e {
        if let Expr::Array(a) = &*r.expr {
            let xs = a.elems.iter();
            cx.rule("const-slice");
            return quote!(pub exec const #name: #ty ensures #name@ == seq![#(#xs),*] { #e });
        }
    }
    quote!(pub const #name: #ty = #e;)
}

struct Sig<'a, 'c>(&'c mut Cx<'a>);
impl<'a, 'c> VisitMut for Sig<'a, 'c> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(self.0, p);
        if p.segments.len() == 1 && p.segments[0].ident == "Iterator" {
            self.0.rule("iterator-trait");
            let args = p.segments[0].arguments.clone();
            *p = parse_quote!(crate::shim::ext::VIter);
            p.segments.last_mut().unwrap().arguments = args;
        }
        if p.segments.len() == 1 && p.segments[0].ident == "IntoIterator" {
            self.0.rule("iterator-trait");
            let args = p.segments[0].arguments.clone();
            *p = parse_quote!(crate::shim::ext::VIntoIter);
            p.segments.last_mut().unwrap().arguments = args;
        }
        if p.segments.len() == 1 && p.segments[0].ident == "AsRef" {
            let args = p.segments[0].arguments.clone();
            *p = parse_quote!(crate::shim::ext::VAsRef);
            p.segments.last_mut().unwrap().arguments = args;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let n = p.path.segments.len();
            if p.qself.is_none() && n >= 2 {
                let k = format!("{}::{}", p.path.segments[n - 2].ident, p.path.segments[n - 1].ident);
                if self.0.traits.contains(&k) {
                    self.0.rule("trait-object-dyn");
                    *t = parse_quote!(dyn #p);
                }
            }
        }
    }
}

pub fn fix_sig_paths(cx: &mut Cx, s: &mut Signature) {
    visit_mut::visit_signature_mut(&mut Sig(cx), s);
}
pub fn fix_generics(cx: &mut Cx, g: &mut Generics) {
    visit_mut::visit_generics_mut(&mut Sig(cx), g);
}
pub fn fix_type(cx: &mut Cx, t: &mut Type) {
    visit_mut::visit_type_mut(&mut Sig(cx), t);
}

#[derive(Default, Clone)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub contract: bool,
    pub external: bool,
    pub loops: usize,
    pub closures: usize,
    /// kinds of loops and, next to loops, mutable variables: what loop annotations rest on
    pub shape: String,
    pub anchors_lost: Vec<String>,
}

struct Shape { loops: Vec<&'static str>, muts: usize }
impl<'ast> syn::visit::Visit<'ast> for Shape {
    fn visit_expr_for_loop(&mut self, x: &'ast syn::ExprForLoop) {
        self.loops.push("for");
        syn::visit::visit_expr_for_loop(self, x);
    }
    fn visit_expr_while(&mut self, x: &'ast syn::ExprWhile) {
        self.loops.push(if matches!(*x.cond, Expr::Let(_)) { "while-let" } else { "while" });
        syn::visit::visit_expr_while(self, x);
    }
    fn visit_expr_loop(&mut self, x: &'ast syn::ExprLoop) {
        self.loops.push("loop");
        syn::visit::visit_expr_loop(self, x);
    }
    fn visit_pat_ident(&mut self, x: &'ast syn::PatIdent) {
        if x.mutability.is_some() { self.muts += 1; }
        syn::visit::visit_pat_ident(self, x);
    }
}
fn shape(b: &Block) -> String {
    let mut v = Shape { loops: vec![], muts: 0 };
    syn::visit::Visit::visit_block(&mut v, b);
    if v.loops.is_empty() { return String::new(); }
    format!("{} mut:{}", v.loops.join(" "), v.muts)
}

struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) {
            r.lifetime = None;
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
}
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") {
            let sp = p.segments[0].ident.span();
            p.segments[0].ident = Ident::new("__self", sp);
            return;
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `B: FnOnce(Api<S>) -> Api<R>` of a function that only hands `B` on becomes `B: BuildOnce<S, Stream = R>`
/// (`FnMut`: `BuildMut`, with a second argument `BuildMutMapped`): the crate implements the trait for every
/// such function, so what is shown for every builder holds for the functions.
fn builder_bounds(cx: &mut Cx, sig: &mut Signature, body: &Block) {
    struct Calls(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for Calls {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident() {
                    self.0.push(i.to_string());
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut calls = Calls(vec![]);
    syn::visit::Visit::visit_block(&mut calls, body);
    let mut called: Vec<String> = vec![];
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), Type::Path(p)) = (&*t.pat, &*t.ty) {
                if calls.0.contains(&i.ident.to_string()) {
                    called.push(p.to_token_stream().to_string());
                }
            }
        }
    }
    fn api(t: &Type) -> Option<Type> {
        if let Type::Path(p) = t {
            let l = p.path.segments.last()?;
            if l.ident == "Api" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    return a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None });
                }
            }
        }
        None
    }
    if let Some(w) = &mut sig.generics.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                if called.contains(&t.bounded_ty.to_token_stream().to_string()) {
                    continue;
                }
                for b in t.bounds.iter_mut() {
                    let new: Option<TypeParamBound> = (|| {
                        if let TypeParamBound::Trait(tb) = &*b {
                            let l = tb.path.segments.last()?;
                            if let PathArguments::Parenthesized(a) = &l.arguments {
                                let s = api(a.inputs.first()?)?;
                                let r = if let ReturnType::Type(_, r) = &a.output { api(r)? } else { return None };
                                return match (l.ident.to_string().as_str(), a.inputs.len()) {
                                    ("FnOnce", 1) => Some(parse_quote!(crate::builder::BuildOnce<#s, Stream = #r>)),
                                    ("FnMut", 1) => Some(parse_quote!(crate::builder::BuildMut<#s, Stream = #r>)),
                                    ("FnMut", 2) => {
                                        let v = &a.inputs[1];
                                        Some(parse_quote!(crate::builder::BuildMutMapped<#s, #v, Stream = #r>))
                                    }
                                    _ => None,
                                };
                            }
                        }
                        None
                    })();
                    if let Some(n) = new {
                        cx.rule("closure-builder-bound");
                        *b = n;
                    }
                }
            }
        }
    }
}

/// Transforms a function in place; returns the token for a contract on a bodyless function.
pub fn do_fn(
    cx: &mut Cx,
    key: &str,
    attrs: &mut Vec<Attribute>,
    sig: &mut Signature,
    block: Option<&mut Block>,
    fmt_param: Option<String>,
) -> Option<TokenStream> {
    attrs.clear();
    let entry: Option<&Entry> = cx.db.get("fn", key);
    let line = sig.ident.span().start().line;
    let mut info = FnInfo { key: key.into(), file: cx.file.clone(), line, contract: entry.map(|e| e.get("sig").is_some()).unwrap_or(false), ..Default::default() };
    if entry.is_some() {
        cx.used.push(("fn".into(), key.into()));
    }
    if let Some(b) = block.as_ref() {
        builder_bounds(cx, sig, b);
    }
    fix_sig_paths(cx, sig);
    sig.unsafety = None;
    sig.constness = None;
    let ext = cx.external.contains(key);
    let err = crate::tx::err_type(&sig.output);
    let orig_out: TokenStream = match &sig.output {
        ReturnType::Type(_, t) => quote!(#t),
        ReturnType::Default => quote!(()),
    };
    if let Some(e) = entry {
        for s in e.all("attr") {
            let t: TokenStream = s.text.trim().parse().expect("attr");
            attrs.push(Attribute { pound_token: Default::default(), style: AttrStyle::Outer, bracket_token: Default::default(), meta: parse2(t).expect("attr meta") });
            if s.text.contains("external_body") {
                info.external = true;
            }
        }
    }
    if ext {
        info.external = true;
        attrs.push(parse_quote!(#[verifier::external_body]));
    }
    let rename: Option<String> = None;
    let _ = rename;
    // named result
    if let Some(e) = entry {
        if let Some(r) = e.get("ret") {
            let n = format_ident!("{}", r.arg);
            if let ReturnType::Type(_, t) = &sig.output {
                let t = (**t).clone();
                sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((#n: #t)))));
            } else {
                sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((#n: ())))));
            }
        } else if e.get("sig").is_some() {
            if let ReturnType::Type(_, t) = &sig.output {
                let t = (**t).clone();
                sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((ret: #t)))));
            }
        }
    }
    let sec = entry.and_then(|e| e.get("sig")).cloned();
    let mut res = None;
    // `mut self`: the verifier wants an explicit local
    let mut own_self = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            own_self = true;
        }
    }
    let mut block = block;
    if own_self {
        cx.rule("mut-self");
        if let Some(b) = block.as_mut() {
            RenameSelf.visit_block_mut(b);
        }
    }
    match block {
        None => {
            if let Some(s) = sec {
                let n = cx.text(&s);
                let l = proc_macro2::Literal::usize_unsuffixed(n);
                res = Some(quote!(__v_text!(#l);));
            }
        }
        Some(b) => {
            if info.external {
                cx.rule("external-body");
                *b = parse_quote!({ unimplemented!() });
            } else {
                let (stmts, loops, closures, lits, used, lifted);
                info.shape = shape(b);
                {
                    let mut body = Body {
                        cx,
                        key: key.into(),
                        entry,
                        anchors: entry,
                        loops: 0,
                        closures: 0,
                        lits: vec![],
                        fmt_param,
                        pending: vec![],
                        used_anchors: vec![],
                        lifted: vec![],
                        tails: Default::default(),
                        err: err,
                    };
                    body.mark_tail_block(b);
                    body.visit_block_mut(b);
                    loops = body.loops;
                    closures = body.closures;
                    lits = std::mem::take(&mut body.lits);
                    used = std::mem::take(&mut body.used_anchors);
                    lifted = std::mem::take(&mut body.lifted);
                    stmts = std::mem::take(&mut b.stmts);
                }
                cx.lifted.extend(lifted);
                info.loops = loops;
                info.closures = closures;
                let mut out: Vec<Stmt> = vec![];
                if own_self {
                    out.push(parse_quote!(let mut __self = self;));
                }
                let mut ls: Vec<String> = lits;
                if let Some(e) = entry {
                    for s in e.all("reveal") {
                        ls.push(s.arg.clone());
                    }
                }
                ls.sort();
                ls.dedup();
                if !ls.is_empty() {
                    let t: String = ls.iter().map(|l| format!("reveal_strlit({:?});", l)).collect();
                    let n = cx.text_raw(format!("proof {{ {} }}", t));
                    out.push(cx.mark(n));
                }
                if let Some(e) = entry {
                    for s in e.all("start") {
                        let n = cx.text(s);
                        out.push(cx.mark(n));
                    }
                    // anchors that no longer exist
                    let mut lost = vec![];
                    for s in &e.sections {
                        let idx: Option<usize> = s.arg.parse().ok();
                        match s.name.as_str() {
                            "loop" | "loopstart" | "loopend" | "before" | "after" | "forstart" | "forend" | "fornone" => {
                                if idx.map(|i| i >= loops).unwrap_or(true) {
                                    lost.push(format!("{} {}", s.name, s.arg));
                                }
                            }
                            "closure" | "clparams" | "clstart" => {
                                if idx.map(|i| i >= closures).unwrap_or(true) {
                                    lost.push(format!("{} {}", s.name, s.arg));
                                }
                            }
                            "stmt" => {
                                if !used.contains(&s.arg) {
                                    lost.push(format!("{} {}", s.name, s.arg));
                                }
                            }
                            "loops" => {
                                if idx != Some(loops) {
                                    lost.push(format!("expected {} loops, found {}", s.arg, loops));
                                }
                            }
                            _ => {}
                        }
                    }
                    info.anchors_lost = lost.clone();
                    cx.lost.extend(lost.into_iter().map(|l| format!("{}: {}", key, l)));
                }
                out.extend(stmts);
                if let Some(e) = entry {
                    if let Some(s) = e.get("tail") {
                        // proof text evaluated after the body's value is known
                        let n = cx.text(s);
                        let m = cx.mark(n);
                        let inner = out;
                        out = vec![parse_quote!(let ret = { #(#inner)* };), m, Stmt::Expr(parse_quote!(ret), None)];
                    }
                }
                b.stmts = out;
            }
            // `@outline name [Type]`: the body is verified as a function of its own, the method of the
            // trait only stands for it (so that nothing depends on the order in which Verus takes the
            // definitions of an implementation)
            if let (Some(o), false) = (entry.and_then(|e| e.get("outline")).cloned(), info.external) {
                let mut w = o.arg.split_whitespace();
                if let Some(n) = w.next() {
                    let n = format_ident!("{}", n);
                    cx.rule("method-body-outlined");
                    let mut body = b.clone();
                    RenameSelf.visit_block_mut(&mut body);
                    let t = cx.text(&o);
                    let pm = cx.premark(t);
                    body.stmts.insert(0, pm);
                    let mut s2 = sig.clone();
                    NoLifetimes.visit_signature_mut(&mut s2);
                    let mut ins: Vec<FnArg> = s2.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).cloned().collect();
                    if ins.len() < s2.inputs.len() {
                        let t = format_ident!("{}", w.next().unwrap_or("Self"));
                        ins.insert(0, parse_quote!(__self: &#t));
                    }
                    let res = orig_out.clone();
                    let f = quote!(pub fn #n(#(#ins),*) -> (ret: #res) #body);
                    cx.lifted.push((key.to_string(), f));
                    attrs.push(parse_quote!(#[verifier::external_body]));
                    *b = parse_quote!({ unimplemented!() });
                }
            }
            if let Some(s) = sec {
                let n = cx.text(&s);
                let pm = cx.premark(n);
                b.stmts.insert(0, pm);
            }
        }
    }
    cx.fns.push(info);
    res
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = a.to_token_stream().to_string();
            let s = s.split('(').nth(1).unwrap_or("").split(')').next().unwrap_or("").to_string();
            v.extend(s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()));
        }
    }
    v
}

pub fn type_item_attrs(attrs: &mut Vec<Attribute>, ds: &[String]) {
    attrs.clear();
    if ds.iter().any(|d| d == "Copy") {
        attrs.push(parse_quote!(#[derive(Clone, Copy)]));
    }
}

pub fn clone_impl(name: &Ident, g: &Generics) -> TokenStream {
    let (ig, tg, wc) = g.split_for_impl();
    let tps: Vec<_> = g.type_params().map(|t| t.ident.clone()).collect();
    let mut preds: Vec<TokenStream> = tps.iter().map(|t| quote!(#t: Clone)).collect();
    if let Some(w) = wc {
        preds.extend(w.predicates.iter().map(|p| quote!(#p)));
    }
    let w = if preds.is_empty() { quote!() } else { quote!(where #(#preds),*) };
    quote!(impl #ig Clone for #name #tg #w {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    })
}

pub fn pubf(f: &mut Fields) {
    for f in f.iter_mut() {
        f.attrs.clear();
        if f.vis != Visibility::Public(Default::default()) {
            f.vis = parse_quote!(pub);
        }
    }
}

pub fn _unused() {
    let _ = span_range::<Expr>;
}
