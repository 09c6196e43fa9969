//! extract SRC_DIR TYPES.jsonl SPEC_DIR OUT.rs REPORT.json [--external key]...
mod emit;
mod items;
mod spec;
mod tx;
mod types;

use emit::{Origin, Out};
use items::*;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;
use tx::Cx;

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let a = norm(s.arguments.to_token_stream());
            if p.path.segments.len() == 1 || true {
                let _ = a;
            }
            s.ident.to_string()
        }
        t => norm(t.to_token_stream()),
    }
}

struct Ex<'a> {
    cx: Cx<'a>,
    out: Out,
    root: String,
    error_types: BTreeSet<String>,
    macros: BTreeMap<String, (String, TokenStream)>,
    dropped: Vec<String>,
    skipped: Vec<String>,
    selected: Option<BTreeSet<String>>,
    /// modules of which only types and functions with an entry are taken
    lazy: BTreeSet<String>,
}

impl<'a> Ex<'a> {
    fn toks(&mut self, t: TokenStream) {
        let file = self.cx.file.clone();
        let texts = std::mem::take(&mut self.cx.texts);
        self.out.tokens(t, &file, &texts);
        self.out.newline();
        self.cx.texts = texts;
    }
    fn module(&mut self, path: &[String], file: &str) {
        let full = format!("{}/{}", self.root, file);
        let src = std::fs::read_to_string(&full).unwrap_or_else(|e| panic!("{}: {}", full, e));
        let ast = match parse_file(&src) {
            Ok(a) => a,
            Err(e) => {
                eprintln!("{}: {}", full, e);
                std::process::exit(3)
            }
        };
        let old = std::mem::replace(&mut self.cx.file, format!("src/{}", file));
        self.items(path, ast.items, file);
        self.cx.file = old;
    }
    fn items(&mut self, path: &[String], mut its: Vec<Item>, file: &str) {
        let mp = path.join("::");
        // Verus orders what it proves by the order of the items: the module others build on goes first
        if path.is_empty() {
            its.sort_by_key(|i| if let Item::Mod(m) = i { (m.ident != "text") as usize } else { 0 });
        }
        if !path.is_empty() {
            self.out.line("#[allow(unused_imports)] use vstd::prelude::*;");
            self.out.line("#[allow(unused_imports)] use crate::shim::ext::*;");
            self.out.line("#[allow(unused_imports)] use crate::theory::*;");
            self.out.line("#[allow(unused_imports)] use crate::markup::*;");
            let db = self.cx.db;
            for ((k, key), e) in &db.entries {
                if let (true, Some(n), Some((m, _))) = (k == "trait", e.get("split"), key.rsplit_once("::")) {
                    if m != mp && self.selected.as_ref().map(|s| s.contains(m)).unwrap_or(true) {
                        self.out.line(&format!("#[allow(unused_imports)] use crate::{}::{} as _;", m, n.arg));
                    }
                }
            }
            self.out.line("verus! {");
        }
        // submodules after the verus block
        let mut subs = vec![];
        for i in &its {
            if let Item::Impl(im) = i {
                if let Some((_, p, _)) = &im.trait_ {
                    if norm(p.to_token_stream()) == "error::Error" {
                        self.error_types.insert(format!("{}::{}", mp, ty_name(&im.self_ty)));
                    }
                }
            }
        }
        for i in its {
            match i {
                Item::Mod(m) => {
                    if !is_test(&m.attrs) {
                        subs.push(m);
                    }
                }
                i if !path.is_empty() => self.item(path, i),
                _ => {}
            }
        }
        if !path.is_empty() {
            if let Some(e) = self.cx.db.get("mod", &mp) {
                self.cx.used.push(("mod".into(), mp.clone()));
                for s in e.all("body").cloned().collect::<Vec<_>>() {
                    let n = self.cx.text(&s);
                    self.out.owner = format!("mod {}", mp);
                    let t = self.cx.texts[n].clone();
                    self.out.raw(&t);
                    self.out.owner.clear();
                }
            }
            self.out.line("}");
        }
        for m in subs {
            let name = m.ident.to_string();
            let mut p = path.to_vec();
            p.push(name.clone());
            let key = p.join("::");
            if let Some(s) = &self.selected {
                if !s.contains(&key) {
                    continue;
                }
            }
            self.out.line(&format!("pub mod {} {{", name));
            if let Some((_, its)) = m.content {
                self.items(&p, its, file);
            } else {
                let a = format!("{}.rs", p.join("/"));
                let b = format!("{}/mod.rs", p.join("/"));
                let f = if std::path::Path::new(&format!("{}/{}", self.root, a)).exists() { a } else { b };
                self.module(&p, &f);
            }
            self.out.line("}");
        }
    }
    fn item(&mut self, path: &[String], i: Item) {
        let mp = path.join("::");
        match i {
            Item::ExternCrate(_) => {}
            Item::Use(mut u) => {
                if is_test(&u.attrs) || drop_use(&u) || self.absent(&u) {
                    return;
                }
                u.attrs.clear();
                fix_use(&mut self.cx, &mut u);
                self.toks(quote!(#[allow(unused_imports)] #u));
            }
            Item::Struct(mut s) => {
                if is_test(&s.attrs) {
                    return;
                }
                let ds = derives(&s.attrs);
                type_item_attrs(&mut s.attrs, &ds);
                s.vis = parse_quote!(pub);
                pubf(&mut s.fields);
                for f in s.fields.iter_mut() {
                    fix_type(&mut self.cx, &mut f.ty);
                }
                fix_generics(&mut self.cx, &mut s.generics);
                let key = format!("{}::{}", mp, s.ident);
                self.type_attrs(&key, &mut s.attrs, &s.generics);
                let c = if ds.iter().any(|d| d == "Clone") && !ds.iter().any(|d| d == "Copy") { Some(clone_impl(&s.ident, &s.generics)) } else { None };
                self.toks(quote!(#s));
                if let Some(c) = c {
                    self.cx.trusted.push(format!("{}::clone (derived)", key));
                    self.toks(c);
                }
            }
            Item::Enum(mut s) => {
                if is_test(&s.attrs) {
                    return;
                }
                let ds = derives(&s.attrs);
                type_item_attrs(&mut s.attrs, &ds);
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        fix_type(&mut self.cx, &mut f.ty);
                    }
                }
                fix_generics(&mut self.cx, &mut s.generics);
                let key = format!("{}::{}", mp, s.ident);
                self.type_attrs(&key, &mut s.attrs, &s.generics);
                let c = if ds.iter().any(|d| d == "Clone") && !ds.iter().any(|d| d == "Copy") { Some(clone_impl(&s.ident, &s.generics)) } else { None };
                self.toks(quote!(#s));
                if let Some(c) = c {
                    self.cx.trusted.push(format!("{}::clone (derived)", key));
                    self.toks(c);
                }
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                fix_type(&mut self.cx, &mut t.ty);
                fix_generics(&mut self.cx, &mut t.generics);
                self.toks(quote!(#t));
            }
            Item::Const(c) => {
                let t = const_item(&mut self.cx, &c);
                self.toks(t);
            }
            Item::Fn(mut f) => {
                if is_test(&f.attrs) {
                    return;
                }
                let key = format!("{}::{}", mp, f.sig.ident);
                if self.drop(&key) || self.skip(&mp, &key) {
                    return;
                }
                self.out.owner = key.clone();
                do_fn(&mut self.cx, &key, &mut f.attrs, &mut f.sig, Some(&mut f.block), None);
                f.vis = parse_quote!(pub);
                self.toks(quote!(#f));
                self.lifted();
                self.out.owner.clear();
            }
            Item::Trait(mut t) => {
                let key = format!("{}::{}", mp, t.ident);
                if self.drop(&key) {
                    return;
                }
                if self.lazy.contains(&mp) && self.cx.db.get("trait", &key).is_none() {
                    self.skipped.push(key);
                    return;
                }
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                fix_generics(&mut self.cx, &mut t.generics);
                let extra = self.extra("trait", &key);
                let (id, g, sup, wc) = (&t.ident, &t.generics, &t.supertraits, &t.generics.where_clause);
                let colon = if sup.is_empty() { quote!() } else { quote!(: #sup) };
                let head = quote!(pub trait #id #g #colon #wc);
                self.toks(head);
                self.out.line("{");
                if let Some(x) = extra {
                    self.toks(x);
                }
                // `@split <Name>`: methods with a body go to a trait implemented for every type, so
                // that their contracts may be stated with the trait's own specification functions
                let split = self.cx.db.get("trait", &key).and_then(|e| e.get("split")).map(|s| format_ident!("{}", s.arg));
                let mut defaults = vec![];
                for it in t.items.iter_mut() {
                    match it {
                        TraitItem::Fn(f) if split.is_some() && f.default.is_some() && !is_test(&f.attrs) => defaults.push(f.clone()),
                        TraitItem::Fn(f) => {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            let k = format!("{}::{}", key, f.sig.ident);
                            self.out.owner = k.clone();
                            let m = do_fn(&mut self.cx, &k, &mut f.attrs, &mut f.sig, f.default.as_mut(), None);
                            let (a, s) = (&f.attrs, &f.sig);
                            match &f.default {
                                Some(b) => {
                                    let t = quote!(#(#a)* #s #b);
                                    self.toks(t)
                                }
                                None => {
                                    let m = m.unwrap_or_default();
                                    let t = quote!(#(#a)* #s #m ;);
                                    self.toks(t)
                                }
                            }
                            self.out.owner.clear();
                        }
                        TraitItem::Type(t) => {
                            t.attrs.clear();
                            for b in t.bounds.iter_mut() {
                                syn::visit_mut::visit_type_param_bound_mut(&mut P(&mut self.cx), b);
                            }
                            let t = quote!(#t);
                            self.toks(t)
                        }
                        o => {
                            let t = quote!(#o);
                            self.toks(t)
                        }
                    }
                }
                self.out.line("}");
                if let Some(n) = split {
                    self.split(&key, &t.ident, &n, defaults);
                }
            }
            Item::Impl(im) => self.imp(path, im),
            Item::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "macro_rules" {
                    let id = m.ident.as_ref().unwrap().to_string();
                    // ($name:ty) => { body }
                    let v: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let (Some(proc_macro2::TokenTree::Group(p)), Some(proc_macro2::TokenTree::Group(b))) = (v.first(), v.get(3)) {
                        let ps = p.stream().to_string().replace(' ', "");
                        if let Some(r) = ps.strip_prefix('$') {
                            let var = r.split(':').next().unwrap().to_string();
                            self.macros.insert(format!("{}::{}", mp, id), (var, b.stream()));
                            return;
                        }
                    }
                    self.cx.unsupported.push(format!("macro_rules {}::{}", mp, id));
                } else if let Some((var, body)) = self.macros.get(&format!("{}::{}", mp, n)).cloned() {
                    self.cx.rule("macro-expand");
                    let t = subst(body, &var, &m.mac.tokens);
                    match parse2::<syn::File>(t) {
                        Ok(f) => {
                            for i in f.items {
                                self.item(path, i)
                            }
                        }
                        Err(e) => self.cx.unsupported.push(format!("macro {}::{}: {}", mp, n, e)),
                    }
                } else {
                    self.cx.unsupported.push(format!("macro {}::{}", mp, n));
                }
            }
            o => self.cx.unsupported.push(format!("item in {}: {}", mp, norm(o.to_token_stream()).chars().take(60).collect::<String>())),
        }
    }
    fn split(&mut self, key: &str, id: &Ident, n: &Ident, defaults: Vec<TraitItemFn>) {
        self.cx.rule("default-methods-to-extension-trait");
        self.toks(quote!(pub trait #n: #id));
        self.out.line("{");
        for f in &defaults {
            let mut f = f.clone();
            let k = format!("{}::{}", key, f.sig.ident);
            let (nf, na) = (self.cx.fns.len(), self.cx.lost.len());
            let m = do_fn(&mut self.cx, &k, &mut vec![], &mut f.sig, None, None).unwrap_or_default();
            self.cx.fns.truncate(nf);
            self.cx.lost.truncate(na);
            self.out.owner = k;
            let s = &f.sig;
            self.toks(quote!(#s #m ;));
            self.out.owner.clear();
        }
        self.out.line("}");
        self.toks(quote!(impl<__S: #id + ?Sized> #n for __S));
        self.out.line("{");
        for mut f in defaults {
            let k = format!("{}::{}", key, f.sig.ident);
            do_fn(&mut self.cx, &k, &mut f.attrs, &mut f.sig, f.default.as_mut(), None);
            self.out.owner = k;
            let (a, s, b) = (&f.attrs, &f.sig, &f.default);
            self.toks(quote!(#(#a)* #s #b));
            self.out.owner.clear();
        }
        self.out.line("}");
        self.lifted();
    }
    fn lifted(&mut self) {
        let l = std::mem::take(&mut self.cx.lifted);
        for (key, t) in l {
            let o = std::mem::replace(&mut self.out.owner, key);
            self.toks(t);
            self.out.owner = o;
        }
    }
    fn type_attrs(&mut self, key: &str, attrs: &mut Vec<Attribute>, g: &Generics) {
        for t in g.type_params() {
            let t = &t.ident;
            attrs.push(parse_quote!(#[verifier::reject_recursive_types(#t)]));
        }
        if let Some(e) = self.cx.db.get("type", key) {
            self.cx.used.push(("type".into(), key.into()));
            for s in e.all("attr") {
                let t: TokenStream = s.text.trim().parse().expect("attr");
                attrs.push(parse_quote!(#[#t]));
            }
        }
    }
    /// `use` of a crate module that is not extracted
    fn absent(&self, u: &ItemUse) -> bool {
        let first = match &u.tree {
            UseTree::Path(p) => p.ident.to_string(),
            UseTree::Name(n) => n.ident.to_string(),
            _ => return false,
        };
        u.leading_colon.is_none() && self.cx.crate_mods.contains(&first) && self.selected.as_ref().map(|s| !s.contains(&first)).unwrap_or(false)
    }
    /// in a module taken only in part: no entry for the function
    fn skip(&mut self, mp: &str, key: &str) -> bool {
        let s = self.lazy.contains(mp) && self.cx.db.get("fn", key).is_none();
        if s {
            self.skipped.push(key.to_string());
        }
        s
    }
    fn drop(&mut self, key: &str) -> bool {
        if let Some(e) = self.cx.db.get("drop", key) {
            self.cx.used.push(("drop".into(), key.into()));
            self.dropped.push(format!("{}: {}", key, e.sections[0].text.trim()));
            return true;
        }
        false
    }
    fn extra(&mut self, kind: &str, key: &str) -> Option<TokenStream> {
        let e = self.cx.db.get(kind, key)?;
        self.cx.used.push((kind.into(), key.into()));
        let s = e.sections[0].clone();
        let n = self.cx.text(&s);
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        Some(quote!(__v_text!(#l);))
    }
    /// `@@ mono <module>`: a type parameter with a single instance in the crate is replaced by it.
    fn mono(&mut self, mp: &str, im: &mut ItemImpl) {
        let e = match self.cx.db.get("mono", mp) {
            Some(e) => e,
            None => return,
        };
        self.cx.used.push(("mono".into(), mp.into()));
        for l in e.sections[0].text.lines().filter(|l| !l.trim().is_empty()) {
            let (var, ty) = l.trim().split_once(' ').expect("mono");
            if !im.generics.type_params().any(|t| t.ident == var) {
                continue;
            }
            self.cx.rule("instantiate-type-parameter");
            let with: Path = syn::parse_str(ty.trim()).expect("mono path");
            let ps: Vec<GenericParam> = im.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == var)).cloned().collect();
            im.generics.params = ps.into_iter().collect();
            if let Some(w) = &mut im.generics.where_clause {
                let ps: Vec<WherePredicate> = w
                    .predicates
                    .iter()
                    .filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounded_ty.to_token_stream().to_string() == var))
                    .cloned()
                    .collect();
                w.predicates = ps.into_iter().collect();
                if w.predicates.is_empty() {
                    im.generics.where_clause = None;
                }
            }
            struct S(String, Path);
            impl syn::visit_mut::VisitMut for S {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    syn::visit_mut::visit_path_mut(self, p);
                    if p.leading_colon.is_none() && p.segments[0].ident == self.0 {
                        let mut q = self.1.clone();
                        for s in p.segments.iter().skip(1) {
                            q.segments.push(s.clone());
                        }
                        *p = q;
                    }
                }
            }
            syn::visit_mut::VisitMut::visit_item_impl_mut(&mut S(var.to_string(), with.clone()), im);
            self.cx.mono = Some((var.to_string(), with));
        }
    }
    fn imp(&mut self, path: &[String], mut im: ItemImpl) {
        let mp = path.join("::");
        if is_test(&im.attrs) {
            return;
        }
        im.attrs.clear();
        self.mono(&mp, &mut im);
        let tn = ty_name(&im.self_ty);
        let mut is_display = false;
        let key = match &im.trait_ {
            None => format!("{}::{}", mp, tn),
            Some((_, p, _)) => {
                let tr = norm(p.segments.last().unwrap().to_token_stream());
                let full = norm(p.to_token_stream());
                if full == "error::Error" {
                    self.dropped.push(format!("{}: impl error::Error", mp));
                    return;
                }
                if full == "fmt::Display" {
                    is_display = true;
                    if self.error_types.contains(&format!("{}::{}", mp, tn)) {
                        self.dropped.push(format!("{}: Display of error type {}", mp, tn));
                        return;
                    }
                }
                let tn = match &*im.self_ty {
                    Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => norm(p.to_token_stream()),
                    Type::Path(p) if self.cx.crate_mods.iter().any(|m| p.path.segments[0].ident == m) || p.path.segments.len() == 1 => p.path.segments.last().unwrap().ident.to_string(),
                    t => norm(t.to_token_stream()),
                };
                format!("{}::<{} for {}>", mp, tr, tn)
            }
        };
        if self.drop(&key) {
            return;
        }
        if self.lazy.contains(&mp) {
            let named = |it: &ImplItem| matches!(it, ImplItem::Fn(f) if self.cx.db.get("fn", &format!("{}::{}", key, f.sig.ident)).is_some());
            if self.cx.db.get("impl", &key).is_none() && !im.items.iter().any(named) {
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if !is_test(&f.attrs) {
                            self.skipped.push(format!("{}::{}", key, f.sig.ident));
                        }
                    }
                }
                return;
            }
        }
        fix_generics(&mut self.cx, &mut im.generics);
        fix_type(&mut self.cx, &mut im.self_ty);
        if let Some((_, p, _)) = im.trait_.as_mut() {
            syn::visit_mut::visit_path_mut(&mut P(&mut self.cx), p);
            let mut q = p.clone();
            syn::visit_mut::VisitMut::visit_path_mut(&mut PS(&mut self.cx), &mut q);
            *p = q;
        }
        let extra = self.extra("impl", &key);
        let (g, st, wc) = (&im.generics, &im.self_ty, &im.generics.where_clause);
        let tr = match &im.trait_ {
            Some((_, p, _)) => quote!(#p for),
            None => quote!(),
        };
        // generics without their where clause
        let (ig, _, _) = g.split_for_impl();
        let head = quote!(impl #ig #tr #st #wc);
        self.toks(head);
        self.out.line("{");
        if let Some(x) = extra {
            self.toks(x);
        }
        let inherent = im.trait_.is_none();
        let mut lifted = vec![];
        for it in im.items.into_iter() {
            match it {
                ImplItem::Fn(mut f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let k = format!("{}::{}", key, f.sig.ident);
                    if self.drop(&k) || (inherent && self.skip(&mp, &k)) {
                        continue;
                    }
                    self.out.owner = k.clone();
                    let fp = if is_display { Some(fmt_name(&f.sig)) } else { None };
                    do_fn(&mut self.cx, &k, &mut f.attrs, &mut f.sig, Some(&mut f.block), fp);
                    f.vis = if inherent { parse_quote!(pub) } else { Visibility::Inherited };
                    self.toks(quote!(#f));
                    lifted.extend(std::mem::take(&mut self.cx.lifted));
                    self.out.owner.clear();
                }
                ImplItem::Type(mut t) => {
                    t.attrs.clear();
                    fix_type(&mut self.cx, &mut t.ty);
                    self.toks(quote!(#t));
                }
                o => self.toks(quote!(#o)),
            }
        }
        self.out.line("}");
        self.cx.mono = None;
        self.cx.lifted = lifted;
        self.lifted();
    }
}

fn fmt_name(s: &Signature) -> String {
    for a in &s.inputs {
        if let FnArg::Typed(t) = a {
            return norm(t.pat.to_token_stream());
        }
    }
    String::new()
}

struct P<'a, 'c>(&'c mut Cx<'a>);
impl<'a, 'c> syn::visit_mut::VisitMut for P<'a, 'c> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        tx::fix_path(self.0, p);
        syn::visit_mut::visit_path_mut(self, p);
    }
}
struct PS<'a, 'c>(&'c mut Cx<'a>);
impl<'a, 'c> syn::visit_mut::VisitMut for PS<'a, 'c> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("Iterator") {
            self.0.rule("iterator-trait");
            *p = parse_quote!(crate::shim::ext::VIter);
        }
    }
}

fn subst(ts: TokenStream, var: &str, with: &TokenStream) -> TokenStream {
    let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    let mut o = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(proc_macro2::TokenTree::Ident(id)) = v.get(i + 1) {
                    if id == var {
                        o.extend(with.clone());
                        i += 2;
                        continue;
                    }
                }
                o.extend([v[i].clone()]);
            }
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, with));
                n.set_span(g.span());
                o.extend([proc_macro2::TokenTree::Group(n)]);
            }
            t => o.extend([t.clone()]),
        }
        i += 1;
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, types, specs, outp, rep) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut external = BTreeSet::new();
    let mut lazy = BTreeSet::new();
    let mut selected: Option<BTreeSet<String>> = None;
    let mut i = 6;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--external" => {
                external.insert(a[i + 1].clone());
            }
            "--mods" => {
                let mut s = BTreeSet::new();
                for m in a[i + 1].split(',') {
                    let m = match m.strip_suffix('?') {
                        Some(m) => {
                            lazy.insert(m.to_string());
                            m
                        }
                        None => m,
                    };
                    let ps: Vec<&str> = m.split("::").collect();
                    for k in 1..=ps.len() {
                        s.insert(ps[..k].join("::"));
                    }
                }
                selected = Some(s);
            }
            _ => {}
        }
        i += 2;
    }
    let types = types::Types::load(types);
    let db = spec::Db::load(specs);
    let lib = parse_file(&std::fs::read_to_string(format!("{}/lib.rs", src)).unwrap()).unwrap();
    let mods: Vec<String> = lib.items.iter().filter_map(|i| if let Item::Mod(m) = i { Some(m.ident.to_string()) } else { None }).collect();
    let mut ex = Ex {
        cx: Cx {
            types: &types,
            db: &db,
            texts: vec![],
            rules: Default::default(),
            lost: vec![],
            unsupported: vec![],
            crate_mods: mods,
            file: String::new(),
            fresh: 0,
            used: vec![],
            external,
            fns: vec![],
            trusted: vec![],
            lifted: vec![],
            hofs: Default::default(),
            mono: None,
            traits: Default::default(),
        },
        out: Out::new(),
        root: src.clone(),
        error_types: BTreeSet::new(),
        macros: BTreeMap::new(),
        dropped: vec![],
        skipped: vec![],
        selected,
        lazy,
    };
    tx::load_hofs(&mut ex.cx, src);
    tx::load_traits(&mut ex.cx, src, "lib");
    ex.out.line("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, unused_labels, unreachable_code)]");
    ex.out.line("use vstd::prelude::*;");
    for f in ["shim.rs", "theory.rs", "markup.rs", "reparse.rs", "verbatim.rs"] {
        let p = format!("{}/{}", specs, f);
        let t = std::fs::read_to_string(&p).unwrap();
        ex.out.owner = f.into();
        ex.out.raw(&emit::Text { text: t, file: f.into(), line: 1 });
        ex.out.owner.clear();
    }
    ex.module(&[], "lib.rs");
    ex.out.line("fn main() {}");
    ex.out.newline();
    std::fs::write(outp, &ex.out.text).unwrap();
    let used: BTreeSet<_> = ex.cx.used.iter().cloned().collect();
    let unused: Vec<String> = db
        .entries
        .keys()
        .filter(|k| !used.contains(*k))
        .filter(|k| match &ex.selected {
            None => true,
            Some(s) => s.iter().any(|m| k.1.starts_with(&format!("{}::", m)) && !db.entries.is_empty() && {
                // the entry's module is selected: longest module prefix
                let rest = &k.1[m.len() + 2..];
                let head = rest.split("::").next().unwrap();
                !std::path::Path::new(&format!("{}/{}/{}.rs", src, m.replace("::", "/"), head)).exists()
            }),
        })
        .map(|k| format!("{} {}", k.0, k.1))
        .collect();
    let lines: Vec<serde_json::Value> = ex
        .out
        .map
        .iter()
        .map(|(o, w)| match o {
            Origin::None => serde_json::json!([w]),
            Origin::Src { file, line } => serde_json::json!([w, file, line]),
            Origin::Spec { file, line } => serde_json::json!([w, format!("specs/{}", file), line]),
        })
        .collect();
    let fns: Vec<serde_json::Value> = ex
        .cx
        .fns
        .iter()
        .map(|f| {
            serde_json::json!({"key": f.key, "file": f.file, "line": f.line, "contract": f.contract, "external": f.external,
                "loops": f.loops, "closures": f.closures, "shape": f.shape, "lost": f.anchors_lost})
        })
        .collect();
    let r = serde_json::json!({
        "rules": ex.cx.rules, "lost": ex.cx.lost, "unsupported": ex.cx.unsupported, "dropped": ex.dropped, "skipped": ex.skipped,
        "unused_specs": unused, "functions": fns, "trusted_clones": ex.cx.trusted, "lines": lines,
    });
    std::fs::write(rep, serde_json::to_string(&r).unwrap()).unwrap();
    eprintln!("functions {} lost {} unsupported {} unused {}", ex.cx.fns.len(), ex.cx.lost.len(), ex.cx.unsupported.len(), unused.len());
}
