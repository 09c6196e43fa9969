//! Random transform programs: generation, execution against the library, evaluation on the model.
use crate::model::*;
use crate::refparse::{self, id_check, name_eq, Attr, Ev};
use crate::rng::Rng;
use html5_fuser::event::{self, IntoStream, StreamError};
use html5_fuser::select::{self, IntoSelector, Selector};
use html5_fuser::text;
use html5_fuser::{BoxedApi, BoxedElementApi, ParseOptions, Template};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// When an `apply_if` applies: always the same, or depending on the current item.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond { Const(bool), ItemOdd, ItemEven }

impl Cond {
    fn eval(&self, ctx: &Ctx) -> bool {
        let odd = || ctx.item().bytes().next().map_or(0, |b| b) % 2 == 1;
        match *self { Cond::Const(b) => b, Cond::ItemOdd => odd(), Cond::ItemEven => !odd() }
    }
}

/// Literals of the library's source that the committed baseline of literals does not have.
#[derive(Default, Debug)]
pub struct Dict { pub words: Vec<String>, pub names: Vec<String>, pub ints: Vec<usize> }

static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

pub fn set_dict(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(n) = l.strip_prefix("i ") { d.ints.extend(n.parse::<usize>().ok().filter(|n| *n > 1 && *n < 100_000)); }
        if let Some(h) = l.strip_prefix("s ") {
            let cs: String = h.split(' ').filter_map(|x| u32::from_str_radix(x, 16).ok().and_then(char::from_u32)).collect();
            for w in cs.split(|c: char| c.is_whitespace() || c == ',').map(String::from).chain(Some(cs.clone())) {
                if w.is_empty() || w.len() > 40 { continue; }
                if id_check(&w).is_ok() && !w.contains('\'') && !w.starts_with('!') { d.names.push(w.clone()); d.names.push(w.to_ascii_uppercase()); }
                d.words.push(w);
            }
        }
    }
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }

/// `pick`, now and then from the new literals of the library's source
pub fn dpick(r: &mut Rng, xs: &[&str], names: bool) -> String {
    let d = if names { &dict().names } else { &dict().words };
    if !d.is_empty() && r.chance(1, 4) { return r.pick(d).clone(); }
    r.pick(xs).to_string()
}

/// a size near one of the new integer literals, or one of the given ones
pub fn dsize(r: &mut Rng, xs: &[usize], max: usize) -> usize {
    let d: Vec<usize> = dict().ints.iter().cloned().filter(|n| *n <= max).collect();
    if !d.is_empty() && r.chance(1, 2) { return (*r.pick(&d) + r.below(4)).saturating_sub(1); }
    *r.pick(xs)
}

#[derive(Clone, Debug)]
pub enum Sel { Str(String), Id(String), Tag(String), Class(String), Classes(Vec<String>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Any, Once, Direct, DirectOnce }

#[derive(Clone, Debug)]
pub enum C {
    Static(String), Data(String), DataRef(String), Value(String), ValueRef(String), Item, Int(i64),
    Tpl(String), TplRc(String), TplRef(String), TplErr(String), OkStr(String), Fails(usize, String),
    Element(String), WithTransformed(String, Rc<EProg>), Transformed(String, Rc<SProg>),
}

pub type SProg = Vec<SOp>;

#[derive(Clone, Debug)]
pub enum SOp {
    Select(Mode, Sel, Rc<EProg>),
    Remove,
    Prepend(C), Append(C), Replace(C),
    Repeat(Vec<String>, Rc<SProg>),
    RepeatOrElse(Vec<String>, Rc<SProg>, Rc<SProg>),
    ApplyIf(Cond, Rc<SProg>),
    ApplyIfElse(Cond, Rc<SProg>, Rc<SProg>),
    WithOption(Option<String>, Rc<SProg>, Rc<SProg>),
    WithResult(Result<String, String>, Rc<SProg>, Rc<SProg>),
    Apply(Rc<SProg>), AsBoxed(Rc<SProg>),
    AsTemplate(Rc<SProg>),
    AsTemplateErr(String),
}

#[derive(Clone, Debug)]
pub enum EOp {
    Count(usize),
    SetAttr(String, Option<String>), SetEmpty(String), SetVal(String, String),
    AddAttr(String, Option<String>), AddEmpty(String), AddVal(String, String),
    AddTo(String, String, String), ReplaceIf(String, String), RemoveAttr(String),
    AddClass(String), RemoveClass(String), SetId(String), RemoveId,
    SetItem(String),
    SubContents(Rc<SProg>),
    Sub(Mode, Sel, Rc<EProg>),
    RemoveContents, PrependContents(C), AppendContents(C), ReplaceContents(C),
    RepeatContents(Vec<String>, Rc<SProg>),
    ApplyIf(Cond, Rc<Vec<EOp>>),
    Apply(Rc<Vec<EOp>>), AsBoxed(Rc<Vec<EOp>>),
}

#[derive(Clone, Debug)]
pub enum Term {
    None,
    Repeat(Vec<String>, Rc<EProg>),
    RepeatOrElse(Vec<String>, Rc<EProg>, Rc<EProg>),
    ContentsOrElse(Vec<String>, Rc<SProg>, Rc<EProg>),
}

#[derive(Clone, Debug)]
pub struct EProg { pub ops: Vec<EOp>, pub term: Term, pub tail: SProg }

#[derive(Clone, Default)]
pub struct Ctx { pub item: Option<String>, pub counters: Rc<RefCell<HashMap<usize, usize>>> }

impl Ctx {
    fn with(&self, item: &str) -> Ctx { Ctx { item: Some(item.to_string()), counters: self.counters.clone() } }
    fn count(&self, id: usize) -> usize {
        let mut m = self.counters.borrow_mut();
        let e = m.entry(id).or_insert(0);
        *e += 1;
        *e
    }
    fn item(&self) -> String { self.item.clone().unwrap_or_else(|| "none".into()) }
}

thread_local!(static LEAKED: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));

pub fn leak(s: &str) -> &'static str {
    LEAKED.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(x) = l.get(s) { return *x; }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        l.insert(s.to_string(), x);
        x
    })
}

// ---------------------------------------------------------------- real execution

thread_local!(static POSSIBLE: RefCell<std::collections::HashSet<String>> = RefCell::new(Default::default()));
thread_local!(static SHARED: RefCell<HashMap<String, Rc<Template>>> = RefCell::new(HashMap::new()));
thread_local!(static VALUES: RefCell<HashMap<String, text::Value>> = RefCell::new(HashMap::new()));
thread_local!(static IDENTS: RefCell<HashMap<String, text::Identifier>> = RefCell::new(HashMap::new()));
/// forget what one run shares
pub fn fresh() {
    POSSIBLE.with(|p| p.borrow_mut().clear());
    SHARED.with(|p| p.borrow_mut().clear());
    VALUES.with(|p| p.borrow_mut().clear());
    IDENTS.with(|p| p.borrow_mut().clear());
}
/// whether something handed to the library in this run is wrong in this way
pub fn possible(d: &str) -> bool { POSSIBLE.with(|p| p.borrow().contains(d)) }
pub fn possibilities() -> String { POSSIBLE.with(|p| format!("{:?}", p.borrow())) }
fn may(d: String) { POSSIBLE.with(|p| { p.borrow_mut().insert(d); }) }
fn may_ident(s: &str) { if let Err(e) = id_check(s) { may(format!("identifier {:?}", e)); } }
fn may_parse(s: &str) { if let Err(e) = refparse::parse(s, &refparse::Opts { depth: None, len: None }) { may(format!("input {:?}", e)); } }
/// a name written into the program
fn nm(s: &str) -> &'static str { may_ident(s); leak(s) }

/// The items as an iterator whose length hint is exact, absent or a bound, and which may yield
/// again after its end: what is repeated is what it yields up to its first `None`.
pub struct Items { v: Vec<String>, at: usize, kind: usize }

impl Items {
    fn new(v: &[String]) -> Items { Items { v: v.to_vec(), at: 0, kind: KIND.with(|k| { k.set(k.get() + 1); k.get() }) } }
}

impl Iterator for Items {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let i = self.at;
        self.at += 1;
        if i < self.v.len() { return Some(self.v[i].clone()); }
        if i > self.v.len() && i < self.v.len() + 3 && self.kind % 2 == 0 { return Some("after the end".into()); }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len().saturating_sub(self.at);
        match self.kind % 5 { 0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(n + 3)), 3 => (n, None), _ => (0, Some(n)) }
    }
}

/// The events of a template up to some point, then an error.
struct Failing { inner: Box<dyn event::Stream>, left: usize }

impl event::Stream for Failing {
    fn next_event(&mut self) -> Result<Option<event::Event>, StreamError> {
        if self.left == 0 { return Err(ident("a b").err().unwrap().into()); }
        self.left -= 1;
        match self.inner.next_event()? { Some(e) => Ok(Some(e)), None => { self.left = 0; self.next_event() } }
    }
}

pub struct DynSel(Box<dyn Selector>);
impl Selector for DynSel { fn matches(&self, e: &event::Event) -> bool { self.0.matches(e) } }

fn boxsel<S: Selector + 'static, E: Into<StreamError>>(r: Result<S, E>) -> Result<DynSel, StreamError> {
    r.map(|s| DynSel(Box::new(s))).map_err(Into::into)
}

/// matches by way of a reference
struct ByRef<T>(T);
impl<T: select::Selector> select::Selector for ByRef<T> {
    fn matches(&self, event: &event::Event) -> bool { <&T as select::Selector>::matches(&&self.0, event) }
}

pub fn mk_sel(s: &Sel) -> Result<DynSel, StreamError> {
    let bad = |k: &str, s: &str| if let Err(e) = id_check(s) { may(format!("selector {} {:?}", k, e)); };
    match s {
        Sel::Str(s) => if let Err(e) = static_sel(s) { may(format!("static {}", e)); },
        Sel::Id(s) => bad("id", s), Sel::Tag(s) => bad("tag", s), Sel::Class(s) => bad("class", s),
        Sel::Classes(v) => { if v.is_empty() { may("selector classes empty".into()); } for (i, s) in v.iter().enumerate() { bad(&format!("classes {}", i), s); } },
    }
    match s {
        Sel::Str(s) => boxsel(leak(s).into_selector()),
        Sel::Id(s) => boxsel(s.parse::<select::Id>().map(ByRef)),
        Sel::Tag(s) => boxsel(s.parse::<select::Tag>()),
        Sel::Class(s) => boxsel(s.parse::<select::Class>().map(Rc::new)),
        Sel::Classes(v) => boxsel(select::Classes::from_str_iterator(v.iter().map(|s| &s[..]))),
    }
}

pub fn tpl(s: &str) -> Template {
    Template::from_str(s, ParseOptions::default()).expect("generated content parses")
}

fn bx<N: IntoStream>(n: N) -> Box<dyn event::Stream> where N::Stream: 'static { Box::new(n.into_stream()) }

fn mk_content(c: &C, ctx: &Ctx) -> Box<dyn event::Stream> {
    match c {
        C::Static(s) => bx(leak(s)),
        C::Data(s) => bx(text::Data::from_unencoded_str(s)),
        C::DataRef(s) => bx(&text::Data::from_unencoded_static_str(leak(s))),
        C::Value(s) => bx(text::Value::from_unencoded_str(s)),
        C::ValueRef(s) => bx(&text::Value::from_unencoded_static_str(leak(s))),
        C::Item => bx(text::Data::from_unencoded_str(&ctx.item())),
        C::Int(i) => bx(*i),
        C::Tpl(s) => bx(tpl(s)),
        C::TplRc(s) => bx(SHARED.with(|m| m.borrow_mut().entry(s.clone()).or_insert_with(|| Rc::new(tpl(s))).clone())),
        C::TplRef(s) => bx(&tpl(s)),
        C::TplErr(s) => { may_parse(s); bx(Template::from_str(s, ParseOptions::default())) },
        C::Fails(n, s) => Box::new(Failing { inner: bx(tpl(s)), left: *n }),
        C::OkStr(s) => bx(Ok::<&'static str, StreamError>(leak(s))),
        C::Element(t) => bx(Template::with_element(nm(t))),
        C::WithTransformed(t, p) => {
            let (p, ctx) = (p.clone(), ctx.clone());
            bx(Template::with_transformed_element(leak(t), move |h| e_run(&p, h.into_boxed_element(), &ctx)))
        },
        C::Transformed(s, p) => {
            let (p, ctx) = (p.clone(), ctx.clone());
            bx(tpl(s).transform(move |h| s_run(&p, h.into_boxed(), &ctx)))
        },
    }
}

/// the same name is the same value, shared
fn ident(s: &str) -> Result<text::Identifier, text::IdentifierError> {
    may_ident(s);
    if let Some(x) = IDENTS.with(|m| m.borrow().get(s).cloned()) { return Ok(x); }
    let x: text::Identifier = s.parse()?;
    IDENTS.with(|m| m.borrow_mut().insert(s.to_string(), x.clone()));
    Ok(x)
}

pub fn s_run<'t>(p: &Rc<SProg>, mut api: BoxedApi<'t>, ctx: &Ctx) -> BoxedApi<'t> {
    for op in p.iter() {
        api = match op {
            SOp::Select(m, s, p) => {
                let (p, c) = (p.clone(), ctx.clone());
                let s = mk_sel(s);
                match m {
                    Mode::Any => api.select(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed(),
                    Mode::Once => api.select_once(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed(),
                    Mode::Direct => api.select_direct(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed(),
                    Mode::DirectOnce => api.select_direct_once(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed(),
                }
            },
            SOp::Remove => api.remove().into_boxed(),
            SOp::Prepend(n) => api.prepend(mk_content(n, ctx)).into_boxed(),
            SOp::Append(n) => api.append(mk_content(n, ctx)).into_boxed(),
            SOp::Replace(n) => api.replace(mk_content(n, ctx)).into_boxed(),
            SOp::Repeat(items, p) => {
                let (p, c) = (p.clone(), ctx.clone());
                api.repeat(Items::new(items), move |h, i| s_run(&p, h.into_boxed(), &c.with(&i))).into_boxed()
            },
            SOp::RepeatOrElse(items, p, q) => {
                let (p, c, q, d) = (p.clone(), ctx.clone(), q.clone(), ctx.clone());
                api.repeat_or_else(Items::new(items), move |h, i| s_run(&p, h.into_boxed(), &c.with(&i)), move |h| s_run(&q, h, &d)).into_boxed()
            },
            SOp::ApplyIf(b, p) => api.apply_if(b.eval(ctx), |h| s_run(p, h, ctx)).into_boxed(),
            SOp::ApplyIfElse(b, p, q) => api.apply_if_else(b.eval(ctx), |h| s_run(p, h, ctx), |h| s_run(q, h, ctx)).into_boxed(),
            SOp::WithOption(o, p, q) => api.apply_with_option(o.clone(), |h, i| s_run(p, h, &ctx.with(&i)), |h| s_run(q, h, ctx)).into_boxed(),
            SOp::WithResult(o, p, q) => api.apply_with_result(o.clone(), |h, i| s_run(p, h, &ctx.with(&i)), |h, e| s_run(q, h, &ctx.with(&e))).into_boxed(),
            SOp::Apply(p) => api.apply(|h| s_run(p, h, ctx)),
            SOp::AsBoxed(p) => api.apply_as_boxed(|h| s_run(p, h, ctx)),
            SOp::AsTemplate(p) => {
                let (p, c) = (p.clone(), ctx.clone());
                api.apply_as_template(move |t| t.transform(move |h| s_run(&p, h.into_boxed(), &c))).into_boxed()
            },
            SOp::AsTemplateErr(s) => {
                let s = s.clone();
                api.apply_as_template(move |_| Template::with_element(ident(&s)).map_err(Into::into)).into_boxed()
            },
        };
    }
    api
}

fn e_ops<'t>(ops: &[EOp], mut api: BoxedElementApi<'t>, ctx: &Ctx) -> BoxedElementApi<'t> {
    fn val(s: &str) -> text::Value { VALUES.with(|m| m.borrow_mut().entry(s.to_string()).or_insert_with(|| text::Value::from_unencoded_str(s)).clone()) }
    for op in ops {
        api = match op {
            EOp::Count(id) => api.set_attribute_with_value("n", ctx.count(*id)).into_boxed_element(),
            EOp::SetAttr(n, v) => api.set_attribute(ident(n), v.as_ref().map(|v| val(v))).into_boxed_element(),
            EOp::SetEmpty(n) => api.set_empty_attribute(nm(n)).into_boxed_element(),
            EOp::SetVal(n, v) => match v.as_str() {
                "18446744073709551615" => api.set_attribute_with_value(ident(n), u64::MAX).into_boxed_element(),
                "-9223372036854775808" => api.set_attribute_with_value(ident(n), i64::MIN).into_boxed_element(),
                "4294967295" => api.set_attribute_with_value(ident(n), u32::MAX).into_boxed_element(),
                "-128" => api.set_attribute_with_value(ident(n), i8::MIN).into_boxed_element(),
                "65535" => api.set_attribute_with_value(ident(n), u16::MAX).into_boxed_element(),
                v => api.set_attribute_with_value(ident(n), leak(v)).into_boxed_element(),
            },
            EOp::SetItem(n) => api.set_attribute_with_value(nm(n), val(&ctx.item())).into_boxed_element(),
            EOp::AddAttr(n, v) => api.add_attribute(ident(n), v.as_ref().map(|v| val(v))).into_boxed_element(),
            EOp::AddEmpty(n) => api.add_empty_attribute(nm(n)).into_boxed_element(),
            EOp::AddVal(n, v) => api.add_attribute_with_value(ident(n), leak(v)).into_boxed_element(),
            EOp::AddTo(n, v, s) => api.add_to_attribute(nm(n), val(v), leak(s)).into_boxed_element(),
            EOp::ReplaceIf(n, v) => api.replace_attribute_value_if_exists(nm(n), val(v)).into_boxed_element(),
            EOp::RemoveAttr(n) => api.remove_attribute(ident(n)).into_boxed_element(),
            EOp::AddClass(n) => api.add_class(nm(n)).into_boxed_element(),
            EOp::RemoveClass(n) => api.remove_class(nm(n)).into_boxed_element(),
            EOp::SetId(n) => api.set_id(ident(n)).into_boxed_element(),
            EOp::RemoveId => api.remove_id().into_boxed_element(),
            EOp::SubContents(p) => {
                let (p, c) = (p.clone(), ctx.clone());
                api.subselect_contents(move |h| s_run(&p, h.into_boxed(), &c)).into_boxed_element()
            },
            EOp::Sub(m, s, p) => {
                let (p, c) = (p.clone(), ctx.clone());
                let s = mk_sel(s);
                match m {
                    Mode::Any => api.subselect(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed_element(),
                    Mode::Once => api.subselect_once(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed_element(),
                    Mode::Direct => api.subselect_direct(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed_element(),
                    Mode::DirectOnce => api.subselect_direct_once(s, move |h| e_run(&p, h.into_boxed_element(), &c)).into_boxed_element(),
                }
            },
            EOp::RemoveContents => api.remove_contents().into_boxed_element(),
            EOp::PrependContents(n) => api.prepend_contents(mk_content(n, ctx)).into_boxed_element(),
            EOp::AppendContents(n) => api.append_contents(mk_content(n, ctx)).into_boxed_element(),
            EOp::ReplaceContents(n) => api.replace_contents(mk_content(n, ctx)).into_boxed_element(),
            EOp::RepeatContents(items, p) => {
                let (p, c) = (p.clone(), ctx.clone());
                api.repeat_contents(Items::new(items), move |h, i| s_run(&p, h.into_boxed(), &c.with(&i))).into_boxed_element()
            },
            EOp::ApplyIf(b, p) => api.apply_if(b.eval(ctx), |h| e_ops(p, h, ctx)).into_boxed_element(),
            EOp::Apply(p) => api.apply(|h| e_ops(p, h, ctx)),
            EOp::AsBoxed(p) => api.apply_as_boxed_element(|h| e_ops(p, h, ctx)),
        };
    }
    api
}

pub fn e_run<'t>(p: &Rc<EProg>, api: BoxedElementApi<'t>, ctx: &Ctx) -> BoxedApi<'t> {
    let api = e_ops(&p.ops, api, ctx);
    let api = match &p.term {
        Term::None => api.into_boxed(),
        Term::Repeat(items, q) => {
            let (q, c) = (q.clone(), ctx.clone());
            api.repeat(Items::new(items), move |h, i| e_run(&q, h.into_boxed_element(), &c.with(&i))).into_boxed()
        },
        Term::RepeatOrElse(items, q, r) => {
            let (q, c, r, d) = (q.clone(), ctx.clone(), r.clone(), ctx.clone());
            api.repeat_or_else(Items::new(items), move |h, i| e_run(&q, h.into_boxed_element(), &c.with(&i)), move |h| e_run(&r, h, &d)).into_boxed()
        },
        Term::ContentsOrElse(items, q, r) => {
            let (q, c, r, d) = (q.clone(), ctx.clone(), r.clone(), ctx.clone());
            api.repeat_contents_or_else(Items::new(items), move |h, i| s_run(&q, h.into_boxed(), &c.with(&i)), move |h| e_run(&r, h, &d)).into_boxed()
        },
    };
    s_run(&Rc::new(p.tail.clone()), api, ctx)
}

// ---------------------------------------------------------------- model evaluation

/// Class of an error, as far as the caller can tell: which part failed.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Identifier, Selector, Static, Input, Other }

pub fn class_of(e: &StreamError) -> E {
    match e {
        StreamError::Identifier { .. } => E::Identifier,
        StreamError::Selector { .. } => E::Selector,
        StreamError::StaticSelector { .. } => E::Static,
        StreamError::Input { .. } => E::Input,
        _ => E::Other,
    }
}

type F = Vec<Node>;
type R = Result<F, E>;

#[derive(Debug, PartialEq)]
pub struct Pat { pub tag: Option<String>, pub id: Option<String>, pub classes: Vec<String> }

/// what a static selector string means: `tag`, then `#id`, then `.class` parts
pub fn static_sel(s: &str) -> Result<Pat, String> {
    let n = s.find(|c| c == '#' || c == '.').unwrap_or(s.len());
    let tag = &s[..n];
    let mut rest = &s[n..];
    let mut p = Pat { tag: None, id: None, classes: vec![] };
    if !tag.is_empty() {
        id_check(tag).map_err(|e| format!("Tag:{:?}", e))?;
        p.tag = Some(tag.into());
    }
    if rest.starts_with('#') {
        let m = rest.find('.').unwrap_or(rest.len());
        id_check(&rest[1..m]).map_err(|e| format!("Id:{:?}", e))?;
        p.id = Some(rest[1..m].into());
        rest = &rest[m..];
    }
    if rest.starts_with('.') {
        for (i, c) in rest[1..].split('.').enumerate() {
            id_check(c).map_err(|e| format!("Class{}:{:?}", i, e))?;
            p.classes.push(c.into());
        }
    }
    if p.tag.is_none() && p.id.is_none() && p.classes.is_empty() { return Err("Unrestricted".into()); }
    Ok(p)
}

pub fn m_sel(s: &Sel) -> Result<Pat, E> {
    let ok = |x: &String| id_check(x).map_err(|_| E::Selector);
    match s {
        Sel::Str(s) => static_sel(s).map_err(|_| E::Static),
        Sel::Id(s) => { ok(s)?; Ok(Pat { tag: None, id: Some(s.clone()), classes: vec![] }) },
        Sel::Tag(s) => { ok(s)?; Ok(Pat { tag: Some(s.clone()), id: None, classes: vec![] }) },
        Sel::Class(s) => { ok(s)?; Ok(Pat { tag: None, id: None, classes: vec![s.clone()] }) },
        Sel::Classes(v) => {
            for s in v { ok(s)?; }
            if v.is_empty() { return Err(E::Selector); }
            Ok(Pat { tag: None, id: None, classes: v.clone() })
        },
    }
}

pub fn pat_matches(p: &Pat, e: &Elem) -> bool {
    p.tag.as_ref().map_or(true, |t| name_eq(t, &e.open))
        && p.id.as_ref().map_or(true, |i| has_id(&e.attrs, i))
        && p.classes.iter().all(|c| has_class(&e.attrs, c))
}

fn parse_forest(s: &str) -> Result<F, E> {
    refparse::parse(s, &refparse::Opts { depth: None, len: None }).map(|v| forest(&v)).map_err(|_| E::Input)
}

fn m_content(c: &C, ctx: &Ctx) -> R {
    let data = |s: String| Ok(vec![Node::Leaf(Ev::Data(s))]);
    let elem = |t: &str| -> Result<Elem, E> {
        id_check(t).map_err(|_| E::Identifier)?;
        let kind = if refparse::is_void(t) { Kind::Void } else { Kind::SelfClosed };
        Ok(Elem { kind, open: t.into(), close: t.into(), attrs: vec![], kids: vec![] })
    };
    match c {
        C::Static(s) | C::Data(s) | C::DataRef(s) | C::Value(s) | C::ValueRef(s) | C::OkStr(s) => data(encode(s)),
        C::Item => data(encode(&ctx.item())),
        C::Int(i) => data(i.to_string()),
        C::Fails(..) => Err(E::Identifier),
        C::Tpl(s) | C::TplRc(s) | C::TplRef(s) | C::TplErr(s) => parse_forest(s),
        C::Element(t) => Ok(vec![Node::Elem(elem(t)?)]),
        C::WithTransformed(t, p) => m_eprog(p, elem(t)?, ctx),
        C::Transformed(s, p) => m_sprog(p, parse_forest(s)?, ctx),
    }
}

fn m_select(m: Mode, pat: &Pat, p: &Rc<EProg>, f: F, ctx: &Ctx, done: &mut bool, top: bool) -> R {
    let direct = m == Mode::Direct || m == Mode::DirectOnce;
    let once = m == Mode::Once || m == Mode::DirectOnce;
    let mut out = Vec::new();
    for n in f {
        match n {
            Node::Elem(mut e) => {
                if (!direct || top) && !(once && *done) && pat_matches(pat, &e) {
                    *done = true;
                    out.extend(m_eprog(p, e, ctx)?);
                } else {
                    e.kids = m_select(m, pat, p, e.kids, ctx, done, false)?;
                    out.push(Node::Elem(e));
                }
            },
            leaf => out.push(leaf),
        }
    }
    Ok(out)
}

/// The work a program may cause: programs whose model does more are not run.
pub const FUEL: usize = 60_000;
thread_local!(static SPENT: std::cell::Cell<usize> = std::cell::Cell::new(0));
thread_local!(static KIND: std::cell::Cell<usize> = std::cell::Cell::new(0));
pub fn refuel(salt: usize) { SPENT.with(|s| s.set(0)); KIND.with(|k| k.set(salt)); }
pub fn exhausted() -> bool { SPENT.with(|s| s.get() > FUEL) }
fn nodes(f: &[Node]) -> usize { f.iter().map(|n| match n { Node::Elem(e) => 2 + e.attrs.len() / 4 + nodes(&e.kids), _ => 1 }).sum() }
fn spend(f: &[Node]) -> Result<(), E> {
    if exhausted() { return Err(E::Other); }
    let n = nodes(f) + 1;
    SPENT.with(|s| s.set(s.get() + n));
    Ok(())
}

pub fn m_sprog(p: &Rc<SProg>, mut f: F, ctx: &Ctx) -> R {
    for op in p.iter() {
        spend(&f)?;
        f = match op {
            SOp::Select(m, s, p) => m_select(*m, &m_sel(s)?, p, f, ctx, &mut false, true)?,
            SOp::Remove => vec![],
            SOp::Prepend(n) => { let mut v = m_content(n, ctx)?; v.extend(f); v },
            SOp::Append(n) => { f.extend(m_content(n, ctx)?); f },
            SOp::Replace(n) => m_content(n, ctx)?,
            SOp::Repeat(items, p) => m_repeat(items, p, &f, ctx)?,
            SOp::RepeatOrElse(items, p, q) => if items.is_empty() { m_sprog(q, f, ctx)? } else { m_repeat(items, p, &f, ctx)? },
            SOp::ApplyIf(b, p) => if b.eval(ctx) { m_sprog(p, f, ctx)? } else { f },
            SOp::ApplyIfElse(b, p, q) => m_sprog(if b.eval(ctx) { p } else { q }, f, ctx)?,
            SOp::WithOption(o, p, q) => match o { Some(i) => m_sprog(p, f, &ctx.with(i))?, None => m_sprog(q, f, ctx)? },
            SOp::WithResult(o, p, q) => match o { Ok(i) => m_sprog(p, f, &ctx.with(i))?, Err(i) => m_sprog(q, f, &ctx.with(i))? },
            SOp::Apply(p) | SOp::AsBoxed(p) | SOp::AsTemplate(p) => m_sprog(p, f, ctx)?,
            SOp::AsTemplateErr(s) => m_content(&C::Element(s.clone()), ctx)?,
        };
    }
    Ok(f)
}

fn m_repeat(items: &[String], p: &Rc<SProg>, f: &F, ctx: &Ctx) -> R {
    let mut out = Vec::new();
    for i in items { spend(f)?; out.extend(m_sprog(p, f.clone(), &ctx.with(i))?); }
    Ok(out)
}

/// apply `f` to the element's content, unless it is void; a self-closed element is opened up
fn m_inner<G: FnOnce(F) -> R>(mut e: Elem, g: G) -> Result<Elem, E> {
    if e.kind == Kind::Void { return Ok(e); }
    e.kind = Kind::Normal;
    let kids = std::mem::replace(&mut e.kids, vec![]);
    e.kids = g(kids)?;
    Ok(e)
}

fn m_eops(ops: &[EOp], mut e: Elem, ctx: &Ctx) -> Result<Elem, E> {
    let chk = |n: &str| id_check(n).map_err(|_| E::Identifier);
    let set = |e: &mut Elem, n: &str, v: Option<String>| { remove(&mut e.attrs, n); e.attrs.push(Attr { name: n.into(), value: v }); };
    for op in ops {
        spend(&e.kids)?;
        match op {
            EOp::Count(id) => { let k = ctx.count(*id).to_string(); set(&mut e, "n", Some(k)); },
            EOp::SetAttr(n, v) => { chk(n)?; set(&mut e, n, v.as_ref().map(|v| encode(v))); },
            EOp::SetEmpty(n) => { chk(n)?; set(&mut e, n, None); },
            EOp::SetVal(n, v) => { chk(n)?; set(&mut e, n, Some(encode(v))); },
            EOp::SetItem(n) => { chk(n)?; set(&mut e, n, Some(encode(&ctx.item()))); },
            EOp::AddAttr(n, v) => { chk(n)?; e.attrs.push(Attr { name: n.clone(), value: v.as_ref().map(|v| encode(v)) }); },
            EOp::AddEmpty(n) => { chk(n)?; e.attrs.push(Attr { name: n.clone(), value: None }); },
            EOp::AddVal(n, v) => { chk(n)?; e.attrs.push(Attr { name: n.clone(), value: Some(encode(v)) }); },
            EOp::AddTo(n, v, s) => { chk(n)?; add_to(&mut e.attrs, n, &encode(v), &encode(s)); },
            EOp::ReplaceIf(n, v) => { chk(n)?; if remove(&mut e.attrs, n) { e.attrs.push(Attr { name: n.clone(), value: Some(encode(v)) }); } },
            EOp::RemoveAttr(n) => { chk(n)?; remove(&mut e.attrs, n); },
            EOp::AddClass(n) => { chk(n)?; add_to(&mut e.attrs, "class", n, " "); },
            EOp::RemoveClass(n) => { chk(n)?; remove_class(&mut e.attrs, n); },
            EOp::SetId(n) => { chk(n)?; set(&mut e, "id", Some(n.clone())); },
            EOp::RemoveId => { remove(&mut e.attrs, "id"); },
            EOp::SubContents(p) => e = m_inner(e, |f| m_sprog(p, f, ctx))?,
            EOp::Sub(m, s, p) => { let pat = m_sel(s)?; e = m_inner(e, |f| m_select(*m, &pat, p, f, ctx, &mut false, true))?; },
            EOp::RemoveContents => e = m_inner(e, |_| Ok(vec![]))?,
            // content is built when the operation is, and fails only when it is used
            EOp::PrependContents(n) => { let c = m_content(n, ctx); e = m_inner(e, |f| { let mut v = c?; v.extend(f); Ok(v) })?; },
            EOp::AppendContents(n) => { let c = m_content(n, ctx); e = m_inner(e, |mut f| { f.extend(c?); Ok(f) })?; },
            EOp::ReplaceContents(n) => { let c = m_content(n, ctx); e = m_inner(e, |_| c)?; },
            EOp::RepeatContents(items, p) => e = m_inner(e, |f| m_repeat(items, p, &f, ctx))?,
            EOp::ApplyIf(b, p) => if b.eval(ctx) { e = m_eops(p, e, ctx)? },
            EOp::Apply(p) | EOp::AsBoxed(p) => e = m_eops(p, e, ctx)?,
        }
    }
    Ok(e)
}

pub fn m_eprog(p: &Rc<EProg>, e: Elem, ctx: &Ctx) -> R {
    let e = m_eops(&p.ops, e, ctx)?;
    let f = match &p.term {
        Term::None => vec![Node::Elem(e)],
        Term::Repeat(items, q) => m_erepeat(items, q, &e, ctx)?,
        Term::RepeatOrElse(items, q, r) => if items.is_empty() { m_eprog(r, e, ctx)? } else { m_erepeat(items, q, &e, ctx)? },
        Term::ContentsOrElse(items, q, r) =>
            if items.is_empty() { m_eprog(r, e, ctx)? }
            else { vec![Node::Elem(m_inner(e, |f| m_repeat(items, q, &f, ctx))?)] },
    };
    m_sprog(&Rc::new(p.tail.clone()), f, ctx)
}

fn m_erepeat(items: &[String], q: &Rc<EProg>, e: &Elem, ctx: &Ctx) -> R {
    let mut out = Vec::new();
    for i in items { spend(&e.kids)?; out.extend(m_eprog(q, e.clone(), &ctx.with(i))?); }
    Ok(out)
}

// ---------------------------------------------------------------- generation

/// Weights of the kinds of operation, per property.
#[derive(Clone, Copy, Default)]
pub struct W { pub select: usize, pub attr: usize, pub stream: usize, pub content: usize, pub repeat: usize, pub apply: usize, pub sub: usize, pub errors: usize, pub count: usize, pub raw_elems: bool, pub plain: bool, pub big: bool }

pub struct Gen { pub r: Rng, pub w: W, pub next_id: usize, pub budget: isize }

pub const TAGS: &[&str] = &["a", "b", "c", "A", "B", "div", "x-y", "br", "IMG", "p"];
/// names that HTML gives a meaning of their own; the library must not
pub const HTML: &[&str] = &["html", "head", "body", "ul", "ol", "li", "dl", "dt", "dd", "p", "table", "thead", "tbody", "tfoot", "tr", "td", "th", "colgroup", "caption", "option", "optgroup", "select",
    "h1", "form", "button", "label", "iframe", "noscript", "noframes", "noembed", "xmp", "plaintext", "listing", "pre", "svg", "math", "template", "slot", "object", "video", "audio", "canvas", "span", "i", "em", "strong", "main", "nav", "section", "rb", "rt", "rp",
    "frame", "image", "isindex", "basefont", "bgsound", "nextid", "menuitem", "Applet", "!x", "?xml", "a:b", "a.b", "a#b", "1", "-", "[", "`", "@"];
pub const VOIDS: &[&str] = &["area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr", "Track", "WBR", "Col"];
pub const HATTRS: &[&str] = &["style", "src", "value", "type", "checked", "disabled", "data-x", "aria-label", "lang", "title", "onclick", "name", "for", "rel", "DATA-X", "xml:lang", "@x", ":x", "x.y", "svg:id", "id:x", "data-id", "id-x", "_id", "xid", "id2", "xml:class", "class:x", "data-class", "class-x", "class2", "xclass", "#", "`", "[a]", "classname", "idx", "i"];
pub const RAWTAGS: &[&str] = &["script", "style", "Title", "textarea"];
pub const NAMES: &[&str] = &["id", "class", "x", "y", "CLASS", "Id", "X", "href", "n"];
pub const WORDS: &[&str] = &["u", "v", "U", "w1", "uu", "z"];
/// legal names with characters that selectors give a meaning elsewhere
pub const ODD: &[&str] = &["u.v", ".u", "u.", "#u", "u#v", "*", "u:v", "[u]", "u|v", "!u", "@u", "u*", ".", "u+v", "~u", "u-", "-u", "\\u", "^u", "$u", "(u)", "%u", "u%20v"];
const TEXTS: &[&str] = &["t", "x<y", "a&b", "\"q\"", "é", "", " ", "<b>", "&lt;", "1>0", "\u{10348}", "\n", "a\u{301}&\u{1F600}<", "\u{feff}", "\r\n", "\u{3000}", "\0"];

impl Gen {
    pub fn new(r: Rng, w: W) -> Gen { Gen { r, w, next_id: 0, budget: 40 } }
    pub fn text(&mut self) -> String {
        let n = 1 + self.r.below(3);
        let mut s = String::new();
        for _ in 0..n { s.push_str(&dpick(&mut self.r, TEXTS, false)); }
        if self.r.chance(1, 300) { let k = dsize(&mut self.r, &[16, 20, 33, 64, 130, 256, 257, 1030, 4096, 8192], 70000); s = s.repeat(1 + k / s.len().max(1)); }
        s
    }
    pub fn tag(&mut self) -> String {
        if self.w.raw_elems && self.r.chance(1, 12) { return self.r.pick(RAWTAGS).to_string(); }
        if self.r.chance(1, 250) { return self.long_name(); }
        match self.r.below(16) {
            0 => self.r.pick(&HTML[..HTML.len() - 12]).to_string(),
            1 => self.r.pick(VOIDS).to_string(),
            2 => self.dname(TAGS),
            _ => self.r.pick(TAGS).to_string(),
        }
    }
    fn long_name(&mut self) -> String {
        let k = dsize(&mut self.r, &[9, 16, 32, 64, 128, 255, 256, 257], 600);
        "n".repeat(k + self.r.below(2))
    }
    fn dname(&mut self, xs: &[&str]) -> String {
        if self.w.plain { self.r.pick(xs).to_string() } else { dpick(&mut self.r, xs, true) }
    }
    fn bad(&mut self) -> bool { self.w.errors > 0 && self.r.chance(self.w.errors, 100) }
    pub fn name(&mut self) -> String {
        if self.bad() { return self.r.pick(&["", "a b", "é", "a=b", "<", "x;"]).to_string(); }
        self.attr_name()
    }
    fn attr_name(&mut self) -> String {
        if self.r.chance(1, 16) { return self.r.pick(HATTRS).to_string(); }
        if self.r.chance(1, 300) { return self.long_name(); }
        self.dname(NAMES)
    }
    fn word(&mut self) -> String {
        if self.bad() { return self.r.pick(&["", "a b", "é", "a=b"]).to_string(); }
        if self.r.chance(1, 300) { return self.long_name(); }
        if self.r.chance(1, 6) { return self.r.pick(ODD).to_string(); }
        self.dname(WORDS)
    }
    /// a new literal of the library's source, where it can stand in a value
    fn value_word(&mut self) -> String {
        let w = dpick(&mut self.r, WORDS, false);
        if w.contains('"') || w.contains(char::is_whitespace) || self.w.plain { "u".into() } else { w }
    }
    pub fn attrs(&mut self) -> Vec<Attr> {
        let n = if self.r.chance(1, 400) { dsize(&mut self.r, &[9, 17, 33, 65], 200) } else { self.r.below(5) };
        (0..n).map(|_| {
            let name = self.attr_name();
            let value = if self.r.chance(1, 6) { None } else if self.r.chance(2, 3) {
                let k = if self.r.chance(1, 200) { dsize(&mut self.r, &[9, 17, 33, 65], 300) } else { self.r.below(4) };
                let mut s = String::new();
                for i in 0..k {
                    if i > 0 || self.r.chance(1, 8) { s.push_str(self.r.pick(&[" ", "  ", "\t", "\n", "\u{2003}"])); }
                    let w = match self.r.below(16) {
                        0 | 1 => self.r.pick(ODD).to_string(),
                        2 | 4 => self.r.pick(&["&quot;u", "u&quot;", "u&amp;v", "&lt;b&gt;", "&#34;u", "&", "u&#x20;v", "&quot;"]).to_string(),
                        3 => self.value_word(),
                        _ => self.dname(WORDS),
                    };
                    s.push_str(&w);
                }
                if self.r.chance(1, 8) { s.push(' '); }
                if self.r.chance(1, 16) { s = self.value_word(); }
                Some(s)
            } else { Some(self.r.pick(&["", "é", "a<b", "&amp;", "x>y", " u", "'"]).to_string()) };
            Attr { name, value }
        }).collect()
    }
    pub fn forest(&mut self, depth: usize) -> F {
        let many = self.w.big && self.r.chance(1, 150);
        let n = if many { dsize(&mut self.r, &[9, 17, 33, 65, 130], 300) } else { self.r.below(4) };
        let depth = if many { 0 } else { depth };
        let mut out = Vec::new();
        for _ in 0..n {
            match self.r.below(10) {
                0 | 1 | 2 => { let t = encode(&self.text()); if !t.is_empty() { out.push(Node::Leaf(Ev::Data(t))) } },
                3 => {
                    let mut t = if self.w.plain { "c".into() } else { dpick(&mut self.r, &["", "c", "<a>", "--", "é>", "a</b>", "[if IE]><![endif]", " c ", "!", "#c"], false) };
                    if self.r.chance(1, 4) { t.push_str("c d"); }
                    out.push(Node::Leaf(Ev::Comment(t))) },
                4 if self.r.chance(1, 3) => out.push(Node::Leaf(Ev::Doctype("html".into()))),
                _ => { let e = self.elem(depth); out.push(Node::Elem(e)) },
            }
        }
        out
    }
    pub fn elem(&mut self, depth: usize) -> Elem {
        let open = self.tag();
        let attrs = self.attrs();
        if refparse::is_void(&open) { return Elem { kind: Kind::Void, close: open.clone(), open, attrs, kids: vec![] }; }
        if self.r.chance(1, 8) { return Elem { kind: Kind::SelfClosed, close: open.clone(), open, attrs, kids: vec![] }; }
        let close = if self.r.chance(1, 4) { open.to_ascii_uppercase() } else { open.clone() };
        let kids = if refparse::raw_for(&open).is_some() {
            vec![Node::Leaf(Ev::Raw(self.r.pick(&["", "a<b", "</", "<p></p>", "é</ x>", "</script", "<", "x<"]).to_string()))]
        } else if depth == 0 || self.r.chance(1, 5) { vec![] } else { self.forest(depth - 1) };
        Elem { kind: Kind::Normal, open, close, attrs, kids }
    }
    pub fn source(&mut self) -> String {
        loop {
            let d = if self.r.chance(1, 40) { 4 + self.r.below(6) } else { 1 + self.r.below(3) };
            let mut f = self.forest(d);
            if self.r.chance(1, 100) {
                // deep nesting
                for _ in 0..dsize(&mut self.r, &[9, 16, 32, 64, 128, 255, 256, 257], 600) {
                    let open = loop { let t = self.tag(); if !refparse::is_void(&t) && refparse::raw_for(&t).is_none() { break t; } };
                    f = vec![Node::Elem(Elem { kind: Kind::Normal, close: open.clone(), open, attrs: vec![], kids: f })];
                }
            }
            let s = render(&f);
            if parse_forest(&s).is_ok() { return s; }
        }
    }
    fn several(&mut self) -> usize { if self.r.chance(1, 12) { if self.r.chance(1, 8) { dsize(&mut self.r, &[9, 17, 33, 65], 100) } else { 3 + self.r.below(6) } } else { 1 + self.r.below(2) } }
    pub fn sel(&mut self) -> Sel {
        match self.r.below(8) {
            0 => Sel::Id(self.word()),
            1 => { let t = if self.bad() { "".into() } else { self.tag() }; Sel::Tag(t) },
            2 => Sel::Class(self.word()),
            3 => { let n = if self.bad() { 0 } else { self.several() }; 
                let mut v: Vec<String> = (0..n).map(|_| self.word()).collect();
                // a class named again, before others
                if n > 0 && self.r.chance(1, 8) { let c = v[self.r.below(n)].clone(); v.insert(0, c); }
                Sel::Classes(v)
            },
            _ => {
                if self.bad() { return Sel::Str(self.r.pick(&["", "#", ".", "a.", "a..u", "a#.u", "é", "a b", "#u v", ".=", "a#u."]).to_string()); }
                let mut s = String::new();
                if self.r.chance(2, 3) { s = self.tag(); }
                if s.is_empty() || self.r.chance(1, 4) {
                    if self.r.chance(1, 2) { s.push('#'); s.push_str(self.r.pick(WORDS)); }
                    if !s.contains('#') || self.r.chance(1, 2) {
                        for _ in 0..self.several() { s.push('.'); s.push_str(self.r.pick(WORDS)); }
                    }
                }
                Sel::Str(s)
            },
        }
    }
    fn cond(&mut self, b: bool) -> Cond {
        match self.r.below(4) { 0 | 1 => Cond::Const(b), 2 => Cond::ItemOdd, _ => Cond::ItemEven }
    }
    fn mode(&mut self) -> Mode { *self.r.pick(&[Mode::Any, Mode::Any, Mode::Once, Mode::Direct, Mode::DirectOnce]) }
    pub fn content(&mut self, depth: usize) -> C {
        match self.r.below(16) {
            0 | 1 => C::Static(self.text()), 2 => C::Data(self.text()), 3 => C::DataRef(self.text()), 4 => C::Value(self.text()), 5 => C::ValueRef(self.text()),
            6 => C::Item,
            7 => C::Int(*self.r.pick(&[0, 7, -1, i64::MAX, i64::MIN])),
            8 => C::Tpl(self.source()), 9 => C::TplRc(self.source()), 10 => C::TplRef(self.source()),
            11 => { if self.bad() { if self.r.chance(1, 2) { return C::Fails(self.r.below(6), self.source()); } C::TplErr(self.r.pick(&["<a>", "</a>", "<!--", "<é>"]).to_string()) } else { C::TplErr(self.source()) } },
            12 => C::OkStr(self.text()),
            13 => { let t = if self.bad() { self.name() } else { self.tag() }; C::Element(t) },
            14 if depth > 0 => { let t = self.tag(); let p = self.eprog(depth - 1); C::WithTransformed(t, Rc::new(p)) },
            15 if depth > 0 => { let t = self.source(); let p = self.sprog(depth - 1); C::Transformed(t, Rc::new(p)) },
            _ => C::Tpl(self.source()),
        }
    }
    pub fn items(&mut self) -> Vec<String> {
        let n = if self.r.chance(1, 60) { dsize(&mut self.r, &[5, 9, 12, 17, 33, 65, 129, 257], 400) } else { *self.r.pick(&[0, 1, 1, 2, 2, 3, 4]) };
        (0..n).map(|i| { let t = self.text(); format!("{}{}", i % 10, t) }).collect()
    }
    fn weighted(&mut self, ws: &[usize]) -> usize {
        let t: usize = ws.iter().sum();
        if t == 0 { return 0; }
        let mut k = self.r.below(t);
        for (i, w) in ws.iter().enumerate() { if k < *w { return i; } k -= w; }
        0
    }
    pub fn sprog(&mut self, depth: usize) -> SProg {
        let n = self.r.below(3);
        let mut v = Vec::new();
        for _ in 0..n { if self.budget > 0 { let o = self.sop(depth); v.push(o); } }
        v
    }
    fn sp(&mut self, depth: usize) -> Rc<SProg> {
        if self.w.repeat > 0 && self.r.chance(1, 10) {
            // nothing is left for some items
            let c = self.cond(true);
            let mut v = self.sprog(depth.saturating_sub(1));
            v.push(SOp::ApplyIf(c, Rc::new(vec![SOp::Remove])));
            return Rc::new(v);
        }
        Rc::new(self.sprog(depth.saturating_sub(1)))
    }
    fn ep(&mut self, depth: usize) -> Rc<EProg> { Rc::new(self.eprog(depth.saturating_sub(1))) }
    pub fn sop(&mut self, depth: usize) -> SOp {
        self.budget -= 1;
        let w = self.w;
        let deep = depth > 0;
        match self.weighted(&[if deep { w.select } else { 0 }, w.stream, if deep { w.repeat } else { 0 }, if deep { w.apply } else { 0 }, 1]) {
            0 if deep => { let m = self.mode(); let s = self.sel(); let p = self.ep(depth); SOp::Select(m, s, p) },
            1 => match self.r.below(7) {
                0 => SOp::Remove,
                1 | 2 => SOp::Prepend(self.content(depth)),
                3 | 4 => SOp::Append(self.content(depth)),
                _ => SOp::Replace(self.content(depth)),
            },
            2 => { let i = self.items(); let p = self.sp(depth); if self.r.chance(1, 2) { SOp::Repeat(i, p) } else { let q = self.sp(depth); SOp::RepeatOrElse(i, p, q) } },
            3 => {
                let b = self.r.chance(1, 2);
                let p = self.sp(depth);
                let q = self.sp(depth);
                let i = self.text();
                match self.r.below(7) {
                    0 => SOp::ApplyIf(self.cond(b), p),
                    1 => SOp::ApplyIfElse(self.cond(b), p, q),
                    2 => SOp::WithOption(if b { Some(i) } else { None }, p, q),
                    3 => SOp::WithResult(if b { Ok(i) } else { Err(i) }, p, q),
                    4 => if b { SOp::AsBoxed(p) } else { SOp::Apply(p) },
                    5 if self.bad() => SOp::AsTemplateErr("a b".into()),
                    _ => SOp::AsTemplate(p),
                }
            },
            _ => SOp::Append(C::Static(self.text())),
        }
    }
    fn eops(&mut self, depth: usize) -> Vec<EOp> {
        let n = self.r.below(4);
        let mut v = Vec::new();
        for _ in 0..n { if self.budget > 0 { let o = self.eop(depth); v.push(o); } }
        v
    }
    pub fn eop(&mut self, depth: usize) -> EOp {
        self.budget -= 1;
        let w = self.w;
        let deep = depth > 0;
        match self.weighted(&[w.attr, w.content, if deep { w.sub } else { 0 }, if deep { w.repeat } else { 0 }, if deep { w.apply } else { 0 }, w.count]) {
            0 => {
                let n = self.name();
                let t = self.text();
                match self.r.below(15) {
                    0 => EOp::SetAttr(n, if self.r.chance(1, 3) { None } else { Some(t) }),
                    1 => EOp::SetEmpty(n),
                    2 => EOp::SetVal(n, if self.r.chance(1, 4) { self.r.pick(&["18446744073709551615", "-9223372036854775808", "4294967295", "-128", "65535"]).to_string() } else { t }),
                    3 => EOp::AddAttr(n, if self.r.chance(1, 3) { None } else { Some(t) }),
                    4 => EOp::AddEmpty(n), 5 => EOp::AddVal(n, t),
                    6 | 7 => { let s = self.r.pick(&[" ", ",", "", "&"]).to_string(); EOp::AddTo(n, t, s) },
                    8 => EOp::ReplaceIf(n, t), 9 => EOp::RemoveAttr(n),
                    10 => EOp::AddClass(self.word()), 11 => EOp::RemoveClass(self.word()),
                    12 => EOp::SetId(self.word()), 13 => EOp::RemoveId,
                    _ => EOp::SetItem(n),
                }
            },
            1 => match self.r.below(4) {
                0 => EOp::RemoveContents,
                1 => EOp::PrependContents(self.content(depth)),
                2 => EOp::AppendContents(self.content(depth)),
                _ => EOp::ReplaceContents(self.content(depth)),
            },
            2 => if self.r.chance(1, 4) { EOp::SubContents(self.sp(depth)) } else { let m = self.mode(); let s = self.sel(); let p = self.ep(depth); EOp::Sub(m, s, p) },
            3 => { let i = self.items(); EOp::RepeatContents(i, self.sp(depth)) },
            4 => { let b = self.r.chance(1, 2); let v = Rc::new(self.eops(depth - 1)); if self.r.chance(1, 4) { EOp::AsBoxed(v) } else if self.r.chance(1, 4) { EOp::Apply(v) } else { EOp::ApplyIf(self.cond(b), v) } },
            _ => { self.next_id += 1; EOp::Count(self.next_id) },
        }
    }
    pub fn eprog(&mut self, depth: usize) -> EProg {
        let mut ops = self.eops(depth);
        if self.w.count > 0 && self.r.chance(1, 2) { self.next_id += 1; ops.push(EOp::Count(self.next_id)); }
        let term = if depth > 0 && self.w.repeat > 0 && self.r.chance(self.w.repeat, 12) {
            let i = self.items();
            match self.r.below(3) {
                0 => Term::Repeat(i, self.ep(depth)),
                1 => { let p = self.ep(depth); Term::RepeatOrElse(i, p, self.ep(depth)) },
                _ => { let p = self.sp(depth); Term::ContentsOrElse(i, p, self.ep(depth)) },
            }
        } else { Term::None };
        let tail = if depth > 0 && self.w.stream > 0 && self.r.chance(1, 3) { self.sprog(depth - 1) } else { vec![] };
        EProg { ops, term, tail }
    }
}
