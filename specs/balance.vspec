## What streams yield stays balanced (C16): each combinator given balanced parts yields something balanced.
@@ mod template
use crate::event::Stream as _;
/// all that the stream can yield, when it ends without an error, is balanced
pub open spec fn yields_balanced<S: event::Stream>(s: S) -> bool { forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) ==> balanced(evs(o)) }
pub proof fn lemma_evs_cat(a: Seq<event::Event>, b: Seq<event::Event>)
    ensures evs(a + b) == evs(a) + evs(b),
{ assert(evs(a + b) =~= evs(a) + evs(b)); }
pub proof fn lemma_evs_push(a: Seq<event::Event>, e: event::Event)
    ensures evs(a.push(e)) == evs(a).push(e.v()),
{ assert(evs(a.push(e)) =~= evs(a).push(e.v())); }
/// events without content do not matter
pub proof fn lemma_solid_nest(st: Seq<Seq<char>>, events: Seq<event::Event>)
    ensures nest(st, evs(solid(events))) == nest(st, evs(events)),
    decreases events.len(),
{
    if events.len() > 0 {
        let p = events.drop_last();
        lemma_solid_nest(st, p);
        assert(events =~= p.push(events.last()));
        lemma_evs_push(p, events.last());
        lemma_nest_push(st, evs(p), events.last().v());
        lemma_evs_push(solid(p), events.last());
        lemma_nest_push(st, evs(solid(p)), events.last().v());
    } else { assert(solid(events) =~= events); }
}
/// the stream of a balanced template
pub proof fn lemma_template_balanced(s: TemplateStream)
    requires s.index == 0, balanced(evs(s.events@)),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by {
        lemma_template_run(s, o, event::r_none());
        lemma_solid_nest(Seq::empty(), s.events@);
    }
}
/// a template loaded from text is balanced
pub proof fn lemma_loaded_balanced(s: Seq<char>, o: parse::Options, r: Result<Template, InputError>)
    requires loaded(s, o, r), r is Ok, 2 + blen(s) < usize::MAX,
    ensures balanced(r->Ok_0.v()),
{
    let p = parse_start(s, o);
    lemma_verdict(s_run(p));
    assert(names(p.st) =~= Seq::empty());
    lemma_run_balanced(p);
}
/// what a stream of balanced events is collected to
pub proof fn lemma_collected_balanced<S: event::Stream>(s: S, x: Result<Template, event::StreamError>)
    requires collected(s, x), x is Ok, yields_balanced(s),
    ensures balanced(x->Ok_0.v()),
{
}
/// what is built of a template by a function that gives balanced templates
pub open spec fn gives_balanced<B: FnOnce(Template) -> Result<Template, event::StreamError>>(f: B) -> bool {
    forall|t: Template, y: Result<Template, event::StreamError>| #[trigger] call_ensures(f, (t,), y) && y is Ok && balanced(t.v()) ==> balanced(y->Ok_0.v())
}
@@ mod modifier
use crate::template::{yields_balanced, evs, lemma_evs_cat, lemma_evs_push};
/// one stream after the other
pub proof fn lemma_in_order_balanced<A: event::Stream, B: event::Stream>(a: A, b: B, out: Seq<event::Event>)
    requires yields_balanced(a), yields_balanced(b), in_order(a, b, out, event::r_none()),
    ensures balanced(evs(out)),
{
    let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(a, oa, event::r_none()) && #[trigger] event::runs(b, ob, event::r_none()) && out == oa + ob;
    lemma_evs_cat(oa, ob);
    lemma_balanced_cat(evs(oa), evs(ob));
}
pub proof fn lemma_fallible_balanced<S: event::Stream>(x: Result<S, event::StreamError>, s: Fallible<S>)
    requires s.state.inner == Some(FallibleState::Start { result: x }), x is Ok ==> yields_balanced(x->Ok_0),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by { lemma_fallible(x, s, o, event::r_none()); }
}
/// an element opened up (names are ASCII: C02)
pub proof fn lemma_expand_balanced<S: event::ElementStream>(x: S, s: Expand<S>)
    requires s.state.inner == Some(ExpandState::Start { stream: x }), yields_balanced(x),
        forall|b: S, e: event::Event| #[trigger] event::skips(&x, &b, event::r_some(e)) && e.v() is SelfClosed ==> is_ascii(e.v()->SelfClosed_0),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by {
        lemma_expand(x, s, o, event::r_none());
        if event::runs(x, o, event::r_none()) { }
        else if self_closed_run(x, o) {
            let tag = choose|tag: text::Identifier| #[trigger] half_run(x, o.drop_last(), tag) && o.len() == 2 && o[1] == event::Event(event::EventKind::ClosingTag { tag });
            lemma_name_eq_refl(tag@);
            lemma_balanced_wrapped(o[0].v(), Seq::empty(), o[1].v());
            assert(evs(o) =~= seq![o[0].v()] + Seq::<EvV>::empty() + seq![o[1].v()]);
        } else {
            lemma_balanced_single(o[0].v());
            assert(evs(o) =~= seq![o[0].v()]);
        }
    }
}
@@ mod modifier::attribute
use crate::template::{yields_balanced, evs};
/// an operation on the attributes of an element
pub proof fn lemma_attr_balanced<S: event::Stream>(x: S, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>, out: Seq<event::Event>)
    requires attr_run(x, f, out, event::r_none()), yields_balanced(x),
    ensures balanced(evs(out)),
{
    if open_end(x, f, out, event::r_none()) {
        let src = choose|src: Seq<event::Event>| #[trigger] event::runs(x, src, event::r_none()) && first_changed(src, out, f) && src[0].v() is Open;
        assert(evs(src).skip(1) =~= evs(src.skip(1)));
        assert(evs(out).skip(1) =~= evs(out.skip(1)));
        lemma_nest_first(Seq::empty(), evs(src), evs(out));
    } else {
        let (e, b) = choose|e: event::Event, b: S| #[trigger] event::skips(&x, &b, event::r_some(e)) && first_changed(seq![e], out, f) && !(e.v() is Open);
        lemma_balanced_single(out[0].v());
        assert(evs(out) =~= seq![out[0].v()]);
    }
}
@@ mod modifier::append
use crate::template::{yields_balanced, evs};
pub proof fn lemma_append_balanced<S: event::Stream, N: event::Stream>(a: S, n: N, s: Append<S, N>)
    requires s.stream.state.inner == Some(modifier::CombineState::First(a, n)), yields_balanced(a), yields_balanced(n),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by {
        lemma_append(a, n, s, o, event::r_none());
        modifier::lemma_in_order_balanced(a, n, o);
    }
}
@@ mod modifier::prepend
use crate::template::{yields_balanced, evs};
pub proof fn lemma_prepend_balanced<S: event::Stream, N: event::Stream>(a: S, n: N, s: Prepend<S, N>)
    requires s.stream.state.inner == Some(modifier::CombineState::First(n, a)), yields_balanced(a), yields_balanced(n),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by {
        lemma_prepend(a, n, s, o, event::r_none());
        modifier::lemma_in_order_balanced(n, a, o);
    }
}
@@ mod modifier::replace
use crate::template::{yields_balanced, evs};
/// what takes the place of something has to be balanced, not what it takes the place of
pub proof fn lemma_replace_balanced<S: event::Stream, N: event::Stream>(a: S, n: N, s: Replace<S, N>)
    requires s.stream.stream.state.inner matches Some(modifier::CombineState::First(x, y)) && x == n && y.stream == a, yields_balanced(n),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by { lemma_replace(a, n, s, o, event::r_none()); }
}
@@ mod modifier::apply
use crate::template::{yields_balanced, evs};
pub proof fn lemma_either_balanced<S1: event::Stream, S2: event::Stream>(s: ApplyEither<S1, S2>)
    requires match s.stream { OneOf::First(a) => yields_balanced(a), OneOf::Second(a) => yields_balanced(a) },
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by { lemma_either(s, o, event::r_none()); }
}
/// a function applied to the stream as a template
pub proof fn lemma_apply_balanced<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, s: TemplateApply<S, B>)
    requires s.state.inner == Some(TemplateState::Collect { stream: a, builder: f }), yields_balanced(a), template::gives_balanced(f),
    ensures yields_balanced(s),
{
    assert forall|o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) implies balanced(evs(o)) by {
        lemma_apply(a, f, s, o, event::r_none());
        let x = choose|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(a, x) && match x { Err(e) => o.len() == 0 && event::r_none() == event::r_err(e), Ok(t) => applied(f, t, o, event::r_none()) };
        let t = x->Ok_0;
        template::lemma_collected_balanced(a, x);
        let y = choose|y: Result<template::Template, event::StreamError>| #[trigger] call_ensures(f, (t,), y) && match y { Err(e) => o.len() == 0 && event::r_none() == event::r_err(e), Ok(u) => template::holds(u.events@, o) && event::r_none() == event::r_none() };
        template::lemma_solid_nest(Seq::empty(), y->Ok_0.events@);
    }
}
@@ mod modifier::repeat
use crate::template::{yields_balanced, evs, lemma_evs_cat};
/// every copy the function makes of the template, wherever it is in the repetition, is balanced
pub open spec fn copies_balanced<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template) -> bool {
    forall|v: I::V, b: B, b2: B, x: B::Stream| #[trigger] one_copy::<I, SB, B>(mk, t, v, b, b2, x) ==> yields_balanced(x)
}
pub proof fn lemma_copies_balanced<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, done: Seq<I::V>, b: B, b2: B, o: Seq<event::Event>)
    requires copies::<I, SB, B>(mk, t, done, b, b2, o), copies_balanced::<I, SB, B>(mk, t),
    ensures balanced(evs(o)),
    decreases done.len(),
{
    if done.len() == 0 { assert(evs(o) =~= Seq::empty()); } else {
        let (bm, x, o1, o2) = choose|bm: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>|
            copies::<I, SB, B>(mk, t, done.drop_last(), b, bm, o1) && #[trigger] one_copy::<I, SB, B>(mk, t, done.last(), bm, b2, x) && #[trigger] event::runs(x, o2, event::r_none()) && o == #[trigger] (o1 + o2);
        lemma_copies_balanced::<I, SB, B>(mk, t, done.drop_last(), b, bm, o1);
        assert(yields_balanced(x));
        lemma_evs_cat(o1, o2);
        lemma_balanced_cat(evs(o1), evs(o2));
    }
}
/// the elements a repetition makes, one for each item
pub proof fn lemma_rep_balanced<S: event::Stream, I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, a: S, items: Seq<I::V>, b: B, out: Seq<event::Event>)
    requires rep_run::<S, I, SB, B>(mk, a, items, b, out, event::r_none()), forall|t: template::Template| copies_balanced::<I, SB, B>(mk, t),
    ensures balanced(evs(out)),
{
    let x = choose|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(a, x) && match x { Err(e) => out.len() == 0 && event::r_none() == event::r_err(e), Ok(t) => reps::<I, SB, B>(mk, t, items, b, out, event::r_none()) };
    let b2 = choose|b2: B| #[trigger] copies::<I, SB, B>(mk, x->Ok_0, items, b, b2, out);
    lemma_copies_balanced::<I, SB, B>(mk, x->Ok_0, items, b, b2, out);
}
## Of a properly nested source, the events up to the closing tag of an element, and those of its content, are balanced.
@@ mod modifier::select::element
use crate::template::{yields_balanced, evs, lemma_evs_cat, lemma_evs_push};
/// how many of the open elements have the name
pub open spec fn alike(tag: Seq<char>, st: Seq<Seq<char>>) -> int
    decreases st.len(),
{
    if st.len() == 0 { 0 } else { alike(tag, st.drop_last()) + (if name_eq(st.last(), tag) { 1int } else { 0int }) }
}
pub proof fn lemma_alike(tag: Seq<char>, st: Seq<Seq<char>>)
    ensures alike(tag, st) >= 0,
    decreases st.len(),
{ if st.len() > 0 { lemma_alike(tag, st.drop_last()); } }
/// the elements open before the element stay open, and so does it, while the events are within it
pub proof fn lemma_within_nest(tag: Seq<char>, st: Seq<Seq<char>>, o: Seq<event::Event>) -> (rest: Seq<Seq<char>>)
    requires within(tag, o), nest(st.push(tag), evs(o)) is Some,
    ensures nest(st.push(tag), evs(o)) == Some(st.push(tag) + rest), nest(seq![tag], evs(o)) == Some(seq![tag] + rest), alike(tag, rest) == tag_depth(tag, o),
    decreases o.len(),
{
    if o.len() == 0 {
        assert(st.push(tag) + Seq::<Seq<char>>::empty() =~= st.push(tag));
        assert(seq![tag] + Seq::<Seq<char>>::empty() =~= seq![tag]);
        Seq::empty()
    } else {
        let p = o.drop_last();
        let e = o.last().v();
        assert(o =~= p.push(o.last()));
        lemma_evs_push(p, o.last());
        lemma_nest_push(st.push(tag), evs(p), e);
        lemma_nest_push(seq![tag], evs(p), e);
        let r = lemma_within_nest(tag, st, p);
        let big = st.push(tag) + r;
        let small = seq![tag] + r;
        match e {
            EvV::Open(n, _) => {
                assert(big.push(n) =~= st.push(tag) + r.push(n));
                assert(small.push(n) =~= seq![tag] + r.push(n));
                assert(r.push(n).drop_last() =~= r);
                r.push(n)
            },
            EvV::Close(n) => {
                if r.len() == 0 { assert(big.last() == tag); assert(false); }
                assert(big.last() == r.last() && small.last() == r.last());
                assert(big.drop_last() =~= st.push(tag) + r.drop_last());
                assert(small.drop_last() =~= seq![tag] + r.drop_last());
                if name_eq(n, tag) { lemma_name_eq_sym(n, r.last()); lemma_name_eq_trans(r.last(), n, tag); }
                else if name_eq(r.last(), tag) { lemma_name_eq_trans(n, r.last(), tag); }
                r.drop_last()
            },
            _ => r,
        }
    }
}
/// the events up to the closing tag close the element and nothing else
pub proof fn lemma_closes_nest(tag: Seq<char>, st: Seq<Seq<char>>, o: Seq<event::Event>)
    requires closes(tag, o), nest(st.push(tag), evs(o)) is Some,
    ensures nest(st.push(tag), evs(o)) == Some(st), nest(seq![tag], evs(o)) == Some(Seq::<Seq<char>>::empty()),
{
    let p = o.drop_last();
    let e = o.last().v();
    assert(o =~= p.push(o.last()));
    lemma_evs_push(p, o.last());
    lemma_nest_push(st.push(tag), evs(p), e);
    lemma_nest_push(seq![tag], evs(p), e);
    let r = lemma_within_nest(tag, st, p);
    lemma_alike(tag, r);
    let n = e->Close_0;
    if r.len() > 0 {
        assert((st.push(tag) + r).last() == r.last());
        lemma_name_eq_sym(n, r.last());
        lemma_name_eq_trans(r.last(), n, tag);
        lemma_alike(tag, r.drop_last());
        assert(false);
    }
    assert((st.push(tag) + r).drop_last() =~= st);
    assert((seq![tag] + r).drop_last() =~= Seq::<Seq<char>>::empty());
    assert((seq![tag] + r).last() == tag);
}
/// a whole element of a properly nested source is balanced
pub proof fn lemma_element_balanced<S: event::Stream>(e: event::Event, src: S, st: Seq<Seq<char>>, out: Seq<event::Event>)
    requires element_run(e, src, out, event::r_none()), nest(st, evs(out)) is Some,
        e.v() is Open ==> !event::runs(src, out.skip(1), event::r_none()),
    ensures balanced(evs(out)), nest(st, evs(out)) == Some(st),
{
    match e.0 {
        event::EventKind::OpeningTag { tag, .. } => {
            let c = out.skip(1);
            assert(out =~= seq![e] + c);
            lemma_evs_cat(seq![e], c);
            assert(evs(seq![e]) =~= seq![e.v()]);
            lemma_nest_cat(st, seq![e.v()], evs(c));
            lemma_nest_one(st, e.v());
            lemma_closes_nest(tag@, st, c);
            lemma_nest_cat(Seq::empty(), seq![e.v()], evs(c));
            lemma_nest_one(Seq::empty(), e.v());
            assert(Seq::<Seq<char>>::empty().push(tag@) =~= seq![tag@]);
        },
        _ => {
            assert(evs(out) =~= seq![e.v()]);
            lemma_balanced_single(e.v());
            lemma_nest_one(st, e.v());
        },
    }
}
@@ mod modifier::select::select_contents
use crate::template::{yields_balanced, evs, lemma_evs_cat, lemma_evs_push};
/// what was open stays open while no more is closed than was opened
pub proof fn lemma_nested_nest(st: Seq<Seq<char>>, o: Seq<event::Event>) -> (rest: Seq<Seq<char>>)
    requires nested(o), nest(st, evs(o)) is Some,
    ensures nest(st, evs(o)) == Some(st + rest), nest(Seq::empty(), evs(o)) == Some(rest), rest.len() == all_depth(o),
    decreases o.len(),
{
    if o.len() == 0 {
        assert(st + Seq::<Seq<char>>::empty() =~= st);
        Seq::empty()
    } else {
        let p = o.drop_last();
        let e = o.last().v();
        assert(o =~= p.push(o.last()));
        lemma_evs_push(p, o.last());
        lemma_nest_push(st, evs(p), e);
        lemma_nest_push(Seq::empty(), evs(p), e);
        let r = lemma_nested_nest(st, p);
        match e {
            EvV::Open(n, _) => { assert((st + r).push(n) =~= st + r.push(n)); r.push(n) },
            EvV::Close(n) => { assert((st + r).last() == r.last()); assert((st + r).drop_last() =~= st + r.drop_last()); r.drop_last() },
            _ => r,
        }
    }
}
/// the whole content of an element of a properly nested source is balanced
pub proof fn lemma_content_balanced<S: event::Stream>(tag: text::Identifier, source: SharedPeek<S>, st: Seq<Seq<char>>, o: Seq<event::Event>)
    requires whole_content(tag, source, o), nest(st, evs(o)) is Some,
    ensures balanced(evs(o)), nest(st, evs(o)) == Some(st),
{
    let r = lemma_nested_nest(st, o);
    assert(r =~= Seq::empty());
    assert(st + r =~= st);
}
/// an operation on the content: balanced if what is between the tags is
pub proof fn lemma_around_balanced<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, p: Parts<S, B::Stream>, out: Seq<event::Event>)
    requires parts::<S, B>(a, b, p, out, event::r_none()), balanced(evs(p.inner)),
    ensures balanced(evs(out)),
{
    let c = p.close->Some_0;
    assert(out == (seq![p.e] + p.inner).push(c));
    lemma_balanced_wrapped(p.e.v(), evs(p.inner), c.v());
    assert(evs(out) =~= seq![p.e.v()] + evs(p.inner) + seq![c.v()]);
}
/// the content is that of a properly nested source
pub open spec fn well_read(oa: Seq<event::Event>) -> bool { exists|st: Seq<Seq<char>>| #[trigger] nest(st, evs(oa)) is Some }
pub proof fn lemma_then_new_balanced<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>)
    requires then_new(n, tag, source, o), yields_balanced(n), forall|oa: Seq<event::Event>| #[trigger] whole_content(tag, source, oa) ==> well_read(oa),
    ensures balanced(evs(o)),
{
    let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] whole_content(tag, source, oa) && #[trigger] event::runs(n, ob, event::r_none()) && o == oa + ob;
    let st = choose|st: Seq<Seq<char>>| #[trigger] nest(st, evs(oa)) is Some;
    lemma_content_balanced(tag, source, st, oa);
    lemma_evs_cat(oa, ob);
    lemma_balanced_cat(evs(oa), evs(ob));
}
pub proof fn lemma_new_then_balanced<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>)
    requires new_then(n, tag, source, o), yields_balanced(n), forall|oa: Seq<event::Event>| #[trigger] whole_content(tag, source, oa) ==> well_read(oa),
    ensures balanced(evs(o)),
{
    let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(n, oa, event::r_none()) && #[trigger] whole_content(tag, source, ob) && o == oa + ob;
    let st = choose|st: Seq<Seq<char>>| #[trigger] nest(st, evs(ob)) is Some;
    lemma_content_balanced(tag, source, st, ob);
    lemma_evs_cat(oa, ob);
    lemma_balanced_cat(evs(oa), evs(ob));
}
pub proof fn lemma_instead_balanced<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>)
    requires instead(n, tag, source, o), yields_balanced(n),
    ensures balanced(evs(o)),
{ }
pub proof fn lemma_nothing_balanced<S: event::Stream>(tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>)
    requires nothing(tag, source, o),
    ensures balanced(evs(o)),
{ assert(evs(o) =~= Seq::empty()); }
@@ mod modifier::select::select_contents
/// what has no content is a single tag
pub proof fn lemma_no_content_balanced<S: event::ElementStream>(a: S, out: Seq<event::Event>)
    requires no_content(a, out, event::r_none()),
    ensures balanced(evs(out)),
{
    let (y, y2, q) = choose|y: modifier::Expand<S>, y2: modifier::Expand<S>, q: event::StreamResult| y.state.inner == Some(modifier::ExpandState::Start { stream: a }) && #[trigger] event::skips(&y, &y2, q) && match q {
        Ok(Some(e)) => match e.0 {
            event::EventKind::OpeningTag { .. } => false,
            event::EventKind::VoidTag { .. } => out == seq![e] && event::r_none() == event::r_none(),
            _ => out.len() == 0 && event::r_none() == event::r_err(event::err_expected_open(Some(e))),
        },
        Ok(None) => out.len() == 0 && event::r_none() == event::r_err(event::err_expected_open(None)),
        Err(_) => out.len() == 0 && event::r_none() == q,
    };
    assert(q is Ok && q->Ok_0 is Some);
    lemma_balanced_single(out[0].v());
    assert(evs(out) =~= seq![out[0].v()]);
}
@@ mod modifier::append
/// an element with something appended to its content is still an element, the source being properly nested
pub proof fn lemma_append_contents_balanced<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: AppendContent<S, N>, out: Seq<event::Event>)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, event::r_none()), out.len() < usize::MAX, yields_balanced(n),
        forall|t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, oa: Seq<event::Event>| #[trigger] modifier::select::select_contents::whole_content(t, h, oa) ==> modifier::select::select_contents::well_read(oa),
    ensures balanced(evs(out)),
{
    use crate::modifier::select::select_contents::*;
    lemma_append_contents(a, n, s, out, event::r_none());
    if no_content(a, out, event::r_none()) { lemma_no_content_balanced(a, out); } else {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, event::r_none()) && then_new(n, p.tag, p.source, p.inner);
        lemma_then_new_balanced(n, p.tag, p.source, p.inner);
        lemma_around_balanced::<S, Builder<N>>(a, Builder { new_stream: n }, p, out);
    }
}
@@ mod modifier::prepend
/// an element with something put before its content is still an element, the source being properly nested
pub proof fn lemma_prepend_contents_balanced<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: PrependContent<S, N>, out: Seq<event::Event>)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, event::r_none()), out.len() < usize::MAX, yields_balanced(n),
        forall|t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, oa: Seq<event::Event>| #[trigger] modifier::select::select_contents::whole_content(t, h, oa) ==> modifier::select::select_contents::well_read(oa),
    ensures balanced(evs(out)),
{
    use crate::modifier::select::select_contents::*;
    lemma_prepend_contents(a, n, s, out, event::r_none());
    if no_content(a, out, event::r_none()) { lemma_no_content_balanced(a, out); } else {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, event::r_none()) && new_then(n, p.tag, p.source, p.inner);
        lemma_new_then_balanced(n, p.tag, p.source, p.inner);
        lemma_around_balanced::<S, Builder<N>>(a, Builder { new_stream: n }, p, out);
    }
}
@@ mod modifier::replace
/// an element with new content is an element, whatever the source
pub proof fn lemma_replace_contents_balanced<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: ReplaceContent<S, N>, out: Seq<event::Event>)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, event::r_none()), out.len() < usize::MAX, yields_balanced(n),
    ensures balanced(evs(out)),
{
    use crate::modifier::select::select_contents::*;
    lemma_replace_contents(a, n, s, out, event::r_none());
    if no_content(a, out, event::r_none()) { lemma_no_content_balanced(a, out); } else {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, event::r_none()) && instead(n, p.tag, p.source, p.inner);
        lemma_instead_balanced(n, p.tag, p.source, p.inner);
        lemma_around_balanced::<S, Builder<N>>(a, Builder { new_stream: n }, p, out);
    }
}
@@ mod modifier::remove
use crate::template::evs;
/// an element without its content is an element, whatever the source
pub proof fn lemma_remove_contents_balanced<S: event::ElementStream>(a: S, s: RemoveContent<S>, out: Seq<event::Event>)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder), event::runs(s, out, event::r_none()), out.len() < usize::MAX,
    ensures balanced(evs(out)),
{
    use crate::modifier::select::select_contents::*;
    lemma_remove_contents(a, s, out, event::r_none());
    if no_content(a, out, event::r_none()) { lemma_no_content_balanced(a, out); } else {
        let p = choose|p: Parts<S, <Builder as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder>(a, Builder, p, out, event::r_none()) && nothing(p.tag, p.source, p.inner);
        lemma_nothing_balanced(p.tag, p.source, p.inner);
        lemma_around_balanced::<S, Builder>(a, Builder, p, out);
    }
}
## Selections: balanced, if what is made of each selected element is, and if the selected element is read to its end.
@@ mod modifier::select
use crate::template::{yields_balanced, evs, lemma_evs_cat, lemma_evs_push};
/// `open` are the elements of the source open where it is read next: what is passed on opens and closes them,
/// and what is made of a selected element is balanced and leaves as many open as there were
pub open spec fn steady<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, m: M, rs: R) -> bool {
    &&& forall|a: Shared<S>, b: Shared<S>, l: modifier::Level, l2: modifier::Level, e: event::Event| #[trigger] passed::<S, M, R>(a, b, m, rs, l, l2, e) ==> nest_step(open(a), e.v()) == Some(open(b))
    &&& forall|a: Shared<S>, b: Shared<S>, l: modifier::Level, e: event::Event, f: B, f2: B, x: B::Stream| #[trigger] selected::<S, M, B, R>(a, b, m, rs, l, e, f, f2, x) ==> open(b) == open(a) && yields_balanced(x)
}
pub proof fn lemma_pieces_nest<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, n: nat, m: M, rs: R, p: At<S, B>, q: At<S, B>, o: Seq<event::Event>)
    requires pieces::<S, M, B, R>(n, m, rs, p, q, o), steady::<S, M, B, R>(open, m, rs),
    ensures nest(open(p.src), evs(o)) == Some(open(q.src)),
    decreases n,
{
    if n == 0 { assert(evs(o) =~= Seq::empty()); }
    else if exists|w: At<S, B>, o1: Seq<event::Event>, e: event::Event| pieces::<S, M, B, R>((n - 1) as nat, m, rs, p, w, o1) && #[trigger] passed::<S, M, R>(w.src, q.src, m, rs, w.level, q.level, e) && q.b == w.b && o == #[trigger] o1.push(e) {
        let (w, o1, e) = choose|w: At<S, B>, o1: Seq<event::Event>, e: event::Event| pieces::<S, M, B, R>((n - 1) as nat, m, rs, p, w, o1) && #[trigger] passed::<S, M, R>(w.src, q.src, m, rs, w.level, q.level, e) && q.b == w.b && o == #[trigger] o1.push(e);
        lemma_pieces_nest::<S, M, B, R>(open, (n - 1) as nat, m, rs, p, w, o1);
        lemma_evs_push(o1, e);
        lemma_nest_push(open(p.src), evs(o1), e.v());
    } else {
        let (w, o1, o2, e, x) = choose|w: At<S, B>, o1: Seq<event::Event>, o2: Seq<event::Event>, e: event::Event, x: B::Stream| pieces::<S, M, B, R>((n - 1) as nat, m, rs, p, w, o1) && #[trigger] selected::<S, M, B, R>(w.src, q.src, m, rs, w.level, e, w.b, q.b, x) && q.level == w.level && event::runs(x, o2, event::r_none()) && o == #[trigger] (o1 + o2);
        lemma_pieces_nest::<S, M, B, R>(open, (n - 1) as nat, m, rs, p, w, o1);
        assert(yields_balanced(x));
        lemma_evs_cat(o1, o2);
        lemma_nest_cat(open(p.src), evs(o1), evs(o2));
        lemma_balanced_within(open(w.src), evs(o2));
    }
}
/// a selection from a source that has closed all it opened when it ends
pub proof fn lemma_select_balanced<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, m: M, rs: R, p: At<S, B>, out: Seq<event::Event>)
    requires select_run::<S, M, B, R>(m, rs, p, out, event::r_none()), steady::<S, M, B, R>(open, m, rs), open(p.src).len() == 0,
        forall|s: Shared<S>, l: modifier::Level| #[trigger] source_end(s, l, event::r_none()) ==> open(s).len() == 0,
    ensures balanced(evs(out)),
{
    let q = choose|q: At<S, B>| #[trigger] select_out::<S, M, B, R>(m, rs, p, q, out) && source_end(q.src, q.level, event::r_none());
    let n = choose|n: nat| #[trigger] pieces::<S, M, B, R>(n, m, rs, p, q, out);
    lemma_pieces_nest::<S, M, B, R>(open, n, m, rs, p, q, out);
    assert(open(p.src) =~= Seq::empty());
    assert(open(q.src) =~= Seq::empty());
}
/// the same of a selection of one element
pub open spec fn steady_once<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, m: M, rs: R) -> bool {
    &&& forall|a: Shared<S>, b: Shared<S>, l: modifier::Level, l2: modifier::Level, e: event::Event| #[trigger] passed::<S, M, R>(a, b, m, rs, l, l2, e) ==> nest_step(open(a), e.v()) == Some(open(b))
    &&& forall|a: Shared<S>, b: Shared<S>, l: modifier::Level, e: event::Event, f: B, x: B::Stream| #[trigger] selected_once::<S, M, B, R>(a, b, m, rs, l, e, f, x) ==> open(b) == open(a) && yields_balanced(x)
    &&& forall|s: Shared<S>, l: modifier::Level| #[trigger] source_end(s, l, event::r_none()) ==> open(s).len() == 0
    &&& forall|s: Shared<S>, o: Seq<event::Event>| #[trigger] event::runs(s, o, event::r_none()) ==> nest(open(s), evs(o)) == Some(Seq::<Seq<char>>::empty())
}
pub proof fn lemma_scanned_nest<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, m: M, rs: R, src: Shared<S>, l: modifier::Level, src2: Shared<S>, l2: modifier::Level, o: Seq<event::Event>)
    requires scanned::<S, M, R>(m, rs, src, l, src2, l2, o), steady_once::<S, M, B, R>(open, m, rs),
    ensures nest(open(src), evs(o)) == Some(open(src2)),
    decreases o.len(),
{
    if o.len() == 0 { assert(evs(o) =~= Seq::empty()); } else {
        let (s1, l1) = choose|s1: Shared<S>, l1: modifier::Level| scanned(m, rs, src, l, s1, l1, o.drop_last()) && #[trigger] passed::<S, M, R>(s1, src2, m, rs, l1, l2, o.last());
        lemma_scanned_nest::<S, M, B, R>(open, m, rs, src, l, s1, l1, o.drop_last());
        assert(o =~= o.drop_last().push(o.last()));
        lemma_evs_push(o.drop_last(), o.last());
        lemma_nest_push(open(src), evs(o.drop_last()), o.last().v());
    }
}
pub proof fn lemma_select_once_balanced<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(open: spec_fn(Shared<S>) -> Seq<Seq<char>>, m: M, rs: R, b: B, src: Shared<S>, l: modifier::Level, out: Seq<event::Event>)
    requires once_run::<S, M, B, R>(m, rs, b, src, l, out, event::r_none()), steady_once::<S, M, B, R>(open, m, rs), open(src).len() == 0,
    ensures balanced(evs(out)),
{
    assert(open(src) =~= Seq::empty());
    if exists|s1: Shared<S>, l1: modifier::Level| #[trigger] scanned::<S, M, R>(m, rs, src, l, s1, l1, out) && source_end(s1, l1, event::r_none()) {
        let (s1, l1) = choose|s1: Shared<S>, l1: modifier::Level| #[trigger] scanned::<S, M, R>(m, rs, src, l, s1, l1, out) && source_end(s1, l1, event::r_none());
        lemma_scanned_nest::<S, M, B, R>(open, m, rs, src, l, s1, l1, out);
        assert(open(s1) =~= Seq::empty());
    } else {
        let (src2, x, o1, o2, o3) = choose|src2: Shared<S>, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>, o3: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, l, src2, x, o1) && #[trigger] event::runs(x, o2, event::r_none()) && #[trigger] event::runs(src2, o3, event::r_none()) && out == o1 + o2 + o3;
        let (s1, l1, e) = choose|s1: Shared<S>, l1: modifier::Level, e: event::Event| #[trigger] scanned::<S, M, R>(m, rs, src, l, s1, l1, o1) && #[trigger] selected_once::<S, M, B, R>(s1, src2, m, rs, l1, e, b, x);
        lemma_scanned_nest::<S, M, B, R>(open, m, rs, src, l, s1, l1, o1);
        lemma_evs_cat(o1, o2);
        lemma_evs_cat(o1 + o2, o3);
        lemma_nest_cat(open(src), evs(o1), evs(o2));
        lemma_balanced_within(open(s1), evs(o2));
        lemma_nest_cat(open(src), evs(o1 + o2), evs(o3));
    }
}
