## Repetition of an element or of its content.
@@ mod modifier::repeat
use crate::event::Stream as _;
/// the builder was given the whole template and the first item
pub open spec fn copied<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, template: template::Template, v: I::V, b: B, b2: B, stream: B::Stream) -> bool {
    exists|x: SB, value: I::Item| #[trigger] b.built_mapped(&b2, x, value, stream) && mk(x, template) && I::item_v(value) == v
}
pub open spec fn rep_step<S: event::Stream, I: VIter, B: builder::BuildMutMapped<SB, I::Item>, SB>(mk: spec_fn(SB, template::Template) -> bool, t: State<S, I, B, SB>, n: Option<State<S, I, B, SB>>, r: event::StreamResult) -> bool {
    match t {
        State::Collect { stream, builder, iter } => exists|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(stream, x) && match x {
            Err(e) => r == event::r_err(e),
            Ok(t) => event::is_noop(r) && n == Some(State::<S, I, B, SB>::Next { template: t, builder, iter }),
        },
        State::Next { template, builder, iter } => if iter.items().len() == 0 { r == event::r_none() } else {
            event::is_noop(r) && (n matches Some(State::Emit { template: t2, stream, builder: b2, iter: i2 }) && t2 == template && i2.items() == iter.items().skip(1)
                && copied::<I, SB, B>(mk, template, iter.items()[0], builder, b2, stream))
        },
        State::Emit { template, builder, iter, stream } => exists|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
            Ok(Some(_)) => r == q && n == Some(State::<S, I, B, SB>::Emit { template, builder, iter, stream: s2 }),
            Ok(None) => event::is_noop(r) && n == Some(State::<S, I, B, SB>::Next { template, builder, iter }),
            Err(_) => r == q,
        },
    }
}
pub open spec fn whole_derived<D>(x: modifier::Derived<template::TemplateStream, D>, t: template::Template) -> bool { whole(x.stream, t) }
/// all of the template
pub open spec fn whole(x: template::TemplateStream, t: template::Template) -> bool { x.events == t.events && x.index == 0 }
/// the repetition before it has yielded anything
pub open spec fn rep_start<S, I: VIter, B: builder::BuildMutMapped<SB, I::Item>, SB>(x: modifier::State<State<S, I, B, SB>>, stream: S, items: Seq<I::V>, b: B) -> bool {
    x.inner matches Some(State::Collect { stream: s, builder, iter }) && s == stream && builder == b && iter.items() == items
}
pub open spec fn content_rep_start<S: event::ElementStream, I: VIter, B: builder::BuildMutMapped<template::TemplateStream, I::Item>>(x: RepeatContent<S, I, B>, stream: S, items: Seq<I::V>, b: B) -> bool {
    exists|w: Builder<I, B>| #[trigger] modifier::select::select_contents::content_start(x.stream, stream, w) && w.builder == b && w.iter.items() == items
}
pub open spec fn or_else_step<S: event::Stream, I: VIter, B, BE: builder::BuildOnce<S>, SR: event::Stream>(st: spec_fn(SR, S, Seq<I::V>, B) -> bool, t: RepeatOrElseState<S, I, B, BE, SR>, n: Option<RepeatOrElseState<S, I, B, BE, SR>>, r: event::StreamResult) -> bool {
    match t {
        RepeatOrElseState::Start { stream, iter, builder, else_builder } => event::is_noop(r) && if iter.items().len() > 0 {
            n matches Some(RepeatOrElseState::Repeat { stream: x }) && st(x, stream, iter.items(), builder)
        } else {
            n matches Some(RepeatOrElseState::Fallback { stream: x }) && else_builder.built(stream, x)
        },
        RepeatOrElseState::Fallback { stream } => exists|s2: BE::Stream| #[trigger] stream.trans(&s2, r) && (event::some_ev(r) ==> n == Some(RepeatOrElseState::<S, I, B, BE, SR>::Fallback { stream: s2 })),
        RepeatOrElseState::Repeat { stream } => exists|s2: SR| #[trigger] stream.trans(&s2, r) && (event::some_ev(r) ==> n == Some(RepeatOrElseState::<S, I, B, BE, SR>::Repeat { stream: s2 })),
    }
}
@@ fn modifier::repeat::RepeatOrElse::new
@sig
    ensures ret.state.inner == Some(RepeatOrElseState::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>::Start { stream, iter, builder, else_builder })
@@ impl modifier::repeat::<Stream for RepeatOrElse>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> or_else_step::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>(
            |x: Repeat<S, crate::shim::iter::Peekable<I>, B>, stream: S, items: Seq<I::V>, b: B| rep_start(x.state, stream, items, b), t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::repeat::<Stream for RepeatOrElse>::next_event
@stmt if iter
    // an iterator given by the user keeps the contract of iterators
    proof { assume(iter.inv()); }
@@ fn modifier::repeat::Repeat::new
@sig
    ensures ret.state.inner == Some(State::<S, I, B, MaybeElementTemplate<S>>::Collect { stream, iter, builder })
@@ impl modifier::repeat::<Stream for Repeat>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> rep_step::<S, I, B, MaybeElementTemplate<S>>(|x: MaybeElementTemplate<S>, t: template::Template| whole_derived::<S>(x, t), t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::repeat::<Stream for Repeat>::next_event
@stmt let item
    // an iterator given by the user keeps the contract of iterators
    proof { assume(iter.inv()); }
@@ impl modifier::repeat::<Stream for RepeatContentStream>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> rep_step::<S, I, B, template::TemplateStream>(|x: template::TemplateStream, t: template::Template| whole(x, t), t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::repeat::<Stream for RepeatContentStream>::next_event
@stmt let item
    // an iterator given by the user keeps the contract of iterators
    proof { assume(iter.inv()); }
@@ impl modifier::repeat::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>
    open spec fn built(self, s: modifier::select::CurrentContent<S>, r: RepeatContentStream<modifier::select::CurrentContent<S>, I, B>) -> bool {
        r.state.inner == Some(State::<modifier::select::CurrentContent<S>, I, B, template::TemplateStream>::Collect { stream: s, iter: self.iter, builder: self.builder })
    }
@@ fn modifier::repeat::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>::build_once
@@ fn modifier::repeat::RepeatContentOrElse::new
@sig
    ensures ret.state.inner == Some(RepeatOrElseState::<S, I, B, BE, RepeatContent<S, crate::shim::iter::Peekable<I>, B>>::Start { stream, iter, builder, else_builder })
@@ impl modifier::repeat::<Stream for RepeatContentOrElse>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> or_else_step::<S, I, B, BE, RepeatContent<S, crate::shim::iter::Peekable<I>, B>>(
            |x: RepeatContent<S, crate::shim::iter::Peekable<I>, B>, stream: S, items: Seq<I::V>, b: B| content_rep_start(x, stream, items, b), t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::repeat::<Stream for RepeatContentOrElse>::next_event
@stmt if iter
    // an iterator given by the user keeps the contract of iterators
    proof { assume(iter.inv()); }
@@ fn modifier::repeat::RepeatContent::new
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, stream, Builder { iter, builder })
@@ impl modifier::repeat::<ElementStream for RepeatContent>
@@ impl modifier::repeat::<Stream for RepeatContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::repeat::<Stream for RepeatContent>::next_event
## What a run of a repetition is: the runs of the copies, one for each item, in order.
@@ mod modifier::repeat
/// `o` is what the copies for the items `done` yielded, the builder being `b2` after them
pub open spec fn copies<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, done: Seq<I::V>, b: B, b2: B, o: Seq<event::Event>) -> bool
    decreases done.len(),
{
    if done.len() == 0 { b2 == b && o.len() == 0 } else {
        exists|bm: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>|
            copies::<I, SB, B>(mk, t, done.drop_last(), b, bm, o1) && #[trigger] one_copy::<I, SB, B>(mk, t, done.last(), bm, b2, x) && #[trigger] event::runs(x, o2, event::r_none()) && o == #[trigger] (o1 + o2)
    }
}
pub open spec fn one_copy<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, v: I::V, b: B, b2: B, x: B::Stream) -> bool { copied::<I, SB, B>(mk, t, v, b, b2, x) }
pub proof fn lemma_copies_push<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, done: Seq<I::V>, v: I::V, b: B, bm: B, b2: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>)
    requires copies::<I, SB, B>(mk, t, done, b, bm, o1), copied::<I, SB, B>(mk, t, v, bm, b2, x), event::runs(x, o2, event::r_none()),
    ensures copies::<I, SB, B>(mk, t, done.push(v), b, b2, o1 + o2),
{
    assert(done.push(v).drop_last() =~= done);
    assert(one_copy::<I, SB, B>(mk, t, done.push(v).last(), bm, b2, x));
}
/// in the middle of a copy
pub open spec fn in_copy<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, done: Seq<I::V>, v: I::V, b: B, b2: B, y: B::Stream, o: Seq<event::Event>) -> bool {
    exists|bm: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>|
        #[trigger] copies::<I, SB, B>(mk, t, done, b, bm, o1) && #[trigger] copied::<I, SB, B>(mk, t, v, bm, b2, x) && #[trigger] event::near(x, o2, y) && o == o1 + o2
}
/// a copy failed
pub open spec fn failed_copy<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, done: Seq<I::V>, v: I::V, b: B, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|bm: B, b2: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>|
        #[trigger] copies::<I, SB, B>(mk, t, done, b, bm, o1) && #[trigger] copied::<I, SB, B>(mk, t, v, bm, b2, x) && #[trigger] event::runs(x, o2, end) && o == o1 + o2
}
/// the copies of the template for the items, or the failure of one of them
pub open spec fn reps<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, items: Seq<I::V>, b: B, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    ||| end == event::r_none() && exists|b2: B| #[trigger] copies::<I, SB, B>(mk, t, items, b, b2, out)
    ||| end is Err && exists|k: int| #[trigger] failed_at::<I, SB, B>(mk, t, items, b, k, out, end)
}
pub open spec fn failed_at<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, items: Seq<I::V>, b: B, k: int, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    0 <= k < items.len() && failed_copy::<I, SB, B>(mk, t, items.take(k), items[k], b, out, end)
}
pub open spec fn rep_run<S: event::Stream, I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, a: S, items: Seq<I::V>, b: B, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(a, x) && match x {
        Err(e) => out.len() == 0 && end == event::r_err(e),
        Ok(t) => reps::<I, SB, B>(mk, t, items, b, out, end),
    }
}
pub open spec fn at_next<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, items: Seq<I::V>, left: Seq<I::V>, b: B, b1: B, o: Seq<event::Event>) -> bool {
    exists|k: int| 0 <= k <= items.len() && left == #[trigger] items.skip(k) && copies::<I, SB, B>(mk, t, items.take(k), b, b1, o)
}
pub open spec fn at_emit<I: VIter, SB, B: builder::BuildMutMapped<SB, I::Item>>(mk: spec_fn(SB, template::Template) -> bool, t: template::Template, items: Seq<I::V>, left: Seq<I::V>, b: B, b1: B, y: B::Stream, o: Seq<event::Event>) -> bool {
    exists|k: int| 0 <= k < items.len() && left == items.skip(k + 1) && #[trigger] in_copy::<I, SB, B>(mk, t, items.take(k), items[k], b, b1, y, o)
}
pub open spec fn rep_inv<S: event::Stream, I: VIter, B: builder::BuildMutMapped<SB, I::Item>, SB>(mk: spec_fn(SB, template::Template) -> bool, a: S, items: Seq<I::V>, b: B, n: Option<State<S, I, B, SB>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(State::Collect { stream, builder, iter }) => stream == a && builder == b && iter.items() == items && o.len() == 0,
        Some(State::Next { template, builder, iter }) => template::collected(a, Ok(template)) && at_next::<I, SB, B>(mk, template, items, iter.items(), b, builder, o),
        Some(State::Emit { template, builder, iter, stream }) => template::collected(a, Ok(template)) && at_emit::<I, SB, B>(mk, template, items, iter.items(), b, builder, stream, o),
        None => false,
    }
}
pub proof fn lemma_rep_step<S: event::Stream, I: VIter, B: builder::BuildMutMapped<SB, I::Item>, SB>(mk: spec_fn(SB, template::Template) -> bool, a: S, items: Seq<I::V>, b: B, n: Option<State<S, I, B, SB>>, n2: Option<State<S, I, B, SB>>, o: Seq<event::Event>, r: event::StreamResult)
    requires rep_inv(mk, a, items, b, n, o), n matches Some(t) ==> rep_step(mk, t, n2, r),
    ensures
        event::is_noop(r) ==> rep_inv(mk, a, items, b, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> rep_inv(mk, a, items, b, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> rep_run::<S, I, SB, B>(mk, a, items, b, o, r),
{
    match n {
        Some(State::Collect { stream, builder, iter }) => {
            let x = choose|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(stream, x) && match x {
                Err(e) => r == event::r_err(e),
                Ok(t) => event::is_noop(r) && n2 == Some(State::<S, I, B, SB>::Next { template: t, builder, iter }),
            };
            if x is Ok {
                assert(items.skip(0) =~= items);
                assert(items.take(0).len() == 0);
                assert(copies::<I, SB, B>(mk, x->Ok_0, items.take(0), b, b, o));
                assert(at_next::<I, SB, B>(mk, x->Ok_0, items, items, b, b, o));
            }
        },
        Some(State::Next { template, builder, iter }) => {
            let k = choose|k: int| 0 <= k <= items.len() && iter.items() == #[trigger] items.skip(k) && copies::<I, SB, B>(mk, template, items.take(k), b, builder, o);
            if k == items.len() {
                assert(items.take(k) =~= items);
                assert(copies::<I, SB, B>(mk, template, items, b, builder, o));
            } else {
                assert(items.skip(k).skip(1) =~= items.skip(k + 1));
                assert(items.skip(k)[0] == items[k]);
                let x = n2->0->Emit_stream;
                let b2 = n2->0->Emit_builder;
                event::lemma_near_start(x);
                assert(o =~= o + Seq::empty());
                assert(copies::<I, SB, B>(mk, template, items.take(k), b, builder, o) && copied::<I, SB, B>(mk, template, items[k], builder, b2, x) && event::near(x, Seq::empty(), x));
                assert(in_copy::<I, SB, B>(mk, template, items.take(k), items[k], b, b2, x, o));
            }
        },
        Some(State::Emit { template, builder, iter, stream }) => {
            let (s2, q) = choose|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
                Ok(Some(_)) => r == q && n2 == Some(State::<S, I, B, SB>::Emit { template, builder, iter, stream: s2 }),
                Ok(None) => event::is_noop(r) && n2 == Some(State::<S, I, B, SB>::Next { template, builder, iter }),
                Err(_) => r == q,
            };
            let k = choose|k: int| 0 <= k < items.len() && iter.items() == items.skip(k + 1) && #[trigger] in_copy::<I, SB, B>(mk, template, items.take(k), items[k], b, builder, stream, o);
            let (bm, x, o1, o2) = choose|bm: B, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>|
                #[trigger] copies::<I, SB, B>(mk, template, items.take(k), b, bm, o1) && #[trigger] copied::<I, SB, B>(mk, template, items[k], bm, builder, x) && #[trigger] event::near(x, o2, stream) && o == o1 + o2;
            event::lemma_near_step(x, o2, stream, s2, q);
            match q {
                Ok(Some(e)) => {
                    if event::is_noop(q) {
                        assert(in_copy::<I, SB, B>(mk, template, items.take(k), items[k], b, builder, s2, o));
                    } else {
                        assert(o.push(e) =~= o1 + o2.push(e));
                        assert(in_copy::<I, SB, B>(mk, template, items.take(k), items[k], b, builder, s2, o.push(e)));
                    }
                },
                Ok(None) => {
                    lemma_copies_push::<I, SB, B>(mk, template, items.take(k), items[k], b, bm, builder, x, o1, o2);
                    assert(items.take(k).push(items[k]) =~= items.take(k + 1));
                    assert(at_next::<I, SB, B>(mk, template, items, items.skip(k + 1), b, builder, o));
                },
                Err(_) => {
                    assert(failed_copy::<I, SB, B>(mk, template, items.take(k), items[k], b, o, r));
                    assert(failed_at::<I, SB, B>(mk, template, items, b, k, o, r));
                },
            }
        },
        None => {},
    }
}
/// what is copied: all of the element
pub open spec fn whole_element<S>() -> spec_fn(MaybeElementTemplate<S>, template::Template) -> bool { |x: MaybeElementTemplate<S>, t: template::Template| whole_derived::<S>(x, t) }
/// what is copied: all of the content
pub open spec fn whole_content() -> spec_fn(template::TemplateStream, template::Template) -> bool { |x: template::TemplateStream, t: template::Template| whole(x, t) }
pub proof fn lemma_repeat<S: event::Stream, I: VIter, B: builder::BuildMutMapped<MaybeElementTemplate<S>, I::Item>>(a: S, items: Seq<I::V>, b: B, s: Repeat<S, I, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires rep_start(s.state, a, items, b), event::runs(s, out, end),
    ensures rep_run::<S, I, MaybeElementTemplate<S>, B>(whole_element::<S>(), a, items, b, out, end),
{
    let inv = |s: Repeat<S, I, B>, o: Seq<event::Event>| rep_inv::<S, I, B, MaybeElementTemplate<S>>(whole_element::<S>(), a, items, b, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| rep_run::<S, I, MaybeElementTemplate<S>, B>(whole_element::<S>(), a, items, b, o, r);
    assert forall|s: Repeat<S, I, B>, o: Seq<event::Event>, s2: Repeat<S, I, B>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_rep_step::<S, I, B, MaybeElementTemplate<S>>(whole_element::<S>(), a, items, b, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_repeat_content_stream<S: event::Stream, I: VIter, B: builder::BuildMutMapped<template::TemplateStream, I::Item>>(a: S, items: Seq<I::V>, b: B, s: RepeatContentStream<S, I, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires rep_start(s.state, a, items, b), event::runs(s, out, end),
    ensures rep_run::<S, I, template::TemplateStream, B>(whole_content(), a, items, b, out, end),
{
    let inv = |s: RepeatContentStream<S, I, B>, o: Seq<event::Event>| rep_inv::<S, I, B, template::TemplateStream>(whole_content(), a, items, b, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| rep_run::<S, I, template::TemplateStream, B>(whole_content(), a, items, b, o, r);
    assert forall|s: RepeatContentStream<S, I, B>, o: Seq<event::Event>, s2: RepeatContentStream<S, I, B>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_rep_step::<S, I, B, template::TemplateStream>(whole_content(), a, items, b, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the repetition if there are items, else the fallback
pub open spec fn or_else_run<S: event::Stream, I: VIter, B, BE: builder::BuildOnce<S>, SR: event::Stream>(st: spec_fn(SR, S, Seq<I::V>, B) -> bool, a: S, items: Seq<I::V>, b: B, be: BE, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    if items.len() > 0 { exists|x: SR| #[trigger] st(x, a, items, b) && event::runs(x, out, end) } else { exists|x: BE::Stream| #[trigger] be.built(a, x) && event::runs(x, out, end) }
}
pub open spec fn or_else_inv<S: event::Stream, I: VIter, B, BE: builder::BuildOnce<S>, SR: event::Stream>(st: spec_fn(SR, S, Seq<I::V>, B) -> bool, a: S, items: Seq<I::V>, b: B, be: BE, n: Option<RepeatOrElseState<S, I, B, BE, SR>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(RepeatOrElseState::Start { stream, iter, builder, else_builder }) => stream == a && iter.items() == items && builder == b && else_builder == be && o.len() == 0,
        Some(RepeatOrElseState::Fallback { stream }) => items.len() == 0 && exists|x: BE::Stream| #[trigger] be.built(a, x) && event::near(x, o, stream),
        Some(RepeatOrElseState::Repeat { stream }) => items.len() > 0 && exists|x: SR| #[trigger] st(x, a, items, b) && event::near(x, o, stream),
        None => false,
    }
}
pub proof fn lemma_or_else_step<S: event::Stream, I: VIter, B, BE: builder::BuildOnce<S>, SR: event::Stream>(st: spec_fn(SR, S, Seq<I::V>, B) -> bool, a: S, items: Seq<I::V>, b: B, be: BE, n: Option<RepeatOrElseState<S, I, B, BE, SR>>, n2: Option<RepeatOrElseState<S, I, B, BE, SR>>, o: Seq<event::Event>, r: event::StreamResult)
    requires or_else_inv::<S, I, B, BE, SR>(st, a, items, b, be, n, o), n matches Some(t) ==> or_else_step::<S, I, B, BE, SR>(st, t, n2, r),
    ensures
        event::is_noop(r) ==> or_else_inv::<S, I, B, BE, SR>(st, a, items, b, be, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> or_else_inv::<S, I, B, BE, SR>(st, a, items, b, be, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> or_else_run::<S, I, B, BE, SR>(st, a, items, b, be, o, r),
{
    match n {
        Some(RepeatOrElseState::Start { stream, iter, builder, else_builder }) => {
            assert(o =~= Seq::empty());
            match n2 {
                Some(RepeatOrElseState::Repeat { stream: x }) => { event::lemma_near_start(x); },
                Some(RepeatOrElseState::Fallback { stream: x }) => { event::lemma_near_start(x); },
                _ => {},
            }
        },
        Some(RepeatOrElseState::Fallback { stream }) => {
            let s2 = choose|s2: BE::Stream| #[trigger] stream.trans(&s2, r) && (event::some_ev(r) ==> n2 == Some(RepeatOrElseState::<S, I, B, BE, SR>::Fallback { stream: s2 }));
            let x = choose|x: BE::Stream| #[trigger] be.built(a, x) && event::near(x, o, stream);
            event::lemma_near_step(x, o, stream, s2, r);
        },
        Some(RepeatOrElseState::Repeat { stream }) => {
            let s2 = choose|s2: SR| #[trigger] stream.trans(&s2, r) && (event::some_ev(r) ==> n2 == Some(RepeatOrElseState::<S, I, B, BE, SR>::Repeat { stream: s2 }));
            let x = choose|x: SR| #[trigger] st(x, a, items, b) && event::near(x, o, stream);
            event::lemma_near_step(x, o, stream, s2, r);
        },
        None => {},
    }
}
/// the repetition made of the items
pub open spec fn element_starts<S: event::Stream, I: VIter, B: builder::BuildMutMapped<MaybeElementTemplate<S>, I::Item>>() -> spec_fn(Repeat<S, crate::shim::iter::Peekable<I>, B>, S, Seq<I::V>, B) -> bool {
    |x: Repeat<S, crate::shim::iter::Peekable<I>, B>, stream: S, items: Seq<I::V>, b: B| rep_start(x.state, stream, items, b)
}
pub proof fn lemma_repeat_or_else<S: event::ElementStream, I: VIter, B: builder::BuildMutMapped<MaybeElementTemplate<S>, I::Item>, BE: builder::BuildOnce<S>>(a: S, iter: I, b: B, be: BE, s: RepeatOrElse<S, I, B, BE>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(RepeatOrElseState::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>::Start { stream: a, iter, builder: b, else_builder: be }), event::runs(s, out, end),
    ensures
        iter.items().len() == 0 ==> (exists|x: BE::Stream| #[trigger] be.built(a, x) && event::runs(x, out, end)),
        iter.items().len() > 0 ==> rep_run::<S, crate::shim::iter::Peekable<I>, MaybeElementTemplate<S>, B>(whole_element::<S>(), a, iter.items(), b, out, end),
{
    let items = iter.items();
    let st = element_starts::<S, I, B>();
    let inv = |s: RepeatOrElse<S, I, B, BE>, o: Seq<event::Event>| or_else_inv::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>(st, a, items, b, be, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| or_else_run::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>(st, a, items, b, be, o, r);
    assert forall|s: RepeatOrElse<S, I, B, BE>, o: Seq<event::Event>, s2: RepeatOrElse<S, I, B, BE>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_or_else_step::<S, I, B, BE, Repeat<S, crate::shim::iter::Peekable<I>, B>>(st, a, items, b, be, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
    if items.len() > 0 {
        let x = choose|x: Repeat<S, crate::shim::iter::Peekable<I>, B>| #[trigger] st(x, a, items, b) && event::runs(x, out, end);
        lemma_repeat::<S, crate::shim::iter::Peekable<I>, B>(a, items, b, x, out, end);
    }
}
