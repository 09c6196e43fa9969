## Whole-stream combinators: append, prepend, remove, replace, apply.
@@ fn modifier::append::Append::new
@sig
    ensures ret.stream.state.inner == Some(modifier::CombineState::First(stream, new_stream))
@@ impl modifier::append::<Stream for Append>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::append::<Stream for Append>::next_event
@@ fn modifier::prepend::Prepend::new
@sig
    ensures ret.stream.state.inner == Some(modifier::CombineState::First(new_stream, stream))
@@ impl modifier::prepend::<Stream for Prepend>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::prepend::<Stream for Prepend>::next_event
@@ fn modifier::remove::Remove::new
@sig
    ensures ret.stream == stream
@@ impl modifier::remove::<Stream for Remove>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        !event::some_ev(r) && event::drains(&self.stream, &post.stream, r)
    }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::remove::<Stream for Remove>::next_event
@attr
verifier::exec_allows_no_decreases_clause
@attr
verifier::loop_isolation(false)
@attr
verifier::allow_complex_invariants
@start
    proof { event::lemma_walks_refl(&self.stream); }
@loopstart 0
    proof { if event::after_walk(&old(self).stream, &self.stream) { event::lemma_after_walk(&old(self).stream, &self.stream); } }
@loop 0
    invariant_except_break
        event::walks(&old(self).stream, &self.stream),
        old(self).stream.done() ==> self.stream.done(),
    ensures event::drains(&old(self).stream, &self.stream, event::r_none()), self.stream.done(),
@@ fn modifier::replace::Replace::new
@sig
    ensures
        ret.stream.stream.state.inner matches Some(modifier::CombineState::First(a, b)) && a == new_stream && b.stream == stream
@@ impl modifier::replace::<Stream for Replace>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::replace::<Stream for Replace>::next_event
@@ fn modifier::apply::ApplyEither::first
@sig
    ensures ret.stream == OneOf::<S1, S2>::First(stream)
@@ fn modifier::apply::ApplyEither::second
@sig
    ensures ret.stream == OneOf::<S1, S2>::Second(stream)
@@ impl modifier::apply::<ElementStream for ApplyEither>
@@ impl modifier::apply::<Stream for ApplyEither>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        match self.stream {
            OneOf::First(a) => post.stream matches OneOf::First(b) && a.trans(&b, r),
            OneOf::Second(a) => post.stream matches OneOf::Second(b) && a.trans(&b, r),
        }
    }
    open spec fn done(&self) -> bool { match self.stream { OneOf::First(a) => a.done(), OneOf::Second(a) => a.done() } }
@@ fn modifier::apply::<Stream for ApplyEither>::next_event
@@ fn modifier::apply::TemplateApply::new
@sig
    ensures ret.state.inner == Some(TemplateState::Collect { stream, builder })
@@ mod modifier::apply
use crate::event::Stream as _;
pub open spec fn apply_step<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(t: TemplateState<S, B>, n: Option<TemplateState<S, B>>, r: event::StreamResult) -> bool {
    match t {
        TemplateState::Collect { stream, builder } => exists|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(stream, x) && match x {
            Err(e) => r == event::r_err(e),
            Ok(t) => exists|y: Result<template::Template, event::StreamError>| #[trigger] call_ensures(builder, (t,), y) && match y {
                Err(e) => r == event::r_err(e),
                Ok(u) => event::is_noop(r) && (n matches Some(TemplateState::Emit { stream }) && stream.events == u.events && stream.index == 0),
            },
        },
        TemplateState::Emit { stream: s } => exists|s2: template::TemplateStream| #[trigger] s.trans(&s2, r) && (event::some_ev(r) ==> n == Some(TemplateState::<S, B>::Emit { stream: s2 })),
    }
}
@@ impl modifier::apply::<Stream for TemplateApply>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> apply_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::apply::<Stream for TemplateApply>::next_event
@stmt let applied
    // the closure given by the user can be called with every template
    proof { assume(call_requires(builder, (template,))); }
@@ mod content
@@ fn content::<Stream for Stream>::next_event
@@ impl content::<Stream for Stream>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        post.data is None && match self.data { Some(d) => r == event::r_some(event::Event(event::EventKind::Data { content: d })), None => r == event::r_none() }
    }
    open spec fn done(&self) -> bool { self.data is None }
@@ impl content::<IntoStream for S>
    open spec fn stream_of(self, s: S) -> bool { s == self }
@@ fn content::<IntoStream for S>::into_stream
@@ impl content::<IntoStream for Data>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == self@ }
@@ fn content::<IntoStream for Data>::into_stream
@@ impl content::<IntoStream for &text::Data>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == self@ }
@@ fn content::<IntoStream for &text::Data>::into_stream
@@ impl content::<IntoStream for Value>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == self@ }
@@ fn content::<IntoStream for Value>::into_stream
@@ impl content::<IntoStream for &text::Value>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == self@ }
@@ fn content::<IntoStream for &text::Value>::into_stream
@@ impl content::<IntoStream for &str>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == enc(self@) }
@@ fn content::<IntoStream for &str>::into_stream
@@ impl content::<IntoStream for Result>
    open spec fn stream_of(self, s: modifier::Fallible<S::Stream>) -> bool {
        match self {
            Ok(x) => s.state.inner matches Some(modifier::FallibleState::Start { result: Ok(y) }) && x.stream_of(y),
            Err(e) => s.state.inner matches Some(modifier::FallibleState::Start { result: Err(f) }) && crate::shim::into_rel(e, f),
        }
    }
@@ fn content::<IntoStream for Result>::into_stream
## What the runs are.
@@ mod modifier::append
use crate::event::Stream as _;
/// the events are those of the part
pub proof fn lemma_append_part<S: event::Stream, N: event::Stream>(s: Append<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures event::runs(s.stream, out, end),
{
    let a = s.stream;
    let inv = |x: Append<S, N>, o: Seq<event::Event>| event::near(a, o, x.stream);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| event::runs(a, o, r);
    event::lemma_near_start(a);
    assert forall|x: Append<S, N>, o: Seq<event::Event>, x2: Append<S, N>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        event::lemma_near_step(a, o, x.stream, x2.stream, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the original, then the new content
pub proof fn lemma_append<S: event::Stream, N: event::Stream>(a: S, n: N, s: Append<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.stream.state.inner == Some(modifier::CombineState::First(a, n)), event::runs(s, out, end),
    ensures modifier::in_order(a, n, out, end),
{ lemma_append_part(s, out, end); modifier::lemma_combine(a, n, s.stream, out, end); }
@@ mod modifier::prepend
use crate::event::Stream as _;
/// the events are those of the part
pub proof fn lemma_prepend_part<S: event::Stream, N: event::Stream>(s: Prepend<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures event::runs(s.stream, out, end),
{
    let a = s.stream;
    let inv = |x: Prepend<S, N>, o: Seq<event::Event>| event::near(a, o, x.stream);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| event::runs(a, o, r);
    event::lemma_near_start(a);
    assert forall|x: Prepend<S, N>, o: Seq<event::Event>, x2: Prepend<S, N>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        event::lemma_near_step(a, o, x.stream, x2.stream, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the new content, then the original
pub proof fn lemma_prepend<S: event::Stream, N: event::Stream>(a: S, n: N, s: Prepend<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.stream.state.inner == Some(modifier::CombineState::First(n, a)), event::runs(s, out, end),
    ensures modifier::in_order(n, a, out, end),
{ lemma_prepend_part(s, out, end); modifier::lemma_combine(n, a, s.stream, out, end); }
@@ mod modifier::remove
use crate::event::Stream as _;
/// nothing; the original is taken to its end, and its failure is the result
pub proof fn lemma_remove<S: event::Stream>(s: Remove<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures out.len() == 0, exists|o: Seq<event::Event>| event::runs(s.stream, o, end),
{
    let a = s.stream;
    let inv = |x: Remove<S>, o: Seq<event::Event>| x == s && o.len() == 0;
    let fin = |o: Seq<event::Event>, r: event::StreamResult| o.len() == 0 && exists|o: Seq<event::Event>| event::runs(a, o, r);
    assert forall|x: Remove<S>, o: Seq<event::Event>, x2: Remove<S>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        event::lemma_drains_runs(a, x2.stream, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
@@ mod modifier::replace
use crate::event::Stream as _;
/// the events are those of the part
pub proof fn lemma_replace_part<S: event::Stream, N: event::Stream>(s: Replace<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures event::runs(s.stream, out, end),
{
    let a = s.stream;
    let inv = |x: Replace<S, N>, o: Seq<event::Event>| event::near(a, o, x.stream);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| event::runs(a, o, r);
    event::lemma_near_start(a);
    assert forall|x: Replace<S, N>, o: Seq<event::Event>, x2: Replace<S, N>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        event::lemma_near_step(a, o, x.stream, x2.stream, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the new content in place of the original
pub open spec fn replaced<S: event::Stream, N: event::Stream>(a: S, n: N, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    (end is Err && event::runs(n, out, end)) || event::runs(n, out, event::r_none()) && exists|o: Seq<event::Event>| event::runs(a, o, end)
}
pub proof fn lemma_replace<S: event::Stream, N: event::Stream>(a: S, n: N, s: Replace<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.stream.stream.state.inner matches Some(modifier::CombineState::First(x, y)) && x == n && y.stream == a, event::runs(s, out, end),
    ensures replaced(a, n, out, end),
{
    lemma_replace_part(s, out, end);
    modifier::prepend::lemma_prepend_part(s.stream, out, end);
    let y = s.stream.stream.state.inner->0->First_1;
    modifier::lemma_combine(n, y, s.stream.stream, out, end);
    if !(end is Err && event::runs(n, out, end)) {
        let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(n, oa, event::r_none()) && #[trigger] event::runs(y, ob, end) && out == oa + ob;
        modifier::remove::lemma_remove(y, ob, end);
        assert(out =~= oa);
    }
}
@@ mod modifier::apply
/// the run of whichever stream was chosen
pub open spec fn either_run<S1: event::Stream, S2: event::Stream>(x: OneOf<S1, S2>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    match x { OneOf::First(a) => event::runs(a, out, end), OneOf::Second(a) => event::runs(a, out, end) }
}
pub open spec fn either_near<S1: event::Stream, S2: event::Stream>(x: OneOf<S1, S2>, out: Seq<event::Event>, y: OneOf<S1, S2>) -> bool {
    match x { OneOf::First(a) => y matches OneOf::First(b) && event::near(a, out, b), OneOf::Second(a) => y matches OneOf::Second(b) && event::near(a, out, b) }
}
pub proof fn lemma_either<S1: event::Stream, S2: event::Stream>(s: ApplyEither<S1, S2>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures either_run(s.stream, out, end),
{
    let a = s.stream;
    let inv = |x: ApplyEither<S1, S2>, o: Seq<event::Event>| either_near(a, o, x.stream);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| either_run(a, o, r);
    match a { OneOf::First(x) => event::lemma_near_start(x), OneOf::Second(x) => event::lemma_near_start(x) }
    assert forall|x: ApplyEither<S1, S2>, o: Seq<event::Event>, x2: ApplyEither<S1, S2>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        match a {
            OneOf::First(y) => event::lemma_near_step(y, o, x.stream->First_0, x2.stream->First_0, r),
            OneOf::Second(y) => event::lemma_near_step(y, o, x.stream->Second_0, x2.stream->Second_0, r),
        }
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the events of the template the function gives, or the error met
pub open spec fn apply_run<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(a, x) && match x {
        Err(e) => out.len() == 0 && end == event::r_err(e),
        Ok(t) => applied(f, t, out, end),
    }
}
pub open spec fn applied<B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(f: B, t: template::Template, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|y: Result<template::Template, event::StreamError>| #[trigger] call_ensures(f, (t,), y) && match y {
        Err(e) => out.len() == 0 && end == event::r_err(e),
        Ok(u) => template::holds(u.events@, out) && end == event::r_none(),
    }
}
pub open spec fn apply_emit<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, o: Seq<event::Event>, stream: template::TemplateStream) -> bool {
    exists|t: template::Template, u: template::Template| #[trigger] template::collected(a, Ok(t)) && #[trigger] call_ensures(f, (t,), Ok(u)) && template::part(u.events@, o, stream)
}
pub open spec fn apply_inv<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, n: Option<TemplateState<S, B>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(TemplateState::Collect { stream, builder }) => stream == a && builder == f && o.len() == 0,
        Some(TemplateState::Emit { stream }) => apply_emit(a, f, o, stream),
        None => false,
    }
}
pub proof fn lemma_apply_step<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, n: Option<TemplateState<S, B>>, n2: Option<TemplateState<S, B>>, o: Seq<event::Event>, r: event::StreamResult)
    requires apply_inv(a, f, n, o), n matches Some(t) ==> apply_step(t, n2, r),
    ensures
        event::is_noop(r) ==> apply_inv(a, f, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> apply_inv(a, f, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> apply_run(a, f, o, r),
{
    match n {
        Some(TemplateState::Collect { stream, builder }) => {
            let x = choose|x: Result<template::Template, event::StreamError>| #[trigger] template::collected(a, x) && match x {
                Err(e) => r == event::r_err(e),
                Ok(t) => exists|y: Result<template::Template, event::StreamError>| #[trigger] call_ensures(f, (t,), y) && match y {
                    Err(e) => r == event::r_err(e),
                    Ok(u) => event::is_noop(r) && (n2 matches Some(TemplateState::Emit { stream }) && stream.events == u.events && stream.index == 0),
                },
            };
            match x {
                Ok(t) => {
                    let y = choose|y: Result<template::Template, event::StreamError>| #[trigger] call_ensures(f, (t,), y) && match y {
                        Err(e) => r == event::r_err(e),
                        Ok(u) => event::is_noop(r) && (n2 matches Some(TemplateState::Emit { stream }) && stream.events == u.events && stream.index == 0),
                    };
                    match y {
                        Ok(u) => {
                            let s2 = n2->0->Emit_stream;
                            assert(o =~= Seq::empty());
                            template::lemma_part_start(u.events@, s2);
                            assert(template::collected(a, Ok(t)) && call_ensures(f, (t,), Ok(u)) && template::part(u.events@, o, s2));
                        },
                        Err(e) => { assert(applied(f, t, o, r)); },
                    }
                },
                Err(_) => {},
            }
        },
        Some(TemplateState::Emit { stream: s1 }) => {
            let s2 = choose|s2: template::TemplateStream| #[trigger] s1.trans(&s2, r) && (event::some_ev(r) ==> n2 == Some(TemplateState::<S, B>::Emit { stream: s2 }));
            let (t, u) = choose|t: template::Template, u: template::Template| #[trigger] template::collected(a, Ok(t)) && #[trigger] call_ensures(f, (t,), Ok(u)) && template::part(u.events@, o, s1);
            template::lemma_part_step(u.events@, o, s1, s2, r);
            if event::is_noop(r) { assert(template::collected(a, Ok(t)) && call_ensures(f, (t,), Ok(u)) && template::part(u.events@, o, s2)); }
            else if event::some_ev(r) { assert(template::collected(a, Ok(t)) && call_ensures(f, (t,), Ok(u)) && template::part(u.events@, o.push(r->Ok_0->0), s2)); }
            else { assert(applied(f, t, o, r)); }
        },
        None => {},
    }
}
pub proof fn lemma_apply<S: event::Stream, B: FnOnce(template::Template) -> Result<template::Template, event::StreamError>>(a: S, f: B, s: TemplateApply<S, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(TemplateState::Collect { stream: a, builder: f }), event::runs(s, out, end),
    ensures apply_run(a, f, out, end),
{
    let inv = |s: TemplateApply<S, B>, o: Seq<event::Event>| apply_inv(a, f, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| apply_run(a, f, o, r);
    assert forall|s: TemplateApply<S, B>, o: Seq<event::Event>, s2: TemplateApply<S, B>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_apply_step(a, f, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
