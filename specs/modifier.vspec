## The state machinery of the transforms and the combinators of modifier/mod.rs.
@@ mod modifier
/// a stream held as `State<T>`: without a state it yields nothing, and it keeps none once it has ended
pub open spec fn fused<T>(pre: State<T>, post: State<T>, r: event::StreamResult) -> bool {
    match pre.inner { None => r == event::r_none() && post.inner is None, Some(_) => event::some_ev(r) || post.inner is None }
}
impl<T> State<T> {
    pub open spec fn over(self) -> bool { self.inner is None }
}
impl Level {
    /// the level after an event
    pub open spec fn after(self, e: event::Event) -> Result<Level, event::StreamError> {
        match e.0 {
            event::EventKind::OpeningTag { .. } => Ok(Level { depth: (self.depth + 1) as usize }),
            event::EventKind::ClosingTag { tag } => if self.depth == 0 { Err(event::err_unexpected_close(tag)) } else { Ok(Level { depth: (self.depth - 1) as usize }) },
            _ => Ok(self),
        }
    }
}
pub open spec fn fallible_step<S: event::Stream>(t: FallibleState<S>, n: Option<FallibleState<S>>, r: event::StreamResult) -> bool {
    match t {
        FallibleState::Start { result: Ok(s) } => event::is_noop(r) && n == Some(FallibleState::Emit { stream: s }),
        FallibleState::Start { result: Err(e) } => r == event::r_err(e),
        FallibleState::Emit { stream: s } => exists|s2: S| #[trigger] s.trans(&s2, r) && (event::some_ev(r) ==> n == Some(FallibleState::Emit { stream: s2 })),
    }
}
pub open spec fn expand_step<S: event::Stream>(t: ExpandState<S>, n: Option<ExpandState<S>>, r: event::StreamResult) -> bool {
    match t {
        ExpandState::Start { stream: s } => exists|s2: S, q: event::StreamResult| #[trigger] event::skips(&s, &s2, q) && match q {
            Ok(Some(e)) => match e.0 {
                event::EventKind::OpeningTag { .. } => r == q && n == Some(ExpandState::EmitStream { stream: s2 }),
                event::EventKind::SelfClosedTag { tag, attributes } => r == event::r_some(event::Event(event::EventKind::OpeningTag { tag, attributes })) && n == Some(ExpandState::<S>::EmitClosingTag { tag }),
                event::EventKind::VoidTag { .. } => r == q && n is None,
                _ => r == event::r_err(event::err_expected_open(Some(e))),
            },
            Ok(None) => r == event::r_err(event::err_expected_open(None)),
            Err(_) => r == q,
        },
        ExpandState::EmitStream { stream: s } => exists|s2: S| #[trigger] s.trans(&s2, r) && (event::some_ev(r) ==> n == Some(ExpandState::EmitStream { stream: s2 })),
        ExpandState::EmitClosingTag { tag } => r == event::r_some(event::Event(event::EventKind::ClosingTag { tag })) && n is None,
    }
}
pub open spec fn combine_step<A: event::Stream, B: event::Stream>(t: CombineState<A, B>, n: Option<CombineState<A, B>>, r: event::StreamResult) -> bool {
    match t {
        CombineState::First(a, b) => exists|a2: A, q: event::StreamResult| #[trigger] event::skips(&a, &a2, q) && match q {
            Ok(Some(_)) => r == q && n == Some(CombineState::First(a2, b)),
            Ok(None) => event::is_noop(r) && n == Some(CombineState::<A, B>::Second(b)),
            Err(_) => r == q,
        },
        CombineState::Second(b) => exists|b2: B| #[trigger] event::skips(&b, &b2, r) && (event::some_ev(r) ==> n == Some(CombineState::<A, B>::Second(b2))),
    }
}
@@ fn modifier::Level::new
@sig
    ensures ret.depth == 0
@@ fn modifier::Level::is_top_level
@sig
    ensures ret == (self.depth == 0)
@@ fn modifier::Level::adjust
@sig
    ensures ret == self.after(*event)
@start
    // a stream yields fewer than 2^64 events
    proof { assume(self.depth < usize::MAX); }
@@ fn modifier::State::new
@sig
    ensures ret.inner == Some(inner)
@@ fn modifier::Fallible::new
@sig
    ensures ret.state.inner == Some(FallibleState::Start { result })
@@ impl modifier::<ElementStream for Fallible>
@@ impl modifier::<Stream for Fallible>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> fallible_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::<Stream for Fallible>::next_event
@@ fn modifier::Expand::new
@sig
    ensures ret.state.inner == Some(ExpandState::Start { stream })
@@ impl modifier::<ElementStream for Expand>
@@ impl modifier::<Stream for Expand>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> expand_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::<Stream for Expand>::next_event
@@ fn modifier::Combine::new
@sig
    ensures ret.state.inner == Some(CombineState::First(stream1, stream2))
@@ impl modifier::<Stream for Combine>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> combine_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::<Stream for Combine>::next_event
@@ fn modifier::Derived::new
@sig
    ensures ret.stream == stream
@@ impl modifier::<ElementStream for Derived>
@@ impl modifier::<Stream for Derived>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::<Stream for Derived>::next_event
@@ fn modifier::Peek::new
@sig
    ensures ret.stream == stream, ret.buffered is None
@@ fn modifier::Peek::peek
@sig
    requires forall|e: &event::Event| #[trigger] call_requires(peeker, (e,)),
    ensures match ret {
        Ok(Some(x)) => final(self).buffered matches Some(e) && call_ensures(peeker, (&e,), x) && match old(self).buffered {
            Some(_) => *final(self) == *old(self),
            None => event::skips(&old(self).stream, &final(self).stream, event::r_some(e)),
        },
        Ok(None) => final(self).buffered is None && old(self).buffered is None && event::skips(&old(self).stream, &final(self).stream, event::r_none()),
        Err(x) => final(self).buffered is None && old(self).buffered is None && event::skips(&old(self).stream, &final(self).stream, event::r_err(x)),
    }
@@ impl modifier::<ElementStream for Peek>
@@ impl modifier::<Stream for Peek>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        post.buffered is None && match self.buffered {
            Some(e) => r == event::r_some(e) && post.stream == self.stream,
            None => event::skips(&self.stream, &post.stream, r),
        }
    }
    open spec fn done(&self) -> bool { self.buffered is None && self.stream.done() }
@@ fn modifier::<Stream for Peek>::next_event
## What the runs of the combinators are.
@@ mod modifier
use crate::event::Stream as _;
/// the events of the first stream, then those of the second; or the first one's error
pub open spec fn in_order<A: event::Stream, B: event::Stream>(a: A, b: B, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    (end is Err && event::runs(a, out, end)) || exists|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(a, oa, event::r_none()) && #[trigger] event::runs(b, ob, end) && out == oa + ob
}
pub open spec fn in_second<A: event::Stream, B: event::Stream>(a: A, b: B, o: Seq<event::Event>, b2: B) -> bool {
    exists|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(a, oa, event::r_none()) && #[trigger] event::near(b, ob, b2) && o == oa + ob
}
pub open spec fn combine_inv<A: event::Stream, B: event::Stream>(a: A, b: B, s: Combine<A, B>, o: Seq<event::Event>) -> bool {
    match s.state.inner {
        Some(CombineState::First(a2, b2)) => b2 == b && event::near(a, o, a2),
        Some(CombineState::Second(b2)) => in_second(a, b, o, b2),
        None => false,
    }
}
pub proof fn lemma_second<A: event::Stream, B: event::Stream>(a: A, b: B, s: Combine<A, B>, oa: Seq<event::Event>, ob: Seq<event::Event>, b2: B)
    requires s.state.inner == Some(CombineState::<A, B>::Second(b2)), event::runs(a, oa, event::r_none()), event::near(b, ob, b2),
    ensures combine_inv(a, b, s, oa + ob),
{ }
pub proof fn lemma_combine<A: event::Stream, B: event::Stream>(a: A, b: B, s: Combine<A, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(CombineState::First(a, b)), event::runs(s, out, end),
    ensures in_order(a, b, out, end),
{
    let inv = |s: Combine<A, B>, o: Seq<event::Event>| combine_inv(a, b, s, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| in_order(a, b, o, r);
    event::lemma_near_start(a);
    assert forall|s: Combine<A, B>, o: Seq<event::Event>, s2: Combine<A, B>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_combine_step(a, b, s, s2, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_combine_step<A: event::Stream, B: event::Stream>(a: A, b: B, s: Combine<A, B>, s2: Combine<A, B>, o: Seq<event::Event>, r: event::StreamResult)
    requires combine_inv(a, b, s, o), s.trans(&s2, r),
    ensures
        event::is_noop(r) ==> combine_inv(a, b, s2, o),
        event::some_ev(r) && !event::is_noop(r) ==> combine_inv(a, b, s2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> in_order(a, b, o, r),
{
    match s.state.inner {
        Some(CombineState::First(a1, b1)) => {
            let (a2, q) = choose|a2: A, q: event::StreamResult| #[trigger] event::skips(&a1, &a2, q) && match q {
                Ok(Some(_)) => r == q && s2.state.inner == Some(CombineState::First(a2, b)),
                Ok(None) => event::is_noop(r) && s2.state.inner == Some(CombineState::<A, B>::Second(b)),
                Err(_) => r == q,
            };
            event::lemma_near_skips(a, o, a1, a2, q);
            event::lemma_near_start(b);
            match q {
                Ok(Some(e)) => { assert(r == q); assert(s2.state.inner == Some(CombineState::First(a2, b))); assert(r->Ok_0->0 == e); },
                Ok(None) => {
                    assert(o =~= o + Seq::empty());
                    assert(event::runs(a, o, event::r_none()) && event::near(b, Seq::empty(), b));
                    assert(s2.state.inner == Some(CombineState::<A, B>::Second(b)));
                    lemma_second(a, b, s2, o, Seq::empty(), b);
                },
                Err(_) => {},
            }
        },
        Some(CombineState::Second(b1)) => {
            let b2 = choose|b2: B| #[trigger] event::skips(&b1, &b2, r) && (event::some_ev(r) ==> s2.state.inner == Some(CombineState::<A, B>::Second(b2)));
            let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(a, oa, event::r_none()) && #[trigger] event::near(b, ob, b1) && o == oa + ob;
            event::lemma_near_skips(b, ob, b1, b2, r);
            if event::some_ev(r) {
                assert(o.push(r->Ok_0->0) =~= oa + ob.push(r->Ok_0->0));
                lemma_second(a, b, s2, oa, ob.push(r->Ok_0->0), b2);
            } else { assert(event::runs(a, oa, event::r_none()) && event::runs(b, ob, r) && o == oa + ob); }
        },
        None => {},
    }
}
/// a failed part yields its error and nothing else; otherwise the part's events are yielded
pub open spec fn fallible_run<S: event::Stream>(x: Result<S, event::StreamError>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    match x { Ok(s) => event::runs(s, out, end), Err(e) => out.len() == 0 && end == event::r_err(e) }
}
pub open spec fn fallible_inv<S: event::Stream>(x: Result<S, event::StreamError>, s: Fallible<S>, o: Seq<event::Event>) -> bool {
    match s.state.inner {
        Some(FallibleState::Start { result }) => result == x && o.len() == 0,
        Some(FallibleState::Emit { stream }) => x matches Ok(y) && event::near(y, o, stream),
        None => false,
    }
}
pub proof fn lemma_fallible_step<S: event::Stream>(x: Result<S, event::StreamError>, s: Fallible<S>, s2: Fallible<S>, o: Seq<event::Event>, r: event::StreamResult)
    requires fallible_inv(x, s, o), s.trans(&s2, r),
    ensures
        event::is_noop(r) ==> fallible_inv(x, s2, o),
        event::some_ev(r) && !event::is_noop(r) ==> fallible_inv(x, s2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> fallible_run(x, o, r),
{
    match s.state.inner {
        Some(FallibleState::Start { result: Ok(y) }) => { event::lemma_near_start(y); assert(o =~= Seq::empty()); },
        Some(FallibleState::Emit { stream: y1 }) => {
            let y2 = choose|y2: S| #[trigger] y1.trans(&y2, r) && (event::some_ev(r) ==> s2.state.inner == Some(FallibleState::Emit { stream: y2 }));
            event::lemma_near_step(x->Ok_0, o, y1, y2, r);
        },
        _ => {},
    }
}
pub proof fn lemma_fallible<S: event::Stream>(x: Result<S, event::StreamError>, s: Fallible<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(FallibleState::Start { result: x }), event::runs(s, out, end),
    ensures fallible_run(x, out, end),
{
    let inv = |s: Fallible<S>, o: Seq<event::Event>| fallible_inv(x, s, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| fallible_run(x, o, r);
    assert forall|s: Fallible<S>, o: Seq<event::Event>, s2: Fallible<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_fallible_step(x, s, s2, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// the events are those of the part
pub proof fn lemma_derived_part<S: event::Stream, D>(s: Derived<S, D>, out: Seq<event::Event>, end: event::StreamResult)
    requires event::runs(s, out, end),
    ensures event::runs(s.stream, out, end),
{
    let a = s.stream;
    let inv = |x: Derived<S, D>, o: Seq<event::Event>| event::near(a, o, x.stream);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| event::runs(a, o, r);
    event::lemma_near_start(a);
    assert forall|x: Derived<S, D>, o: Seq<event::Event>, x2: Derived<S, D>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        event::lemma_near_step(a, o, x.stream, x2.stream, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// what a run of an opened up element is: a self-closed element becomes an opening and a closing tag
pub open spec fn expand_run<S: event::Stream>(x: S, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    ||| event::runs(x, out, end) && out.len() > 0 && out[0].v() is Open
    ||| self_closed_run(x, out) && end == event::r_none()
    ||| void_run(x, out) && end == event::r_none()
    ||| out.len() == 0 && attribute::no_start(x, end)
}
pub open spec fn expand_inv<S: event::Stream>(x: S, n: Option<ExpandState<S>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(ExpandState::Start { stream }) => stream == x && o.len() == 0,
        Some(ExpandState::EmitStream { stream }) => event::near(x, o, stream) && o.len() > 0 && o[0].v() is Open,
        Some(ExpandState::EmitClosingTag { tag }) => half_run(x, o, tag),
        None => self_closed_run(x, o) || void_run(x, o),
    }
}
pub open spec fn void_run<S: event::Stream>(x: S, out: Seq<event::Event>) -> bool {
    out.len() == 1 && out[0].v() is Void && exists|b: S| #[trigger] event::skips(&x, &b, event::r_some(out[0]))
}
/// the element is self-closed, its opening tag is yielded
pub open spec fn half_run<S: event::Stream>(x: S, o: Seq<event::Event>, tag: text::Identifier) -> bool {
    exists|e: event::Event, b: S| #[trigger] event::skips(&x, &b, event::r_some(e)) && opened(e, o, tag)
}
pub open spec fn opened(e: event::Event, o: Seq<event::Event>, tag: text::Identifier) -> bool {
    o.len() == 1 && (e.0 matches event::EventKind::SelfClosedTag { tag: t, attributes } && t == tag && o[0] == event::Event(event::EventKind::OpeningTag { tag, attributes }))
}
pub open spec fn self_closed_run<S: event::Stream>(x: S, out: Seq<event::Event>) -> bool {
    exists|tag: text::Identifier| #[trigger] half_run(x, out.drop_last(), tag) && out.len() == 2 && out[1] == event::Event(event::EventKind::ClosingTag { tag })
}
pub proof fn lemma_expand_start<S: event::Stream>(x: S, n2: Option<ExpandState<S>>, o: Seq<event::Event>, r: event::StreamResult)
    requires expand_step(ExpandState::Start { stream: x }, n2, r), o.len() == 0,
    ensures !event::is_noop(r), event::some_ev(r) ==> expand_inv(x, n2, o.push(r->Ok_0->0)), !event::some_ev(r) ==> attribute::no_start(x, r),
{
    let (s2, q) = choose|s2: S, q: event::StreamResult| #[trigger] event::skips(&x, &s2, q) && match q {
        Ok(Some(e)) => match e.0 {
            event::EventKind::OpeningTag { .. } => r == q && n2 == Some(ExpandState::EmitStream { stream: s2 }),
            event::EventKind::SelfClosedTag { tag, attributes } => r == event::r_some(event::Event(event::EventKind::OpeningTag { tag, attributes })) && n2 == Some(ExpandState::<S>::EmitClosingTag { tag }),
            event::EventKind::VoidTag { .. } => r == q && n2 is None,
            _ => r == event::r_err(event::err_expected_open(Some(e))),
        },
        Ok(None) => r == event::r_err(event::err_expected_open(None)),
        Err(_) => r == q,
    };
    event::lemma_near_start(x);
    event::lemma_near_skips(x, Seq::empty(), x, s2, q);
    if event::some_ev(r) {
        let e = q->Ok_0->0;
        assert(q == event::r_some(e));
        let out = o.push(r->Ok_0->0);
        assert(Seq::empty().push(e) =~= seq![e]);
        assert(out =~= seq![r->Ok_0->0]);
        if e.v() is SelfClosed { assert(opened(e, out, n2->0->EmitClosingTag_tag)); }
    } else { assert(attribute::no_start(x, r)); }
}
pub proof fn lemma_expand_step<S: event::Stream>(x: S, n: Option<ExpandState<S>>, n2: Option<ExpandState<S>>, o: Seq<event::Event>, r: event::StreamResult)
    requires expand_inv(x, n, o), match n { None => r == event::r_none(), Some(t) => expand_step(t, n2, r) },
    ensures
        event::is_noop(r) ==> expand_inv(x, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> expand_inv(x, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> expand_run(x, o, r),
{
    match n {
        Some(ExpandState::Start { stream }) => lemma_expand_start(x, n2, o, r),
        Some(ExpandState::EmitStream { stream: s1 }) => {
            let s2 = choose|s2: S| #[trigger] s1.trans(&s2, r) && (event::some_ev(r) ==> n2 == Some(ExpandState::EmitStream { stream: s2 }));
            event::lemma_near_step(x, o, s1, s2, r);
        },
        Some(ExpandState::EmitClosingTag { tag }) => { assert(o.push(r->Ok_0->0).drop_last() =~= o); assert(self_closed_run(x, o.push(r->Ok_0->0))); },
        None => {},
    }
}
pub proof fn lemma_expand<S: event::ElementStream>(x: S, s: Expand<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(ExpandState::Start { stream: x }), event::runs(s, out, end),
    ensures expand_run(x, out, end),
{
    let inv = |s: Expand<S>, o: Seq<event::Event>| expand_inv(x, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| expand_run(x, o, r);
    assert forall|s: Expand<S>, o: Seq<event::Event>, s2: Expand<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_expand_step(x, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
