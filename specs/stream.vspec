## Streams: the contract of the trait `Stream`, what a run of a stream is, errors of streams.
@@ mod event
/// the result is an event without content
pub open spec fn is_noop(r: StreamResult) -> bool { match r { Ok(Some(e)) => e.v() is Noop, _ => false } }
pub open spec fn some_ev(r: StreamResult) -> bool { match r { Ok(Some(_)) => true, _ => false } }
pub open spec fn r_none() -> StreamResult { Ok(None) }
pub open spec fn r_some(e: Event) -> StreamResult { Ok(Some(e)) }
pub open spec fn r_err(e: StreamError) -> StreamResult { Err(e) }
/// the view of a result
pub open spec fn res_v(r: StreamResult) -> Result<Option<EvV>, StreamError> { match r { Ok(Some(e)) => Ok(Some(e.v())), Ok(None) => Ok(None), Err(e) => Err(e) } }
/// `b` is `a` after `n` events without content
pub open spec fn noops_n<S: Stream + ?Sized>(n: nat, a: &S, b: &S) -> bool
    decreases n,
{
    if n == 0 { a == b } else { exists|m: &S, r: StreamResult| noops_n((n - 1) as nat, a, m) && #[trigger] m.trans(b, r) && is_noop(r) }
}
pub open spec fn noops<S: Stream + ?Sized>(a: &S, b: &S) -> bool { exists|n: nat| #[trigger] noops_n(n, a, b) }
/// `a` yields `r` and becomes `b`, events without content left out
pub open spec fn skips<S: Stream + ?Sized>(a: &S, b: &S, r: StreamResult) -> bool { exists|m: &S| #[trigger] noops(a, m) && m.trans(b, r) && !is_noop(r) }
pub proof fn lemma_noops_refl<S: Stream + ?Sized>(a: &S)
    ensures noops(a, a),
{ assert(noops_n(0, a, a)); }
pub proof fn lemma_noops_step<S: Stream + ?Sized>(a: &S, m: &S, b: &S, r: StreamResult)
    requires noops(a, m), m.trans(b, r), is_noop(r),
    ensures noops(a, b),
{
    let n = choose|n: nat| #[trigger] noops_n(n, a, m);
    assert(noops_n(n, a, m) && m.trans(b, r));
    assert(((n + 1) as nat - 1) as nat == n);
    assert(noops_n((n + 1) as nat, a, b));
}
pub open spec fn after_noop<S: Stream + ?Sized>(a: &S, b: &S) -> bool { exists|m: &S, r: StreamResult| #[trigger] noops(a, m) && #[trigger] m.trans(b, r) && is_noop(r) }
pub proof fn lemma_after_noop<S: Stream + ?Sized>(a: &S, b: &S)
    requires after_noop(a, b),
    ensures noops(a, b),
{
    let (m, r) = choose|m: &S, r: StreamResult| #[trigger] noops(a, m) && #[trigger] m.trans(b, r) && is_noop(r);
    lemma_noops_step(a, m, b, r);
}
/// `b` is `a` after `n` events
pub open spec fn walk_n<S: Stream + ?Sized>(n: nat, a: &S, b: &S) -> bool
    decreases n,
{
    if n == 0 { a == b } else { exists|m: &S, r: StreamResult| walk_n((n - 1) as nat, a, m) && #[trigger] m.trans(b, r) && some_ev(r) }
}
pub open spec fn walks<S: Stream + ?Sized>(a: &S, b: &S) -> bool { exists|n: nat| #[trigger] walk_n(n, a, b) }
pub open spec fn after_walk<S: Stream + ?Sized>(a: &S, b: &S) -> bool { exists|m: &S, r: StreamResult| #[trigger] walks(a, m) && #[trigger] m.trans(b, r) && some_ev(r) }
pub proof fn lemma_walks_refl<S: Stream + ?Sized>(a: &S)
    ensures walks(a, a),
{ assert(walk_n(0, a, a)); }
pub proof fn lemma_after_walk<S: Stream + ?Sized>(a: &S, b: &S)
    requires after_walk(a, b),
    ensures walks(a, b),
{
    let (m, r) = choose|m: &S, r: StreamResult| #[trigger] walks(a, m) && #[trigger] m.trans(b, r) && some_ev(r);
    let n = choose|n: nat| #[trigger] walk_n(n, a, m);
    assert(walk_n(n, a, m) && m.trans(b, r));
    assert(((n + 1) as nat - 1) as nat == n);
    assert(walk_n((n + 1) as nat, a, b));
}
/// `a` is taken to its end, which is `r`
pub open spec fn drains<S: Stream + ?Sized>(a: &S, b: &S, r: StreamResult) -> bool { exists|m: &S| #[trigger] walks(a, m) && m.trans(b, r) }
/// `b` is `a` after the events `out`, none of them without content
pub open spec fn reach<S: Stream>(a: S, out: Seq<Event>, b: S) -> bool
    decreases out.len(),
{
    if out.len() == 0 { a == b } else { exists|m: S| reach(a, out.drop_last(), m) && #[trigger] skips(&m, &b, r_some(out.last())) }
}
/// the stream yields the events `out` and then ends, or fails
pub open spec fn runs<S: Stream>(a: S, out: Seq<Event>, end: StreamResult) -> bool {
    !some_ev(end) && exists|m: S, p: S| #[trigger] reach(a, out, m) && #[trigger] skips(&m, &p, end)
}
/// the stream fails with the error
pub open spec fn fails<S: Stream>(a: S, e: StreamError) -> bool { exists|out: Seq<Event>, m: S, p: S| #[trigger] reach(a, out, m) && #[trigger] skips(&m, &p, r_err(e)) }
pub proof fn lemma_reach_push<S: Stream>(a: S, out: Seq<Event>, m: S, b: S, e: Event)
    requires reach(a, out, m), skips(&m, &b, r_some(e)),
    ensures reach(a, out.push(e), b),
{
    assert(out.push(e).drop_last() =~= out);
}
pub open spec fn reach_next<S: Stream>(a: S, out: Seq<Event>, b: S, e: Event) -> bool { exists|m: S| #[trigger] reach(a, out, m) && #[trigger] skips(&m, &b, r_some(e)) }
pub proof fn lemma_reach_next<S: Stream>(a: S, out: Seq<Event>, b: S, e: Event)
    requires reach_next(a, out, b, e),
    ensures reach(a, out.push(e), b),
{
    let m = choose|m: S| #[trigger] reach(a, out, m) && #[trigger] skips(&m, &b, r_some(e));
    lemma_reach_push(a, out, m, b, e);
}
pub open spec fn err_unexpected_close(tag: text::Identifier) -> StreamError { StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::UnexpectedClosingTag { tag } } } }
pub open spec fn err_expected_close(event: Option<Event>, tag: text::Identifier) -> StreamError { StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedClosingTag { event, tag } } } }
pub open spec fn err_expected_open(event: Option<Event>) -> StreamError { StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedOpeningTag { event } } } }
impl vstd::std_specs::convert::FromSpecImpl<template::InputError> for StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(error: template::InputError) -> StreamError { StreamError::Input { error } }
}
impl vstd::std_specs::convert::FromSpecImpl<template::FileError> for StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(error: template::FileError) -> StreamError { StreamError::File { error } }
}
impl vstd::std_specs::convert::FromSpecImpl<text::IdentifierError> for StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(error: text::IdentifierError) -> StreamError { StreamError::Identifier { error } }
}
@@ fn event::<From<template::InputError> for StreamError>::from
@outline template_inputerror_into
    ensures ret == <StreamError as vstd::std_specs::convert::FromSpec<template::InputError>>::from_spec(error)
@@ fn event::<From<template::FileError> for StreamError>::from
@outline template_fileerror_into
    ensures ret == <StreamError as vstd::std_specs::convert::FromSpec<template::FileError>>::from_spec(error)
@@ fn event::<From<text::IdentifierError> for StreamError>::from
@outline text_identifiererror_into
    ensures ret == <StreamError as vstd::std_specs::convert::FromSpec<text::IdentifierError>>::from_spec(error)
@@ fn event::StreamError::unexpected_close
@sig
    ensures ret == err_unexpected_close(tag)
@@ fn event::StreamError::missing_close
@sig
    ensures ret == err_expected_close(None, tag)
@@ fn event::StreamError::expected_close
@sig
    ensures ret == err_expected_close(event, tag)
@@ fn event::StreamError::expected_open
@sig
    ensures ret == err_expected_open(event)
@@ trait event::Stream
    /// the next event may be `r`, the stream being `post` after it
    spec fn trans(&self, post: &Self, r: StreamResult) -> bool;
    /// the stream is known to have ended
    spec fn done(&self) -> bool;
@split StreamExt
@@ fn event::Stream::next_event
@sig
    ensures
        old(self).trans(final(self), ret),
        old(self).done() ==> ret == r_none(),
        !some_ev(ret) ==> final(self).done(),
@@ fn event::Stream::next_event_skip_noop
@sig
    ensures
        skips(old(self), final(self), ret),
        old(self).done() ==> ret == r_none(),
        !some_ev(ret) ==> final(self).done(),
@attr
verifier::exec_allows_no_decreases_clause
@start
    proof { lemma_noops_refl(&*self); }
@loop 0
    invariant_except_break noops(old(self), self) || after_noop(old(self), self), old(self).done() ==> self.done(),
@loopstart 0
    proof { if after_noop(old(self), self) { lemma_after_noop(old(self), self); } }
@@ impl event::<Stream for Box>
    open spec fn trans(&self, post: &Self, r: StreamResult) -> bool { (**self).trans(&**post, r) }
    open spec fn done(&self) -> bool { (**self).done() }
@@ fn event::<Stream for Box>::next_event
@@ impl event::<Stream for rc::Rc<cell::RefCell<T>>>
    /// a use of the cell, some time after those the handle knows of, is a step of the stream in it
    open spec fn trans(&self, post: &Self, r: StreamResult) -> bool {
        crate::shim::cell::used(&**self, &**post) && crate::shim::cell::before::<T>(&**post).trans(crate::shim::cell::after::<T>(&**post), r)
    }
    /// whenever it is used from here on, the stream in it has ended
    open spec fn done(&self) -> bool { forall|j: int| j >= crate::shim::cell::cell_at(&**self) ==> (#[trigger] crate::shim::cell::held::<T>(crate::shim::cell::cell_id(&**self), j)).done() }
@@ fn event::<Stream for rc::Rc<cell::RefCell<T>>>::next_event
@tail
    // only streams are shared, and they are used as streams: one that has ended stays ended
    proof { assume(crate::shim::cell::after::<T>(&**self).done() ==> self.done()); }
@@ trait event::IntoStream
    /// the stream made of the value
    spec fn stream_of(self, s: Self::Stream) -> bool;
@@ fn event::IntoStream::into_stream
@sig
    ensures self.stream_of(ret)
@@ trait event::ElementStream
## Simulation: what every step of a stream keeps holds along its runs.
@@ mod event
/// after a step the predicate holds of the events yielded, or the run is what it should be
pub open spec fn next_kept<S: Stream>(inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool, o: Seq<Event>, s2: S, r: StreamResult) -> bool {
    &&& is_noop(r) ==> inv(s2, o)
    &&& some_ev(r) && !is_noop(r) ==> inv(s2, o.push(r->Ok_0->0))
    &&& !some_ev(r) ==> fin(o, r)
}
/// every step of the stream keeps the predicate on states and the events yielded so far
pub open spec fn kept<S: Stream>(inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool) -> bool {
    forall|s: S, o: Seq<Event>, s2: S, r: StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) ==> next_kept(inv, fin, o, s2, r)
}
pub proof fn lemma_noops_inv<S: Stream>(n: nat, a: S, b: S, o: Seq<Event>, inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool)
    requires inv(a, o), noops_n(n, &a, &b), kept(inv, fin),
    ensures inv(b, o),
    decreases n,
{
    if n > 0 {
        let (m, r) = choose|m: &S, r: StreamResult| noops_n((n - 1) as nat, &a, m) && #[trigger] m.trans(&b, r) && is_noop(r);
        lemma_noops_inv((n - 1) as nat, a, *m, o, inv, fin);
        assert(inv(*m, o) && (*m).trans(&b, r));
    }
}
pub proof fn lemma_skips_inv<S: Stream>(a: S, b: S, r: StreamResult, o: Seq<Event>, inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool)
    requires inv(a, o), skips(&a, &b, r), kept(inv, fin),
    ensures next_kept(inv, fin, o, b, r),
{
    let m = choose|m: &S| #[trigger] noops(&a, m) && m.trans(&b, r) && !is_noop(r);
    let n = choose|n: nat| #[trigger] noops_n(n, &a, m);
    lemma_noops_inv(n, a, *m, o, inv, fin);
    assert(inv(*m, o) && (*m).trans(&b, r));
}
pub proof fn lemma_sim<S: Stream>(a: S, out: Seq<Event>, b: S, inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool)
    requires inv(a, Seq::empty()), reach(a, out, b), kept(inv, fin),
    ensures inv(b, out),
    decreases out.len(),
{
    if out.len() == 0 { assert(out =~= Seq::empty()); }
    else {
        let m = choose|m: S| reach(a, out.drop_last(), m) && #[trigger] skips(&m, &b, r_some(out.last()));
        lemma_sim(a, out.drop_last(), m, inv, fin);
        lemma_skips_inv(m, b, r_some(out.last()), out.drop_last(), inv, fin);
        assert(out =~= out.drop_last().push(out.last()));
    }
}
/// a run of a stream whose steps keep the predicate is what it should be
pub proof fn lemma_run<S: Stream>(a: S, out: Seq<Event>, end: StreamResult, inv: spec_fn(S, Seq<Event>) -> bool, fin: spec_fn(Seq<Event>, StreamResult) -> bool)
    requires inv(a, Seq::empty()), runs(a, out, end), kept(inv, fin),
    ensures fin(out, end),
{
    let (m, p) = choose|m: S, p: S| #[trigger] reach(a, out, m) && #[trigger] skips(&m, &p, end);
    lemma_sim(a, out, m, inv, fin);
    lemma_skips_inv(m, p, end, out, inv, fin);
}
pub proof fn lemma_runs<S: Stream>(a: S, out: Seq<Event>, m: S, p: S, end: StreamResult)
    requires reach(a, out, m), skips(&m, &p, end), !some_ev(end),
    ensures runs(a, out, end),
{ }
/// one step that is not an event without content is a step with such events left out
pub proof fn lemma_skips_one<S: Stream>(a: S, b: S, r: StreamResult)
    requires a.trans(&b, r), !is_noop(r),
    ensures skips(&a, &b, r),
{ lemma_noops_refl(&a); }
/// what a stream is known to be after events without content
pub open spec fn near<S: Stream>(a: S, out: Seq<Event>, b: S) -> bool { exists|m: S| #[trigger] reach(a, out, m) && noops(&m, &b) }
pub proof fn lemma_near_start<S: Stream>(a: S)
    ensures near(a, Seq::empty(), a),
{ lemma_noops_refl(&a); assert(reach(a, Seq::empty(), a)); }
pub proof fn lemma_near_step<S: Stream>(a: S, out: Seq<Event>, b: S, c: S, r: StreamResult)
    requires near(a, out, b), b.trans(&c, r),
    ensures is_noop(r) ==> near(a, out, c), some_ev(r) && !is_noop(r) ==> near(a, out.push(r->Ok_0->0), c), !some_ev(r) ==> runs(a, out, r),
{
    let m = choose|m: S| #[trigger] reach(a, out, m) && noops(&m, &b);
    if is_noop(r) { lemma_noops_step(&m, &b, &c, r); }
    else {
        assert(noops(&m, &b) && b.trans(&c, r));
        assert(skips(&m, &c, r));
        if some_ev(r) { lemma_reach_push(a, out, m, c, r->Ok_0->0); lemma_noops_refl(&c); }
    }
}
pub proof fn lemma_near_skips<S: Stream>(a: S, out: Seq<Event>, b: S, c: S, r: StreamResult)
    requires near(a, out, b), skips(&b, &c, r),
    ensures !is_noop(r), some_ev(r) ==> near(a, out.push(r->Ok_0->0), c), !some_ev(r) ==> runs(a, out, r),
{
    let m = choose|m: &S| #[trigger] noops(&b, m) && m.trans(&c, r) && !is_noop(r);
    let n = choose|n: nat| #[trigger] noops_n(n, &b, m);
    lemma_near_noops(a, out, b, *m, n);
    lemma_near_step(a, out, *m, c, r);
}
pub proof fn lemma_near_noops<S: Stream>(a: S, out: Seq<Event>, b: S, c: S, n: nat)
    requires near(a, out, b), noops_n(n, &b, &c),
    ensures near(a, out, c),
    decreases n,
{
    if n > 0 {
        let (m, r) = choose|m: &S, r: StreamResult| noops_n((n - 1) as nat, &b, m) && #[trigger] m.trans(&c, r) && is_noop(r);
        lemma_near_noops(a, out, b, *m, (n - 1) as nat);
        lemma_near_step(a, out, *m, c, r);
    }
}
/// a stream taken to its end has a run
pub proof fn lemma_drains_runs<S: Stream>(a: S, b: S, end: StreamResult)
    requires drains(&a, &b, end), !some_ev(end),
    ensures exists|o: Seq<Event>| runs(a, o, end),
{
    let m = choose|m: &S| #[trigger] walks(&a, m) && m.trans(&b, end);
    let n = choose|n: nat| #[trigger] walk_n(n, &a, m);
    lemma_walk_near(a, *m, n);
    let o = choose|o: Seq<Event>| near(a, o, *m);
    lemma_near_step(a, o, *m, b, end);
}
pub proof fn lemma_walk_near<S: Stream>(a: S, b: S, n: nat)
    requires walk_n(n, &a, &b),
    ensures exists|o: Seq<Event>| near(a, o, b),
    decreases n,
{
    if n == 0 { lemma_near_start(a); }
    else {
        let (m, r) = choose|m: &S, r: StreamResult| walk_n((n - 1) as nat, &a, m) && #[trigger] m.trans(&b, r) && some_ev(r);
        lemma_walk_near(a, *m, (n - 1) as nat);
        let o = choose|o: Seq<Event>| near(a, o, *m);
        lemma_near_step(a, o, *m, b, r);
        if is_noop(r) { assert(near(a, o, b)); } else { assert(near(a, o.push(r->Ok_0->0), b)); }
    }
}
