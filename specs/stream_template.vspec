@@ mod template
/// what collecting a stream may give
pub open spec fn collected<S: event::Stream>(stream: S, x: Result<Template, event::StreamError>) -> bool {
    match x {
        Ok(t) => event::runs(stream, t.events@, event::r_none()),
        Err(e) => event::fails(stream, e),
    }
}
@@ impl template::<Stream for TemplateStream>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        if self.index < self.events@.len() {
            r == event::r_some(self.events@[self.index as int]) && post.events == self.events && post.index == self.index + 1
        } else { r == event::r_none() && *post == *self }
    }
    open spec fn done(&self) -> bool { self.index >= self.events@.len() }
@@ fn template::<Stream for TemplateStream>::next_event
@start
    proof { assert(self.events@.len() == (*self.events).len()); }
@@ fn template::Template::from_stream
@sig
    ensures collected(stream, ret)
@attr
verifier::exec_allows_no_decreases_clause
@attr
verifier::loop_isolation(false)
@attr
verifier::allow_complex_invariants
@start
    let ghost s0 = stream;
@loop 0
    invariant_except_break event::reach(s0, events@, stream),
    ensures event::runs(s0, events@, event::r_none()),
@loopstart 0
    proof { event::lemma_reach_next(s0, events@, stream, event); }
@@ impl template::<IntoStream for rc::Rc<Template>>
    open spec fn stream_of(self, s: TemplateStream) -> bool { s.events == self.events && s.index == 0 }
@@ fn template::<IntoStream for rc::Rc<Template>>::into_stream
@@ impl template::<IntoStream for &Template>
    open spec fn stream_of(self, s: TemplateStream) -> bool { s.events == self.events && s.index == 0 }
@@ fn template::<IntoStream for &Template>::into_stream
@@ impl template::<IntoStream for Template>
    open spec fn stream_of(self, s: TemplateStream) -> bool { s.events == self.events && s.index == 0 }
@@ fn template::<IntoStream for Template>::into_stream
## The run of a template is its events, those without content left out.
@@ mod template
use crate::event::Stream as _;
/// the events with content
pub open spec fn solid(events: Seq<event::Event>) -> Seq<event::Event>
    decreases events.len(),
{
    if events.len() == 0 { Seq::empty() } else if events.last().v() is Noop { solid(events.drop_last()) } else { solid(events.drop_last()).push(events.last()) }
}
pub open spec fn holds(events: Seq<event::Event>, out: Seq<event::Event>) -> bool { out == solid(events) }
/// the stream has yielded the events up to its index
pub open spec fn part(events: Seq<event::Event>, o: Seq<event::Event>, s: TemplateStream) -> bool { s.events@ == events && s.index <= events.len() && o == solid(events.take(s.index as int)) }
pub proof fn lemma_part_start(events: Seq<event::Event>, s: TemplateStream)
    requires s.events@ == events, s.index == 0,
    ensures part(events, Seq::empty(), s),
{ assert(events.take(0).len() == 0); assert(solid(events.take(0)) =~= Seq::empty()); }
pub proof fn lemma_part_step(events: Seq<event::Event>, o: Seq<event::Event>, s: TemplateStream, s2: TemplateStream, r: event::StreamResult)
    requires part(events, o, s), s.trans(&s2, r),
    ensures
        event::is_noop(r) ==> part(events, o, s2),
        event::some_ev(r) && !event::is_noop(r) ==> part(events, o.push(r->Ok_0->0), s2),
        !event::some_ev(r) ==> holds(events, o) && r == event::r_none(),
{
    if s.index < events.len() {
        let k = s.index as int;
        assert(events.take(k + 1).drop_last() =~= events.take(k));
        assert(events.take(k + 1).last() == events[k]);
    } else { assert(events.take(s.index as int) =~= events); }
}
pub proof fn lemma_template_run(s: TemplateStream, out: Seq<event::Event>, end: event::StreamResult)
    requires s.index == 0, event::runs(s, out, end),
    ensures holds(s.events@, out), end == event::r_none(),
{
    let events = s.events@;
    let inv = |x: TemplateStream, o: Seq<event::Event>| part(events, o, x);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| holds(events, o) && r == event::r_none();
    lemma_part_start(events, s);
    assert forall|x: TemplateStream, o: Seq<event::Event>, x2: TemplateStream, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        lemma_part_step(events, o, x, x2, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
