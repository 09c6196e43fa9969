## modifier/attribute.rs: each operation changes the first event of the element only.
@@ mod modifier::attribute
use crate::event::Stream as _;
pub open spec fn attr_step<S: event::Stream, D>(t: State<S, D>, n: Option<State<S, D>>, r: event::StreamResult, modify: spec_fn(Seq<AttrV>, D) -> Seq<AttrV>) -> bool {
    match t {
        State::Start { stream: s, data } => exists|s2: S, q: event::StreamResult| #[trigger] event::skips(&s, &s2, q) && match q {
            Ok(Some(e)) => match e.0 {
                event::EventKind::OpeningTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::Open(tag@, modify(attributes.v(), data)))) && n == Some(State::<S, D>::Emit { stream: s2 }),
                event::EventKind::SelfClosedTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::SelfClosed(tag@, modify(attributes.v(), data)))) && n is None,
                event::EventKind::VoidTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::Void(tag@, modify(attributes.v(), data)))) && n is None,
                _ => r == event::r_err(event::err_expected_open(Some(e))),
            },
            Ok(None) => r == event::r_err(event::err_expected_open(None)),
            Err(_) => r == q,
        },
        State::Emit { stream: s } => exists|s2: S| #[trigger] s.trans(&s2, r) && (event::some_ev(r) ==> n == Some(State::<S, D>::Emit { stream: s2 })),
    }
}
pub open spec fn remove_class_of() -> spec_fn(Seq<AttrV>, text::Identifier) -> Seq<AttrV> { |a: Seq<AttrV>, d: text::Identifier| a_rm_class(a, d@) }
pub open spec fn remove_attribute_of() -> spec_fn(Seq<AttrV>, text::Identifier) -> Seq<AttrV> { |a: Seq<AttrV>, d: text::Identifier| a_without(a, d@) }
pub open spec fn add_attribute_of() -> spec_fn(Seq<AttrV>, (text::Identifier, Option<text::Value>)) -> Seq<AttrV> { |a: Seq<AttrV>, d: (text::Identifier, Option<text::Value>)| a.push(AttrV { name: d.0@, value: opt_v(d.1) }) }
pub open spec fn replace_attribute_of() -> spec_fn(Seq<AttrV>, (text::Identifier, Option<text::Value>)) -> Seq<AttrV> { |a: Seq<AttrV>, d: (text::Identifier, Option<text::Value>)| a_replace(a, d.0@, opt_v(d.1)) }
pub open spec fn set_attribute_of() -> spec_fn(Seq<AttrV>, (text::Identifier, Option<text::Value>)) -> Seq<AttrV> { |a: Seq<AttrV>, d: (text::Identifier, Option<text::Value>)| a_set(a, d.0@, opt_v(d.1)) }
pub open spec fn add_to_attribute_of() -> spec_fn(Seq<AttrV>, (text::Identifier, text::Value, text::Value)) -> Seq<AttrV> { |a: Seq<AttrV>, d: (text::Identifier, text::Value, text::Value)| a_add_to(a, d.0@, d.1@, d.2@) }
pub open spec fn opt_v(x: Option<text::Value>) -> Option<Seq<char>> { match x { Some(x) => Some(x@), None => None } }
@@ impl modifier::attribute::<ElementStream for RemoveClass>
@@ impl modifier::attribute::<Stream for RemoveClass>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, remove_class_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for RemoveClass>::next_event
@@ fn modifier::attribute::RemoveClass::new
@sig
    ensures ret.state.inner == Some(State::<S, text::Identifier>::Start { stream, data: name })
@@ impl modifier::attribute::<ElementStream for RemoveAttribute>
@@ impl modifier::attribute::<Stream for RemoveAttribute>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, remove_attribute_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for RemoveAttribute>::next_event
@@ fn modifier::attribute::RemoveAttribute::new
@sig
    ensures ret.state.inner == Some(State::<S, text::Identifier>::Start { stream, data: name })
@@ impl modifier::attribute::<ElementStream for AddAttribute>
@@ impl modifier::attribute::<Stream for AddAttribute>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, add_attribute_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for AddAttribute>::next_event
@@ fn modifier::attribute::AddAttribute::new
@sig
    ensures ret.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream, data: (name, value) })
@@ impl modifier::attribute::<ElementStream for ReplaceAttribute>
@@ impl modifier::attribute::<Stream for ReplaceAttribute>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, replace_attribute_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for ReplaceAttribute>::next_event
@@ fn modifier::attribute::ReplaceAttribute::new
@sig
    ensures ret.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream, data: (name, value) })
@@ impl modifier::attribute::<ElementStream for SetAttribute>
@@ impl modifier::attribute::<Stream for SetAttribute>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, set_attribute_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for SetAttribute>::next_event
@@ fn modifier::attribute::SetAttribute::new
@sig
    ensures ret.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream, data: (name, value) })
@@ impl modifier::attribute::<ElementStream for AddToAttribute>
@@ impl modifier::attribute::<Stream for AddToAttribute>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r)
            && (self.state.inner matches Some(t) ==> attr_step(t, post.state.inner, r, add_to_attribute_of()))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::attribute::<Stream for AddToAttribute>::next_event
@@ fn modifier::attribute::AddToAttribute::new
@sig
    ensures ret.state.inner == Some(State::<S, (text::Identifier, text::Value, text::Value)>::Start { stream, data: (name, value, separator) })
## What a run of an attribute operation is: the first event with its attributes changed, then the rest of the element as it was.
@@ mod modifier::attribute
/// the start of an element with its attributes changed, nothing else of it
pub open spec fn start_changed(a: EvV, b: EvV, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>) -> bool {
    match a {
        EvV::Open(t, x) => b == EvV::Open(t, f(x)),
        EvV::SelfClosed(t, x) => b == EvV::SelfClosed(t, f(x)),
        EvV::Void(t, x) => b == EvV::Void(t, f(x)),
        _ => false,
    }
}
/// the events of the element with the attributes of its start changed
pub open spec fn first_changed(src: Seq<event::Event>, out: Seq<event::Event>, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>) -> bool {
    src.len() == out.len() && src.len() > 0 && start_changed(src[0].v(), out[0].v(), f) && out.skip(1) == src.skip(1)
}
pub open spec fn open_run<S: event::Stream>(x: S, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>, out: Seq<event::Event>, b: S) -> bool {
    exists|src: Seq<event::Event>| #[trigger] event::near(x, src, b) && first_changed(src, out, f) && src[0].v() is Open
}
pub open spec fn open_end<S: event::Stream>(x: S, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|src: Seq<event::Event>| #[trigger] event::runs(x, src, end) && first_changed(src, out, f) && src[0].v() is Open
}
pub open spec fn single_run<S: event::Stream>(x: S, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>, out: Seq<event::Event>) -> bool {
    exists|e: event::Event, b: S| #[trigger] event::skips(&x, &b, event::r_some(e)) && first_changed(seq![e], out, f) && !(e.v() is Open)
}
/// the element stream fails, or does not begin with the start of an element
pub open spec fn no_start<S: event::Stream>(x: S, end: event::StreamResult) -> bool {
    exists|q: event::StreamResult, b: S| #[trigger] event::skips(&x, &b, q) && match q {
        Ok(Some(e)) => !(e.v() is Open) && !(e.v() is SelfClosed) && !(e.v() is Void) && end == event::r_err(event::err_expected_open(Some(e))),
        Ok(None) => end == event::r_err(event::err_expected_open(None)),
        Err(_) => end == q,
    }
}
/// what a run of an attribute operation is
pub open spec fn attr_run<S: event::Stream>(x: S, f: spec_fn(Seq<AttrV>) -> Seq<AttrV>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    ||| open_end(x, f, out, end)
    ||| single_run(x, f, out) && end == event::r_none()
    ||| out.len() == 0 && no_start(x, end)
}
pub open spec fn attr_inv<S: event::Stream, D>(x: S, d: D, modify: spec_fn(Seq<AttrV>, D) -> Seq<AttrV>, n: Option<State<S, D>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(State::Start { stream, data }) => stream == x && data == d && o.len() == 0,
        Some(State::Emit { stream }) => open_run(x, |a: Seq<AttrV>| modify(a, d), o, stream),
        None => single_run(x, |a: Seq<AttrV>| modify(a, d), o),
    }
}
pub proof fn lemma_start_step<S: event::Stream, D>(x: S, d: D, modify: spec_fn(Seq<AttrV>, D) -> Seq<AttrV>, n2: Option<State<S, D>>, o: Seq<event::Event>, r: event::StreamResult)
    requires attr_step(State::Start { stream: x, data: d }, n2, r, modify), o.len() == 0,
    ensures
        !event::is_noop(r),
        event::some_ev(r) ==> attr_inv(x, d, modify, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> no_start(x, r),
{
    let f = |a: Seq<AttrV>| modify(a, d);
    let (s2, q) = choose|s2: S, q: event::StreamResult| #[trigger] event::skips(&x, &s2, q) && match q {
        Ok(Some(e)) => match e.0 {
            event::EventKind::OpeningTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::Open(tag@, modify(attributes.v(), d)))) && n2 == Some(State::<S, D>::Emit { stream: s2 }),
            event::EventKind::SelfClosedTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::SelfClosed(tag@, modify(attributes.v(), d)))) && n2 is None,
            event::EventKind::VoidTag { tag, attributes } => event::res_v(r) == Ok::<Option<EvV>, event::StreamError>(Some(EvV::Void(tag@, modify(attributes.v(), d)))) && n2 is None,
            _ => r == event::r_err(event::err_expected_open(Some(e))),
        },
        Ok(None) => r == event::r_err(event::err_expected_open(None)),
        Err(_) => r == q,
    };
    event::lemma_near_start(x);
    event::lemma_near_skips(x, Seq::empty(), x, s2, q);
    if event::some_ev(r) {
        let e = q->Ok_0->0;
        let src = seq![e];
        assert(q == event::r_some(e));
        assert(Seq::empty().push(e) =~= src);
        let out = o.push(r->Ok_0->0);
        assert(out.skip(1) =~= src.skip(1));
        assert(first_changed(src, out, f));
        if e.v() is Open { assert(event::near(x, src, s2)); assert(open_run(x, f, out, s2)); }
        else { assert(single_run(x, f, out)); }
    } else { assert(no_start(x, r)); }
}
pub proof fn lemma_attr_step<S: event::Stream, D>(x: S, d: D, modify: spec_fn(Seq<AttrV>, D) -> Seq<AttrV>, n: Option<State<S, D>>, n2: Option<State<S, D>>, o: Seq<event::Event>, r: event::StreamResult)
    requires attr_inv(x, d, modify, n, o), match n { None => r == event::r_none(), Some(t) => attr_step(t, n2, r, modify) },
    ensures
        event::is_noop(r) ==> attr_inv(x, d, modify, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> attr_inv(x, d, modify, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> attr_run(x, |a: Seq<AttrV>| modify(a, d), o, r),
{
    let f = |a: Seq<AttrV>| modify(a, d);
    match n {
        Some(State::Start { stream, data }) => lemma_start_step(x, d, modify, n2, o, r),
        Some(State::Emit { stream: s1 }) => {
            let s2 = choose|s2: S| #[trigger] s1.trans(&s2, r) && (event::some_ev(r) ==> n2 == Some(State::<S, D>::Emit { stream: s2 }));
            let src = choose|src: Seq<event::Event>| #[trigger] event::near(x, src, s1) && first_changed(src, o, f) && src[0].v() is Open;
            event::lemma_near_step(x, src, s1, s2, r);
            if event::some_ev(r) {
                let e = r->Ok_0->0;
                assert(o.push(e).skip(1) =~= o.skip(1).push(e));
                assert(src.push(e).skip(1) =~= src.skip(1).push(e));
                assert(first_changed(src.push(e), o.push(e), f));
                if event::is_noop(r) { assert(open_run(x, f, o, s2)); } else { assert(open_run(x, f, o.push(e), s2)); }
            } else { assert(open_end(x, f, o, r)); }
        },
        None => {},
    }
}
pub proof fn lemma_remove_class<S: event::ElementStream>(x: S, d: text::Identifier, s: RemoveClass<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, text::Identifier>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| remove_class_of()(a, d), out, end),
{
    let inv = |s: RemoveClass<S>, o: Seq<event::Event>| attr_inv(x, d, remove_class_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| remove_class_of()(a, d), o, r);
    assert forall|s: RemoveClass<S>, o: Seq<event::Event>, s2: RemoveClass<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, remove_class_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_remove_attribute<S: event::ElementStream>(x: S, d: text::Identifier, s: RemoveAttribute<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, text::Identifier>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| remove_attribute_of()(a, d), out, end),
{
    let inv = |s: RemoveAttribute<S>, o: Seq<event::Event>| attr_inv(x, d, remove_attribute_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| remove_attribute_of()(a, d), o, r);
    assert forall|s: RemoveAttribute<S>, o: Seq<event::Event>, s2: RemoveAttribute<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, remove_attribute_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_add_attribute<S: event::ElementStream>(x: S, d: (text::Identifier, Option<text::Value>), s: AddAttribute<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| add_attribute_of()(a, d), out, end),
{
    let inv = |s: AddAttribute<S>, o: Seq<event::Event>| attr_inv(x, d, add_attribute_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| add_attribute_of()(a, d), o, r);
    assert forall|s: AddAttribute<S>, o: Seq<event::Event>, s2: AddAttribute<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, add_attribute_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_replace_attribute<S: event::ElementStream>(x: S, d: (text::Identifier, Option<text::Value>), s: ReplaceAttribute<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| replace_attribute_of()(a, d), out, end),
{
    let inv = |s: ReplaceAttribute<S>, o: Seq<event::Event>| attr_inv(x, d, replace_attribute_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| replace_attribute_of()(a, d), o, r);
    assert forall|s: ReplaceAttribute<S>, o: Seq<event::Event>, s2: ReplaceAttribute<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, replace_attribute_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_set_attribute<S: event::ElementStream>(x: S, d: (text::Identifier, Option<text::Value>), s: SetAttribute<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, (text::Identifier, Option<text::Value>)>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| set_attribute_of()(a, d), out, end),
{
    let inv = |s: SetAttribute<S>, o: Seq<event::Event>| attr_inv(x, d, set_attribute_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| set_attribute_of()(a, d), o, r);
    assert forall|s: SetAttribute<S>, o: Seq<event::Event>, s2: SetAttribute<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, set_attribute_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
pub proof fn lemma_add_to_attribute<S: event::ElementStream>(x: S, d: (text::Identifier, text::Value, text::Value), s: AddToAttribute<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires s.state.inner == Some(State::<S, (text::Identifier, text::Value, text::Value)>::Start { stream: x, data: d }), event::runs(s, out, end),
    ensures attr_run(x, |a: Seq<AttrV>| add_to_attribute_of()(a, d), out, end),
{
    let inv = |s: AddToAttribute<S>, o: Seq<event::Event>| attr_inv(x, d, add_to_attribute_of(), s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| attr_run(x, |a: Seq<AttrV>| add_to_attribute_of()(a, d), o, r);
    assert forall|s: AddToAttribute<S>, o: Seq<event::Event>, s2: AddToAttribute<S>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_attr_step(x, d, add_to_attribute_of(), s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
