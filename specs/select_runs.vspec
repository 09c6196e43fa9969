## What the runs of selections are.
@@ mod modifier::select::element
use crate::event::Stream as _;
/// how many more opening than closing tags for the name there are
pub open spec fn tag_depth(tag: Seq<char>, o: Seq<event::Event>) -> int
    decreases o.len(),
{
    if o.len() == 0 { 0 } else {
        tag_depth(tag, o.drop_last()) + (if o.last().v() is Open && name_eq(o.last().v()->Open_0, tag) { 1int } else if o.last().v() is Close && name_eq(o.last().v()->Close_0, tag) { -1int } else { 0int })
    }
}
/// the events do not lead out of the element of that name
pub open spec fn within(tag: Seq<char>, o: Seq<event::Event>) -> bool
    decreases o.len(),
{
    o.len() == 0 || (within(tag, o.drop_last()) && tag_depth(tag, o) >= 0)
}
/// the last of the events closes the element of that name
pub open spec fn closes(tag: Seq<char>, o: Seq<event::Event>) -> bool { o.len() > 0 && within(tag, o.drop_last()) && tag_depth(tag, o) == -1 }
pub proof fn lemma_tag_depth(tag: Seq<char>, o: Seq<event::Event>)
    ensures -o.len() <= tag_depth(tag, o) <= o.len(),
    decreases o.len(),
{ if o.len() > 0 { lemma_tag_depth(tag, o.drop_last()); } }
/// the source is read up to the closing tag for the name
pub open spec fn closed_by<S: event::Stream>(tag: Seq<char>, src: S, c: Seq<event::Event>) -> bool { closes(tag, c) && exists|s2: S| event::near(src, c, s2) }
/// an opening tag is followed by the events of the source up to the closing tag for it; it is cut short if the source ends or fails
pub open spec fn element_run<S: event::Stream>(e: event::Event, src: S, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    match e.0 {
        event::EventKind::OpeningTag { tag, .. } => out.len() > 0 && out[0] == e && (
            (end == event::r_none() && closed_by(tag@, src, out.skip(1)))
            || (event::runs(src, out.skip(1), end) && within(tag@, out.skip(1)))),
        event::EventKind::SelfClosedTag { .. } => out == seq![e] && end == event::r_none(),
        event::EventKind::VoidTag { .. } => out == seq![e] && end == event::r_none(),
        _ => out.len() == 0 && end == event::r_err(event::err_expected_open(Some(e))),
    }
}
pub open spec fn element_inv<S: event::Stream>(e: event::Event, src: S, n: Option<SingleElementState<S>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(SingleElementState::Start { event, stream }) => event == e && stream == src && o.len() == 0,
        Some(SingleElementState::EmitUntilClose { tag, stream, level }) => (e.0 matches event::EventKind::OpeningTag { tag: t, .. } && t == tag) && o.len() > 0 && o[0] == e
            && event::near(src, o.skip(1), stream) && within(tag@, o.skip(1)) && level as int == tag_depth(tag@, o.skip(1)),
        None => element_run(e, src, o, event::r_none()),
    }
}
pub proof fn lemma_element_step<S: event::Stream>(e: event::Event, src: S, x: SingleElement<S>, x2: SingleElement<S>, o: Seq<event::Event>, r: event::StreamResult)
    requires element_inv(e, src, x.state.inner, o), x.trans(&x2, r), o.len() < usize::MAX, !event::is_noop(event::r_some(e)),
    ensures
        event::is_noop(r) ==> element_inv(e, src, x2.state.inner, o),
        event::some_ev(r) && !event::is_noop(r) ==> element_inv(e, src, x2.state.inner, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> element_run(e, src, o, r),
{
    match x.state.inner {
        Some(SingleElementState::Start { event, stream }) => {
            event::lemma_near_start(src);
            assert(o.push(e) =~= seq![e]);
            assert(seq![e].skip(1) =~= Seq::empty());
        },
        Some(SingleElementState::EmitUntilClose { tag, stream, level }) => {
            let s2 = choose|s2: S| #[trigger] stream.trans(&s2, r) && match r {
                Ok(Some(e)) => if e.v() is Open && name_eq(e.v()->Open_0, tag@) { x2.state.inner == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level: (level + 1) as usize }) }
                    else if e.v() is Close && name_eq(e.v()->Close_0, tag@) {
                        if level == 0 { x2.state.inner is None } else { x2.state.inner == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level: (level - 1) as usize }) }
                    } else { x2.state.inner == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level }) },
                _ => x2.state.inner is None,
            };
            let c = o.skip(1);
            event::lemma_near_step(src, c, stream, s2, r);
            lemma_tag_depth(tag@, c);
            if event::some_ev(r) && !event::is_noop(r) {
                let ev = r->Ok_0->0;
                assert(o.push(ev).skip(1) =~= c.push(ev));
                assert(c.push(ev).drop_last() =~= c);
                assert(c.push(ev).last() == ev);
                assert(o.push(ev)[0] == e);
            }
        },
        None => {},
    }
}
/// what the element given to a builder yields
pub proof fn lemma_element<S: event::Stream>(e: event::Event, src: S, x: SingleElement<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires x.state.inner == Some(SingleElementState::Start { event: e, stream: src }), event::runs(x, out, end), out.len() < usize::MAX, !event::is_noop(event::r_some(e)),
    ensures element_run(e, src, out, end),
{
    let inv = |x: SingleElement<S>, o: Seq<event::Event>| o.len() < usize::MAX ==> element_inv(e, src, x.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| o.len() < usize::MAX ==> element_run(e, src, o, r);
    assert forall|x: SingleElement<S>, o: Seq<event::Event>, x2: SingleElement<S>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        if o.len() < usize::MAX { lemma_element_step(e, src, x, x2, o, r); }
    }
    event::lemma_run(x, out, end, inv, fin);
}

@@ mod modifier::select
/// the matched events, the streams made of them: one more
pub open spec fn selected<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(src: Shared<S>, src2: Shared<S>, m: M, rs: R, level: modifier::Level, e: event::Event, b: B, b2: B, x: B::Stream) -> bool {
    event::skips(&src, &src2, event::r_some(e)) && rs.incl(level) && m.sel(e.v()) && made::<S, B>(b, b2, x, e, src2)
}
/// an event of the source that is not selected
pub open spec fn passed<S: event::Stream, M: select::Selector, R: Restrict>(src: Shared<S>, src2: Shared<S>, m: M, rs: R, level: modifier::Level, level2: modifier::Level, e: event::Event) -> bool {
    event::skips(&src, &src2, event::r_some(e)) && !(rs.incl(level) && m.sel(e.v())) && level.after(e) == Ok::<modifier::Level, event::StreamError>(level2)
}
/// where a selection has got to: the source, the builder, the level
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(B)]
pub ghost struct At<S, B> { pub src: Shared<S>, pub b: B, pub level: modifier::Level }
/// the output is made of `n` pieces: events of the source that are not selected, each where it was, and
/// for a selected one the whole of what the stream made for it yields
pub open spec fn pieces<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(n: nat, m: M, rs: R, p: At<S, B>, q: At<S, B>, o: Seq<event::Event>) -> bool
    decreases n,
{
    if n == 0 { q == p && o.len() == 0 } else {
        ||| exists|w: At<S, B>, o1: Seq<event::Event>, e: event::Event| pieces::<S, M, B, R>((n - 1) as nat, m, rs, p, w, o1) && #[trigger] passed::<S, M, R>(w.src, q.src, m, rs, w.level, q.level, e) && q.b == w.b && o == #[trigger] o1.push(e)
        ||| exists|w: At<S, B>, o1: Seq<event::Event>, o2: Seq<event::Event>, e: event::Event, x: B::Stream| pieces::<S, M, B, R>((n - 1) as nat, m, rs, p, w, o1) && #[trigger] selected::<S, M, B, R>(w.src, q.src, m, rs, w.level, e, w.b, q.b, x) && q.level == w.level && event::runs(x, o2, event::r_none()) && o == #[trigger] (o1 + o2)
    }
}
pub open spec fn select_out<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, q: At<S, B>, o: Seq<event::Event>) -> bool { exists|n: nat| #[trigger] pieces::<S, M, B, R>(n, m, rs, p, q, o) }
/// in the middle of what the stream made for a selected event yields
pub open spec fn selecting_one<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, q: At<S, B>, y: B::Stream, o: Seq<event::Event>) -> bool {
    exists|w: At<S, B>, o1: Seq<event::Event>, o2: Seq<event::Event>, e: event::Event, x: B::Stream| #[trigger] select_out::<S, M, B, R>(m, rs, p, w, o1) && #[trigger] selected::<S, M, B, R>(w.src, q.src, m, rs, w.level, e, w.b, q.b, x) && q.level == w.level && #[trigger] event::near(x, o2, y) && o == o1 + o2
}
pub open spec fn select_failed_one<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|w: At<S, B>, q: At<S, B>, o1: Seq<event::Event>, o2: Seq<event::Event>, e: event::Event, x: B::Stream| #[trigger] select_out::<S, M, B, R>(m, rs, p, w, o1) && #[trigger] selected::<S, M, B, R>(w.src, q.src, m, rs, w.level, e, w.b, q.b, x) && #[trigger] event::runs(x, o2, end) && o == o1 + o2
}
/// the source ended or failed, or closed more than was open
pub open spec fn source_end<S: event::Stream>(src: Shared<S>, level: modifier::Level, end: event::StreamResult) -> bool {
    exists|src2: Shared<S>, q: event::StreamResult| #[trigger] event::skips(&src, &src2, q) && match q { Ok(Some(e)) => end is Err && level.after(e) == Err::<modifier::Level, event::StreamError>(end->Err_0), _ => end == q }
}
pub open spec fn select_run<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    ||| exists|q: At<S, B>| #[trigger] select_out::<S, M, B, R>(m, rs, p, q, out) && source_end(q.src, q.level, end)
    ||| end is Err && select_failed_one::<S, M, B, R>(m, rs, p, out, end)
}
pub open spec fn select_inv<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, s: Select<S, M, B, R>, o: Seq<event::Event>) -> bool {
    s.matcher == m && s.restriction == rs && match s.state.inner {
        Some(SelectState::Scanning { level }) => select_out::<S, M, B, R>(m, rs, p, At { src: s.source, b: s.builder, level }, o),
        Some(SelectState::Active { stream, level }) => selecting_one::<S, M, B, R>(m, rs, p, At { src: s.source, b: s.builder, level }, stream, o),
        None => false,
    }
}
pub proof fn lemma_select_step<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, p: At<S, B>, s: Select<S, M, B, R>, s2: Select<S, M, B, R>, o: Seq<event::Event>, r: event::StreamResult)
    requires select_inv(m, rs, p, s, o), s.trans(&s2, r),
    ensures
        event::is_noop(r) ==> select_inv(m, rs, p, s2, o),
        event::some_ev(r) && !event::is_noop(r) ==> select_inv(m, rs, p, s2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> select_run::<S, M, B, R>(m, rs, p, o, r),
{
    match s.state.inner {
        Some(SelectState::Scanning { level }) => {
            let w = At::<S, B> { src: s.source, b: s.builder, level };
            let q = choose|q: event::StreamResult| #[trigger] event::skips(&s.source, &s2.source, q) && match q {
                Ok(Some(e)) => if rs.incl(level) && m.sel(e.v()) {
                    event::is_noop(r) && (s2.state.inner matches Some(SelectState::Active { stream, level: l }) && l == level && made::<S, B>(s.builder, s2.builder, stream, e, s2.source))
                } else {
                    s2.builder == s.builder && match level.after(e) {
                        Ok(l) => r == q && s2.state.inner == Some(SelectState::<B::Stream>::Scanning { level: l }),
                        Err(x) => r == event::r_err(x),
                    }
                },
                _ => r == q && s2.builder == s.builder,
            };
            match q {
                Ok(Some(e)) => {
                    if rs.incl(level) && m.sel(e.v()) {
                        let x = s2.state.inner->0->Active_stream;
                        event::lemma_near_start(x);
                        assert(o =~= o + Seq::empty());
                        let v = At::<S, B> { src: s2.source, b: s2.builder, level };
                        assert(selected::<S, M, B, R>(w.src, v.src, m, rs, w.level, e, w.b, v.b, x));
                        assert(selecting_one::<S, M, B, R>(m, rs, p, v, x, o));
                    } else if level.after(e) is Ok {
                        let v = At::<S, B> { src: s2.source, b: s2.builder, level: level.after(e)->Ok_0 };
                        let n = choose|n: nat| #[trigger] pieces::<S, M, B, R>(n, m, rs, p, w, o);
                        assert(((n + 1) as nat - 1) as nat == n);
                        assert(passed::<S, M, R>(w.src, v.src, m, rs, w.level, v.level, e));
                        assert(pieces::<S, M, B, R>((n + 1) as nat, m, rs, p, v, o.push(e)));
                    } else {
                        assert(source_end(w.src, w.level, r));
                    }
                },
                _ => { assert(source_end(w.src, w.level, r)); },
            }
        },
        Some(SelectState::Active { stream, level }) => {
            let (y, q) = choose|y: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&y, q) && match q {
                Ok(Some(_)) => r == q && s2.state.inner == Some(SelectState::Active { stream: y, level }),
                Ok(None) => event::is_noop(r) && s2.state.inner == Some(SelectState::<B::Stream>::Scanning { level }),
                Err(_) => r == q,
            };
            let v = At::<S, B> { src: s.source, b: s.builder, level };
            let (w, o1, o2, e, x) = choose|w: At<S, B>, o1: Seq<event::Event>, o2: Seq<event::Event>, e: event::Event, x: B::Stream| #[trigger] select_out::<S, M, B, R>(m, rs, p, w, o1) && #[trigger] selected::<S, M, B, R>(w.src, v.src, m, rs, w.level, e, w.b, v.b, x) && v.level == w.level && #[trigger] event::near(x, o2, stream) && o == o1 + o2;
            event::lemma_near_step(x, o2, stream, y, q);
            match q {
                Ok(Some(ev)) => {
                    if event::is_noop(q) { assert(selecting_one::<S, M, B, R>(m, rs, p, v, y, o)); }
                    else {
                        assert(o.push(ev) =~= o1 + o2.push(ev));
                        assert(selecting_one::<S, M, B, R>(m, rs, p, v, y, o.push(ev)));
                    }
                },
                Ok(None) => {
                    let n = choose|n: nat| #[trigger] pieces::<S, M, B, R>(n, m, rs, p, w, o1);
                    assert(((n + 1) as nat - 1) as nat == n);
                    assert(o == o1 + o2 && event::runs(x, o2, event::r_none()));
                    assert(pieces::<S, M, B, R>((n + 1) as nat, m, rs, p, v, o));
                },
                Err(_) => { assert(select_failed_one::<S, M, B, R>(m, rs, p, o, r)); },
            }
        },
        None => {},
    }
}
/// what a selection yields
pub proof fn lemma_select<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(a: S, m: M, b: B, rs: R, s: Select<S, M, B, R>, out: Seq<event::Event>, end: event::StreamResult)
    requires select_start(s, a, m, b, rs), event::runs(s, out, end),
    ensures fresh(s.source, a), exists|l: modifier::Level| l.depth == 0 && #[trigger] select_run::<S, M, B, R>(m, rs, At { src: s.source, b, level: l }, out, end),
{
    let p = At::<S, B> { src: s.source, b, level: s.state.inner->0->Scanning_level };
    let inv = |s: Select<S, M, B, R>, o: Seq<event::Event>| select_inv::<S, M, B, R>(m, rs, p, s, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| select_run::<S, M, B, R>(m, rs, p, o, r);
    assert(pieces::<S, M, B, R>(0, m, rs, p, p, Seq::empty()));
    assert forall|s: Select<S, M, B, R>, o: Seq<event::Event>, s2: Select<S, M, B, R>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_select_step::<S, M, B, R>(m, rs, p, s, s2, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// events of the source none of which is selected
pub open spec fn scanned<S: event::Stream, M: select::Selector, R: Restrict>(m: M, rs: R, src: Shared<S>, level: modifier::Level, src2: Shared<S>, level2: modifier::Level, o: Seq<event::Event>) -> bool
    decreases o.len(),
{
    if o.len() == 0 { src2 == src && level2 == level } else {
        exists|s1: Shared<S>, l1: modifier::Level| scanned(m, rs, src, level, s1, l1, o.drop_last()) && #[trigger] passed::<S, M, R>(s1, src2, m, rs, l1, level2, o.last())
    }
}
/// the first event that is selected, and the stream made of it
pub open spec fn selected_once<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(src: Shared<S>, src2: Shared<S>, m: M, rs: R, level: modifier::Level, e: event::Event, b: B, x: B::Stream) -> bool {
    event::skips(&src, &src2, event::r_some(e)) && rs.incl(level) && m.sel(e.v()) && made_once::<S, B>(b, x, e, src2)
}
/// the source up to the selected event, whose stream is `x`; the source is `src2` then
pub open spec fn found<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, src2: Shared<S>, x: B::Stream, o: Seq<event::Event>) -> bool {
    exists|s1: Shared<S>, l1: modifier::Level, e: event::Event| #[trigger] scanned::<S, M, R>(m, rs, src, level, s1, l1, o) && #[trigger] selected_once::<S, M, B, R>(s1, src2, m, rs, l1, e, b, x)
}
pub open spec fn once_active<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, src2: Shared<S>, y: B::Stream, o: Seq<event::Event>) -> bool {
    exists|x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, level, src2, x, o1) && #[trigger] event::near(x, o2, y) && o == o1 + o2
}
pub open spec fn once_failed<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|src2: Shared<S>, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, level, src2, x, o1) && #[trigger] event::runs(x, o2, end) && o == o1 + o2
}
/// up to the selected event, all of its stream, then the source as it is
pub open spec fn once_rest<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, src3: Shared<S>, o: Seq<event::Event>) -> bool {
    exists|src2: Shared<S>, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>, o3: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, level, src2, x, o1) && #[trigger] event::runs(x, o2, event::r_none()) && #[trigger] event::near(src2, o3, src3) && o == o1 + o2 + o3
}
pub open spec fn once_whole<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|src2: Shared<S>, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>, o3: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, level, src2, x, o1) && #[trigger] event::runs(x, o2, event::r_none()) && #[trigger] event::runs(src2, o3, end) && o == o1 + o2 + o3
}
pub open spec fn once_run<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    ||| exists|s1: Shared<S>, l1: modifier::Level| #[trigger] scanned::<S, M, R>(m, rs, src, level, s1, l1, o) && source_end(s1, l1, end)
    ||| end is Err && once_failed::<S, M, B, R>(m, rs, b, src, level, o, end)
    ||| once_whole::<S, M, B, R>(m, rs, b, src, level, o, end)
}
pub open spec fn once_inv<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, level: modifier::Level, s: SelectOnce<S, M, B, R>, o: Seq<event::Event>) -> bool {
    match s.state.inner {
        Some(SelectOnceState::Scanning { matcher, builder, restriction, level: l }) => matcher == m && builder == b && restriction == rs && scanned::<S, M, R>(m, rs, src, level, s.source, l, o),
        Some(SelectOnceState::Active { stream }) => once_active::<S, M, B, R>(m, rs, b, src, level, s.source, stream, o),
        Some(SelectOnceState::Passthrough) => once_rest::<S, M, B, R>(m, rs, b, src, level, s.source, o),
        None => false,
    }
}
pub proof fn lemma_once_step<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(m: M, rs: R, b: B, src: Shared<S>, lv: modifier::Level, s: SelectOnce<S, M, B, R>, s2: SelectOnce<S, M, B, R>, o: Seq<event::Event>, r: event::StreamResult)
    requires once_inv(m, rs, b, src, lv, s, o), s.trans(&s2, r),
    ensures
        event::is_noop(r) ==> once_inv(m, rs, b, src, lv, s2, o),
        event::some_ev(r) && !event::is_noop(r) ==> once_inv(m, rs, b, src, lv, s2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> once_run::<S, M, B, R>(m, rs, b, src, lv, o, r),
{
    match s.state.inner {
        Some(SelectOnceState::Scanning { matcher, builder, restriction, level }) => {
            let q = choose|q: event::StreamResult| #[trigger] event::skips(&s.source, &s2.source, q) && match q {
                Ok(Some(e)) => if rs.incl(level) && m.sel(e.v()) {
                    event::is_noop(r) && (s2.state.inner matches Some(SelectOnceState::Active { stream }) && made_once::<S, B>(b, stream, e, s2.source))
                } else {
                    match level.after(e) {
                        Ok(l) => r == q && s2.state.inner == Some(SelectOnceState::<S, M, B, R>::Scanning { matcher, builder, restriction, level: l }),
                        Err(x) => r == event::r_err(x),
                    }
                },
                _ => r == q,
            };
            match q {
                Ok(Some(e)) => {
                    if rs.incl(level) && m.sel(e.v()) {
                        let x = s2.state.inner->0->Active_stream;
                        event::lemma_near_start(x);
                        assert(o =~= o + Seq::empty());
                        assert(selected_once::<S, M, B, R>(s.source, s2.source, m, rs, level, e, b, x));
                        assert(found::<S, M, B, R>(m, rs, b, src, lv, s2.source, x, o));
                        assert(once_active::<S, M, B, R>(m, rs, b, src, lv, s2.source, x, o));
                    } else if level.after(e) is Ok {
                        assert(passed::<S, M, R>(s.source, s2.source, m, rs, level, level.after(e)->Ok_0, e));
                        assert(o.push(e).drop_last() =~= o && o.push(e).last() == e);
                        assert(scanned::<S, M, R>(m, rs, src, lv, s.source, level, o.push(e).drop_last()) && passed::<S, M, R>(s.source, s2.source, m, rs, level, level.after(e)->Ok_0, o.push(e).last()));
                        assert(scanned::<S, M, R>(m, rs, src, lv, s2.source, level.after(e)->Ok_0, o.push(e)));
                    } else {
                        assert(source_end(s.source, level, r));
                    }
                },
                _ => { assert(source_end(s.source, level, r)); },
            }
        },
        Some(SelectOnceState::Active { stream }) => {
            let (y, q) = choose|y: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&y, q) && match q {
                Ok(Some(_)) => r == q && s2.state.inner == Some(SelectOnceState::<S, M, B, R>::Active { stream: y }),
                Ok(None) => event::is_noop(r) && s2.state.inner == Some(SelectOnceState::<S, M, B, R>::Passthrough),
                Err(_) => r == q,
            };
            let (x, o1, o2) = choose|x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, lv, s.source, x, o1) && #[trigger] event::near(x, o2, stream) && o == o1 + o2;
            event::lemma_near_step(x, o2, stream, y, q);
            match q {
                Ok(Some(ev)) => {
                    if event::is_noop(q) { assert(once_active::<S, M, B, R>(m, rs, b, src, lv, s.source, y, o)); }
                    else {
                        assert(o.push(ev) =~= o1 + o2.push(ev));
                        assert(once_active::<S, M, B, R>(m, rs, b, src, lv, s.source, y, o.push(ev)));
                    }
                },
                Ok(None) => {
                    event::lemma_near_start(s.source);
                    assert(o =~= o1 + o2 + Seq::empty());
                    assert(once_rest::<S, M, B, R>(m, rs, b, src, lv, s.source, o));
                },
                Err(_) => { assert(once_failed::<S, M, B, R>(m, rs, b, src, lv, o, r)); },
            }
        },
        Some(SelectOnceState::Passthrough) => {
            let (src2, x, o1, o2, o3) = choose|src2: Shared<S>, x: B::Stream, o1: Seq<event::Event>, o2: Seq<event::Event>, o3: Seq<event::Event>| #[trigger] found::<S, M, B, R>(m, rs, b, src, lv, src2, x, o1) && #[trigger] event::runs(x, o2, event::r_none()) && #[trigger] event::near(src2, o3, s.source) && o == o1 + o2 + o3;
            event::lemma_near_step(src2, o3, s.source, s2.source, r);
            if event::is_noop(r) { assert(once_rest::<S, M, B, R>(m, rs, b, src, lv, s2.source, o)); }
            else if event::some_ev(r) {
                assert(o.push(r->Ok_0->0) =~= o1 + o2 + o3.push(r->Ok_0->0));
                assert(once_rest::<S, M, B, R>(m, rs, b, src, lv, s2.source, o.push(r->Ok_0->0)));
            } else { assert(once_whole::<S, M, B, R>(m, rs, b, src, lv, o, r)); }
        },
        None => {},
    }
}
/// what a selection of one element yields
pub proof fn lemma_select_once<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(a: S, m: M, b: B, rs: R, s: SelectOnce<S, M, B, R>, out: Seq<event::Event>, end: event::StreamResult)
    requires select_once_start(s, a, m, b, rs), event::runs(s, out, end),
    ensures fresh(s.source, a), exists|l: modifier::Level| l.depth == 0 && #[trigger] once_run::<S, M, B, R>(m, rs, b, s.source, l, out, end),
{
    let src = s.source;
    let lv = s.state.inner->0->Scanning_level;
    let inv = |s: SelectOnce<S, M, B, R>, o: Seq<event::Event>| once_inv::<S, M, B, R>(m, rs, b, src, lv, s, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| once_run::<S, M, B, R>(m, rs, b, src, lv, o, r);
    assert forall|s: SelectOnce<S, M, B, R>, o: Seq<event::Event>, s2: SelectOnce<S, M, B, R>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_once_step::<S, M, B, R>(m, rs, b, src, lv, s, s2, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}

@@ mod modifier::select::select_contents
/// the opening tag of the element, as the content operation yields it, and the stream made of its content
pub open spec fn opened<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, e: event::Event, tag: text::Identifier, source: SharedPeek<S>, x: B::Stream) -> bool {
    exists|y: modifier::Expand<S>, y2: modifier::Expand<S>| y.state.inner == Some(modifier::ExpandState::Start { stream: a }) && #[trigger] event::skips(&y, &y2, event::r_some(e))
        && (e.0 matches event::EventKind::OpeningTag { tag: t, .. } && t == tag)
        && super::fresh(source, modifier::Peek { stream: y2, buffered: None }) && made::<S, B>(b, x, source, tag)
}
/// the source has the closing tag of the element next, or it should have
pub open spec fn closing<S: event::Stream>(source: SharedPeek<S>, tag: text::Identifier, c: Option<event::Event>, end: event::StreamResult) -> bool {
    exists|s2: SharedPeek<S>, q: event::StreamResult| #[trigger] event::skips(&source, &s2, q) && match q {
        Ok(Some(event::Event(event::EventKind::ClosingTag { tag: t }))) => if name_eq(t@, tag@) { c == q->Ok_0 && end == event::r_none() } else { c is None && end == event::r_err(event::err_unexpected_close(t)) },
        Ok(x) => c is None && end == event::r_err(event::err_expected_close(x, tag)),
        Err(_) => c is None && end == q,
    }
}
/// the element has no content, or is none
pub open spec fn no_content<S: event::ElementStream>(a: S, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|y: modifier::Expand<S>, y2: modifier::Expand<S>, q: event::StreamResult| y.state.inner == Some(modifier::ExpandState::Start { stream: a }) && #[trigger] event::skips(&y, &y2, q) && match q {
        Ok(Some(e)) => match e.0 {
            event::EventKind::OpeningTag { .. } => false,
            event::EventKind::VoidTag { .. } => out == seq![e] && end == event::r_none(),
            _ => out.len() == 0 && end == event::r_err(event::err_expected_open(Some(e))),
        },
        Ok(None) => out.len() == 0 && end == event::r_err(event::err_expected_open(None)),
        Err(_) => out.len() == 0 && end == q,
    }
}
pub open spec fn in_content<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, tag: text::Identifier, source: SharedPeek<S>, y: B::Stream, o: Seq<event::Event>) -> bool {
    exists|e: event::Event, x: B::Stream, o2: Seq<event::Event>| #[trigger] opened::<S, B>(a, b, e, tag, source, x) && #[trigger] event::near(x, o2, y) && o == seq![e] + o2
}
pub open spec fn after_content<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    exists|e: event::Event, x: B::Stream, o2: Seq<event::Event>| #[trigger] opened::<S, B>(a, b, e, tag, source, x) && #[trigger] event::runs(x, o2, event::r_none()) && o == seq![e] + o2
}
pub open spec fn content_failed<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|e: event::Event, tag: text::Identifier, source: SharedPeek<S>, x: B::Stream, o2: Seq<event::Event>| #[trigger] opened::<S, B>(a, b, e, tag, source, x) && #[trigger] event::runs(x, o2, end) && o == seq![e] + o2
}
/// the opening tag, all that the stream made of the content yields, the closing tag
pub open spec fn content_whole<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|tag: text::Identifier, source: SharedPeek<S>, o1: Seq<event::Event>, c: Option<event::Event>| #[trigger] after_content::<S, B>(a, b, tag, source, o1) && #[trigger] closing::<S>(source, tag, c, end) && o == match c { Some(e) => o1.push(e), None => o1 }
}
pub open spec fn content_run<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, o: Seq<event::Event>, end: event::StreamResult) -> bool {
    no_content(a, o, end) || (end is Err && content_failed::<S, B>(a, b, o, end)) || content_whole::<S, B>(a, b, o, end)
}
pub open spec fn content_inv<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, n: Option<SelectContentState<S, B>>, o: Seq<event::Event>) -> bool {
    match n {
        Some(SelectContentState::Open { source, builder }) => builder == b && source.state.inner == Some(modifier::ExpandState::Start { stream: a }) && o.len() == 0,
        Some(SelectContentState::Content { source, stream, tag }) => in_content::<S, B>(a, b, tag, source, stream, o),
        Some(SelectContentState::Close { source, tag }) => after_content::<S, B>(a, b, tag, source, o),
        None => content_run::<S, B>(a, b, o, event::r_none()),
    }
}
pub proof fn lemma_content_step<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, n: Option<SelectContentState<S, B>>, n2: Option<SelectContentState<S, B>>, o: Seq<event::Event>, r: event::StreamResult)
    requires content_inv(a, b, n, o), n matches Some(t) ==> content_step(t, n2, r), n is None ==> r == event::r_none(),
    ensures
        event::is_noop(r) ==> content_inv(a, b, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> content_inv(a, b, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> content_run::<S, B>(a, b, o, r),
{
    match n {
        Some(SelectContentState::Open { source: y, builder }) => {
            let (y2, q) = choose|s2: modifier::Expand<S>, q: event::StreamResult| #[trigger] event::skips(&y, &s2, q) && match q {
                Ok(Some(e)) => match e.0 {
                    event::EventKind::OpeningTag { tag, .. } => r == q && (n2 matches Some(SelectContentState::Content { source, stream, tag: t }) && t == tag && super::fresh(source, modifier::Peek { stream: s2, buffered: None }) && made::<S, B>(builder, stream, source, tag)),
                    event::EventKind::VoidTag { .. } => r == q && n2 is None,
                    _ => r == event::r_err(event::err_expected_open(Some(e))),
                },
                Ok(None) => r == event::r_err(event::err_expected_open(None)),
                Err(_) => r == q,
            };
            match q {
                Ok(Some(e)) => {
                    assert(o.push(e) =~= seq![e]);
                    match e.0 {
                        event::EventKind::OpeningTag { tag, .. } => {
                            let x = n2->0->Content_stream;
                            let source = n2->0->Content_source;
                            event::lemma_near_start(x);
                            assert(o.push(e) =~= seq![e] + Seq::empty());
                            assert(opened::<S, B>(a, b, e, tag, source, x));
                            assert(in_content::<S, B>(a, b, tag, source, x, o.push(e)));
                        },
                        event::EventKind::VoidTag { .. } => { assert(event::skips(&y, &y2, q)); assert(no_content(a, o.push(e), event::r_none())); },
                        _ => { assert(event::skips(&y, &y2, q)); assert(no_content(a, o, r)); },
                    }
                },
                _ => { assert(event::skips(&y, &y2, q)); assert(no_content(a, o, r)); },
            }
        },
        Some(SelectContentState::Content { source, stream, tag }) => {
            let (y, q) = choose|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
                Ok(Some(_)) => r == q && n2 == Some(SelectContentState::<S, B>::Content { source, stream: s2, tag }),
                Ok(None) => event::is_noop(r) && n2 == Some(SelectContentState::<S, B>::Close { source, tag }),
                Err(_) => r == q,
            };
            let (e, x, o2) = choose|e: event::Event, x: B::Stream, o2: Seq<event::Event>| #[trigger] opened::<S, B>(a, b, e, tag, source, x) && #[trigger] event::near(x, o2, stream) && o == seq![e] + o2;
            event::lemma_near_step(x, o2, stream, y, q);
            match q {
                Ok(Some(ev)) => {
                    if event::is_noop(q) { assert(in_content::<S, B>(a, b, tag, source, y, o)); }
                    else {
                        assert(o.push(ev) =~= seq![e] + o2.push(ev));
                        assert(in_content::<S, B>(a, b, tag, source, y, o.push(ev)));
                    }
                },
                Ok(None) => { assert(after_content::<S, B>(a, b, tag, source, o)); },
                Err(_) => { assert(content_failed::<S, B>(a, b, o, r)); },
            }
        },
        Some(SelectContentState::Close { source, tag }) => {
            let (s2, q) = choose|s2: SharedPeek<S>, q: event::StreamResult| #[trigger] event::skips(&source, &s2, q) && match q {
                Ok(Some(event::Event(event::EventKind::ClosingTag { tag: t }))) => if name_eq(t@, tag@) { r == q && n2 is None } else { r == event::r_err(event::err_unexpected_close(t)) },
                Ok(x) => r == event::r_err(event::err_expected_close(x, tag)),
                Err(_) => r == q,
            };
            assert(event::skips(&source, &s2, q));
            if event::some_ev(r) {
                assert(closing::<S>(source, tag, q->Ok_0, event::r_none()));
                assert(content_whole::<S, B>(a, b, o.push(r->Ok_0->0), event::r_none()));
            } else {
                assert(closing::<S>(source, tag, None, r));
                assert(content_whole::<S, B>(a, b, o, r));
            }
        },
        None => {},
    }
}
/// what a content operation yields
pub proof fn lemma_select_content<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, s: SelectContent<S, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires content_start(s, a, b), event::runs(s, out, end),
    ensures content_run::<S, B>(a, b, out, end),
{
    let inv = |s: SelectContent<S, B>, o: Seq<event::Event>| content_inv::<S, B>(a, b, s.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| content_run::<S, B>(a, b, o, r);
    assert forall|s: SelectContent<S, B>, o: Seq<event::Event>, s2: SelectContent<S, B>, r: event::StreamResult| #[trigger] inv(s, o) && #[trigger] s.trans(&s2, r) implies event::next_kept(inv, fin, o, s2, r) by {
        lemma_content_step::<S, B>(a, b, s.state.inner, s2.state.inner, o, r);
    }
    event::lemma_run(s, out, end, inv, fin);
}
/// how many more opening than closing tags there are
pub open spec fn all_depth(o: Seq<event::Event>) -> int
    decreases o.len(),
{
    if o.len() == 0 { 0 } else { all_depth(o.drop_last()) + (if o.last().v() is Open { 1int } else if o.last().v() is Close { -1int } else { 0int }) }
}
/// nothing is closed that was not opened
pub open spec fn nested(o: Seq<event::Event>) -> bool
    decreases o.len(),
{
    o.len() == 0 || (nested(o.drop_last()) && all_depth(o) >= 0)
}
pub proof fn lemma_all_depth(o: Seq<event::Event>)
    ensures -o.len() <= all_depth(o) <= o.len(),
    decreases o.len(),
{ if o.len() > 0 { lemma_all_depth(o.drop_last()); } }
/// a step of reading the content: looking whether the element ends, which it does not, or an event of the source
pub open spec fn content_read<S: event::Stream>(tag: text::Identifier, m: SharedPeek<S>, h: SharedPeek<S>, o1: Seq<event::Event>, o: Seq<event::Event>) -> bool {
    ||| o == o1 && end_seen::<S>(m, h, tag, Ok::<bool, event::StreamError>(false))
    ||| exists|r: event::StreamResult| #[trigger] m.trans(&h, r) && event::some_ev(r) && o == (if event::is_noop(r) { o1 } else { o1.push(r->Ok_0->0) })
}
/// `o` is what `n` uses of the source gave
pub open spec fn content_reads<S: event::Stream>(n: nat, tag: text::Identifier, h0: SharedPeek<S>, h: SharedPeek<S>, o: Seq<event::Event>) -> bool
    decreases n,
{
    if n == 0 { h == h0 && o.len() == 0 } else { exists|m: SharedPeek<S>, o1: Seq<event::Event>| content_reads((n - 1) as nat, tag, h0, m, o1) && #[trigger] content_read(tag, m, h, o1, o) }
}
pub open spec fn read_from<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, h: SharedPeek<S>, o: Seq<event::Event>) -> bool { exists|n: nat| #[trigger] content_reads(n, tag, h0, h, o) }
pub proof fn lemma_read_from<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, m: SharedPeek<S>, h: SharedPeek<S>, o1: Seq<event::Event>, o: Seq<event::Event>)
    requires read_from(tag, h0, m, o1), content_read(tag, m, h, o1, o),
    ensures read_from(tag, h0, h, o),
{
    let n = choose|n: nat| #[trigger] content_reads(n, tag, h0, m, o1);
    assert(((n + 1) as nat - 1) as nat == n);
    assert(content_reads((n + 1) as nat, tag, h0, h, o));
}
/// the source has the closing tag of the element next
pub open spec fn at_close<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    exists|m: SharedPeek<S>, h: SharedPeek<S>| #[trigger] read_from(tag, h0, m, o) && #[trigger] end_seen::<S>(m, h, tag, Ok::<bool, event::StreamError>(true))
}
/// the content are events of the source that are nested, all of them up to the closing tag of the element
pub open spec fn current_run<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    nested(out) && (end is Err || (end == event::r_none() && all_depth(out) == 0 && at_close(tag, h0, out)))
}
pub open spec fn current_inv<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, n: Option<CurrentContentState<S>>, o: Seq<event::Event>) -> bool {
    n matches Some(CurrentContentState { tag: t, level, stream }) && t == tag && nested(o) && all_depth(o) == level.depth as int && read_from(tag, h0, stream, o)
}
pub proof fn lemma_current_next<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, s: SharedPeek<S>, level: modifier::Level, n2: Option<CurrentContentState<S>>, o: Seq<event::Event>, r: event::StreamResult)
    requires current_next(s, tag, level, n2, r), nested(o), all_depth(o) == level.depth as int, read_from(tag, h0, s, o), o.len() < usize::MAX,
    ensures
        event::is_noop(r) ==> current_inv(tag, h0, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> current_inv(tag, h0, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> r is Err,
{
    let (s2, q) = choose|s2: SharedPeek<S>, q: event::StreamResult| #[trigger] s.trans(&s2, q) && match q {
        Ok(Some(e)) => match level.after(e) {
            Ok(l) => r == q && n2 == Some(CurrentContentState { tag, level: l, stream: s2 }),
            Err(_) => r == event::r_err(event::err_expected_close(None, tag)),
        },
        Ok(None) => r == event::r_err(event::err_expected_close(None, tag)),
        Err(_) => r == q,
    };
    lemma_all_depth(o);
    if event::some_ev(r) {
        let e = r->Ok_0->0;
        if event::is_noop(r) {
            assert(content_read(tag, s, s2, o, o));
            lemma_read_from(tag, h0, s, s2, o, o);
        } else {
            assert(o.push(e).drop_last() =~= o && o.push(e).last() == e);
            assert(content_read(tag, s, s2, o, o.push(e)));
            lemma_read_from(tag, h0, s, s2, o, o.push(e));
        }
    }
}
pub proof fn lemma_current_step<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, n: Option<CurrentContentState<S>>, n2: Option<CurrentContentState<S>>, o: Seq<event::Event>, r: event::StreamResult)
    requires current_inv(tag, h0, n, o), n matches Some(t) ==> current_step(t, n2, r), o.len() < usize::MAX,
    ensures
        event::is_noop(r) ==> current_inv(tag, h0, n2, o),
        event::some_ev(r) && !event::is_noop(r) ==> current_inv(tag, h0, n2, o.push(r->Ok_0->0)),
        !event::some_ev(r) ==> current_run(tag, h0, o, r),
{
    let t = n->0;
    if t.level.depth == 0 {
        let (m, w) = choose|m: SharedPeek<S>, w: Result<bool, event::StreamError>| #[trigger] end_seen::<S>(t.stream, m, t.tag, w) && match w {
            Ok(true) => r == event::r_none(),
            Ok(false) => current_next(m, t.tag, t.level, n2, r),
            Err(e) => r == event::r_err(e),
        };
        match w {
            Ok(true) => { assert(read_from(tag, h0, t.stream, o) && end_seen::<S>(t.stream, m, tag, Ok::<bool, event::StreamError>(true))); assert(at_close(tag, h0, o)); },
            Ok(false) => {
                assert(content_read(tag, t.stream, m, o, o));
                lemma_read_from(tag, h0, t.stream, m, o, o);
                lemma_current_next(tag, h0, m, t.level, n2, o, r);
            },
            Err(_) => {},
        }
    } else {
        lemma_current_next(tag, h0, t.stream, t.level, n2, o, r);
    }
}
/// what the content given to a builder yields
pub proof fn lemma_current_content<S: event::Stream>(tag: text::Identifier, h0: SharedPeek<S>, x: CurrentContent<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires content_of(x, h0, tag), event::runs(x, out, end), out.len() < usize::MAX,
    ensures current_run(tag, h0, out, end),
{
    let inv = |x: CurrentContent<S>, o: Seq<event::Event>| o.len() < usize::MAX ==> current_inv(tag, h0, x.state.inner, o);
    let fin = |o: Seq<event::Event>, r: event::StreamResult| o.len() < usize::MAX ==> current_run(tag, h0, o, r);
    assert(content_reads(0, tag, h0, h0, Seq::empty()));
    assert forall|x: CurrentContent<S>, o: Seq<event::Event>, x2: CurrentContent<S>, r: event::StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&x2, r) implies event::next_kept(inv, fin, o, x2, r) by {
        if o.len() < usize::MAX { lemma_current_step(tag, h0, x.state.inner, x2.state.inner, o, r); }
    }
    event::lemma_run(x, out, end, inv, fin);
}

@@ mod event
/// a stream whose steps are those of a part of it yields what the part yields
pub proof fn lemma_part<W: Stream, P: Stream>(f: spec_fn(W) -> P, w: W, out: Seq<Event>, end: StreamResult)
    requires runs(w, out, end), forall|x: W, y: W, r: StreamResult| #[trigger] x.trans(&y, r) ==> f(x).trans(&f(y), r),
    ensures runs(f(w), out, end),
{
    let inv = |x: W, o: Seq<Event>| near(f(w), o, f(x));
    let fin = |o: Seq<Event>, r: StreamResult| runs(f(w), o, r);
    lemma_near_start(f(w));
    assert forall|x: W, o: Seq<Event>, y: W, r: StreamResult| #[trigger] inv(x, o) && #[trigger] x.trans(&y, r) implies next_kept(inv, fin, o, y, r) by {
        lemma_near_step(f(w), o, f(x), f(y), r);
    }
    lemma_run(w, out, end, inv, fin);
}
/// the stream in a cell, as the handle knows it
pub open spec fn inside<S: Stream>(h: std::rc::Rc<crate::shim::cell::RefCell<S>>) -> S { *crate::shim::cell::held::<S>(crate::shim::cell::cell_id(&*h), crate::shim::cell::cell_at(&*h)) }
/// `n` uses of the cell by the handle gave the events
pub open spec fn uses<S: Stream>(n: nat, h: std::rc::Rc<crate::shim::cell::RefCell<S>>, o: Seq<Event>, h2: std::rc::Rc<crate::shim::cell::RefCell<S>>) -> bool
    decreases n,
{
    if n == 0 { h2 == h && o.len() == 0 } else {
        exists|m: std::rc::Rc<crate::shim::cell::RefCell<S>>, o1: Seq<Event>| uses((n - 1) as nat, h, o1, m) && #[trigger] use_step(m, o1, h2, o)
    }
}
pub open spec fn use_step<S: Stream>(m: std::rc::Rc<crate::shim::cell::RefCell<S>>, o1: Seq<Event>, h2: std::rc::Rc<crate::shim::cell::RefCell<S>>, o: Seq<Event>) -> bool {
    exists|r: StreamResult| #[trigger] m.trans(&h2, r) && some_ev(r) && o == (if is_noop(r) { o1 } else { o1.push(r->Ok_0->0) })
}
pub proof fn lemma_uses_count<S: Stream>(n: nat, h: std::rc::Rc<crate::shim::cell::RefCell<S>>, o: Seq<Event>, h2: std::rc::Rc<crate::shim::cell::RefCell<S>>)
    requires uses(n, h, o, h2),
    ensures crate::shim::cell::cell_id(&*h2) == crate::shim::cell::cell_id(&*h), crate::shim::cell::cell_at(&*h2) >= crate::shim::cell::cell_at(&*h) + n,
    decreases n,
{
    if n > 0 {
        let (m, o1) = choose|m: std::rc::Rc<crate::shim::cell::RefCell<S>>, o1: Seq<Event>| uses((n - 1) as nat, h, o1, m) && #[trigger] use_step(m, o1, h2, o);
        lemma_uses_count((n - 1) as nat, h, o1, m);
    }
}
/// if nobody else used the cell meanwhile, the events are those of the stream in it, none left out
pub proof fn lemma_alone<S: Stream>(n: nat, h: std::rc::Rc<crate::shim::cell::RefCell<S>>, o: Seq<Event>, h2: std::rc::Rc<crate::shim::cell::RefCell<S>>)
    requires uses(n, h, o, h2), crate::shim::cell::cell_at(&*h2) == crate::shim::cell::cell_at(&*h) + n,
    ensures near(inside(h), o, inside(h2)),
    decreases n,
{
    if n == 0 { lemma_near_start(inside(h)); assert(o =~= Seq::empty()); } else {
        let (m, o1) = choose|m: std::rc::Rc<crate::shim::cell::RefCell<S>>, o1: Seq<Event>| uses((n - 1) as nat, h, o1, m) && #[trigger] use_step(m, o1, h2, o);
        lemma_uses_count((n - 1) as nat, h, o1, m);
        lemma_alone((n - 1) as nat, h, o1, m);
        let r = choose|r: StreamResult| #[trigger] m.trans(&h2, r) && some_ev(r) && o == (if is_noop(r) { o1 } else { o1.push(r->Ok_0->0) });
        lemma_near_step(inside(h), o1, inside(m), inside(h2), r);
    }
}
@@ mod modifier::select::select_contents
/// the parts of what a content operation yields: `x` is the stream the builder made of the content `cc`
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(X)]
pub ghost struct Parts<S, X> { pub e: event::Event, pub tag: text::Identifier, pub source: SharedPeek<S>, pub cc: CurrentContent<S>, pub x: X, pub inner: Seq<event::Event>, pub close: Option<event::Event> }
pub open spec fn parts<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, p: Parts<S, B::Stream>, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    opened::<S, B>(a, b, p.e, p.tag, p.source, p.x) && content_of(p.cc, p.source, p.tag) && b.built(p.cc, p.x) && event::runs(p.x, p.inner, event::r_none()) && closing::<S>(p.source, p.tag, p.close, end)
        && out == match p.close { Some(c) => (seq![p.e] + p.inner).push(c), None => seq![p.e] + p.inner }
}
pub proof fn lemma_parts<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, s: SelectContent<S, B>, out: Seq<event::Event>, end: event::StreamResult)
    requires content_start(s, a, b), event::runs(s, out, end),
    ensures no_content(a, out, end) || end is Err || exists|p: Parts<S, B::Stream>| #[trigger] parts::<S, B>(a, b, p, out, end),
{
    lemma_select_content::<S, B>(a, b, s, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let (tag, source, o1, close) = choose|tag: text::Identifier, source: SharedPeek<S>, o1: Seq<event::Event>, c: Option<event::Event>| #[trigger] after_content::<S, B>(a, b, tag, source, o1) && #[trigger] closing::<S>(source, tag, c, end) && out == match c { Some(e) => o1.push(e), None => o1 };
        let (e, x, inner) = choose|e: event::Event, x: B::Stream, o2: Seq<event::Event>| #[trigger] opened::<S, B>(a, b, e, tag, source, x) && #[trigger] event::runs(x, o2, event::r_none()) && o1 == seq![e] + o2;
        let cc = choose|cc: CurrentContent<S>| #[trigger] b.built(cc, x) && content_of(cc, source, tag);
        assert(parts::<S, B>(a, b, Parts { e, tag, source, cc, x, inner, close }, out, end));
    }
}
/// the opening tag of the element, the inner events, the closing tag the source gives
pub open spec fn around<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(a: S, b: B, inner: spec_fn(text::Identifier, SharedPeek<S>, Seq<event::Event>) -> bool, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|p: Parts<S, B::Stream>| #[trigger] parts::<S, B>(a, b, p, out, end) && inner(p.tag, p.source, p.inner)
}
/// the content, `out` being all of it, of the element
pub open spec fn whole_content<S: event::Stream>(tag: text::Identifier, source: SharedPeek<S>, out: Seq<event::Event>) -> bool { current_run(tag, source, out, event::r_none()) }
/// the inner events are the new ones and nothing else; the content is read to its end (and shorter than 2^64)
pub open spec fn instead<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    event::runs(n, o, event::r_none()) && exists|oc: Seq<event::Event>| #[trigger] oc.len() >= 0 && (oc.len() < usize::MAX ==> whole_content(tag, source, oc))
}
pub open spec fn nothing<S: event::Stream>(tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    o.len() == 0 && exists|oc: Seq<event::Event>| #[trigger] oc.len() >= 0 && (oc.len() < usize::MAX ==> whole_content(tag, source, oc))
}
pub open spec fn then_new<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    exists|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] whole_content(tag, source, oa) && #[trigger] event::runs(n, ob, event::r_none()) && o == oa + ob
}
pub open spec fn new_then<S: event::Stream, N: event::Stream>(n: N, tag: text::Identifier, source: SharedPeek<S>, o: Seq<event::Event>) -> bool {
    exists|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(n, oa, event::r_none()) && #[trigger] whole_content(tag, source, ob) && o == oa + ob
}

@@ mod modifier::append
/// what the operation on the content yields, unless it fails
pub proof fn lemma_append_contents<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: AppendContent<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, end), out.len() < usize::MAX,
    ensures modifier::select::select_contents::no_content(a, out, end) || end is Err || modifier::select::select_contents::around::<S, Builder<N>>(a, Builder { new_stream: n }, |t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, o: Seq<event::Event>| modifier::select::select_contents::then_new(n, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: AppendContent<S, N>| x.stream;
    event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<N>>(a, Builder { new_stream: n }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, end);
        assert(out.len() >= p.inner.len());
        let (t, h, o) = (p.tag, p.source, p.inner);
        lemma_append(p.cc, n, p.x, o, event::r_none());
        let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(p.cc, oa, event::r_none()) && #[trigger] event::runs(n, ob, event::r_none()) && o == oa + ob;
        lemma_current_content(t, h, p.cc, oa, event::r_none());
        assert(whole_content(t, h, oa) && event::runs(n, ob, event::r_none()));
        assert(modifier::select::select_contents::then_new(n, t, h, o));
    }
}
@@ mod modifier::prepend
/// what the operation on the content yields, unless it fails
pub proof fn lemma_prepend_contents<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: PrependContent<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, end), out.len() < usize::MAX,
    ensures modifier::select::select_contents::no_content(a, out, end) || end is Err || modifier::select::select_contents::around::<S, Builder<N>>(a, Builder { new_stream: n }, |t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, o: Seq<event::Event>| modifier::select::select_contents::new_then(n, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: PrependContent<S, N>| x.stream;
    event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<N>>(a, Builder { new_stream: n }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, end);
        assert(out.len() >= p.inner.len());
        let (t, h, o) = (p.tag, p.source, p.inner);
        lemma_prepend(p.cc, n, p.x, o, event::r_none());
        let (oa, ob) = choose|oa: Seq<event::Event>, ob: Seq<event::Event>| #[trigger] event::runs(n, oa, event::r_none()) && #[trigger] event::runs(p.cc, ob, event::r_none()) && o == oa + ob;
        lemma_current_content(t, h, p.cc, ob, event::r_none());
        assert(event::runs(n, oa, event::r_none()) && whole_content(t, h, ob));
        assert(modifier::select::select_contents::new_then(n, t, h, o));
    }
}
@@ mod modifier::replace
/// what the operation on the content yields, unless it fails
pub proof fn lemma_replace_contents<S: event::ElementStream, N: event::Stream>(a: S, n: N, s: ReplaceContent<S, N>, out: Seq<event::Event>, end: event::StreamResult)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder { new_stream: n }), event::runs(s, out, end), out.len() < usize::MAX,
    ensures modifier::select::select_contents::no_content(a, out, end) || end is Err || modifier::select::select_contents::around::<S, Builder<N>>(a, Builder { new_stream: n }, |t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, o: Seq<event::Event>| modifier::select::select_contents::instead(n, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: ReplaceContent<S, N>| x.stream;
    event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<N>>(a, Builder { new_stream: n }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<N> as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<N>>(a, Builder { new_stream: n }, p, out, end);
        assert(out.len() >= p.inner.len());
        let (t, h, o) = (p.tag, p.source, p.inner);
        lemma_replace(p.cc, n, p.x, o, event::r_none());
        let oc = choose|oc: Seq<event::Event>| event::runs(p.cc, oc, event::r_none());
        if oc.len() < usize::MAX { lemma_current_content(t, h, p.cc, oc, event::r_none()); }
        assert(oc.len() >= 0);
        assert(modifier::select::select_contents::instead(n, t, h, o));
    }
}
@@ mod modifier::remove
/// what the operation on the content yields, unless it fails
pub proof fn lemma_remove_contents<S: event::ElementStream>(a: S, s: RemoveContent<S>, out: Seq<event::Event>, end: event::StreamResult)
    requires modifier::select::select_contents::content_start(s.stream, a, Builder), event::runs(s, out, end), out.len() < usize::MAX,
    ensures modifier::select::select_contents::no_content(a, out, end) || end is Err || modifier::select::select_contents::around::<S, Builder>(a, Builder, |t: text::Identifier, h: modifier::select::select_contents::SharedPeek<S>, o: Seq<event::Event>| modifier::select::select_contents::nothing(t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: RemoveContent<S>| x.stream;
    event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder>(a, Builder, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder as builder::BuildOnce<modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder>(a, Builder, p, out, end);
        assert(out.len() >= p.inner.len());
        let (t, h, o) = (p.tag, p.source, p.inner);
        lemma_remove(p.x, o, event::r_none());
        let oc = choose|oc: Seq<event::Event>| event::runs(p.cc, oc, event::r_none());
        if oc.len() < usize::MAX { lemma_current_content(t, h, p.cc, oc, event::r_none()); }
        assert(oc.len() >= 0);
        assert(modifier::select::select_contents::nothing(t, h, o));
    }
}
@@ mod modifier::select
/// what selecting from the stream yields
pub open spec fn select_all<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(a: S, m: M, b: B, rs: R, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|p: At<S, B>| fresh(p.src, a) && p.b == b && p.level.depth == 0 && #[trigger] select_run::<S, M, B, R>(m, rs, p, out, end)
}
/// what selecting once from the stream yields
pub open spec fn select_one<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(a: S, m: M, b: B, rs: R, out: Seq<event::Event>, end: event::StreamResult) -> bool {
    exists|src: Shared<S>, l: modifier::Level| fresh(src, a) && l.depth == 0 && #[trigger] once_run::<S, M, B, R>(m, rs, b, src, l, out, end)
}

@@ mod modifier::select::select_any
pub proof fn lemma_select_any<S: crate::event::Stream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildElementStream<S>>>(a: S, m: M, b: B, s: SelectAny<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_start(s.select, a, m, b, super::NoRestriction), crate::event::runs(s, out, end),
    ensures super::select_all::<S, M, B, super::NoRestriction>(a, m, b, super::NoRestriction, out, end),
{
    let f = |x: SelectAny<S, M, B>| x.select;
    crate::event::lemma_part(f, s, out, end);
    super::lemma_select::<S, M, B, super::NoRestriction>(a, m, b, super::NoRestriction, s.select, out, end);
    let l = choose|l: crate::modifier::Level| l.depth == 0 && #[trigger] super::select_run::<S, M, B, super::NoRestriction>(m, super::NoRestriction, super::At { src: s.select.source, b, level: l }, out, end);
}
@@ mod modifier::select::subselect_any
/// selecting from the content of the element
pub open spec fn within_content<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildSubElementStream<S>>>(m: M, b: B, tag: crate::text::Identifier, source: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>) -> bool {
    exists|cc: CurrentContent<S>| super::select_contents::content_of(cc, source, tag) && #[trigger] super::select_all::<CurrentContent<S>, M, B, super::NoRestriction>(cc, m, b, super::NoRestriction, o, crate::event::r_none())
}
/// what selecting from the content yields, unless it fails
pub proof fn lemma_sub_any<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildSubElementStream<S>>>(a: S, m: M, b: B, s: SubSelectAny<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_contents::content_start(s.stream, a, Builder { select_builder: b, selector: m }), crate::event::runs(s, out, end),
    ensures super::select_contents::no_content(a, out, end) || end is Err || super::select_contents::around::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, |t: crate::text::Identifier, h: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>| within_content::<S, M, B>(m, b, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: SubSelectAny<S, M, B>| x.stream;
    crate::event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<M, B> as crate::builder::BuildOnce<CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, p, out, end);
        let (t, h, o) = (p.tag, p.source, p.inner);
        super::select_any::lemma_select_any::<CurrentContent<S>, M, B>(p.cc, m, b, p.x, o, crate::event::r_none());
        assert(content_of(p.cc, h, t) && super::select_all::<CurrentContent<S>, M, B, super::NoRestriction>(p.cc, m, b, super::NoRestriction, o, crate::event::r_none()));
        assert(within_content::<S, M, B>(m, b, t, h, o));
    }
}
@@ mod modifier::select::select_any
pub proof fn lemma_select_any_once<S: crate::event::Stream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildElementStream<S>>>(a: S, m: M, b: B, s: SelectAnyOnce<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_once_start(s.select, a, m, b, super::NoRestriction), crate::event::runs(s, out, end),
    ensures super::select_one::<S, M, B, super::NoRestriction>(a, m, b, super::NoRestriction, out, end),
{
    let f = |x: SelectAnyOnce<S, M, B>| x.select;
    crate::event::lemma_part(f, s, out, end);
    super::lemma_select_once::<S, M, B, super::NoRestriction>(a, m, b, super::NoRestriction, s.select, out, end);
    let l = choose|l: crate::modifier::Level| l.depth == 0 && #[trigger] super::once_run::<S, M, B, super::NoRestriction>(m, super::NoRestriction, b, s.select.source, l, out, end);
}
@@ mod modifier::select::subselect_any
/// selecting from the content of the element
pub open spec fn within_content_once<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildSubElementStream<S>>>(m: M, b: B, tag: crate::text::Identifier, source: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>) -> bool {
    exists|cc: CurrentContent<S>| super::select_contents::content_of(cc, source, tag) && #[trigger] super::select_one::<CurrentContent<S>, M, B, super::NoRestriction>(cc, m, b, super::NoRestriction, o, crate::event::r_none())
}
/// what selecting from the content yields, unless it fails
pub proof fn lemma_sub_any_once<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildSubElementStream<S>>>(a: S, m: M, b: B, s: SubSelectAnyOnce<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_contents::content_start(s.stream, a, BuilderOnce { select_builder: b, selector: m }), crate::event::runs(s, out, end),
    ensures super::select_contents::no_content(a, out, end) || end is Err || super::select_contents::around::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, |t: crate::text::Identifier, h: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>| within_content_once::<S, M, B>(m, b, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: SubSelectAnyOnce<S, M, B>| x.stream;
    crate::event::lemma_part(f, s, out, end);
    lemma_parts::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <BuilderOnce<M, B> as crate::builder::BuildOnce<CurrentContent<S>>>::Stream>| #[trigger] parts::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, p, out, end);
        let (t, h, o) = (p.tag, p.source, p.inner);
        super::select_any::lemma_select_any_once::<CurrentContent<S>, M, B>(p.cc, m, b, p.x, o, crate::event::r_none());
        assert(content_of(p.cc, h, t) && super::select_one::<CurrentContent<S>, M, B, super::NoRestriction>(p.cc, m, b, super::NoRestriction, o, crate::event::r_none()));
        assert(within_content_once::<S, M, B>(m, b, t, h, o));
    }
}
@@ mod modifier::select::select_direct
pub proof fn lemma_select_direct<S: crate::event::Stream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildElementStream<S>>>(a: S, m: M, b: B, s: SelectDirect<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_start(s.select, a, m, b, super::DirectOnly), crate::event::runs(s, out, end),
    ensures super::select_all::<S, M, B, super::DirectOnly>(a, m, b, super::DirectOnly, out, end),
{
    let f = |x: SelectDirect<S, M, B>| x.select;
    crate::event::lemma_part(f, s, out, end);
    super::lemma_select::<S, M, B, super::DirectOnly>(a, m, b, super::DirectOnly, s.select, out, end);
    let l = choose|l: crate::modifier::Level| l.depth == 0 && #[trigger] super::select_run::<S, M, B, super::DirectOnly>(m, super::DirectOnly, super::At { src: s.select.source, b, level: l }, out, end);
}
@@ mod modifier::select::subselect_direct
/// selecting from the content of the element
pub open spec fn within_content<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildSubElementStream<S>>>(m: M, b: B, tag: crate::text::Identifier, source: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>) -> bool {
    exists|cc: CurrentContent<S>| super::select_contents::content_of(cc, source, tag) && #[trigger] super::select_all::<CurrentContent<S>, M, B, super::DirectOnly>(cc, m, b, super::DirectOnly, o, crate::event::r_none())
}
/// what selecting from the content yields, unless it fails
pub proof fn lemma_sub_direct<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildMut<BuildSubElementStream<S>>>(a: S, m: M, b: B, s: SubSelectDirect<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_contents::content_start(s.stream, a, Builder { select_builder: b, selector: m }), crate::event::runs(s, out, end),
    ensures super::select_contents::no_content(a, out, end) || end is Err || super::select_contents::around::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, |t: crate::text::Identifier, h: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>| within_content::<S, M, B>(m, b, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: SubSelectDirect<S, M, B>| x.stream;
    crate::event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<M, B> as crate::builder::BuildOnce<CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<M, B>>(a, Builder { select_builder: b, selector: m }, p, out, end);
        let (t, h, o) = (p.tag, p.source, p.inner);
        super::select_direct::lemma_select_direct::<CurrentContent<S>, M, B>(p.cc, m, b, p.x, o, crate::event::r_none());
        assert(content_of(p.cc, h, t) && super::select_all::<CurrentContent<S>, M, B, super::DirectOnly>(p.cc, m, b, super::DirectOnly, o, crate::event::r_none()));
        assert(within_content::<S, M, B>(m, b, t, h, o));
    }
}
@@ mod modifier::select::select_direct
pub proof fn lemma_select_direct_once<S: crate::event::Stream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildElementStream<S>>>(a: S, m: M, b: B, s: SelectDirectOnce<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_once_start(s.select, a, m, b, super::DirectOnly), crate::event::runs(s, out, end),
    ensures super::select_one::<S, M, B, super::DirectOnly>(a, m, b, super::DirectOnly, out, end),
{
    let f = |x: SelectDirectOnce<S, M, B>| x.select;
    crate::event::lemma_part(f, s, out, end);
    super::lemma_select_once::<S, M, B, super::DirectOnly>(a, m, b, super::DirectOnly, s.select, out, end);
    let l = choose|l: crate::modifier::Level| l.depth == 0 && #[trigger] super::once_run::<S, M, B, super::DirectOnly>(m, super::DirectOnly, b, s.select.source, l, out, end);
}
@@ mod modifier::select::subselect_direct
/// selecting from the content of the element
pub open spec fn within_content_once<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildSubElementStream<S>>>(m: M, b: B, tag: crate::text::Identifier, source: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>) -> bool {
    exists|cc: CurrentContent<S>| super::select_contents::content_of(cc, source, tag) && #[trigger] super::select_one::<CurrentContent<S>, M, B, super::DirectOnly>(cc, m, b, super::DirectOnly, o, crate::event::r_none())
}
/// what selecting from the content yields, unless it fails
pub proof fn lemma_sub_direct_once<S: crate::event::ElementStream, M: crate::select::Selector, B: crate::builder::BuildOnce<BuildSubElementStream<S>>>(a: S, m: M, b: B, s: SubSelectDirectOnce<S, M, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires super::select_contents::content_start(s.stream, a, BuilderOnce { select_builder: b, selector: m }), crate::event::runs(s, out, end),
    ensures super::select_contents::no_content(a, out, end) || end is Err || super::select_contents::around::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, |t: crate::text::Identifier, h: super::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>| within_content_once::<S, M, B>(m, b, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::*;
    let f = |x: SubSelectDirectOnce<S, M, B>| x.stream;
    crate::event::lemma_part(f, s, out, end);
    lemma_parts::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <BuilderOnce<M, B> as crate::builder::BuildOnce<CurrentContent<S>>>::Stream>| #[trigger] parts::<S, BuilderOnce<M, B>>(a, BuilderOnce { select_builder: b, selector: m }, p, out, end);
        let (t, h, o) = (p.tag, p.source, p.inner);
        super::select_direct::lemma_select_direct_once::<CurrentContent<S>, M, B>(p.cc, m, b, p.x, o, crate::event::r_none());
        assert(content_of(p.cc, h, t) && super::select_one::<CurrentContent<S>, M, B, super::DirectOnly>(p.cc, m, b, super::DirectOnly, o, crate::event::r_none()));
        assert(within_content_once::<S, M, B>(m, b, t, h, o));
    }
}
@@ mod modifier::repeat
/// the copies of the content of the element, one for each item
pub open spec fn content_copies<S: crate::event::ElementStream, I: VIter, B: crate::builder::BuildMutMapped<template::TemplateStream, I::Item>>(items: Seq<I::V>, b: B, tag: crate::text::Identifier, source: crate::modifier::select::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>) -> bool {
    exists|cc: crate::modifier::select::CurrentContent<S>| crate::modifier::select::select_contents::content_of(cc, source, tag) && #[trigger] rep_run::<crate::modifier::select::CurrentContent<S>, I, template::TemplateStream, B>(whole_content(), cc, items, b, o, crate::event::r_none())
}
/// what repeating the content yields, unless it fails
pub proof fn lemma_repeat_contents<S: crate::event::ElementStream, I: VIter, B: crate::builder::BuildMutMapped<template::TemplateStream, I::Item>>(a: S, w: Builder<I, B>, s: RepeatContent<S, I, B>, out: Seq<crate::event::Event>, end: crate::event::StreamResult)
    requires crate::modifier::select::select_contents::content_start(s.stream, a, w), crate::event::runs(s, out, end),
    ensures crate::modifier::select::select_contents::no_content(a, out, end) || end is Err || crate::modifier::select::select_contents::around::<S, Builder<I, B>>(a, w, |t: crate::text::Identifier, h: crate::modifier::select::select_contents::SharedPeek<S>, o: Seq<crate::event::Event>| content_copies::<S, I, B>(w.iter.items(), w.builder, t, h, o), out, end),
{
    use crate::modifier::select::select_contents::{lemma_parts, no_content, Parts, parts, content_of};
    let f = |x: RepeatContent<S, I, B>| x.stream;
    crate::event::lemma_part(f, s, out, end);
    lemma_parts::<S, Builder<I, B>>(a, w, s.stream, out, end);
    if !no_content(a, out, end) && !(end is Err) {
        let p = choose|p: Parts<S, <Builder<I, B> as crate::builder::BuildOnce<crate::modifier::select::CurrentContent<S>>>::Stream>| #[trigger] parts::<S, Builder<I, B>>(a, w, p, out, end);
        let (t, h, o) = (p.tag, p.source, p.inner);
        lemma_repeat_content_stream::<crate::modifier::select::CurrentContent<S>, I, B>(p.cc, w.iter.items(), w.builder, p.x, o, crate::event::r_none());
        assert(content_of(p.cc, h, t) && rep_run::<crate::modifier::select::CurrentContent<S>, I, template::TemplateStream, B>(whole_content(), p.cc, w.iter.items(), w.builder, o, crate::event::r_none()));
        assert(content_copies::<S, I, B>(w.iter.items(), w.builder, t, h, o));
    }
}
