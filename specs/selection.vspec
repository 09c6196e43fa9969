## Selection of elements and of their content.
@@ trait builder::BuildMutMapped
    /// the stream the builder may make
    spec fn built_mapped(&self, post: &Self, s: S, value: T, r: Self::Stream) -> bool;
@@ fn builder::BuildMutMapped::build_mut_mapped
@sig
    ensures old(self).built_mapped(final(self), stream.stream, value, ret.stream)
@@ trait builder::BuildMut
    spec fn built_mut(&self, post: &Self, s: S, r: Self::Stream) -> bool;
@@ fn builder::BuildMut::build_mut
@sig
    ensures old(self).built_mut(final(self), stream.stream, ret.stream)
@@ trait builder::BuildOnce
    spec fn built(self, s: S, r: Self::Stream) -> bool;
@@ fn builder::BuildOnce::build_once
@sig
    ensures self.built(stream.stream, ret.stream)
@@ fn transform::build_once
@sig
    ensures builder.built(stream, ret)
@@ fn transform::build_mut
@sig
    ensures old(builder).built_mut(final(builder), stream, ret)
@@ fn transform::build_mut_mapped
@sig
    ensures old(builder).built_mapped(final(builder), stream, value, ret)
@@ fn transform::Api::pack
@sig
    ensures ret.stream == stream
@@ fn transform::Api::unpack
@sig
    ensures ret == self.stream

@@ mod modifier::select::element
pub open spec fn single_step<S: event::Stream>(t: SingleElementState<S>, n: Option<SingleElementState<S>>, r: event::StreamResult) -> bool {
    match t {
        SingleElementState::Start { event, stream } => match event.0 {
            event::EventKind::OpeningTag { tag, attributes } => r == event::r_some(event) && n == Some(SingleElementState::EmitUntilClose { tag, stream, level: 0 }),
            event::EventKind::SelfClosedTag { .. } => r == event::r_some(event) && n is None,
            event::EventKind::VoidTag { .. } => r == event::r_some(event) && n is None,
            _ => r == event::r_err(event::err_expected_open(Some(event))),
        },
        SingleElementState::EmitUntilClose { tag, stream, level } => exists|s2: S| #[trigger] stream.trans(&s2, r) && match r {
            Ok(Some(e)) => if e.v() is Open && name_eq(e.v()->Open_0, tag@) { n == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level: (level + 1) as usize }) }
                else if e.v() is Close && name_eq(e.v()->Close_0, tag@) {
                    if level == 0 { n is None } else { n == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level: (level - 1) as usize }) }
                } else { n == Some(SingleElementState::EmitUntilClose { tag, stream: s2, level }) },
            _ => n is None,
        },
    }
}
@@ fn modifier::select::element::SingleElement::new
@sig
    ensures ret.state.inner == Some(SingleElementState::Start { event, stream })
@@ impl modifier::select::element::<ElementStream for SingleElement>
@@ impl modifier::select::element::<Stream for SingleElement>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> single_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::select::element::<Stream for SingleElement>::next_event
@start
    // a stream yields fewer than 2^64 events
    proof { if let Some(SingleElementState::EmitUntilClose { level, .. }) = self.state.inner { assume(level < usize::MAX); } }

@@ mod modifier::select
use crate::event::Stream as _;
/// a cell that holds the stream and was not used yet
pub open spec fn fresh<S>(c: Shared<S>, s: S) -> bool { crate::shim::cell::cell_at(&*c) == 0 && *crate::shim::cell::held::<S>(crate::shim::cell::cell_id(&*c), 0) == s }
/// the element stream given to a builder: the event that was matched, then the shared source
pub open spec fn element_of<S>(x: element::SingleElement<Shared<S>>, e: event::Event, src: Shared<S>) -> bool {
    x.state.inner == Some(element::SingleElementState::Start { event: e, stream: src })
}
/// the builder was given the element that begins with the event
pub open spec fn made_once<S: event::Stream, B: builder::BuildOnce<BuildElementStream<S>>>(builder: B, stream: B::Stream, e: event::Event, src: Shared<S>) -> bool {
    exists|x: element::SingleElement<Shared<S>>| #[trigger] builder.built(x, stream) && element_of(x, e, src)
}
pub open spec fn made<S: event::Stream, B: builder::BuildMut<BuildElementStream<S>>>(builder: B, post: B, stream: B::Stream, e: event::Event, src: Shared<S>) -> bool {
    exists|x: element::SingleElement<Shared<S>>| #[trigger] builder.built_mut(&post, x, stream) && element_of(x, e, src)
}
pub open spec fn select_once_step<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(src: Shared<S>, src2: Shared<S>, t: SelectOnceState<S, M, B, R>, n: Option<SelectOnceState<S, M, B, R>>, r: event::StreamResult) -> bool {
    match t {
        SelectOnceState::Scanning { matcher, builder, restriction, level } => exists|q: event::StreamResult| #[trigger] event::skips(&src, &src2, q) && match q {
            Ok(Some(e)) => if restriction.incl(level) && matcher.sel(e.v()) {
                event::is_noop(r) && (n matches Some(SelectOnceState::Active { stream }) && made_once::<S, B>(builder, stream, e, src2))
            } else {
                match level.after(e) {
                    Ok(l) => r == q && n == Some(SelectOnceState::Scanning { matcher, builder, restriction, level: l }),
                    Err(x) => r == event::r_err(x),
                }
            },
            _ => r == q,
        },
        SelectOnceState::Active { stream } => src2 == src && exists|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
            Ok(Some(_)) => r == q && n == Some(SelectOnceState::<S, M, B, R>::Active { stream: s2 }),
            Ok(None) => event::is_noop(r) && n == Some(SelectOnceState::<S, M, B, R>::Passthrough),
            Err(_) => r == q,
        },
        SelectOnceState::Passthrough => src.trans(&src2, r) && (event::some_ev(r) ==> n == Some(SelectOnceState::<S, M, B, R>::Passthrough)),
    }
}
pub open spec fn select_step<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(src: Shared<S>, src2: Shared<S>, matcher: M, restriction: R, b: B, b2: B, t: SelectState<B::Stream>, n: Option<SelectState<B::Stream>>, r: event::StreamResult) -> bool {
    match t {
        SelectState::Scanning { level } => exists|q: event::StreamResult| #[trigger] event::skips(&src, &src2, q) && match q {
            Ok(Some(e)) => if restriction.incl(level) && matcher.sel(e.v()) {
                event::is_noop(r) && (n matches Some(SelectState::Active { stream, level: l }) && l == level && made::<S, B>(b, b2, stream, e, src2))
            } else {
                b2 == b && match level.after(e) {
                    Ok(l) => r == q && n == Some(SelectState::<B::Stream>::Scanning { level: l }),
                    Err(x) => r == event::r_err(x),
                }
            },
            _ => r == q && b2 == b,
        },
        SelectState::Active { stream, level } => b2 == b && src2 == src && exists|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
            Ok(Some(_)) => r == q && n == Some(SelectState::Active { stream: s2, level }),
            Ok(None) => event::is_noop(r) && n == Some(SelectState::<B::Stream>::Scanning { level }),
            Err(_) => r == q,
        },
    }
}
pub open spec fn select_once_start<S: event::Stream, M: select::Selector, B: builder::BuildOnce<BuildElementStream<S>>, R: Restrict>(x: SelectOnce<S, M, B, R>, source: S, matcher: M, builder: B, restriction: R) -> bool {
    fresh(x.source, source) && (x.state.inner matches Some(SelectOnceState::Scanning { matcher: m, builder: b, restriction: r, level }) && m == matcher && b == builder && r == restriction && level.depth == 0)
}
pub open spec fn select_start<S: event::Stream, M: select::Selector, B: builder::BuildMut<BuildElementStream<S>>, R: Restrict>(x: Select<S, M, B, R>, source: S, matcher: M, builder: B, restriction: R) -> bool {
    fresh(x.source, source) && x.matcher == matcher && x.builder == builder && x.restriction == restriction && (x.state.inner matches Some(SelectState::Scanning { level }) && level.depth == 0)
}
@@ trait modifier::select::Restrict
    /// may an element at the level be selected
    spec fn incl(&self, level: modifier::Level) -> bool;
@@ fn modifier::select::Restrict::include
@sig
    ensures ret == self.incl(*level)
@@ impl modifier::select::<Restrict for DirectOnly>
    open spec fn incl(&self, level: modifier::Level) -> bool { level.depth == 0 }
@@ fn modifier::select::<Restrict for DirectOnly>::include
@@ impl modifier::select::<Restrict for NoRestriction>
    open spec fn incl(&self, level: modifier::Level) -> bool { true }
@@ fn modifier::select::<Restrict for NoRestriction>::include
@@ fn modifier::select::SelectOnce::new
@sig
    ensures select_once_start(ret, source, matcher, builder, restriction)
@@ impl modifier::select::<ElementStream for SelectOnce>
@@ impl modifier::select::<Stream for SelectOnce>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> select_once_step(self.source, post.source, t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::select::<Stream for SelectOnce>::next_event
@@ fn modifier::select::Select::new
@sig
    ensures select_start(ret, source, matcher, builder, restriction)
@@ impl modifier::select::<ElementStream for Select>
@@ impl modifier::select::<Stream for Select>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && post.matcher == self.matcher && post.restriction == self.restriction
            && match self.state.inner { Some(t) => select_step(self.source, post.source, self.matcher, self.restriction, self.builder, post.builder, t, post.state.inner, r), None => post.builder == self.builder }
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::select::<Stream for Select>::next_event

@@ mod modifier::select::select_contents
use crate::event::Stream as _;
/// the content operation before it has yielded anything
pub open spec fn content_start<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(x: SelectContent<S, B>, stream: S, b: B) -> bool {
    x.state.inner matches Some(SelectContentState::Open { source, builder }) && builder == b && source.state.inner == Some(modifier::ExpandState::Start { stream })
}
/// the content stream given to a builder: it ends at the closing tag for the element
pub open spec fn content_of<S>(x: CurrentContent<S>, source: SharedPeek<S>, tag: text::Identifier) -> bool {
    x.state.inner matches Some(CurrentContentState { tag: t, stream, level }) && t == tag && stream == source && level.depth == 0
}
/// the builder was given the content of the element
pub open spec fn made<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(builder: B, stream: B::Stream, source: SharedPeek<S>, tag: text::Identifier) -> bool {
    exists|x: CurrentContent<S>| #[trigger] builder.built(x, stream) && content_of(x, source, tag)
}
pub open spec fn content_step<S: event::ElementStream, B: builder::BuildOnce<CurrentContent<S>>>(t: SelectContentState<S, B>, n: Option<SelectContentState<S, B>>, r: event::StreamResult) -> bool {
    match t {
        SelectContentState::Open { source: s, builder } => exists|s2: modifier::Expand<S>, q: event::StreamResult| #[trigger] event::skips(&s, &s2, q) && match q {
            Ok(Some(e)) => match e.0 {
                event::EventKind::OpeningTag { tag, .. } => r == q && (n matches Some(SelectContentState::Content { source, stream, tag: t }) && t == tag && super::fresh(source, modifier::Peek { stream: s2, buffered: None }) && made::<S, B>(builder, stream, source, tag)),
                event::EventKind::VoidTag { .. } => r == q && n is None,
                _ => r == event::r_err(event::err_expected_open(Some(e))),
            },
            Ok(None) => r == event::r_err(event::err_expected_open(None)),
            Err(_) => r == q,
        },
        SelectContentState::Content { source, stream, tag } => exists|s2: B::Stream, q: event::StreamResult| #[trigger] stream.trans(&s2, q) && match q {
            Ok(Some(_)) => r == q && n == Some(SelectContentState::<S, B>::Content { source, stream: s2, tag }),
            Ok(None) => event::is_noop(r) && n == Some(SelectContentState::<S, B>::Close { source, tag }),
            Err(_) => r == q,
        },
        SelectContentState::Close { source, tag } => exists|s2: SharedPeek<S>, q: event::StreamResult| #[trigger] event::skips(&source, &s2, q) && match q {
            Ok(Some(event::Event(event::EventKind::ClosingTag { tag: t }))) => if name_eq(t@, tag@) { r == q && n is None } else { r == event::r_err(event::err_unexpected_close(t)) },
            Ok(x) => r == event::r_err(event::err_expected_close(x, tag)),
            Err(_) => r == q,
        },
    }
}
/// looking ahead in the shared source: is the next event the closing tag for the element
pub open spec fn end_seen<S: event::Stream>(a: SharedPeek<S>, b: SharedPeek<S>, tag: text::Identifier, r: Result<bool, event::StreamError>) -> bool {
    crate::shim::cell::used(&*a, &*b) && looked(*crate::shim::cell::before::<modifier::Peek<modifier::Expand<S>>>(&*b), *crate::shim::cell::after::<modifier::Peek<modifier::Expand<S>>>(&*b), tag, r)
}
pub open spec fn looked<S: event::Stream>(p: modifier::Peek<modifier::Expand<S>>, p2: modifier::Peek<modifier::Expand<S>>, tag: text::Identifier, r: Result<bool, event::StreamError>) -> bool {
    match r {
        Ok(b) => p2.buffered matches Some(e) && b == (e.v() is Close && name_eq(e.v()->Close_0, tag@)) && match p.buffered {
            Some(_) => p2 == p,
            None => event::skips(&p.stream, &p2.stream, event::r_some(e)),
        },
        Err(x) => p.buffered is None && p2.buffered is None && exists|q: event::StreamResult| #[trigger] event::skips(&p.stream, &p2.stream, q) && match q {
            Ok(None) => x == event::err_expected_close(None, tag),
            Err(y) => x == y,
            _ => false,
        },
    }
}
pub open spec fn current_step<S: event::Stream>(t: CurrentContentState<S>, n: Option<CurrentContentState<S>>, r: event::StreamResult) -> bool {
    &&& t.level.depth == 0 ==> exists|m: SharedPeek<S>, w: Result<bool, event::StreamError>| #[trigger] end_seen::<S>(t.stream, m, t.tag, w) && match w {
            Ok(true) => r == event::r_none(),
            Ok(false) => current_next(m, t.tag, t.level, n, r),
            Err(e) => r == event::r_err(e),
        }
    &&& t.level.depth > 0 ==> current_next(t.stream, t.tag, t.level, n, r)
}
pub open spec fn current_next<S: event::Stream>(s: SharedPeek<S>, tag: text::Identifier, level: modifier::Level, n: Option<CurrentContentState<S>>, r: event::StreamResult) -> bool {
    exists|s2: SharedPeek<S>, q: event::StreamResult| #[trigger] s.trans(&s2, q) && match q {
        Ok(Some(e)) => match level.after(e) {
            Ok(l) => r == q && n == Some(CurrentContentState { tag, level: l, stream: s2 }),
            Err(_) => r == event::r_err(event::err_expected_close(None, tag)),
        },
        Ok(None) => r == event::r_err(event::err_expected_close(None, tag)),
        Err(_) => r == q,
    }
}
@@ fn modifier::select::select_contents::SelectContent::new
@sig
    ensures content_start(ret, source, builder)
@@ impl modifier::select::select_contents::<ElementStream for SelectContent>
@@ impl modifier::select::select_contents::<Stream for SelectContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> content_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::select::select_contents::<Stream for SelectContent>::next_event
@@ fn modifier::select::select_contents::CurrentContent::new
@sig
    ensures content_of(ret, stream, tag)
@@ fn modifier::select::select_contents::has_reached_end
@sig
    ensures
        level.depth > 0 ==> ret == Ok::<bool, event::StreamError>(false) && *final(stream) == *old(stream),
        level.depth == 0 ==> end_seen::<S>(*old(stream), *final(stream), *tag, ret),
@clparams 0
&event::Event
@closure 0
-> (r: bool)
    ensures r == (event.v() is Close && name_eq(event.v()->Close_0, tag@))
@@ impl modifier::select::select_contents::<Stream for CurrentContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool {
        modifier::fused(self.state, post.state, r) && (self.state.inner matches Some(t) ==> current_step(t, post.state.inner, r))
    }
    open spec fn done(&self) -> bool { self.state.over() }
@@ fn modifier::select::select_contents::<Stream for CurrentContent>::next_event
