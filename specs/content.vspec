## Operations on the content of an element, and the public selections: what each is made of.
@@ fn modifier::select::select_any::SelectAny::new
@sig
    ensures super::select_start(ret.select, stream, matcher, builder, NoRestriction)
@@ impl modifier::select::select_any::<Stream for SelectAny>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.select.trans(&post.select, r) }
    open spec fn done(&self) -> bool { self.select.done() }
@@ fn modifier::select::select_any::<Stream for SelectAny>::next_event
@@ fn modifier::select::select_any::SelectAnyOnce::new
@sig
    ensures super::select_once_start(ret.select, stream, matcher, builder, NoRestriction)
@@ impl modifier::select::select_any::<Stream for SelectAnyOnce>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.select.trans(&post.select, r) }
    open spec fn done(&self) -> bool { self.select.done() }
@@ fn modifier::select::select_any::<Stream for SelectAnyOnce>::next_event
@@ fn modifier::select::select_direct::SelectDirect::new
@sig
    ensures super::select_start(ret.select, stream, matcher, builder, DirectOnly)
@@ impl modifier::select::select_direct::<Stream for SelectDirect>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.select.trans(&post.select, r) }
    open spec fn done(&self) -> bool { self.select.done() }
@@ fn modifier::select::select_direct::<Stream for SelectDirect>::next_event
@@ fn modifier::select::select_direct::SelectDirectOnce::new
@sig
    ensures super::select_once_start(ret.select, stream, matcher, builder, DirectOnly)
@@ impl modifier::select::select_direct::<Stream for SelectDirectOnce>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.select.trans(&post.select, r) }
    open spec fn done(&self) -> bool { self.select.done() }
@@ fn modifier::select::select_direct::<Stream for SelectDirectOnce>::next_event
@@ fn modifier::select::subselect_any::SubSelectAny::new
@sig
    ensures super::select_contents::content_start(ret.stream, stream, Builder { select_builder, selector })
@@ impl modifier::select::subselect_any::<ElementStream for SubSelectAny>
@@ impl modifier::select::subselect_any::<Stream for SubSelectAny>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::select::subselect_any::<Stream for SubSelectAny>::next_event
@@ impl modifier::select::subselect_any::<BuildOnce<CurrentContent<S>> for Builder>
    open spec fn built(self, s: CurrentContent<S>, r: SelectAny<CurrentContent<S>, M, B>) -> bool { super::select_start(r.select, s, self.selector, self.select_builder, super::NoRestriction) }
@@ fn modifier::select::subselect_any::<BuildOnce<CurrentContent<S>> for Builder>::build_once
@@ fn modifier::select::subselect_any::SubSelectAnyOnce::new
@sig
    ensures super::select_contents::content_start(ret.stream, stream, BuilderOnce { select_builder, selector })
@@ impl modifier::select::subselect_any::<ElementStream for SubSelectAnyOnce>
@@ impl modifier::select::subselect_any::<Stream for SubSelectAnyOnce>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::select::subselect_any::<Stream for SubSelectAnyOnce>::next_event
@@ impl modifier::select::subselect_any::<BuildOnce<CurrentContent<S>> for BuilderOnce>
    open spec fn built(self, s: CurrentContent<S>, r: SelectAnyOnce<CurrentContent<S>, M, B>) -> bool { super::select_once_start(r.select, s, self.selector, self.select_builder, super::NoRestriction) }
@@ fn modifier::select::subselect_any::<BuildOnce<CurrentContent<S>> for BuilderOnce>::build_once
@@ fn modifier::select::subselect_direct::SubSelectDirect::new
@sig
    ensures super::select_contents::content_start(ret.stream, stream, Builder { select_builder, selector })
@@ impl modifier::select::subselect_direct::<ElementStream for SubSelectDirect>
@@ impl modifier::select::subselect_direct::<Stream for SubSelectDirect>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::select::subselect_direct::<Stream for SubSelectDirect>::next_event
@@ impl modifier::select::subselect_direct::<BuildOnce<CurrentContent<S>> for Builder>
    open spec fn built(self, s: CurrentContent<S>, r: SelectDirect<CurrentContent<S>, M, B>) -> bool { super::select_start(r.select, s, self.selector, self.select_builder, super::DirectOnly) }
@@ fn modifier::select::subselect_direct::<BuildOnce<CurrentContent<S>> for Builder>::build_once
@@ fn modifier::select::subselect_direct::SubSelectDirectOnce::new
@sig
    ensures super::select_contents::content_start(ret.stream, stream, BuilderOnce { select_builder, selector })
@@ impl modifier::select::subselect_direct::<ElementStream for SubSelectDirectOnce>
@@ impl modifier::select::subselect_direct::<Stream for SubSelectDirectOnce>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::select::subselect_direct::<Stream for SubSelectDirectOnce>::next_event
@@ impl modifier::select::subselect_direct::<BuildOnce<CurrentContent<S>> for BuilderOnce>
    open spec fn built(self, s: CurrentContent<S>, r: SelectDirectOnce<CurrentContent<S>, M, B>) -> bool { super::select_once_start(r.select, s, self.selector, self.select_builder, super::DirectOnly) }
@@ fn modifier::select::subselect_direct::<BuildOnce<CurrentContent<S>> for BuilderOnce>::build_once
@@ fn modifier::append::AppendContent::new
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, stream, Builder { new_stream })
@@ impl modifier::append::<ElementStream for AppendContent>
@@ impl modifier::append::<Stream for AppendContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::append::<Stream for AppendContent>::next_event
@@ impl modifier::append::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>
    open spec fn built(self, s: modifier::select::CurrentContent<S>, r: Append<modifier::select::CurrentContent<S>, N>) -> bool { r.stream.state.inner == Some(modifier::CombineState::First(s, self.new_stream)) }
@@ fn modifier::append::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>::build_once
@@ fn modifier::prepend::PrependContent::new
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, stream, Builder { new_stream })
@@ impl modifier::prepend::<ElementStream for PrependContent>
@@ impl modifier::prepend::<Stream for PrependContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::prepend::<Stream for PrependContent>::next_event
@@ impl modifier::prepend::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>
    open spec fn built(self, s: modifier::select::CurrentContent<S>, r: Prepend<modifier::select::CurrentContent<S>, N>) -> bool { r.stream.state.inner == Some(modifier::CombineState::First(self.new_stream, s)) }
@@ fn modifier::prepend::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>::build_once
@@ fn modifier::replace::ReplaceContent::new
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, stream, Builder { new_stream })
@@ impl modifier::replace::<ElementStream for ReplaceContent>
@@ impl modifier::replace::<Stream for ReplaceContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::replace::<Stream for ReplaceContent>::next_event
@@ impl modifier::replace::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>
    open spec fn built(self, s: modifier::select::CurrentContent<S>, r: Replace<modifier::select::CurrentContent<S>, N>) -> bool { r.stream.stream.state.inner matches Some(modifier::CombineState::First(a, b)) && a == self.new_stream && b.stream == s }
@@ fn modifier::replace::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>::build_once
@@ fn modifier::remove::RemoveContent::new
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, stream, Builder)
@@ impl modifier::remove::<ElementStream for RemoveContent>
@@ impl modifier::remove::<Stream for RemoveContent>
    open spec fn trans(&self, post: &Self, r: event::StreamResult) -> bool { self.stream.trans(&post.stream, r) }
    open spec fn done(&self) -> bool { self.stream.done() }
@@ fn modifier::remove::<Stream for RemoveContent>::next_event
@@ impl modifier::remove::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>
    open spec fn built(self, s: modifier::select::CurrentContent<S>, r: Remove<modifier::select::CurrentContent<S>>) -> bool { r.stream == s }
@@ fn modifier::remove::<BuildOnce<modifier::select::CurrentContent<S>> for Builder>::build_once
