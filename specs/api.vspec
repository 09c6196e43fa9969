## The methods of `Api`: which transform each of them makes.
@@ mod transform
/// the name given is not valid: the stream made fails with its error
pub open spec fn named<N: text::IntoIdentifier, X: event::Stream>(name: N, f: modifier::Fallible<X>, good: spec_fn(text::Identifier, X) -> bool) -> bool {
    f.state.inner matches Some(modifier::FallibleState::Start { result }) && exists|i: Result<text::Identifier, text::IdentifierError>| #[trigger] name.ident_spec(i) && match i {
        Ok(n) => result matches Ok(x) && good(n, x),
        Err(e) => result == Err::<X, event::StreamError>(event::StreamError::Identifier { error: e }),
    }
}
/// the selector given is not valid: the stream made fails with its error
pub open spec fn selecting<M: select::IntoSelector, X: event::Stream>(sel: M, f: modifier::Fallible<X>, good: spec_fn(M::Selector, X) -> bool) -> bool {
    f.state.inner matches Some(modifier::FallibleState::Start { result }) && exists|i: Result<M::Selector, M::Error>| #[trigger] sel.selector_spec(i) && match i {
        Ok(n) => result matches Ok(x) && good(n, x),
        Err(e) => result matches Err(f) && crate::shim::into_rel(e, f),
    }
}
pub proof fn lemma_names_valid()
    ensures id_check(class_name()) is None, id_check(id_name()) is None, enc(seq![' ']) == seq![' '],
{
    lemma_id_check_exact(class_name());
    lemma_id_check_exact(id_name());
    lemma_enc_plain(seq![' ']);
}
pub open spec fn opt_value<V: text::IntoValue>(v: Option<V>) -> Option<Seq<char>> { match v { Some(v) => Some(v.value_v()), None => None } }
@@ fn transform::Api::add_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::AddAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && modifier::attribute::opt_v(data.1) == opt_value(value)))
@@ fn transform::Api::add_attribute_with_value
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::AddAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && modifier::attribute::opt_v(data.1) == Some(value.value_v())))
@@ fn transform::Api::add_empty_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::AddAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && data.1 is None))
@@ fn transform::Api::add_to_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::AddToAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && data.1@ == value.value_v() && data.2@ == separator.value_v()))
@@ fn transform::Api::replace_attribute_value_if_exists
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::ReplaceAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && modifier::attribute::opt_v(data.1) == Some(value.value_v())))
@@ fn transform::Api::set_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::SetAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && modifier::attribute::opt_v(data.1) == opt_value(value)))
@@ fn transform::Api::set_attribute_with_value
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::SetAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && modifier::attribute::opt_v(data.1) == Some(value.value_v())))
@@ fn transform::Api::set_empty_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::SetAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0 == n && data.1 is None))
@@ fn transform::Api::remove_attribute
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::RemoveAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data == n))
@@ fn transform::Api::add_class
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::AddToAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0@ == class_name() && data.1@ == n@ && data.2@ == seq![' ']))
@start
    proof { lemma_names_valid(); reveal_strlit("class"); assert("class"@ =~= class_name()); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
@@ fn transform::Api::remove_class
@sig
    ensures named(name, ret.stream, |n: text::Identifier, x: modifier::attribute::RemoveClass<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data == n))
@@ fn transform::Api::set_id
@sig
    ensures named(id, ret.stream, |n: text::Identifier, x: modifier::attribute::SetAttribute<S>| x.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && (data.0@ == id_name() && modifier::attribute::opt_v(data.1) == Some(n@)))
@start
    proof { lemma_names_valid(); reveal_strlit("id"); assert("id"@ =~= id_name()); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
@@ fn transform::Api::remove_id
@sig
    ensures ret.stream.state.inner matches Some(modifier::attribute::State::Start { stream, data }) && stream == self.stream && data@ == id_name()
@start
    proof { lemma_names_valid(); reveal_strlit("id"); assert("id"@ =~= id_name()); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
@@ fn transform::Api::remove
@sig
    ensures ret.stream.stream == self.stream
@@ fn transform::Api::prepend
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && ret.stream.stream.state.inner == Some(modifier::CombineState::First(n, self.stream))
@@ fn transform::Api::append
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && ret.stream.stream.state.inner == Some(modifier::CombineState::First(self.stream, n))
@@ fn transform::Api::replace
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && (ret.stream.stream.stream.state.inner matches Some(modifier::CombineState::First(a, b)) && a == n && b.stream == self.stream)
@@ fn transform::Api::remove_contents
@sig
    ensures modifier::select::select_contents::content_start(ret.stream.stream, self.stream, modifier::remove::Builder)
@@ fn transform::Api::prepend_contents
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && modifier::select::select_contents::content_start(ret.stream.stream, self.stream, modifier::prepend::Builder { new_stream: n })
@@ fn transform::Api::append_contents
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && modifier::select::select_contents::content_start(ret.stream.stream, self.stream, modifier::append::Builder { new_stream: n })
@@ fn transform::Api::replace_contents
@sig
    ensures exists|n: N::Stream| #[trigger] stream.stream_of(n) && modifier::select::select_contents::content_start(ret.stream.stream, self.stream, modifier::replace::Builder { new_stream: n })
@@ fn transform::Api::select
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SelectAny<S, M::Selector, B>| modifier::select::select_start(x.select, self.stream, m, builder, modifier::select::NoRestriction))
@@ fn transform::Api::select_once
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SelectAnyOnce<S, M::Selector, B>| modifier::select::select_once_start(x.select, self.stream, m, builder, modifier::select::NoRestriction))
@@ fn transform::Api::select_direct
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SelectDirect<S, M::Selector, B>| modifier::select::select_start(x.select, self.stream, m, builder, modifier::select::DirectOnly))
@@ fn transform::Api::select_direct_once
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SelectDirectOnce<S, M::Selector, B>| modifier::select::select_once_start(x.select, self.stream, m, builder, modifier::select::DirectOnly))
@@ fn transform::Api::subselect
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SubSelectAny<S, M::Selector, B>| modifier::select::select_contents::content_start(x.stream, self.stream, modifier::select::subselect_any::Builder { select_builder: builder, selector: m }))
@@ fn transform::Api::subselect_once
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SubSelectAnyOnce<S, M::Selector, B>| modifier::select::select_contents::content_start(x.stream, self.stream, modifier::select::subselect_any::BuilderOnce { select_builder: builder, selector: m }))
@@ fn transform::Api::subselect_direct
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SubSelectDirect<S, M::Selector, B>| modifier::select::select_contents::content_start(x.stream, self.stream, modifier::select::subselect_direct::Builder { select_builder: builder, selector: m }))
@@ fn transform::Api::subselect_direct_once
@sig
    ensures selecting(selector, ret.stream, |m: M::Selector, x: modifier::select::SubSelectDirectOnce<S, M::Selector, B>| modifier::select::select_contents::content_start(x.stream, self.stream, modifier::select::subselect_direct::BuilderOnce { select_builder: builder, selector: m }))
@@ fn transform::Api::subselect_contents
@sig
    ensures modifier::select::select_contents::content_start(ret.stream, self.stream, builder)
@@ fn transform::Api::repeat
@sig
    ensures modifier::repeat::rep_start(ret.stream.state, self.stream, iter.into_items(), builder)
@@ fn transform::Api::repeat_or_else
@sig
    ensures ret.stream.state.inner matches Some(modifier::repeat::RepeatOrElseState::Start { stream: s, iter: i, builder: b, else_builder: e }) && s == self.stream && i.items() == iter.into_items() && b == builder && e == else_builder
@@ fn transform::Api::repeat_contents
@sig
    ensures modifier::repeat::content_rep_start(ret.stream, self.stream, iter.into_items(), builder)
@@ fn transform::Api::repeat_contents_or_else
@sig
    ensures ret.stream.state.inner matches Some(modifier::repeat::RepeatOrElseState::Start { stream: s, iter: i, builder: b, else_builder: e }) && s == self.stream && i.items() == iter.into_items() && b == builder && e == else_builder
@@ fn transform::Api::apply
@sig
    requires call_requires(builder, (self,)),
    ensures call_ensures(builder, (self,), ret)
@@ fn transform::Api::apply_if
@sig
    requires call_requires(builder, (self,)),
    ensures match ret.stream.stream {
        modifier::apply::OneOf::First(x) => predicate && exists|a: Api<'t, R>| #[trigger] call_ensures(builder, (self,), a) && a.stream == x,
        modifier::apply::OneOf::Second(x) => !predicate && x == self.stream,
    }
@@ fn transform::Api::apply_if_else
@sig
    requires call_requires(if_builder, (self,)), call_requires(else_builder, (self,)),
    ensures match ret.stream.stream {
        modifier::apply::OneOf::First(x) => predicate && exists|a: Api<'t, R1>| #[trigger] call_ensures(if_builder, (self,), a) && a.stream == x,
        modifier::apply::OneOf::Second(x) => !predicate && exists|a: Api<'t, R2>| #[trigger] call_ensures(else_builder, (self,), a) && a.stream == x,
    }
@@ fn transform::Api::apply_with_option
@sig
    requires value matches Some(v) ==> call_requires(some_builder, (self, v)), value is None ==> call_requires(none_builder, (self,)),
    ensures match ret.stream.stream {
        modifier::apply::OneOf::First(x) => value matches Some(v) && exists|a: Api<'t, R1>| #[trigger] call_ensures(some_builder, (self, v), a) && a.stream == x,
        modifier::apply::OneOf::Second(x) => value is None && exists|a: Api<'t, R2>| #[trigger] call_ensures(none_builder, (self,), a) && a.stream == x,
    }
@@ fn transform::Api::apply_with_result
@sig
    requires value matches Ok(v) ==> call_requires(ok_builder, (self, v)), value matches Err(e) ==> call_requires(err_builder, (self, e)),
    ensures match ret.stream.stream {
        modifier::apply::OneOf::First(x) => value matches Ok(v) && exists|a: Api<'t, R1>| #[trigger] call_ensures(ok_builder, (self, v), a) && a.stream == x,
        modifier::apply::OneOf::Second(x) => value matches Err(e) && exists|a: Api<'t, R2>| #[trigger] call_ensures(err_builder, (self, e), a) && a.stream == x,
    }
@@ fn transform::Api::apply_as_template
@sig
    ensures ret.stream.state.inner == Some(modifier::apply::TemplateState::Collect { stream: self.stream, builder })
@@ fn template::Template::transform
@sig
    ensures exists|ts: TemplateStream, s: R| #[trigger] builder.built(ts, s) && ts.events == self.events && ts.index == 0 && collected(s, ret)
@@ impl content::<IntoStream for usize>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for usize>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for u8>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for u8>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for u16>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for u16>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for u32>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for u32>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for u64>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for u64>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for isize>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for isize>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for i8>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for i8>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for i16>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for i16>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for i32>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for i32>::into_stream
@start
    broadcast use group_cat;
@@ impl content::<IntoStream for i64>
    open spec fn stream_of(self, s: Stream) -> bool { s.data matches Some(d) && d@ == crate::shim::fmt::dec_digits(self as int) }
@@ fn content::<IntoStream for i64>::into_stream
@start
    broadcast use group_cat;
## What the runs of the named and selecting transforms are.
@@ mod transform
/// an invalid name gives nothing but its error
pub proof fn lemma_named<N: text::IntoIdentifier, X: event::Stream>(name: N, f: modifier::Fallible<X>, good: spec_fn(text::Identifier, X) -> bool, out: Seq<event::Event>, end: event::StreamResult)
    requires named(name, f, good), event::runs(f, out, end),
    ensures
        (exists|e: text::IdentifierError| #[trigger] name.ident_spec(Err(e)) && out.len() == 0 && end == event::r_err(event::StreamError::Identifier { error: e }))
            || (exists|n: text::Identifier, x: X| #[trigger] name.ident_spec(Ok(n)) && #[trigger] good(n, x) && event::runs(x, out, end)),
{
    let result = f.state.inner->0->Start_result;
    modifier::lemma_fallible(result, f, out, end);
    let i = choose|i: Result<text::Identifier, text::IdentifierError>| #[trigger] name.ident_spec(i) && match i {
        Ok(n) => result matches Ok(x) && good(n, x),
        Err(e) => result == Err::<X, event::StreamError>(event::StreamError::Identifier { error: e }),
    };
    match i { Ok(n) => { assert(good(n, result->Ok_0)); }, Err(e) => {} }
}
/// an invalid selector gives nothing but its error
pub proof fn lemma_selecting<M: select::IntoSelector, X: event::Stream>(sel: M, f: modifier::Fallible<X>, good: spec_fn(M::Selector, X) -> bool, out: Seq<event::Event>, end: event::StreamResult)
    requires selecting(sel, f, good), event::runs(f, out, end),
    ensures
        (exists|e: M::Error, g: event::StreamError| #[trigger] sel.selector_spec(Err(e)) && #[trigger] crate::shim::into_rel(e, g) && out.len() == 0 && end == event::r_err(g))
            || (exists|n: M::Selector, x: X| #[trigger] sel.selector_spec(Ok(n)) && #[trigger] good(n, x) && event::runs(x, out, end)),
{
    let result = f.state.inner->0->Start_result;
    modifier::lemma_fallible(result, f, out, end);
    let i = choose|i: Result<M::Selector, M::Error>| #[trigger] sel.selector_spec(i) && match i {
        Ok(n) => result matches Ok(x) && good(n, x),
        Err(e) => result matches Err(g) && crate::shim::into_rel(e, g),
    };
    match i { Ok(n) => { assert(good(n, result->Ok_0)); }, Err(e) => { assert(crate::shim::into_rel(e, result->Err_0)); } }
}
@@ mod template
## A template made from a single element: the element, found by its own name, with the builder applied.
pub open spec fn tag_selected<B: crate::builder::BuildOnce<crate::modifier::select::BuildElementStream<TemplateStream>>>(f: crate::modifier::Fallible<crate::modifier::select::SelectAnyOnce<TemplateStream, crate::select::Tag, B>>, n: text::Identifier, b: B) -> bool {
    f.state.inner matches Some(crate::modifier::FallibleState::Start { result }) && (result matches Ok(x)
        && exists|s: TemplateStream| s.index == 0 && #[trigger] s.left() == seq![element_v(n@)] && crate::modifier::select::select_once_start(x.select, s, crate::select::Tag { identifier: n }, b, crate::modifier::select::NoRestriction))
}
pub open spec fn element_transformed<B: crate::builder::BuildOnce<crate::modifier::select::BuildElementStream<TemplateStream>>>(n: text::Identifier, b: B, r: Result<Template, event::StreamError>) -> bool {
    exists|f: crate::modifier::Fallible<crate::modifier::select::SelectAnyOnce<TemplateStream, crate::select::Tag, B>>| #[trigger] collected(f, r) && tag_selected(f, n, b)
}
@@ fn template::Template::with_transformed_element
@sig
    ensures exists|i: Result<text::Identifier, text::IdentifierError>| #[trigger] tag.ident_spec(i) && match i {
        Ok(n) => element_transformed(n, builder, ret),
        Err(e) => ret == Err::<Template, event::StreamError>(event::StreamError::Identifier { error: e }),
    }
