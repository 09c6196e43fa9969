@@ mod parse
impl Mode {
    pub open spec fn v(self) -> ModeV { match self { Mode::Data => ModeV::Data, Mode::RawData(t) => ModeV::Raw(t@) } }
}
impl<'i> Parsed<'i> {
    pub open spec fn v(self) -> ParsedV { ParsedV { e: self.event.value.v(), l: self.event.location.v(), m: self.next_mode.v(), r: self.rest.v() } }
}
/// an open element as the parser records it
pub open spec fn entry_v(e: location::Located<text::Identifier>) -> (Seq<char>, LocV) { (e.value@, e.location.v()) }
pub open spec fn stack_v(s: Seq<location::Located<text::Identifier>>) -> Seq<(Seq<char>, LocV)> { Seq::new(s.len(), |i: int| entry_v(s[i])) }
pub open spec fn pair_v(e: (String, location::Location)) -> (Seq<char>, LocV) { (e.0@, e.1.v()) }
pub open spec fn pairs_v(s: Seq<(String, location::Location)>) -> Seq<(Seq<char>, LocV)> { Seq::new(s.len(), |i: int| pair_v(s[i])) }
pub broadcast proof fn lemma_stack_push(s: Seq<location::Located<text::Identifier>>, e: location::Located<text::Identifier>)
    ensures #[trigger] stack_v(s.push(e)) == stack_v(s).push(entry_v(e)),
{ assert(stack_v(s.push(e)) =~= stack_v(s).push(entry_v(e))); }
pub broadcast proof fn lemma_stack_pop(s: Seq<location::Located<text::Identifier>>, k: int)
    requires 0 <= k == s.len() - 1,
    ensures #[trigger] stack_v(s.subrange(0, k)) == stack_v(s).drop_last(), stack_v(s).last() == entry_v(s.last()),
{ assert(stack_v(s.subrange(0, k)) =~= stack_v(s).drop_last()); }
pub broadcast proof fn lemma_stack_empty(s: Seq<location::Located<text::Identifier>>)
    requires s.len() == 0,
    ensures #[trigger] stack_v(s) == Seq::<(Seq<char>, LocV)>::empty(),
{ assert(stack_v(s) =~= Seq::empty()); }
pub broadcast proof fn lemma_pairs(p: Seq<(String, location::Location)>, s: Seq<location::Located<text::Identifier>>)
    requires p.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> pair_v(#[trigger] p[i]) == entry_v(s[i]),
    ensures #![trigger pairs_v(p), stack_v(s)] pairs_v(p) == stack_v(s),
{ assert(pairs_v(p) =~= stack_v(s)); }
impl Error {
    pub open spec fn v(self) -> ErrV {
        match self {
            Error::UnsupportedDoctype { location, doctype } => ErrV::UnsupportedDoctype(location.v(), doctype@),
            Error::UnclosedDoctype { location } => ErrV::UnclosedDoctype(location.v()),
            Error::UnclosedComment { location } => ErrV::UnclosedComment(location.v()),
            Error::ExpectedOpeningTagClose { tag, location } => ErrV::ExpectedOpeningTagClose(location.v(), tag@),
            Error::ExpectedClosingTagClose { tag, location } => ErrV::ExpectedClosingTagClose(location.v(), tag@),
            Error::ExpectedOpeningTagIdentifier { location } => ErrV::ExpectedOpeningTagIdentifier(location.v()),
            Error::InvalidOpeningTagIdentifier { location, identifier_error } => ErrV::InvalidOpeningTagIdentifier(location.v(), identifier_error.v()),
            Error::ExpectedClosingTagIdentifier { location } => ErrV::ExpectedClosingTagIdentifier(location.v()),
            Error::InvalidClosingTagIdentifier { location, identifier_error } => ErrV::InvalidClosingTagIdentifier(location.v(), identifier_error.v()),
            Error::InvalidAttributeIdentifier { location, identifier_error } => ErrV::InvalidAttributeIdentifier(location.v(), identifier_error.v()),
            Error::InvalidAttributeValue { location, tag, attribute_name } => ErrV::InvalidAttributeValue(location.v(), tag@, attribute_name@),
            Error::UnclosedAttributeValue { location, tag, attribute_name } => ErrV::UnclosedAttributeValue(location.v(), tag@, attribute_name@),
            Error::UnexpectedInput { location } => ErrV::UnexpectedInput(location.v()),
            Error::MissingClosingTags { inner, others } => ErrV::MissingClosingTags(pair_v(inner), pairs_v(others@)),
            Error::StackLimitExceeded { tag, location, limit } => ErrV::StackLimitExceeded(location.v(), tag@, limit as nat),
            Error::UnexpectedClosingTag { tag, location } => ErrV::UnexpectedClosingTag(location.v(), tag@),
            Error::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location } =>
                ErrV::MismatchedClosingTag((opening_tag@, opening_location.v()), (closing_tag@, closing_location.v())),
        }
    }
}
/// the result is the specified one
pub open spec fn res_is<'i>(r: Result<Parsed<'i>, Error>, x: PR) -> bool {
    match (r, x) { (Ok(p), Ok(x)) => p.v() == x && p.rest.wf(), (Err(e), Err(x)) => e.v() == x, _ => false }
}
pub open spec fn ores_is<'i>(r: Option<Result<Parsed<'i>, Error>>, x: Option<PR>) -> bool {
    match (r, x) { (Some(r), Some(x)) => res_is(r, x), (None, None) => true, _ => false }
}
pub open spec fn attr_is<'i>(r: Result<Option<AttributeData<'i>>, Error>, x: Result<Option<(AttrV, InputV)>, ErrV>) -> bool {
    match (r, x) {
        (Ok(Some(d)), Ok(Some((a, r)))) => d.attribute.v() == a && d.rest.v() == r && d.rest.wf(),
        (Ok(None), Ok(None)) => true,
        (Err(e), Err(x)) => e.v() == x,
        _ => false,
    }
}
pub open spec fn attrs_is<'i>(r: Result<(event::Attributes, input::Input<'i>), Error>, x: Result<(Seq<AttrV>, InputV), ErrV>) -> bool {
    match (r, x) {
        (Ok((a, r)), Ok((x, y))) => a.v() == x && r.v() == y && r.wf(),
        (Err(e), Err(x)) => e.v() == x,
        _ => false,
    }
}
impl<'i> Iter<'i> {
    pub open spec fn v(self) -> StateV {
        StateV { r: self.rest.v(), m: self.mode.v(), st: stack_v(self.stack@),
            limit: match self.options.max_stack_depth { Some(l) => Some(l as nat), None => None } }
    }
}
pub open spec fn item_is(r: Result<event::Event, Error>) -> Result<EvV, ErrV> { match r { Ok(e) => Ok(e.v()), Err(e) => Err(e.v()) } }
@@ fn parse::Options::max_stack_depth
@sig
    ensures ret == (Options { max_stack_depth: Some(max_depth), ..self })
@@ fn parse::Options::no_max_stack_depth
@sig
    ensures ret == (Options { max_stack_depth: None, ..self })
@@ fn parse::Options::max_input_len
@sig
    ensures ret == (Options { max_input_len: Some(max_len), ..self })
@@ fn parse::Options::no_max_input_len
@sig
    ensures ret == (Options { max_input_len: None, ..self })
@@ fn parse::<Default for Options>::default
@sig
    ensures ret == (Options { max_stack_depth: None, max_input_len: None })
@@ fn parse::try_parse_tag
@sig
    requires input.wf(),
    ensures ores_is(ret, s_tag(input.v()))
@@ fn parse::parse_data_mode
@sig
    requires input.wf(),
    ensures res_is(ret, s_in_data(input.v()))
@start
    proof { reveal(s_in_data); }
@@ fn parse::parse
@sig
    requires input.wf(),
    ensures res_is(ret, s_parse(mode.v(), input.v()))
@@ fn parse::parse_raw_data
@sig
    requires input.wf(),
    ensures res_is(ret, s_raw(input.v(), searched@))
@clparams 0
input::Input<'i>
@closure 0
-> (r: bool)
    requires rest.wf()
    ensures r == closes(rest.v(), searched@)
@clstart 0
    proof { reveal(s_tag_close); }
@stmt Ok(Parsed
    proof {
        let k = content@.len() as int;
        let v = input.v();
        assert forall|j: int| 0 <= j < k implies !#[trigger] is_end(v, searched@, j) by {
            if v.s[j] == '<' { assert(!closes(adv(v, j), searched@)); }
        }
        if k < v.s.len() { assert(is_end(v, searched@, k)); }
        lemma_raw_end_is(v, searched@, k);
    }
@@ fn parse::try_parse_data
@sig
    requires input.wf(),
    ensures ores_is(ret, s_data(input.v()))
@start
    proof { reveal(s_data); }
@@ fn parse::try_parse_comment
@sig
    requires input.wf(),
    ensures ores_is(ret, s_comment(input.v()))
@start
    proof { reveal(s_comment); }
    proof {
        reveal_strlit("<!--"); reveal_strlit("-->");
        assert("<!--"@ =~= comment_open());
        assert("-->"@ =~= comment_close());
    }
    broadcast use lemma_p_until_str;
@@ fn parse::try_parse_doctype
@sig
    requires input.wf(),
    ensures ores_is(ret, s_doctype(input.v()))
@start
    proof { reveal(s_doctype); }
    proof {
        reveal_strlit("<!"); reveal_strlit("doctype"); reveal_strlit("html");
        assert("<!"@ =~= decl_open());
        assert("doctype"@ =~= doctype_name());
        assert("html"@ =~= html_name());
    }
    broadcast use lemma_p_until_char;
@@ fn parse::try_parse_tag_close
@sig
    requires input.wf(),
    ensures ores_is(ret, s_tag_close(input.v()))
@start
    proof { reveal(s_tag_close); }
@@ fn parse::try_parse_attribute
@sig
    requires input.wf(),
    ensures attr_is(ret, s_attr(tag@, input.v()))
@start
    proof { reveal(s_attr); }
    broadcast use lemma_p_until_char;
@@ fn parse::parse_attributes
@sig
    requires input.wf(),
    ensures attrs_is(ret, s_attrs(tag@, ws(input.v())))
@loop 0
    invariant_except_break
        with_attrs(event::avs(attributes@), s_attrs(tag@, rest.v())) == s_attrs(tag@, ws(input.v())),
    invariant rest.wf(),
    ensures
        with_attrs(event::avs(attributes@), s_attrs(tag@, rest.v())) == s_attrs(tag@, ws(input.v())),
        rest.v().s.len() == 0 || s_attrs(tag@, rest.v()) == Ok::<(Seq<AttrV>, InputV), ErrV>((Seq::empty(), rest.v())),
    decreases rest.v().s.len(),
@loopstart 0
    broadcast use event::group_avs;
    proof { lemma_s_attrs(tag@, rest.v()); }
@before 0
    broadcast use event::group_avs;
@after 0
    proof { lemma_s_attrs(tag@, rest.v()); }
@@ fn parse::try_parse_tag_open
@sig
    requires input.wf(),
    ensures ores_is(ret, s_tag_open(input.v()))
@start
    proof { reveal(s_tag_open); }
@@ fn parse::mode_for_tag
@sig
    ensures ret.v() == s_mode(tag@, self_close)
@loop 0
    invariant !self_close, first_name(__it0.rest(), tag@) == first_name(raw_tags(), tag@),
    ensures first_name(raw_tags(), tag@) is None,
    decreases __it0.rest().len(),
@@ fn parse::is_void_tag
@sig
    ensures ret == is_void(tag@)
@loop 0
    invariant first_name(__it0.rest(), tag@) == first_name(void_tags(), tag@),
    ensures first_name(void_tags(), tag@) is None,
    decreases __it0.rest().len(),
@@ fn parse::Iter::new
@sig
    ensures ret.rest.wf(), ret.v() == (StateV { r: InputV { s: input@, l: loc_start() }, m: ModeV::Data, st: Seq::empty(), limit: ret.v().limit }),
        ret.options == options
@start
    broadcast use lemma_stack_empty;
@@ fn parse::Iter::finalize
@sig
    requires old(self).rest.wf(),
    ensures final(self).v() == at_end(old(self).v()), final(self).rest.wf(), final(self).options == old(self).options
@@ impl parse::<Iterator for Iter>
    type V = Result<EvV, ErrV>;
    open spec fn inv(&self) -> bool { self.rest.wf() }
    open spec fn item_v(i: Result<event::Event, Error>) -> Result<EvV, ErrV> { item_is(i) }
    open spec fn items(&self) -> Seq<Result<EvV, ErrV>> { s_run(self.v()) }
@@ fn parse::<Iterator for Iter>::next
@ret ret
@sig
    ensures match (ret, s_next(old(self).v()).0) {
            (Some(r), Some(x)) => item_is(r) == x,
            (None, None) => true,
            _ => false,
        },
        final(self).v() == s_next(old(self).v()).1,
        final(self).options == old(self).options,
@clparams 0
&location::Located<text::Identifier>
@closure 0
-> (r: (String, location::Location))
    ensures pair_v(r) == entry_v(*entry)
@start
    broadcast use lemma_stack_push, lemma_stack_pop, lemma_pairs;
    proof { lemma_s_run(self.v()); lemma_at_end(self.v()); }
