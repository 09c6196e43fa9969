@@ mono text::deferred
T crate::shim::tendril::StrTendril
@@ mod text::deferred
impl View for Deferred<crate::shim::tendril::StrTendril> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> {
        match *self { Deferred::StaticStr(s) => s@, Deferred::Actual(t) => t@ }
    }
}
@@ fn text::deferred::Deferred::into_actual
@sig
    ensures ret@ == self@
@@ fn text::deferred::Deferred::actual
@sig
    ensures ret@ == old(self)@, final(self)@ == final(ret)@
@@ impl text::deferred::<Display for Deferred>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ fn text::deferred::<Deref for Deferred>::deref
@sig
    ensures ret@ == self@

@@ mod text::base
impl View for Text { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.value@ } }
impl<'s> vstd::std_specs::convert::FromSpecImpl<&'s str> for Text {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: &'s str) -> Text;
}
@@ fn text::base::Text::into_deferred
@sig
    ensures ret@ == self@
@@ fn text::base::Text::from_static_str
@sig
    ensures ret@ == value@
@@ fn text::base::<From<&str> for Text>::from
@outline text_from
    ensures ret@ == value@
@sig
    ensures ret@ == value@
@@ fn text::base::<Deref for Text>::deref
@sig
    ensures ret@ == self@
@@ impl text::base::<Display for Text>
    open spec fn disp(&self) -> Seq<char> { self@ }

@@ mod text::encoded
impl View for EncodedText { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.value@ } }
impl<'a> View for EncodedStr<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.content@ } }
impl vstd::std_specs::convert::FromSpecImpl<crate::text::Text> for EncodedText {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: crate::text::Text) -> EncodedText;
}
@@ fn text::encoded::encode_char
@sig
    requires enc_chars().contains(chr),
    ensures ret@ == ent(chr)
@start
    proof { lemma_enc_ch(chr); }
@@ fn text::encoded::encode_str_optional
@sig
    ensures match ret { None => enc(input@) == input@, Some(t) => t@ == enc(input@) }
@start
    broadcast use group_cidx, group_cat, lemma_idx_set, lemma_enc_step, lemma_enc_empty;
    let ghost orig = input@;
@loop 0
    invariant tendril@ + enc(input@) == enc(orig),
    ensures tendril@ + enc(input@) == enc(orig), input@.len() == 0,
    decreases input@.len(),
@loopstart 0
    broadcast use group_cidx, group_cat, lemma_idx_set, lemma_enc_step, lemma_enc_empty;
    assert(enc_chars() == enc_chars());
@@ fn text::encoded::EncodedText::new
@sig
    ensures ret@ == Seq::<char>::empty()
@@ fn text::encoded::EncodedText::push_encoded_str
@sig
    ensures final(self)@ == old(self)@ + value@
@@ fn text::encoded::EncodedText::is_empty
@sig
    ensures ret == (self@.len() == 0)
@@ fn text::encoded::EncodedText::from_deferred
@sig
    ensures ret@ == value@
@@ fn text::encoded::EncodedText::from_encoded_tendril
@sig
    ensures ret@ == tendril@
@@ fn text::encoded::EncodedText::from_unencoded_static_str
@sig
    ensures ret@ == enc(value@)
@@ fn text::encoded::EncodedText::join
@sig
    ensures ret@ == self@ + other@
@start
    broadcast use lemma_blen_basic, group_cat;
@@ fn text::encoded::EncodedText::from_unencoded_str
@sig
    ensures ret@ == enc(value@)
@@ fn text::encoded::EncodedText::from_raw
@sig
    ensures ret@ == value@
@@ fn text::encoded::EncodedText::as_encoded_ref
@sig
    ensures ret@ == self@
@@ impl text::encoded::<Display for EncodedText>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ fn text::encoded::<From<text::Text> for EncodedText>::from
@outline encoded_from
    ensures ret@ == enc(text@)
@sig
    ensures ret@ == enc(text@)
@@ impl text::encoded::<Display for EncodedStr>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ fn text::encoded::EncodedStr::split_whitespace
@sig
    ensures ret.items() == words(self@)
@@ fn text::encoded::EncodedStr::identifier_eq
@sig
    ensures ret == name_eq(self@, value@)

@@ fn text::identifier::identifier_eq
@sig
    ensures ret == name_eq(left@, right@)
@@ mod text::identifier
impl View for Identifier { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.value@ } }
impl IdentifierError {
    pub open spec fn v(self) -> IdErrV {
        match self {
            IdentifierError::Empty => IdErrV::Empty,
            IdentifierError::NotAscii => IdErrV::NotAscii,
            IdentifierError::Whitespace { whitespace } => IdErrV::Whitespace(whitespace),
            IdentifierError::Forbidden { forbidden } => IdErrV::Forbidden(forbidden),
        }
    }
}
/// C02: the identifier made of `s`, or the error that `s` deserves
pub open spec fn id_res(s: Seq<char>, r: Result<Identifier, IdentifierError>) -> bool {
    match r {
        Ok(id) => id_check(s) is None && id@ == s,
        Err(e) => id_check(s) == Some(e.v()),
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Identifier {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Identifier) -> bool { name_eq(self@, other@) }
}
@@ fn text::identifier::Identifier::from_static_str
@sig
    ensures id_res(value@, ret)
@@ fn text::identifier::Identifier::to_string
@sig
    ensures ret@ == self@
@@ fn text::identifier::Identifier::is_eq
@sig
    ensures ret == name_eq(self@, value@)
@@ fn text::identifier::Identifier::into_value
@sig
    ensures ret@ == self@
@@ fn text::identifier::validate
@sig
    ensures match ret {
        Ok(v) => id_check(value@) is None && v@ == value@,
        Err(e) => id_check(value@) == Some(e.v()),
    }
@start
    broadcast use lemma_idx_set, lemma_idx_ws;
    proof { assert(value@.skip(0) =~= value@); }
@@ impl text::identifier::<FromStr for Identifier>
    open spec fn parse_spec(s: Seq<char>, r: Result<Self, IdentifierError>) -> bool { id_res(s, r) }
@@ fn text::identifier::<Deref for Identifier>::deref
@sig
    ensures ret@ == self@
@@ impl text::identifier::<Display for Identifier>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ trait text::identifier::IntoIdentifier
    /// the outcome conversion has to have
    spec fn ident_spec(self, r: Result<Identifier, IdentifierError>) -> bool;
@@ fn text::identifier::IntoIdentifier::into_identifier
@sig
    ensures self.ident_spec(ret)
@@ impl text::identifier::<IntoIdentifier for &str>
    open spec fn ident_spec(self, r: Result<Identifier, IdentifierError>) -> bool { id_res(self@, r) }
@@ impl text::identifier::<IntoIdentifier for Result>
    open spec fn ident_spec(self, r: Result<Identifier, IdentifierError>) -> bool { r == self }
@@ impl text::identifier::<IntoIdentifier for &Identifier>
    open spec fn ident_spec(self, r: Result<Identifier, IdentifierError>) -> bool { r == Ok::<Identifier, IdentifierError>(*self) }
@@ impl text::identifier::<IntoIdentifier for Identifier>
    open spec fn ident_spec(self, r: Result<Identifier, IdentifierError>) -> bool { r == Ok::<Identifier, IdentifierError>(self) }

@@ mod text::value
impl View for Value { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.text@ } }
@@ impl text::value::<Display for Value>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ fn text::value::Value::new
@sig
    ensures ret@ == Seq::<char>::empty()
@@ fn text::value::Value::into_encoded_text
@sig
    ensures ret@ == self@
@@ fn text::value::Value::from_deferred
@sig
    ensures ret@ == deferred@
@@ fn text::value::Value::is_empty
@sig
    ensures ret == (self@.len() == 0)
@@ fn text::value::Value::push_encoded_str
@sig
    ensures final(self)@ == old(self)@ + value@
@@ fn text::value::Value::from_raw
@sig
    ensures ret@ == value@
@@ fn text::value::Value::from_unencoded_str
@sig
    ensures ret@ == enc(value.as_ref_v()@)
@@ fn text::value::Value::from_unencoded_static_str
@sig
    ensures ret@ == enc(value@)
@@ fn text::value::Value::as_encoded_ref
@sig
    ensures ret@ == self@
@@ fn text::value::Value::join
@sig
    ensures ret@ == self@ + other@
@@ trait text::value::IntoValue
    /// the encoded text
    spec fn value_v(self) -> Seq<char>;
@@ fn text::value::IntoValue::into_value
@sig
    ensures ret@ == self.value_v()
@@ impl text::value::<IntoValue for Value>
    open spec fn value_v(self) -> Seq<char> { self@ }
@@ impl text::value::<IntoValue for &Value>
    open spec fn value_v(self) -> Seq<char> { self@ }
@@ impl text::value::<IntoValue for &str>
    open spec fn value_v(self) -> Seq<char> { enc(self@) }
@@ impl text::value::<IntoValue for usize>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for usize>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for u8>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for u8>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for u16>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for u16>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for u32>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for u32>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for u64>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for u64>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for isize>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for isize>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for i8>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for i8>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for i16>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for i16>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for i32>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for i32>::into_value
@start
    broadcast use group_cat;
@@ impl text::value::<IntoValue for i64>
    open spec fn value_v(self) -> Seq<char> { fmt::dec_digits(self as int) }
@@ fn text::value::<IntoValue for i64>::into_value
@start
    broadcast use group_cat;

@@ mod text::data
impl View for Data { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.text@ } }
impl vstd::std_specs::convert::FromSpecImpl<crate::text::Value> for Data {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: crate::text::Value) -> Data;
}
@@ impl text::data::<Display for Data>
    open spec fn disp(&self) -> Seq<char> { self@ }
@@ fn text::data::<From<text::Value> for Data>::from
@outline data_from
    ensures ret@ == text@
@sig
    ensures ret@ == text@
@@ fn text::data::Data::from_encoded_tendril
@sig
    ensures ret@ == value@
@@ fn text::data::Data::from_raw
@sig
    ensures ret@ == value@
@@ fn text::data::Data::from_unencoded_str
@sig
    ensures ret@ == enc(value.as_ref_v()@)
@@ fn text::data::Data::from_unencoded_static_str
@sig
    ensures ret@ == enc(value@)
@@ fn text::data::Data::as_encoded_ref
@sig
    ensures ret@ == self@
@@ fn text::identifier::<PartialEq for Identifier>::eq
@outline identifier_eq_body Identifier
    ensures ret == vstd::std_specs::cmp::PartialEqSpec::eq_spec(__self, other)
