/// Contracts on the parts of std and tendril the crate uses. All `external_body` here is trusted.
pub mod shim {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;

pub mod ext {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
verus! {

/// Iterators. `items` is what is left to be produced.
pub trait VIter: Sized {
    type Item;
    type V;
    spec fn inv(&self) -> bool;
    spec fn item_v(i: Self::Item) -> Self::V;
    spec fn items(&self) -> Seq<Self::V>;
    fn next(&mut self) -> (ret: Option<Self::Item>)
        requires old(self).inv(),
        ensures
            final(self).inv(),
            match ret {
                Some(x) => old(self).items().len() > 0 && Self::item_v(x) == old(self).items()[0]
                    && final(self).items() == old(self).items().skip(1),
                None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
            },
    ;
}

/// `expect` of a result: a panic is a failed obligation
pub trait VResultExt<T, E>: Sized {
    spec fn v_res(self) -> Result<T, E>;
    fn v_expect(self, msg: &str) -> (ret: T)
        requires self.v_res() is Ok,
        ensures self.v_res() == Ok::<T, E>(ret);
}
impl<T, E> VResultExt<T, E> for Result<T, E> {
    open spec fn v_res(self) -> Result<T, E> { self }
    fn v_expect(self, msg: &str) -> (ret: T) { match self { Ok(x) => x, Err(_) => crate::shim::v_panic() } }
}
pub trait VPeek: VIter {
    fn peekable(self) -> (ret: crate::shim::iter::Peekable<Self>)
        ensures ret.iter == self, ret.peeked is None;
}
impl<I: VIter> VPeek for I {
    fn peekable(self) -> (ret: crate::shim::iter::Peekable<Self>) { crate::shim::iter::Peekable { iter: self, peeked: None } }
}

pub trait VIntoIter {
    type Item;
    type IntoIter: VIter<Item = Self::Item>;
    /// the items the iterator made will produce
    spec fn into_items(self) -> Seq<<Self::IntoIter as VIter>::V>;
    fn into_iter(self) -> (ret: Self::IntoIter) ensures ret.inv(), ret.items() == self.into_items();
}

pub trait VAsRef<T: ?Sized> {
    spec fn as_ref_v(&self) -> &T;
    fn v_as_ref(&self) -> (ret: &T) ensures ret == self.as_ref_v();
}

/// Methods of `str`.
pub trait StrExt {
    spec fn sv(&self) -> Seq<char>;
    fn v_len(&self) -> (ret: usize) ensures ret == blen(self.sv());
    fn v_is_empty(&self) -> (ret: bool) ensures ret == (self.sv().len() == 0);
    fn v_chars(&self) -> (ret: Chars<'_>) ensures ret.rest() == self.sv();
    fn v_find_char(&self, c: char) -> (ret: Option<usize>)
        ensures find_res(ret, self.sv(), if idx_set(self.sv(), seq![c]) < self.sv().len() { idx_set(self.sv(), seq![c]) } else { -1 });
    fn v_find_set(&self, cs: &[char]) -> (ret: Option<usize>)
        ensures find_res(ret, self.sv(), if idx_set(self.sv(), cs@) < self.sv().len() { idx_set(self.sv(), cs@) } else { -1 });
    fn v_find_str(&self, p: &str) -> (ret: Option<usize>)
        ensures find_res(ret, self.sv(), idx_str(self.sv(), p@));
    fn v_find_fn<F: Fn(char) -> bool>(&self, f: F) -> (ret: Option<usize>)
        requires forall|c: char| f.requires((c,)),
        ensures ret is Some ==> bnd(self.sv(), ret->0 as int) && cidx(self.sv(), ret->0 as int) < self.sv().len();
    fn v_rfind_char(&self, c: char) -> (ret: Option<usize>)
        ensures find_res(ret, self.sv(), last_idx(self.sv(), c));
    fn v_contains_char(&self, c: char) -> (ret: bool) ensures ret == (idx_set(self.sv(), seq![c]) < self.sv().len());
    fn v_contains_str(&self, p: &str) -> (ret: bool) ensures ret == (idx_str(self.sv(), p@) >= 0);
    fn v_contains_set(&self, cs: &[char]) -> (ret: bool) ensures ret == (idx_set(self.sv(), cs@) < self.sv().len());
    fn v_starts_with_char(&self, c: char) -> (ret: bool)
        ensures ret == (self.sv().len() > 0 && self.sv()[0] == c);
    fn v_starts_with_str(&self, p: &str) -> (ret: bool) ensures ret == starts(self.sv(), p@);
    fn v_starts_with_set(&self, cs: &[char]) -> (ret: bool)
        ensures ret == (self.sv().len() > 0 && cs@.contains(self.sv()[0]));
    fn v_ends_with_char(&self, c: char) -> (ret: bool)
        ensures ret == (self.sv().len() > 0 && self.sv().last() == c);
    fn v_ends_with_str(&self, p: &str) -> (ret: bool) ensures ret == ends(self.sv(), p@);
    fn v_ends_with_set(&self, cs: &[char]) -> (ret: bool)
        ensures ret == (self.sv().len() > 0 && cs@.contains(self.sv().last()));
    fn v_strip_prefix_char(&self, c: char) -> (ret: Option<&str>)
        ensures (ret is Some) == (self.sv().len() > 0 && self.sv()[0] == c), ret is Some ==> ret->0@ == self.sv().skip(1);
    fn v_strip_prefix_str(&self, p: &str) -> (ret: Option<&str>)
        ensures (ret is Some) == starts(self.sv(), p@), ret is Some ==> ret->0@ == self.sv().skip(p@.len() as int);
    fn v_strip_suffix_char(&self, c: char) -> (ret: Option<&str>)
        ensures (ret is Some) == (self.sv().len() > 0 && self.sv().last() == c), ret is Some ==> ret->0@ == self.sv().drop_last();
    fn v_strip_suffix_str(&self, p: &str) -> (ret: Option<&str>)
        ensures (ret is Some) == ends(self.sv(), p@), ret is Some ==> ret->0@ == self.sv().take(self.sv().len() - p@.len());
    fn v_trim_end(&self) -> (ret: &str)
        ensures ret@ == trim_end(self.sv()), blen(ret@) <= blen(self.sv());
    fn v_is_char_boundary(&self, n: usize) -> (ret: bool) ensures ret == bnd(self.sv(), n as int);
    fn v_to_ascii_lowercase(&self) -> (ret: String) ensures ret@ == self.sv().map_values(|c: char| lower_c(c));
    fn v_to_ascii_uppercase(&self) -> (ret: String) ensures ret@ == self.sv().map_values(|c: char| upper_c(c));
    fn v_to_lowercase(&self) -> (ret: String) ensures ret@ == unicode_lower(self.sv());
    fn v_to_uppercase(&self) -> (ret: String) ensures ret@ == unicode_upper(self.sv());
    fn v_match_indices_char(&self, c: char) -> (ret: MatchIndices<'_>)
        ensures ret.s() == self.sv(), ret.c() == c, ret.pos() == 0;
    fn v_matches_set(&self, cs: &[char]) -> (ret: Matches<'_>)
        ensures ret.s() == self.sv(), ret.cs() == cs@, ret.pos() == 0;
    fn v_split_char(&self, c: char) -> (ret: Split<'_>)
        ensures ret.items() == split_c(self.sv(), c);
    fn v_split_whitespace(&self) -> (ret: crate::shim::str::SplitWhitespace<'_>)
        ensures ret.items() == words(self.sv());
    fn v_trim_start(&self) -> (ret: &str)
        ensures ret@ == self.sv().skip(ws_len(self.sv())), blen(ret@) <= blen(self.sv());
    fn v_trim(&self) -> (ret: &str) ensures ret@ == trim(self.sv());
    fn v_is_ascii(&self) -> (ret: bool) ensures ret == is_ascii(self.sv());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (ret: bool) ensures ret == lower_eq(self.sv(), o@);
    fn v_slice_to(&self, n: usize) -> (ret: &str)
        requires bnd(self.sv(), n as int),
        ensures ret@ == self.sv().take(cidx(self.sv(), n as int));
    fn v_slice_from(&self, n: usize) -> (ret: &str)
        requires bnd(self.sv(), n as int),
        ensures ret@ == self.sv().skip(cidx(self.sv(), n as int));
    fn v_slice(&self, a: usize, b: usize) -> (ret: &str)
        requires bnd(self.sv(), a as int), bnd(self.sv(), b as int), a <= b,
        ensures ret@ == self.sv().subrange(cidx(self.sv(), a as int), cidx(self.sv(), b as int));
    fn v_to_string(&self) -> (ret: String) ensures ret@ == self.sv();
    fn v_to_owned(&self) -> (ret: String) ensures ret@ == self.sv();
}

impl StrExt for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_len(&self) -> (ret: usize) { self.len() }
    #[verifier::external_body] fn v_is_empty(&self) -> (ret: bool) { self.is_empty() }
    #[verifier::external_body] fn v_chars(&self) -> (ret: Chars<'_>) { unimplemented!() }
    #[verifier::external_body] fn v_find_char(&self, c: char) -> (ret: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn v_find_set(&self, cs: &[char]) -> (ret: Option<usize>) { self.find(cs) }
    #[verifier::external_body] fn v_find_str(&self, p: &str) -> (ret: Option<usize>) { self.find(p) }
    #[verifier::external_body] fn v_find_fn<F: Fn(char) -> bool>(&self, f: F) -> (ret: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rfind_char(&self, c: char) -> (ret: Option<usize>) { self.rfind(c) }
    #[verifier::external_body] fn v_contains_char(&self, c: char) -> (ret: bool) { self.contains(c) }
    #[verifier::external_body] fn v_contains_str(&self, p: &str) -> (ret: bool) { self.contains(p) }
    #[verifier::external_body] fn v_contains_set(&self, cs: &[char]) -> (ret: bool) { self.contains(cs) }
    #[verifier::external_body] fn v_starts_with_char(&self, c: char) -> (ret: bool) { self.starts_with(c) }
    #[verifier::external_body] fn v_starts_with_str(&self, p: &str) -> (ret: bool) { self.starts_with(p) }
    #[verifier::external_body] fn v_starts_with_set(&self, cs: &[char]) -> (ret: bool) { self.starts_with(cs) }
    #[verifier::external_body] fn v_ends_with_char(&self, c: char) -> (ret: bool) { self.ends_with(c) }
    #[verifier::external_body] fn v_ends_with_str(&self, p: &str) -> (ret: bool) { self.ends_with(p) }
    #[verifier::external_body] fn v_ends_with_set(&self, cs: &[char]) -> (ret: bool) { self.ends_with(cs) }
    #[verifier::external_body] fn v_strip_prefix_char(&self, c: char) -> (ret: Option<&str>) { self.strip_prefix(c) }
    #[verifier::external_body] fn v_strip_prefix_str(&self, p: &str) -> (ret: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn v_strip_suffix_char(&self, c: char) -> (ret: Option<&str>) { self.strip_suffix(c) }
    #[verifier::external_body] fn v_strip_suffix_str(&self, p: &str) -> (ret: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body] fn v_trim_end(&self) -> (ret: &str) { self.trim_end() }
    #[verifier::external_body] fn v_is_char_boundary(&self, n: usize) -> (ret: bool) { self.is_char_boundary(n) }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (ret: String) { self.to_ascii_lowercase() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (ret: String) { self.to_ascii_uppercase() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (ret: String) { self.to_lowercase() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (ret: String) { self.to_uppercase() }
    #[verifier::external_body] fn v_match_indices_char(&self, c: char) -> (ret: MatchIndices<'_>) { unimplemented!() }
    #[verifier::external_body] fn v_matches_set(&self, cs: &[char]) -> (ret: Matches<'_>) { unimplemented!() }
    #[verifier::external_body] fn v_split_char(&self, c: char) -> (ret: Split<'_>) { unimplemented!() }
    #[verifier::external_body] fn v_split_whitespace(&self) -> (ret: crate::shim::str::SplitWhitespace<'_>) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (ret: &str) { self.trim_start() }
    #[verifier::external_body] fn v_trim(&self) -> (ret: &str) { self.trim() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (ret: bool) { self.is_ascii() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (ret: bool) { self.eq_ignore_ascii_case(o) }
    #[verifier::external_body] fn v_slice_to(&self, n: usize) -> (ret: &str) { &self[..n] }
    #[verifier::external_body] fn v_slice_from(&self, n: usize) -> (ret: &str) { &self[n..] }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (ret: &str) { &self[a..b] }
    #[verifier::external_body] fn v_to_string(&self) -> (ret: String) { self.to_string() }
    #[verifier::external_body] fn v_to_owned(&self) -> (ret: String) { self.to_owned() }
}

/// `s` ends with `p`
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool {
    s.len() >= p.len() && s.skip(s.len() - p.len()) == p
}
pub open spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn upper_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
/// Unicode case mappings: nothing assumed
pub uninterp spec fn unicode_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn unicode_upper(s: Seq<char>) -> Seq<char>;

pub open spec fn find_res(r: Option<usize>, s: Seq<char>, i: int) -> bool {
    match r {
        Some(n) => 0 <= i < s.len() + 1 && n == blen(s.take(i)) && n <= blen(s),
        None => i < 0,
    }
}

/// number of leading white space characters
pub open spec fn ws_len(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if is_ws(s[0]) { 1 + ws_len(s.skip(1)) } else { 0 }
}

pub broadcast proof fn lemma_ws_len(s: Seq<char>)
    ensures
        0 <= #[trigger] ws_len(s) <= s.len(),
        ws_len(s) < s.len() ==> !is_ws(s[ws_len(s)]),
        forall|i: int| 0 <= i < ws_len(s) ==> is_ws(#[trigger] s[i]),
        blen(s) - blen(s.skip(ws_len(s))) == blen(s.take(ws_len(s))),
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s[0]) {
        lemma_ws_len(s.skip(1));
        assert forall|i: int| 0 <= i < ws_len(s) implies is_ws(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
    lemma_blen_split(s, ws_len(s));
}

pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
/// without leading and trailing white space
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(s.skip(ws_len(s))) }

/// the pieces between occurrences of `c`
pub open spec fn split_c(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    let k = idx_set(s, seq![c]);
    if 0 <= k < s.len() { seq![s.take(k)] + split_c(s.skip(k + 1), c) } else { seq![s] }
}

/// length of the leading run without white space
pub open spec fn word_len(s: Seq<char>) -> int { idx_ws(s) }

/// the maximal runs without white space
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    let t = s.skip(ws_len(s));
    if t.len() == 0 || ws_len(s) < 0 || ws_len(s) > s.len() { Seq::empty() }
    else {
        let k = idx_ws(t);
        if k <= 0 || k > t.len() { Seq::empty() } else { seq![t.take(k)] + words(t.skip(k)) }
    }
}

pub proof fn lemma_words(s: Seq<char>)
    ensures forall|i: int| 0 <= i < words(s).len() ==> (#[trigger] words(s)[i]).len() > 0,
    decreases s.len(),
{
    lemma_ws_len(s);
    let t = s.skip(ws_len(s));
    lemma_idx_ws(t);
    if t.len() > 0 {
        let k = idx_ws(t);
        if k > 0 && k <= t.len() {
            lemma_words(t.skip(k));
            assert forall|i: int| 0 <= i < words(s).len() implies (#[trigger] words(s)[i]).len() > 0 by {
                if i > 0 { assert(words(s)[i] == words(t.skip(k))[i - 1]); }
            }
        }
    }
}

#[verifier::external_body]
pub struct Chars<'a> { i: std::str::Chars<'a> }
pub uninterp spec fn chars_rest(c: &Chars<'_>) -> Seq<char>;
impl<'a> Chars<'a> {
    pub open spec fn rest(&self) -> Seq<char> { chars_rest(self) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<char>)
        ensures match ret {
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<char>)
        ensures match ret {
            Some(c) => old(self).rest().len() > n && c == old(self).rest()[n as int] && final(self).rest() == old(self).rest().skip(n + 1),
            None => old(self).rest().len() <= n && final(self).rest().len() == 0,
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (ret: usize) ensures ret == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&char) -> bool>(self, f: F) -> (ret: CharsFilter<'a, F>)
        requires forall|c: char| #[trigger] f.requires((&c,)),
        ensures ret.s() == self.rest(), ret.f() == f { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&char) -> bool>(&mut self, f: F) -> (ret: Option<char>)
        requires forall|c: char| #[trigger] f.requires((&c,)),
        ensures match ret {
            Some(c) => f.ensures((&c,), true) && exists|k: int| 0 <= k < old(self).rest().len() && c == #[trigger] old(self).rest()[k]
                && forall|i: int| #![trigger old(self).rest()[i]] 0 <= i < k ==> f.ensures((&old(self).rest()[i],), false),
            None => forall|i: int| #![trigger old(self).rest()[i]] 0 <= i < old(self).rest().len() ==> f.ensures((&old(self).rest()[i],), false),
        } { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct CharsFilter<'a, F> { i: std::str::Chars<'a>, f: F }
pub uninterp spec fn cf_s<'a, F>(c: &CharsFilter<'a, F>) -> Seq<char>;
pub uninterp spec fn cf_f<'a, F>(c: &CharsFilter<'a, F>) -> F;
impl<'a, F> CharsFilter<'a, F> {
    pub open spec fn s(&self) -> Seq<char> { cf_s(self) }
    pub open spec fn f(&self) -> F { cf_f(self) }
}
impl<'a, F: Fn(&char) -> bool> CharsFilter<'a, F> {
    #[verifier::external_body]
    pub fn count(self) -> (ret: usize)
        ensures exists|p: spec_fn(char, bool) -> bool, bs: Seq<bool>| #[trigger] trace(p, self.s(), bs) && ret == count_true(bs)
            && (forall|c: char, b: bool| #[trigger] p(c, b) ==> self.f().ensures((&c,), b))
        { unimplemented!() }
}

/// `str::match_indices(char)`
#[verifier::external_body]
pub struct MatchIndices<'a> { i: std::str::Chars<'a> }
pub uninterp spec fn mi_s<'a>(c: &MatchIndices<'a>) -> Seq<char>;
pub uninterp spec fn mi_c<'a>(c: &MatchIndices<'a>) -> char;
pub uninterp spec fn mi_pos<'a>(c: &MatchIndices<'a>) -> int;
impl<'a> MatchIndices<'a> {
    pub open spec fn s(&self) -> Seq<char> { mi_s(self) }
    pub open spec fn c(&self) -> char { mi_c(self) }
    /// character position the search continues from
    pub open spec fn pos(&self) -> int { mi_pos(self) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<(usize, &'a str)>)
        ensures
            final(self).s() == old(self).s(), final(self).c() == old(self).c(),
            mi_next(old(self).s(), old(self).c(), old(self).pos(), ret is Some, match ret { Some((n, _)) => n as int, None => 0 }, final(self).pos()),
        { unimplemented!() }
}
pub open spec fn mi_next(s: Seq<char>, c: char, pos: int, some: bool, n: int, p: int) -> bool {
    0 <= pos <= s.len() && {
        let k = pos + idx_set(s.skip(pos), seq![c]);
        &&& some == (k < s.len())
        &&& some ==> n == blen(s.take(k)) && n <= blen(s) && p == k + 1 && s[k] == c
        &&& !some ==> p == s.len()
    }
}

pub broadcast proof fn lemma_mi_next(s: Seq<char>, c: char, pos: int, some: bool, n: int, p: int)
    requires #[trigger] mi_next(s, c, pos, some, n, p),
    ensures
        some ==> bnd(s, n) && cidx(s, n) == p - 1 && s[p - 1] == c && pos < p <= s.len(),
        some ==> forall|j: int| pos <= j < p - 1 ==> #[trigger] s[j] != c,
        !some ==> forall|j: int| pos <= j < s.len() ==> #[trigger] s[j] != c,
{
    let t = s.skip(pos);
    let cs = seq![c];
    lemma_idx_set(t, cs);
    let k = pos + idx_set(t, cs);
    assert(cs.contains(c)) by { assert(cs[0] == c); }
    assert forall|j: int| pos <= j < k implies #[trigger] s[j] != c by { assert(t[j - pos] == s[j]); }
    if some { lemma_cidx(s, k); lemma_bnd_take(s, k); }
}

/// `str::matches(&[char])`
#[verifier::external_body]
pub struct Matches<'a> { i: std::str::Chars<'a> }
pub uninterp spec fn ma_s<'a>(c: &Matches<'a>) -> Seq<char>;
pub uninterp spec fn ma_cs<'a>(c: &Matches<'a>) -> Seq<char>;
pub uninterp spec fn ma_pos<'a>(c: &Matches<'a>) -> int;
impl<'a> Matches<'a> {
    pub open spec fn s(&self) -> Seq<char> { ma_s(self) }
    pub open spec fn cs(&self) -> Seq<char> { ma_cs(self) }
    pub open spec fn pos(&self) -> int { ma_pos(self) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<&'a str>)
        ensures
            final(self).s() == old(self).s(), final(self).cs() == old(self).cs(),
            0 <= old(self).pos() <= old(self).s().len() && {
                let k = old(self).pos() + idx_set(old(self).s().skip(old(self).pos()), old(self).cs());
                match ret {
                    Some(x) => k < old(self).s().len() && x@ == seq![old(self).s()[k]] && final(self).pos() == k + 1,
                    None => k == old(self).s().len() && final(self).pos() == k,
                }
            }
        { unimplemented!() }
}

#[verifier::external_body]
pub struct Split<'a> { i: std::str::Chars<'a> }
pub uninterp spec fn split_items<'a>(c: &Split<'a>) -> Seq<Seq<char>>;
impl<'a> VIter for Split<'a> {
    type Item = &'a str;
    type V = Seq<char>;
    open spec fn inv(&self) -> bool { true }
    open spec fn item_v(i: &'a str) -> Seq<char> { i@ }
    open spec fn items(&self) -> Seq<Seq<char>> { split_items(self) }
    #[verifier::external_body]
    fn next(&mut self) -> (ret: Option<&'a str>) { unimplemented!() }
}

/// `Iterator::enumerate`
pub struct Enumerate<I> { pub iter: I, pub count: usize }
pub trait VEnumerate: VIter {
    fn enumerate(self) -> (ret: Enumerate<Self>)
        requires self.inv()
        ensures ret.iter == self, ret.count == 0;
}
impl<I: VIter> VEnumerate for I {
    fn enumerate(self) -> (ret: Enumerate<Self>) { Enumerate { iter: self, count: 0 } }
}
impl<I: VIter> Enumerate<I> {
    /// the count wraps at `usize::MAX`: std panics there; no stream has that many items
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<(usize, I::Item)>)
        requires old(self).iter.inv(),
        ensures
            final(self).iter.inv(),
            match ret {
                Some((n, x)) => old(self).iter.items().len() > 0 && I::item_v(x) == old(self).iter.items()[0]
                    && final(self).iter.items() == old(self).iter.items().skip(1)
                    && n == old(self).count && final(self).count == old(self).count + 1,
                None => old(self).iter.items().len() == 0 && final(self).iter.items() == old(self).iter.items()
                    && final(self).count == old(self).count,
            },
    { unimplemented!() }
}

/// `collect::<Result<Vec<_>, _>>()`: up to the first error
pub open spec fn collected<T, E, I: VIter<Item = Result<T, E>>>(items: Seq<I::V>, r: Result<Vec<T>, E>) -> bool {
    match r {
        Ok(v) => v@.len() == items.len() && forall|k: int| 0 <= k < items.len() ==> #[trigger] items[k] == I::item_v(Ok(v@[k])),
        Err(e) => exists|k: int, v: Seq<T>| 0 <= k < items.len() && #[trigger] v.len() == k && #[trigger] items[k] == I::item_v(Err(e))
            && forall|j: int| 0 <= j < k ==> #[trigger] items[j] == I::item_v(Ok(v[j])),
    }
}
pub trait VCollectResult<T, E>: VIter<Item = Result<T, E>> {
    fn v_collect_result(self) -> (ret: Result<Vec<T>, E>)
        requires self.inv(),
        ensures collected::<T, E, Self>(self.items(), ret);
}
impl<T, E, I: VIter<Item = Result<T, E>>> VCollectResult<T, E> for I {
    #[verifier::external_body]
    fn v_collect_result(self) -> (ret: Result<Vec<T>, E>) { unimplemented!() }
}

/// Slices and vectors.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { i: std::slice::Iter<'a, T> }
pub uninterp spec fn slice_rest<'a, T>(c: &SliceIter<'a, T>) -> Seq<T>;
impl<'a, T> SliceIter<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { slice_rest(self) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<&'a T>)
        ensures match ret {
            Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (ret: SliceCloned<'a, T>) ensures ret.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires forall|x: &'a T| f.requires((x,)),
        ensures exists|p: spec_fn(T, bool) -> bool, bs: Seq<bool>| #[trigger] trace(p, old(self).rest(), bs) && (ret <==> bs.contains(true))
            && (forall|x: T, b: bool| #[trigger] p(x, b) ==> f.ensures((&x,), b))
        { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires forall|x: &'a T| f.requires((x,)),
        ensures exists|p: spec_fn(T, bool) -> bool, bs: Seq<bool>| #[trigger] trace(p, old(self).rest(), bs) && (ret <==> !bs.contains(false))
            && (forall|x: T, b: bool| #[trigger] p(x, b) ==> f.ensures((&x,), b))
        { unimplemented!() }
    #[verifier::external_body]
    pub fn map<R, F: Fn(&'a T) -> R>(self, f: F) -> (ret: SliceMap<'a, T, R, F>)
        requires forall|x: &'a T| f.requires((x,)),
        ensures ret.s() == self.rest(), ret.f() == f
        { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceCloned<'a, T> { i: std::slice::Iter<'a, T> }
pub uninterp spec fn slicec_rest<'a, T>(c: &SliceCloned<'a, T>) -> Seq<T>;
impl<'a, T> SliceCloned<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { slicec_rest(self) }
    /// the element types' `clone` is the derived, structural one
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<T>)
        ensures match ret {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(F)]
pub struct SliceMap<'a, T, R, F> { i: std::slice::Iter<'a, T>, f: F, r: std::marker::PhantomData<R> }
pub uninterp spec fn smap_s<'a, T, R, F>(c: &SliceMap<'a, T, R, F>) -> Seq<T>;
pub uninterp spec fn smap_f<'a, T, R, F>(c: &SliceMap<'a, T, R, F>) -> F;
impl<'a, T, R, F> SliceMap<'a, T, R, F> {
    pub open spec fn s(&self) -> Seq<T> { smap_s(self) }
    pub open spec fn f(&self) -> F { smap_f(self) }
}
impl<'a, T, R, F: Fn(&'a T) -> R> SliceMap<'a, T, R, F> {
    #[verifier::external_body]
    pub fn v_collect(self) -> (ret: Vec<R>)
        ensures ret@.len() == self.s().len(),
            forall|i: int| 0 <= i < ret@.len() ==> self.f().ensures((&self.s()[i],), #[trigger] ret@[i])
        { unimplemented!() }
}

pub trait VecExt<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_iter(&self) -> (ret: SliceIter<'_, T>) ensures ret.rest() == self.vv();
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter(&self) -> (ret: SliceIter<'_, T>) { unimplemented!() }
}
impl<T> VecExt<T> for [T] {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter(&self) -> (ret: SliceIter<'_, T>) { unimplemented!() }
}
pub trait VecIntoIter<'a, T> {
    spec fn vvi(self) -> Seq<T>;
    fn v_into_iter(self) -> (ret: SliceIter<'a, T>) ensures ret.rest() == self.vvi();
}
impl<'a, T> VecIntoIter<'a, T> for &'a Vec<T> {
    open spec fn vvi(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_into_iter(self) -> (ret: SliceIter<'a, T>) { unimplemented!() }
}

/// `array[..]`
pub trait ArrayExt<T> {
    spec fn av(&self) -> Seq<T>;
    fn v_slice_full(&self) -> (ret: &[T]) ensures ret@ == self.av();
}
impl<T, const N: usize> ArrayExt<T> for [T; N] {
    open spec fn av(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_slice_full(&self) -> (ret: &[T]) { &self[..] }
}

pub broadcast proof fn lemma_array2<T>(a: [T; 2])
    ensures #[trigger] a@ == seq![a@[0], a@[1]],
{ assert(a@ =~= seq![a@[0], a@[1]]); }

pub uninterp spec fn unicode_is_alphabetic(c: char) -> bool;
pub uninterp spec fn unicode_is_numeric(c: char) -> bool;
pub uninterp spec fn unicode_is_alphanumeric(c: char) -> bool;
pub uninterp spec fn unicode_is_lowercase(c: char) -> bool;
pub uninterp spec fn unicode_is_uppercase(c: char) -> bool;
pub trait CharExt {
    spec fn cv(&self) -> char;
    fn v_is_whitespace(&self) -> (ret: bool) ensures ret == is_ws(self.cv());
    fn v_len_utf8(&self) -> (ret: usize) ensures ret == clen(self.cv());
    fn v_is_ascii(&self) -> (ret: bool) ensures ret == is_ascii_c(self.cv());
    fn v_is_ascii_whitespace(&self) -> (ret: bool) ensures ret == (self.cv() == ' ' || self.cv() == '\t' || self.cv() == '\n' || self.cv() as u32 == 12 || self.cv() == '\r');
    fn v_is_ascii_digit(&self) -> (ret: bool) ensures ret == ('0' <= self.cv() && self.cv() <= '9');
    fn v_is_ascii_lowercase(&self) -> (ret: bool) ensures ret == ('a' <= self.cv() && self.cv() <= 'z');
    fn v_is_ascii_uppercase(&self) -> (ret: bool) ensures ret == ('A' <= self.cv() && self.cv() <= 'Z');
    fn v_is_ascii_alphabetic(&self) -> (ret: bool) ensures ret == (('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z'));
    fn v_is_ascii_alphanumeric(&self) -> (ret: bool) ensures ret == (('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z') || ('0' <= self.cv() && self.cv() <= '9'));
    fn v_is_ascii_graphic(&self) -> (ret: bool) ensures ret == (33 <= self.cv() as u32 && self.cv() as u32 <= 126);
    fn v_is_ascii_punctuation(&self) -> (ret: bool) ensures ret == (33 <= self.cv() as u32 && self.cv() as u32 <= 126 && !(('a' <= self.cv() && self.cv() <= 'z') || ('A' <= self.cv() && self.cv() <= 'Z') || ('0' <= self.cv() && self.cv() <= '9')));
    fn v_is_ascii_control(&self) -> (ret: bool) ensures ret == ((self.cv() as u32) < 32 || self.cv() as u32 == 127);
    fn v_is_control(&self) -> (ret: bool) ensures ret == ((self.cv() as u32) < 32 || (127 <= self.cv() as u32 && self.cv() as u32 <= 0x9f));
    fn v_is_alphabetic(&self) -> (ret: bool) ensures ret == unicode_is_alphabetic(self.cv());
    fn v_is_numeric(&self) -> (ret: bool) ensures ret == unicode_is_numeric(self.cv());
    fn v_is_alphanumeric(&self) -> (ret: bool) ensures ret == unicode_is_alphanumeric(self.cv());
    fn v_is_lowercase(&self) -> (ret: bool) ensures ret == unicode_is_lowercase(self.cv());
    fn v_is_uppercase(&self) -> (ret: bool) ensures ret == unicode_is_uppercase(self.cv());
    fn v_to_ascii_lowercase(&self) -> (ret: char) ensures ret == lower_c(self.cv());
    fn v_to_ascii_uppercase(&self) -> (ret: char) ensures ret == upper_c(self.cv());
    fn v_eq_ignore_ascii_case(&self, o: &char) -> (ret: bool) ensures ret == (lower(self.cv()) == lower(*o));
}
impl CharExt for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn v_is_whitespace(&self) -> (ret: bool) { self.is_whitespace() }
    #[verifier::external_body] fn v_len_utf8(&self) -> (ret: usize) { self.len_utf8() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (ret: bool) { self.is_ascii() }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (ret: bool) { self.is_ascii_whitespace() }
    #[verifier::external_body] fn v_is_ascii_digit(&self) -> (ret: bool) { self.is_ascii_digit() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> (ret: bool) { self.is_ascii_lowercase() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> (ret: bool) { self.is_ascii_uppercase() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> (ret: bool) { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (ret: bool) { self.is_ascii_alphanumeric() }
    #[verifier::external_body] fn v_is_ascii_graphic(&self) -> (ret: bool) { self.is_ascii_graphic() }
    #[verifier::external_body] fn v_is_ascii_punctuation(&self) -> (ret: bool) { self.is_ascii_punctuation() }
    #[verifier::external_body] fn v_is_ascii_control(&self) -> (ret: bool) { self.is_ascii_control() }
    #[verifier::external_body] fn v_is_control(&self) -> (ret: bool) { self.is_control() }
    #[verifier::external_body] fn v_is_alphabetic(&self) -> (ret: bool) { (*self).is_alphabetic() }
    #[verifier::external_body] fn v_is_numeric(&self) -> (ret: bool) { (*self).is_numeric() }
    #[verifier::external_body] fn v_is_alphanumeric(&self) -> (ret: bool) { (*self).is_alphanumeric() }
    #[verifier::external_body] fn v_is_lowercase(&self) -> (ret: bool) { (*self).is_lowercase() }
    #[verifier::external_body] fn v_is_uppercase(&self) -> (ret: bool) { (*self).is_uppercase() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (ret: char) { self.to_ascii_lowercase() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (ret: char) { self.to_ascii_uppercase() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &char) -> (ret: bool) { self.eq_ignore_ascii_case(o) }
}

} // verus!
}

pub mod str {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {
pub trait FromStr: Sized {
    type Err;
    spec fn parse_spec(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &str) -> (ret: Result<Self, Self::Err>)
        ensures Self::parse_spec(s@, ret);
}
pub fn v_parse<F: FromStr>(s: &str) -> (ret: Result<F, F::Err>)
    ensures F::parse_spec(s@, ret)
{
    F::from_str(s)
}
#[verifier::external_body]
pub struct SplitWhitespace<'a> { i: std::str::Chars<'a> }
pub uninterp spec fn ws_items<'a>(c: &SplitWhitespace<'a>) -> Seq<Seq<char>>;
impl<'a> VIter for SplitWhitespace<'a> {
    type Item = &'a str;
    type V = Seq<char>;
    open spec fn inv(&self) -> bool { true }
    open spec fn item_v(i: &'a str) -> Seq<char> { i@ }
    open spec fn items(&self) -> Seq<Seq<char>> { ws_items(self) }
    #[verifier::external_body]
    fn next(&mut self) -> (ret: Option<&'a str>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Utf8Error { e: std::str::Utf8Error }
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn from_utf8(b: &Vec<u8>) -> (ret: Result<&str, Utf8Error>)
    ensures match ret { Ok(s) => utf8_dec(b@) == Some(s@) && blen(s@) == b@.len(), Err(_) => utf8_dec(b@) is None }
{ unimplemented!() }
} // verus!
}

pub mod fmt {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {
#[verifier::external_body]
#[verifier::external_derive]
#[derive(Debug)]
pub struct Error { e: std::fmt::Error }
pub type Result = std::result::Result<(), Error>;
/// anything text is written to; `w_out` is what was written so far
pub trait Sink {
    spec fn w_out(&self) -> Seq<char>;
    /// writing never fails
    spec fn w_total() -> bool;
}
#[verifier::external_body]
pub struct Formatter { i: u8 }
pub uninterp spec fn fmt_out(f: &Formatter) -> Seq<char>;
impl Sink for Formatter {
    open spec fn w_out(&self) -> Seq<char> { fmt_out(self) }
    open spec fn w_total() -> bool { false }
}
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (ret: Result)
        ensures ret is Ok ==> final(self).w_out() == old(self).w_out() + s@
    { unimplemented!() }
}
pub trait Display {
    /// the text a value renders to
    spec fn disp(&self) -> Seq<char>;
    fn fmt(&self, fmt: &mut Formatter) -> (ret: Result)
        ensures ret is Ok ==> final(fmt).w_out() == old(fmt).w_out() + self.disp();
}
impl Display for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, fmt: &mut Formatter) -> (ret: Result) { unimplemented!() }
}
impl<'a, T: Display + ?Sized> Display for &'a T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn fmt(&self, fmt: &mut Formatter) -> (ret: Result) { (**self).fmt(fmt) }
}
pub uninterp spec fn dec_digits(n: int) -> Seq<char>;
pub broadcast axiom fn axiom_dec_digits(n: int)
    ensures #[trigger] dec_digits(n).len() > 0,
        forall|i: int| 0 <= i < dec_digits(n).len() ==> (#[trigger] dec_digits(n)[i] == '-' || ('0' <= dec_digits(n)[i] && dec_digits(n)[i] <= '9'));
macro_rules! disp_int { ($($t:ty),*) => { verus! { $(impl Display for $t {
    open spec fn disp(&self) -> Seq<char> { dec_digits(*self as int) }
    #[verifier::external_body]
    fn fmt(&self, fmt: &mut Formatter) -> (ret: Result) { unimplemented!() }
})* } } }
/// `write!(w, "literal")`
#[verifier::external_body]
pub fn v_write_str<W: Sink>(w: &mut W, s: &str) -> (ret: Result)
    ensures ret is Ok ==> final(w).w_out() == old(w).w_out() + s@, W::w_total() ==> ret is Ok
{ unimplemented!() }
/// `write!(w, "{}", x)`
#[verifier::external_body]
pub fn v_display<W: Sink, T: Display + ?Sized>(x: &T, w: &mut W) -> (ret: Result)
    ensures ret is Ok ==> final(w).w_out() == old(w).w_out() + x.disp(), W::w_total() ==> ret is Ok
{ unimplemented!() }
} // verus!
disp_int!(usize, u8, u16, u32, u64, isize, i8, i16, i32, i64);
}

pub mod tendril {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::shim::ext::*;
#[allow(unused_imports)] use crate::shim::fmt;
verus! {
#[verifier::external_body]
pub struct StrTendril { i: u8 }
pub uninterp spec fn tendril_view(t: &StrTendril) -> Seq<char>;
impl View for StrTendril {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { tendril_view(self) }
}
impl StrTendril {
    #[verifier::external_body]
    pub fn new() -> (ret: StrTendril) ensures ret@ == Seq::<char>::empty() { unimplemented!() }
    /// contents beyond 4 GiB make the real one panic
    #[verifier::external_body]
    pub fn push_slice(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
impl<'s> From<&'s str> for StrTendril {
    #[verifier::external_body]
    fn from(s: &'s str) -> (ret: StrTendril) ensures ret@ == s@ { unimplemented!() }
}
impl std::ops::Deref for StrTendril {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (ret: &str) ensures ret@ == self@ { unimplemented!() }
}
impl Clone for StrTendril {
    #[verifier::external_body]
    fn clone(&self) -> (ret: StrTendril) ensures ret == *self { unimplemented!() }
}
impl fmt::Sink for StrTendril {
    open spec fn w_out(&self) -> Seq<char> { self@ }
    open spec fn w_total() -> bool { true }
}
impl fmt::Display for StrTendril {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, fmt: &mut fmt::Formatter) -> (ret: fmt::Result) { unimplemented!() }
}
} // verus!
}

pub mod cell {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use std::rc::Rc;
verus! {
/// A cell shared by handles. Which cell a handle leads to (`cell_id`) and how many uses of the cell
/// it knows of (`cell_at`) belong to the handle; what the cell holds before its i-th use is `held`
/// (a prophecy: the uses of a cell have some order, whoever they are made by).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T: ?Sized> { c: std::cell::RefCell<T> }
pub uninterp spec fn cell_id<T: ?Sized>(c: &RefCell<T>) -> int;
pub uninterp spec fn cell_at<T: ?Sized>(c: &RefCell<T>) -> int;
pub uninterp spec fn held<'a, T: ?Sized>(id: int, i: int) -> &'a T;
/// `b` is the handle `a` after it was used once more
pub open spec fn used<T: ?Sized>(a: &RefCell<T>, b: &RefCell<T>) -> bool { cell_id(a) == cell_id(b) && cell_at(a) < cell_at(b) }
/// what the cell held before and after the last use the handle knows of
pub open spec fn before<'a, T: ?Sized>(b: &RefCell<T>) -> &'a T { held(cell_id(b), cell_at(b) - 1) }
pub open spec fn after<'a, T: ?Sized>(b: &RefCell<T>) -> &'a T { held(cell_id(b), cell_at(b)) }
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (ret: RefCell<T>) ensures cell_at(&ret) == 0, *held::<T>(cell_id(&ret), 0) == t { unimplemented!() }
}
/// a use of the cell, some time after those the handle knows of
#[verifier::external_body]
pub fn v_borrow_mut<'a, T: ?Sized>(c: &'a mut Rc<RefCell<T>>) -> (ret: &'a mut T)
    ensures used(&**old(c), &**final(c)), &*ret == before::<T>(&**final(c)), &*final(ret) == after::<T>(&**final(c))
{ unimplemented!() }
} // verus!
}

pub mod path {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Path { p: std::path::Path }
#[verifier::external_body]
#[verifier::external_derive]
#[derive(Debug)]
pub struct PathBuf { p: std::path::PathBuf }
/// the bytes of the file at a path while it is read; the file is not changed meanwhile
pub uninterp spec fn file_bytes(p: &Path) -> Seq<u8>;
pub uninterp spec fn path_of(p: PathBuf) -> &'static Path;
impl<'p> From<&'p Path> for PathBuf {
    #[verifier::external_body]
    fn from(p: &'p Path) -> (ret: PathBuf) { unimplemented!() }
}
} // verus!
}

pub mod io {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::fs::File;
verus! {
#[verifier::external_body]
#[verifier::external_derive]
#[derive(Debug)]
pub struct Error { e: std::io::Error }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: std::io::BufReader<R> }
pub uninterp spec fn br_left<R>(b: &BufReader<R>) -> Seq<u8>;
impl<R> BufReader<R> {
    /// the bytes not consumed yet
    pub open spec fn left(&self) -> Seq<u8> { br_left(self) }
}
impl BufReader<File> {
    #[verifier::external_body]
    pub fn new(f: File) -> (ret: BufReader<File>) ensures ret.left() == f.left() { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_buf(&mut self) -> (ret: Result<&[u8], Error>)
        ensures
            final(self).left() == old(self).left(),
            match ret {
                Ok(d) => d@.len() <= old(self).left().len() && d@ == old(self).left().take(d@.len() as int)
                    && (d@.len() == 0 <==> old(self).left().len() == 0),
                Err(_) => true,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, n: usize)
        requires n <= old(self).left().len(),
        ensures final(self).left() == old(self).left().skip(n as int),
    { unimplemented!() }
}
} // verus!
}

pub mod fs {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::{io, path};
verus! {
#[verifier::external_body]
pub struct File { f: std::fs::File }
pub uninterp spec fn file_left(f: &File) -> Seq<u8>;
impl File {
    pub open spec fn left(&self) -> Seq<u8> { file_left(self) }
    #[verifier::external_body]
    pub fn open(p: &path::Path) -> (ret: Result<File, io::Error>)
        ensures ret is Ok ==> ret->Ok_0.left() == path::file_bytes(p),
    { unimplemented!() }
}
} // verus!
}

pub mod iter {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {
/// `std::iter::Peekable`: the rest of its items begins with the item looked at
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I: VIter> { pub iter: I, pub peeked: Option<Option<I::Item>> }
impl<I: VIter> VIter for Peekable<I> {
    type Item = I::Item;
    type V = I::V;
    open spec fn inv(&self) -> bool { self.iter.inv() && (self.peeked matches Some(None) ==> self.iter.items().len() == 0) }
    open spec fn item_v(i: I::Item) -> I::V { I::item_v(i) }
    open spec fn items(&self) -> Seq<I::V> { match self.peeked { Some(Some(x)) => seq![I::item_v(x)] + self.iter.items(), _ => self.iter.items() } }
    fn next(&mut self) -> (ret: Option<I::Item>) {
        let ghost s0 = self.items();
        match self.peeked.take() {
            Some(Some(x)) => { proof { assert(s0.skip(1) =~= self.iter.items()); } Some(x) },
            Some(None) => { self.peeked = Some(None); None },
            None => self.iter.next(),
        }
    }
}
impl<I: VIter> Peekable<I> {
    pub fn peek(&mut self) -> (ret: Option<&I::Item>)
        requires old(self).inv(),
        ensures final(self).inv(), final(self).items() == old(self).items(),
            ret is Some <==> old(self).items().len() > 0,
            ret matches Some(x) ==> I::item_v(*x) == old(self).items()[0],
    {
        if self.peeked.is_none() {
            let ghost s0 = self.iter.items();
            let n = self.iter.next();
            proof { if n is Some { assert(s0 =~= seq![I::item_v(n->Some_0)] + self.iter.items()); } }
            self.peeked = Some(n);
        }
        match &self.peeked { Some(Some(x)) => Some(x), _ => None }
    }
}
} // verus!
}

verus! {
/// a reachable call is a failed obligation: panics are shown unreachable
#[verifier::external_body]
pub fn v_panic<T>() -> T
    requires false,
{ panic!() }

#[verifier::external_body]
pub fn usize_max_value() -> (ret: usize) ensures ret == usize::MAX { usize::MAX }

pub fn string_from_str(s: &str) -> (ret: String)
    ensures ret@ == s@,
{ use crate::shim::ext::StrExt; s.v_to_owned() }

pub trait VInto<T>: Sized {
    spec fn into_spec(self, t: T) -> bool;
    fn v_into(self) -> (ret: T) ensures self.into_spec(ret);
}
#[verifier::external_body]
pub fn v_into<A: Into<B>, B>(a: A) -> (ret: B) ensures into_rel(a, ret) { a.into() }
/// the `From` conversion used
pub uninterp spec fn into_rel<A, B>(a: A, b: B) -> bool;
} // verus!
}
