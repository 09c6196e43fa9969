@@ mod select
/// all of the class names are classes of the element
pub open spec fn has_classes(a: Seq<AttrV>, cs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < cs.len() ==> a_has_class(a, #[trigger] cs[i]) }
pub proof fn lemma_has_classes(a: Seq<AttrV>, cs: Seq<Seq<char>>)
    ensures cs.len() == 0 ==> has_classes(a, cs), cs.len() > 0 ==> has_classes(a, cs) == (a_has_class(a, cs[0]) && has_classes(a, cs.skip(1))),
{
    if cs.len() > 0 && a_has_class(a, cs[0]) && has_classes(a, cs.skip(1)) {
        assert forall|i: int| 0 <= i < cs.len() implies a_has_class(a, #[trigger] cs[i]) by { if i > 0 { assert(cs[i] == cs.skip(1)[i - 1]); } }
    }
    if cs.len() > 0 && has_classes(a, cs) {
        assert forall|i: int| 0 <= i < cs.skip(1).len() implies a_has_class(a, #[trigger] cs.skip(1)[i]) by { assert(cs.skip(1)[i] == cs[i + 1]); }
    }
}
pub proof fn lemma_ids(s: Seq<text::Identifier>)
    ensures ids(s).len() == s.len(), s.len() > 0 ==> ids(s)[0] == s[0]@ && ids(s).skip(1) == ids(s.skip(1)),
{ if s.len() > 0 { assert(ids(s).skip(1) =~= ids(s.skip(1))); } }
pub open spec fn tag_sel(e: EvV, n: Seq<char>) -> bool { ev_tag(e) is Some && name_eq(ev_tag(e)->Some_0, n) }
pub open spec fn id_sel(e: EvV, n: Seq<char>) -> bool { ev_attrs(e) is Some && a_has_id(ev_attrs(e)->Some_0, n) }
pub open spec fn class_sel(e: EvV, n: Seq<char>) -> bool { ev_attrs(e) is Some && a_has_class(ev_attrs(e)->Some_0, n) }
pub open spec fn classes_sel(e: EvV, cs: Seq<Seq<char>>) -> bool { ev_attrs(e) is Some && has_classes(ev_attrs(e)->Some_0, cs) }
pub open spec fn ids(s: Seq<text::Identifier>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

/// `tag#id.class.class`: the parts, or what is wrong
pub ghost struct PartsV { pub tag: Option<Seq<char>>, pub id: Option<Seq<char>>, pub classes: Option<Seq<char>> }
pub open spec fn opt_check(s: Option<Seq<char>>) -> Option<IdErrV> { match s { Some(s) => id_check(s), None => None } }
/// where the parts of a static selector are
pub open spec fn static_parts(s: Seq<char>) -> PartsV {
    let k = idx_set(s, seq!['#', '.']);
    let r = s.skip(k);
    let r1 = r.skip(1);
    let j = idx_set(r1, seq!['.']);
    PartsV {
        tag: if k == 0 { None } else { Some(s.take(k)) },
        id: if r.len() > 0 && r[0] == '#' { Some(r1.take(j)) } else { None },
        classes:
            if r.len() > 0 && r[0] == '#' { if j < r1.len() { Some(r1.skip(j + 1)) } else { None } }
            else if r.len() > 0 && r[0] == '.' { Some(r1) }
            else { None },
    }
}
/// where a piece of text ends, in bytes and in characters
pub proof fn lemma_cut(s: Seq<char>, cs: Seq<char>)
    ensures ({
        let k = idx_set(s, cs);
        0 <= k <= s.len() && blen(s.take(k)) <= blen(s) && (blen(s.take(k)) == 0 <==> k == 0) && bnd(s, blen(s.take(k)) as int) && cidx(s, blen(s.take(k)) as int) == k
            && (k < s.len() ==> cs.contains(s[k]) && bnd(s, (blen(s.take(k)) + clen(s[k])) as int) && cidx(s, (blen(s.take(k)) + clen(s[k])) as int) == k + 1 && blen(s.take(k)) + clen(s[k]) <= blen(s))
            && (k == s.len() ==> s.take(k) == s && s.skip(k).len() == 0)
    }),
{
    let k = idx_set(s, cs);
    lemma_idx_set(s, cs);
    lemma_cidx(s, k); lemma_bnd_take(s, k);
    assert(s.take(s.len() as int) =~= s);
    if k > 0 { lemma_blen_ge(s.take(k)); }
    if k < s.len() { lemma_after(s, k); }
    lemma_blen_ge(s.take(k));
}
pub proof fn lemma_static_parts(s: Seq<char>)
    ensures ({
        let k = idx_set(s, seq!['#', '.']);
        let r = s.skip(k);
        r.len() > 0 ==> r[0] == '#' || r[0] == '.'
    }),
{
    lemma_cut(s, seq!['#', '.']);
}
pub open spec fn part(mark: char, s: Option<Seq<char>>) -> Seq<char> { match s { Some(s) => seq![mark] + s, None => Seq::empty() } }
/// the identifier that follows the first mark, in front of the first dot (if any)
proof fn lemma_marked(r: Seq<char>)
    requires r.len() > 0,
    ensures ({
        let r1 = r.skip(1);
        let j = idx_set(r1, seq!['.']);
        &&& r =~= seq![r[0]] + r1
        &&& 0 <= j <= r1.len()
        &&& forall|i: int| 0 <= i < j ==> #[trigger] r1[i] != '.'
        &&& j < r1.len() ==> r1 =~= r1.take(j) + (seq!['.'] + r1.skip(j + 1))
        &&& j == r1.len() ==> r1 =~= r1.take(j)
    }),
{
    let r1 = r.skip(1);
    let b = seq!['.'];
    let j = idx_set(r1, b);
    lemma_idx_set(r1, b);
    assert(b[0] == '.');
    assert(b.contains('.'));
    assert(r =~= seq![r[0]] + r1);
    if j < r1.len() {
        assert(b.contains(r1[j]));
        assert(r1[j] == '.');
        assert(r1 =~= r1.take(j) + (seq!['.'] + r1.skip(j + 1)));
    } else { assert(r1 =~= r1.take(j)); }
}
/// C09: the parts are exactly the text: nothing of it is left out, and no part reaches into the next one
pub proof fn lemma_static_whole(s: Seq<char>)
    ensures ({
        let p = static_parts(s);
        &&& s == p.tag.unwrap_or(Seq::empty()) + part('#', p.id) + part('.', p.classes)
        &&& p.tag is Some ==> forall|i: int| 0 <= i < p.tag->Some_0.len() ==> (#[trigger] p.tag->Some_0[i]) != '#' && p.tag->Some_0[i] != '.'
        &&& p.id is Some ==> forall|i: int| 0 <= i < p.id->Some_0.len() ==> (#[trigger] p.id->Some_0[i]) != '.'
    }),
{
    let p = static_parts(s);
    let a = seq!['#', '.'];
    let k = idx_set(s, a);
    let r = s.skip(k);
    let t = s.take(k);
    lemma_idx_set(s, a);
    lemma_static_parts(s);
    assert(a[0] == '#' && a[1] == '.');
    assert(a.contains('#') && a.contains('.'));
    assert(s =~= t + r);
    assert(p.tag.unwrap_or(Seq::empty()) =~= t);
    if r.len() == 0 {
        assert(s =~= p.tag.unwrap_or(Seq::empty()) + part('#', p.id) + part('.', p.classes));
    } else {
        lemma_marked(r);
        let r1 = r.skip(1);
        let j = idx_set(r1, seq!['.']);
        if r[0] == '#' {
            if j < r1.len() {
                assert(part('#', p.id) =~= seq!['#'] + r1.take(j));
                assert(part('.', p.classes) =~= seq!['.'] + r1.skip(j + 1));
                assert(s =~= t + (seq!['#'] + (r1.take(j) + (seq!['.'] + r1.skip(j + 1)))));
                assert(s =~= t + (seq!['#'] + r1.take(j)) + (seq!['.'] + r1.skip(j + 1)));
            } else {
                assert(part('#', p.id) =~= seq!['#'] + r1);
                assert(part('.', p.classes) =~= Seq::<char>::empty());
                assert(s =~= t + (seq!['#'] + r1) + Seq::<char>::empty());
            }
        } else {
            assert(part('#', p.id) =~= Seq::<char>::empty());
            assert(part('.', p.classes) =~= seq!['.'] + r1);
            assert(s =~= t + Seq::<char>::empty() + (seq!['.'] + r1));
        }
    }
}
/// the first class that is not valid
pub open spec fn bad_class(cs: Seq<Seq<char>>, i: int) -> bool { 0 <= i < cs.len() && id_check(cs[i]) is Some && forall|j: int| 0 <= j < i ==> id_check(#[trigger] cs[j]) is None }
pub open spec fn all_valid(cs: Seq<Seq<char>>) -> bool { forall|j: int| 0 <= j < cs.len() ==> id_check(#[trigger] cs[j]) is None }
pub open spec fn static_res(s: Seq<char>, r: Result<Static, StaticError>) -> bool {
    let p = static_parts(s);
    if let Some(e) = opt_check(p.tag) { r is Err && match r->Err_0 { StaticError::Tag { error } => error.v() == e, _ => false } }
    else if let Some(e) = opt_check(p.id) { r is Err && match r->Err_0 { StaticError::Id { error } => error.v() == e, _ => false } }
    else if p.classes is Some && !all_valid(split_c(p.classes->Some_0, '.')) {
        r is Err && match r->Err_0 {
            StaticError::Class { index, error } => bad_class(split_c(p.classes->Some_0, '.'), index as int) && id_check(split_c(p.classes->Some_0, '.')[index as int]) == Some(error.v()),
            _ => false,
        }
    }
    else if p.tag is None && p.id is None && p.classes is None { r is Err && r->Err_0 is Unrestricted }
    else { r is Ok && r->Ok_0.v() == p }
}
pub open spec fn ostr(s: Option<&'static str>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
impl Static {
    pub open spec fn v(self) -> PartsV { PartsV { tag: ostr(self.tag), id: ostr(self.id), classes: ostr(self.classes) } }
}
/// the strings an iterator produced are the first ones of its items
pub open spec fn strs_of<'i, I: VIter<Item = &'i str>>(items: Seq<I::V>, s: Seq<&'i str>) -> bool {
    s.len() <= items.len() && forall|k: int| 0 <= k < s.len() ==> I::item_v(#[trigger] s[k]) == items[k]
}
pub open spec fn valid_to<'i>(s: Seq<&'i str>, n: int) -> bool { forall|k: int| 0 <= k < n ==> id_check(#[trigger] s[k]@) is None }
pub open spec fn views<'i>(s: Seq<&'i str>) -> Seq<Seq<char>> { Seq::new(s.len(), |k: int| s[k]@) }
pub open spec fn classes_res<'i, I: VIter<Item = &'i str>>(items: Seq<I::V>, r: Result<Classes, ClassesError>) -> bool {
    match r {
        Ok(c) => items.len() > 0 && exists|s: Seq<&'i str>| #[trigger] strs_of::<I>(items, s) && s.len() == items.len() && valid_to(s, s.len() as int) && views(s) == ids(c.identifiers@),
        Err(ClassesError::Empty) => items.len() == 0,
        Err(ClassesError::Identifier { index, error }) => exists|s: Seq<&'i str>| #[trigger] strs_of::<I>(items, s) && s.len() == index + 1 && valid_to(s, index as int) && id_check(s[index as int]@) == Some(error.v()),
    }
}
impl vstd::std_specs::convert::FromSpecImpl<IdError> for event::StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IdError) -> event::StreamError { match e { IdError::Identifier { error } => event::StreamError::Selector { error: Error::Id { error } } } }
}
impl vstd::std_specs::convert::FromSpecImpl<TagError> for event::StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TagError) -> event::StreamError { match e { TagError::Identifier { error } => event::StreamError::Selector { error: Error::Tag { error } } } }
}
impl vstd::std_specs::convert::FromSpecImpl<ClassError> for event::StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ClassError) -> event::StreamError { match e { ClassError::Identifier { error } => event::StreamError::Selector { error: Error::Class { error } } } }
}
impl vstd::std_specs::convert::FromSpecImpl<ClassesError> for event::StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ClassesError) -> event::StreamError { event::StreamError::Selector { error: Error::Classes { error: e } } }
}
impl vstd::std_specs::convert::FromSpecImpl<StaticError> for event::StreamError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: StaticError) -> event::StreamError { event::StreamError::StaticSelector { error: e } }
}
@@ trait select::Selector
    /// does the event start an element that is described
    spec fn sel(&self, e: EvV) -> bool;
@@ fn select::Selector::matches
@sig
    ensures ret == self.sel(event.v())
@@ impl select::<Selector for rc::Rc<T>>
    open spec fn sel(&self, e: EvV) -> bool { (**self).sel(e) }
@@ fn select::<Selector for rc::Rc<T>>::matches
@@ impl select::<Selector for &T>
    open spec fn sel(&self, e: EvV) -> bool { (**self).sel(e) }
@@ fn select::<Selector for &T>::matches
@@ impl select::<Selector for Id>
    open spec fn sel(&self, e: EvV) -> bool { id_sel(e, self.identifier@) }
@@ fn select::<Selector for Id>::matches
@@ impl select::<Selector for Tag>
    open spec fn sel(&self, e: EvV) -> bool { tag_sel(e, self.identifier@) }
@@ fn select::<Selector for Tag>::matches
@@ impl select::<Selector for Class>
    open spec fn sel(&self, e: EvV) -> bool { class_sel(e, self.identifier@) }
@@ fn select::<Selector for Class>::matches
@@ impl select::<Selector for Classes>
    open spec fn sel(&self, e: EvV) -> bool { classes_sel(e, ids(self.identifiers@)) }
@@ fn select::<Selector for Classes>::matches
@attr
    verifier::loop_isolation(false)
@attr
    verifier::allow_complex_invariants
@loop 0
    invariant has_classes(attributes.v(), ids(__it0.rest())) == has_classes(attributes.v(), ids(self.identifiers@)),
    ensures has_classes(attributes.v(), ids(self.identifiers@)),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_ids(__it0.rest()); lemma_has_classes(attributes.v(), ids(__it0.rest())); }
@@ impl select::<Selector for Static>
    open spec fn sel(&self, e: EvV) -> bool {
        let p = self.v();
        &&& ev_tag(e) is Some && ev_attrs(e) is Some
        &&& p.tag is Some ==> tag_sel(e, p.tag->Some_0)
        &&& p.id is Some ==> id_sel(e, p.id->Some_0)
        &&& p.classes is Some ==> classes_sel(e, split_c(p.classes->Some_0, '.'))
    }
@@ fn select::<Selector for Static>::matches
@attr
    verifier::loop_isolation(false)
@attr
    verifier::allow_complex_invariants
@loop 0
    invariant __it0.inv(), has_classes(attributes.v(), __it0.items()) == has_classes(attributes.v(), split_c(classes@, '.')),
    ensures has_classes(attributes.v(), split_c(classes@, '.')),
    decreases __it0.items().len(),
@loopstart 0
    proof { lemma_has_classes(attributes.v(), __it0.items()); }
@@ fn select::Tag::from_identifier
@sig
    ensures ret.identifier == identifier
@@ fn select::<FromStr for Id>::from_str
@@ impl select::<FromStr for Id>
    open spec fn parse_spec(s: Seq<char>, r: Result<Self, IdError>) -> bool { match r { Ok(x) => text::identifier::id_res(s, Ok(x.identifier)), Err(IdError::Identifier { error }) => text::identifier::id_res(s, Err(error)) } }
@@ fn select::<FromStr for Tag>::from_str
@@ impl select::<FromStr for Tag>
    open spec fn parse_spec(s: Seq<char>, r: Result<Self, TagError>) -> bool { match r { Ok(x) => text::identifier::id_res(s, Ok(x.identifier)), Err(TagError::Identifier { error }) => text::identifier::id_res(s, Err(error)) } }
@@ fn select::<FromStr for Class>::from_str
@@ impl select::<FromStr for Class>
    open spec fn parse_spec(s: Seq<char>, r: Result<Self, ClassError>) -> bool { match r { Ok(x) => text::identifier::id_res(s, Ok(x.identifier)), Err(ClassError::Identifier { error }) => text::identifier::id_res(s, Err(error)) } }
@@ fn select::Classes::from_str_iterator
@attr
    verifier::loop_isolation(false)
@attr
    verifier::allow_complex_invariants
@sig
    requires iter.inv(),
    ensures classes_res::<I>(iter.items(), ret)
@start
    let ghost its = iter.items();
    let ghost mut done: Seq<&'i str> = Seq::empty();
@loop 0
    invariant
        __it0.iter.inv(), __it0.count == done.len(), done.len() <= its.len(), __it0.iter.items() == its.skip(done.len() as int),
        strs_of::<I>(its, done), valid_to(done, done.len() as int), views(done) == ids(identifiers@),
    ensures done.len() == its.len(),
    decreases __it0.iter.items().len(),
@forstart 0
    let ghost d = done;
    let ghost i0 = identifiers@;
    proof { done = done.push(value); assert(strs_of::<I>(its, done)); assert(done[d.len() as int] == value); }
@forend 0
    proof {
        assert forall|k: int| 0 <= k < done.len() implies #[trigger] views(done)[k] == ids(identifiers@)[k] by {
            if k < d.len() { assert(views(d)[k] == ids(i0)[k]); assert(identifiers@[k] == i0[k]); }
        }
        assert(views(done) =~= ids(identifiers@));
    }
@@ trait select::IntoSelector
    /// what conversion has to give
    spec fn selector_spec(self, r: Result<Self::Selector, Self::Error>) -> bool;
@@ fn select::IntoSelector::into_selector
@sig
    ensures self.selector_spec(ret)
@@ impl select::<IntoSelector for T>
    open spec fn selector_spec(self, r: Result<T, event::StreamError>) -> bool { r == Ok::<T, event::StreamError>(self) }
@@ fn select::<IntoSelector for T>::into_selector
@@ impl select::<IntoSelector for Result>
    open spec fn selector_spec(self, r: Result<S, E>) -> bool { r == self }
@@ fn select::<IntoSelector for Result>::into_selector
@@ impl select::<IntoSelector for &str>
    open spec fn selector_spec(self, r: Result<Static, StaticError>) -> bool { static_res(self@, r) }
@@ fn select::<IntoSelector for &str>::into_selector
@attr
    verifier::loop_isolation(false)
@attr
    verifier::allow_complex_invariants
@start
    let ghost s0 = self@;
    let ghost p = static_parts(s0);
    proof {
        let k = idx_set(s0, seq!['#', '.']);
        let r = s0.skip(k);
        lemma_static_parts(s0); lemma_cut(s0, seq!['#', '.']); lemma_cut(r.skip(1), seq!['.']);
        assert(clen('#') == 1 && clen('.') == 1);
        assert(s0.skip(0) =~= s0);
    }
    broadcast use {group_cidx, axiom_str_len, lemma_array2};
@loop 0
    invariant
        __it0.iter.inv(), p.classes == Some(rest@), __it0.count <= split_c(rest@, '.').len(),
        __it0.iter.items() == split_c(rest@, '.').skip(__it0.count as int),
        forall|j: int| 0 <= j < __it0.count ==> id_check(#[trigger] split_c(rest@, '.')[j]) is None,
    ensures all_valid(split_c(rest@, '.')),
    decreases __it0.iter.items().len(),
@@ fn select::<From<IdError> for StreamError>::from
@outline iderror_into
    ensures ret == <event::StreamError as vstd::std_specs::convert::FromSpec<IdError>>::from_spec(error)
@@ fn select::<From<TagError> for StreamError>::from
@outline tagerror_into
    ensures ret == <event::StreamError as vstd::std_specs::convert::FromSpec<TagError>>::from_spec(error)
@@ fn select::<From<ClassError> for StreamError>::from
@outline classerror_into
    ensures ret == <event::StreamError as vstd::std_specs::convert::FromSpec<ClassError>>::from_spec(error)
@@ fn select::<From<ClassesError> for StreamError>::from
@outline classeserror_into
    ensures ret == <event::StreamError as vstd::std_specs::convert::FromSpec<ClassesError>>::from_spec(error)
@@ fn select::<From<StaticError> for StreamError>::from
@outline staticerror_into
    ensures ret == <event::StreamError as vstd::std_specs::convert::FromSpec<StaticError>>::from_spec(error)
