/// What the parser has to do, as functions over the characters of its input.
pub mod markup {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {

/// the rest of the input and where it starts
pub struct InputV { pub s: Seq<char>, pub l: LocV }

/// the input after its first `k` characters
pub open spec fn adv(i: InputV, k: int) -> InputV {
    InputV { s: i.s.skip(k), l: loc_adv(i.l, i.s.take(k)) }
}

/// no byte offset in the rest overflows
pub open spec fn inp_wf(i: InputV) -> bool { loc_inv(i.l) && i.l.offset + blen(i.s) < usize::MAX }

pub broadcast proof fn lemma_adv_wf(i: InputV, k: int)
    requires inp_wf(i), 0 <= k <= i.s.len(),
    ensures inp_wf(#[trigger] adv(i, k)),
{
    lemma_loc_bounds(i.l, i.s.take(k));
    lemma_blen_split(i.s, k);
}

pub broadcast proof fn lemma_adv_adv(i: InputV, j: int, k: int)
    requires 0 <= j, 0 <= k, j + k <= i.s.len(),
    ensures #[trigger] adv(adv(i, j), k) == adv(i, j + k),
{
    assert(i.s.skip(j).skip(k) =~= i.s.skip(j + k));
    assert(i.s.take(j) + i.s.skip(j).take(k) =~= i.s.take(j + k));
    lemma_loc_adv_cat(i.l, i.s.take(j), i.s.skip(j).take(k));
}

pub proof fn lemma_adv_0(i: InputV)
    ensures adv(i, 0) == i,
{
    assert(i.s.take(0) =~= Seq::empty());
    assert(i.s.skip(0) =~= i.s);
    reveal(nls); reveal(blen); reveal(last_idx);
}

/// characters that end a word
pub open spec fn term_chars() -> Seq<char> { seq![' ', '\t', '\r', '\n', '>', '<', '"', '/', '=', '\'', '&'] }

/// length of the word the input starts with
pub open spec fn wlen(s: Seq<char>) -> int { idx_set(s, term_chars()) }

/// number of leading white space characters
pub open spec fn ws(i: InputV) -> InputV { adv(i, ws_len(i.s)) }

/// the rest after the character `c`, if the input starts with it
pub open spec fn p_char(i: InputV, c: char) -> Option<InputV> {
    if i.s.len() > 0 && i.s[0] == c { Some(adv(i, 1)) } else { None }
}

pub open spec fn p_str(i: InputV, p: Seq<char>) -> Option<InputV> {
    if starts(i.s, p) { Some(adv(i, p.len() as int)) } else { None }
}

/// a split off part and the rest
pub open spec fn p_at(i: InputV, k: int) -> (Seq<char>, InputV) { (i.s.take(k), adv(i, k)) }

pub open spec fn p_until_str(i: InputV, p: Seq<char>) -> Option<(Seq<char>, InputV)> {
    if idx_str(i.s, p) >= 0 { Some(p_at(i, idx_str(i.s, p))) } else { None }
}

pub open spec fn p_until_char(i: InputV, c: char) -> Option<(Seq<char>, InputV)> {
    if idx_set(i.s, seq![c]) < i.s.len() { Some(p_at(i, idx_set(i.s, seq![c]))) } else { None }
}

/// what a part was searched for follows it
pub broadcast proof fn lemma_p_until_str(i: InputV, p: Seq<char>)
    ensures match #[trigger] p_until_str(i, p) { Some((w, r)) => starts(r.s, p), None => true },
{
    lemma_idx_str(i.s, p);
}
pub broadcast proof fn lemma_p_until_char(i: InputV, c: char)
    ensures match #[trigger] p_until_char(i, c) { Some((w, r)) => r.s.len() > 0 && r.s[0] == c, None => true },
{
    lemma_idx_set(i.s, seq![c]);
    let k = idx_set(i.s, seq![c]);
    if k < i.s.len() {
        assert(seq![c].contains(i.s[k]));
        let j = choose|j: int| 0 <= j < seq![c].len() && seq![c][j] == i.s[k];
    }
}

pub open spec fn p_word(i: InputV) -> Option<(Seq<char>, InputV)> {
    if wlen(i.s) == 0 { None } else { Some(p_at(i, wlen(i.s))) }
}

/// an identifier, nothing, or a reason why the word is none
pub open spec fn p_ident(i: InputV) -> Result<Option<(Seq<char>, InputV)>, IdErrV> {
    match p_word(i) {
        None => Ok(None),
        Some((w, r)) => match id_check(w) { None => Ok(Some((w, r))), Some(e) => Err(e) },
    }
}

pub open spec fn p_exact(i: InputV, n: Seq<char>) -> Option<(Seq<char>, InputV)> {
    match p_word(i) {
        None => None,
        Some((w, r)) => if id_check(w) is None && name_eq(w, n) { Some((w, r)) } else { None },
    }
}

/// the positions after the one-character prefix
pub broadcast proof fn lemma_blen_prefix(s: Seq<char>, p: Seq<char>)
    requires #[trigger] starts(s, p),
    ensures bnd(s, blen(p) as int), cidx(s, blen(p) as int) == p.len(), blen(p) <= blen(s),
{
    lemma_bnd_take(s, p.len() as int);
    lemma_cidx(s, p.len() as int);
}

// ------------------------------------------------------------------ elements and attributes

pub struct AttrV { pub name: Seq<char>, pub value: Option<Seq<char>> }

/// an event as its rendered parts
pub enum EvV {
    Noop,
    Doctype(Seq<char>),
    Comment(Seq<char>),
    Data(Seq<char>),
    Raw(Seq<char>),
    Open(Seq<char>, Seq<AttrV>),
    Close(Seq<char>),
    SelfClosed(Seq<char>, Seq<AttrV>),
    Void(Seq<char>, Seq<AttrV>),
}

pub open spec fn ev_tag(e: EvV) -> Option<Seq<char>> {
    match e { EvV::Open(t, _) => Some(t), EvV::SelfClosed(t, _) => Some(t), EvV::Void(t, _) => Some(t), _ => None }
}
pub open spec fn ev_attrs(e: EvV) -> Option<Seq<AttrV>> {
    match e { EvV::Open(_, a) => Some(a), EvV::SelfClosed(_, a) => Some(a), EvV::Void(_, a) => Some(a), _ => None }
}

/// the attributes not named `n`
#[verifier::opaque]
pub open spec fn a_without(a: Seq<AttrV>, n: Seq<char>) -> Seq<AttrV>
    decreases a.len(),
{
    if a.len() == 0 { a } else {
        let r = a_without(a.skip(1), n);
        if name_eq(a[0].name, n) { r } else { cons(a[0], r) }
    }
}
pub proof fn lemma_a_without(a: Seq<AttrV>, n: Seq<char>)
    ensures
        a.len() == 0 ==> a_without(a, n) == Seq::<AttrV>::empty(),
        a.len() > 0 && name_eq(a[0].name, n) ==> a_without(a, n) == a_without(a.skip(1), n),
        a.len() > 0 && !name_eq(a[0].name, n) ==> a_without(a, n) == cons(a[0], a_without(a.skip(1), n)),
        a_without(a, n).len() <= a.len(),
    decreases a.len(),
{
    reveal(a_without); reveal(cons);
    if a.len() > 0 { lemma_a_without(a.skip(1), n); } else { assert(a =~= Seq::empty()); }
}
/// C10: every attribute that is left is an old one of another name, in order, and none is lost
pub proof fn lemma_a_without_frame(a: Seq<AttrV>, n: Seq<char>)
    ensures
        forall|i: int| 0 <= i < a_without(a, n).len() ==> !name_eq((#[trigger] a_without(a, n)[i]).name, n) && a.contains(a_without(a, n)[i]),
        forall|i: int| 0 <= i < a.len() && !name_eq((#[trigger] a[i]).name, n) ==> a_without(a, n).contains(a[i]),
        a_without(a, n).len() == a.len() <==> (forall|i: int| 0 <= i < a.len() ==> !name_eq((#[trigger] a[i]).name, n)),
    decreases a.len(),
{
    reveal(cons);
    lemma_a_without(a, n);
    if a.len() > 0 {
        let t = a.skip(1);
        let w = a_without(t, n);
        lemma_a_without_frame(t, n);
        lemma_a_without(t, n);
        assert forall|i: int| 0 <= i < a.len() && !name_eq((#[trigger] a[i]).name, n) implies a_without(a, n).contains(a[i]) by {
            if i > 0 {
                assert(t[i - 1] == a[i]);
                assert(w.contains(a[i]));
                let k = choose|k: int| 0 <= k < w.len() && w[k] == a[i];
                if !name_eq(a[0].name, n) { assert(a_without(a, n)[k + 1] == a[i]); }
            } else { assert(a_without(a, n)[0] == a[0]); }
        }
        assert forall|i: int| 0 <= i < a_without(a, n).len() implies !name_eq((#[trigger] a_without(a, n)[i]).name, n) && a.contains(a_without(a, n)[i]) by {
            let x = a_without(a, n)[i];
            if !name_eq(a[0].name, n) && i == 0 { assert(a[0] == x); } else {
                let k = if name_eq(a[0].name, n) { i } else { i - 1 };
                assert(w[k] == x);
                assert(t.contains(x));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                assert(a[j + 1] == x);
            }
        }
        assert(a_without(a, n).len() == a.len() <==> (forall|i: int| 0 <= i < a.len() ==> !name_eq((#[trigger] a[i]).name, n))) by {
            if a_without(a, n).len() == a.len() {
                assert forall|i: int| 0 <= i < a.len() implies !name_eq((#[trigger] a[i]).name, n) by { if i > 0 { assert(t[i - 1] == a[i]); } }
            }
            if forall|i: int| 0 <= i < a.len() ==> !name_eq((#[trigger] a[i]).name, n) {
                assert forall|i: int| 0 <= i < t.len() implies !name_eq((#[trigger] t[i]).name, n) by { assert(t[i] == a[i + 1]); }
            }
        }
    }
}

pub open spec fn a_set(a: Seq<AttrV>, n: Seq<char>, v: Option<Seq<char>>) -> Seq<AttrV> {
    a_without(a, n).push(AttrV { name: n, value: v })
}
pub open spec fn a_replace(a: Seq<AttrV>, n: Seq<char>, v: Option<Seq<char>>) -> Seq<AttrV> {
    if a_without(a, n).len() == a.len() { a_without(a, n) } else { a_set(a, n, v) }
}
pub open spec fn a_joined(v: Option<Seq<char>>, x: Seq<char>, sep: Seq<char>) -> Seq<char> {
    match v { Some(v) => (v + sep) + x, None => x }
}
/// `x` joined to the first attribute named `n`, or a new attribute
#[verifier::opaque]
pub open spec fn a_add_to(a: Seq<AttrV>, n: Seq<char>, x: Seq<char>, sep: Seq<char>) -> Seq<AttrV>
    decreases a.len(),
{
    if a.len() == 0 { cons(AttrV { name: n, value: Some(x) }, Seq::empty()) }
    else if name_eq(a[0].name, n) { cons(AttrV { name: a[0].name, value: Some(a_joined(a[0].value, x, sep)) }, a.skip(1)) }
    else { cons(a[0], a_add_to(a.skip(1), n, x, sep)) }
}
pub proof fn lemma_a_add_to(a: Seq<AttrV>, n: Seq<char>, x: Seq<char>, sep: Seq<char>)
    ensures
        a.len() == 0 ==> a_add_to(a, n, x, sep) == cons(AttrV { name: n, value: Some(x) }, Seq::empty()),
        a.len() > 0 && name_eq(a[0].name, n) ==> a_add_to(a, n, x, sep) == cons(AttrV { name: a[0].name, value: Some(a_joined(a[0].value, x, sep)) }, a.skip(1)),
        a.len() > 0 && !name_eq(a[0].name, n) ==> a_add_to(a, n, x, sep) == cons(a[0], a_add_to(a.skip(1), n, x, sep)),
{
    reveal(a_add_to);
}
/// C10: adding to an attribute changes exactly the first one of the name, or appends one
pub proof fn lemma_a_add_to_frame(a: Seq<AttrV>, n: Seq<char>, x: Seq<char>, sep: Seq<char>) -> (k: int)
    ensures
        0 <= k <= a.len(),
        forall|i: int| 0 <= i < k ==> !name_eq((#[trigger] a[i]).name, n),
        k < a.len() ==> name_eq(a[k].name, n) && a_add_to(a, n, x, sep) == a.update(k, AttrV { name: a[k].name, value: Some(a_joined(a[k].value, x, sep)) }),
        k == a.len() ==> a_add_to(a, n, x, sep) == a.push(AttrV { name: n, value: Some(x) }),
    decreases a.len(),
{
    reveal(cons);
    lemma_a_add_to(a, n, x, sep);
    if a.len() == 0 { assert(a_add_to(a, n, x, sep) =~= a.push(AttrV { name: n, value: Some(x) })); 0 }
    else if name_eq(a[0].name, n) {
        assert(a_add_to(a, n, x, sep) =~= a.update(0, AttrV { name: a[0].name, value: Some(a_joined(a[0].value, x, sep)) }));
        0
    } else {
        let t = a.skip(1);
        let k = lemma_a_add_to_frame(t, n, x, sep);
        assert forall|i: int| 0 <= i < k + 1 implies !name_eq((#[trigger] a[i]).name, n) by { if i > 0 { assert(t[i - 1] == a[i]); } }
        if k < t.len() { assert(t[k] == a[k + 1]); assert(a_add_to(a, n, x, sep) =~= a.update(k + 1, AttrV { name: a[k + 1].name, value: Some(a_joined(a[k + 1].value, x, sep)) })); }
        else { assert(a_add_to(a, n, x, sep) =~= a.push(AttrV { name: n, value: Some(x) })); }
        k + 1
    }
}

pub open spec fn class_name() -> Seq<char> { seq!['c', 'l', 'a', 's', 's'] }
pub open spec fn id_name() -> Seq<char> { seq!['i', 'd'] }

/// `n` is one of the words
pub open spec fn has_word(ws: Seq<Seq<char>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ws.len() && name_eq(n, #[trigger] ws[i]) }

/// the words of the attribute's value, if it is a class attribute
pub open spec fn attr_classes(a: AttrV) -> Option<Seq<Seq<char>>> {
    if name_eq(a.name, class_name()) { match a.value { Some(v) => Some(words(v)), None => None } } else { None }
}
pub open spec fn attr_has_class(a: AttrV, n: Seq<char>) -> bool {
    match attr_classes(a) { Some(w) => has_word(w, n), None => false }
}
pub open spec fn a_has_class(a: Seq<AttrV>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && attr_has_class(#[trigger] a[i], n) }
pub open spec fn attr_has_id(a: AttrV, n: Seq<char>) -> bool {
    name_eq(a.name, id_name()) && match a.value { Some(v) => name_eq(v, n), None => false }
}
pub open spec fn a_has_id(a: Seq<AttrV>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && attr_has_id(#[trigger] a[i], n) }

/// the words other than `n` after what is already joined in `acc`
#[verifier::opaque]
pub open spec fn join_without(acc: Seq<char>, ws: Seq<Seq<char>>, n: Seq<char>) -> Seq<char>
    decreases ws.len(),
{
    if ws.len() == 0 { acc }
    else if name_eq(n, ws[0]) { join_without(acc, ws.skip(1), n) }
    else if acc.len() == 0 { join_without(acc + ws[0], ws.skip(1), n) }
    else { join_without((acc + seq![' ']) + ws[0], ws.skip(1), n) }
}
pub proof fn lemma_join_without(acc: Seq<char>, ws: Seq<Seq<char>>, n: Seq<char>)
    ensures
        ws.len() == 0 ==> join_without(acc, ws, n) == acc,
        ws.len() > 0 && name_eq(n, ws[0]) ==> join_without(acc, ws, n) == join_without(acc, ws.skip(1), n),
        ws.len() > 0 && !name_eq(n, ws[0]) && acc.len() == 0 ==> join_without(acc, ws, n) == join_without(acc + ws[0], ws.skip(1), n),
        ws.len() > 0 && !name_eq(n, ws[0]) && acc.len() > 0 ==> join_without(acc, ws, n) == join_without((acc + seq![' ']) + ws[0], ws.skip(1), n),
{
    reveal(join_without);
}

/// the attribute without the class; none if no class is left
pub open spec fn attr_rm_class(a: AttrV, n: Seq<char>) -> Option<AttrV> {
    if attr_has_class(a, n) {
        let j = join_without(Seq::empty(), attr_classes(a)->Some_0, n);
        if j.len() == 0 { None } else { Some(AttrV { name: a.name, value: Some(j) }) }
    } else { Some(a) }
}
#[verifier::opaque]
pub open spec fn a_rm_class(a: Seq<AttrV>, n: Seq<char>) -> Seq<AttrV>
    decreases a.len(),
{
    if a.len() == 0 { a } else {
        let r = a_rm_class(a.skip(1), n);
        match attr_rm_class(a[0], n) { Some(x) => cons(x, r), None => r }
    }
}
pub proof fn lemma_a_rm_class(a: Seq<AttrV>, n: Seq<char>)
    ensures
        a.len() == 0 ==> a_rm_class(a, n) == Seq::<AttrV>::empty(),
        a.len() > 0 ==> a_rm_class(a, n) == (match attr_rm_class(a[0], n) { Some(x) => cons(x, a_rm_class(a.skip(1), n)), None => a_rm_class(a.skip(1), n) }),
{
    reveal(a_rm_class);
    if a.len() == 0 { assert(a =~= Seq::empty()); }
}
/// C10: without the class nothing changes
pub proof fn lemma_a_rm_class_none(a: Seq<AttrV>, n: Seq<char>)
    requires !a_has_class(a, n),
    ensures a_rm_class(a, n) == a,
    decreases a.len(),
{
    reveal(cons);
    lemma_a_rm_class(a, n);
    if a.len() > 0 {
        assert(!attr_has_class(a[0], n));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies !attr_has_class(#[trigger] a.skip(1)[i], n) by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_a_rm_class_none(a.skip(1), n);
        assert(a_rm_class(a, n) =~= a);
    } else { assert(a =~= Seq::empty()); }
}

/// `x` in front of `a`
#[verifier::opaque]
pub open spec fn cons<T>(x: T, a: Seq<T>) -> Seq<T> { seq![x] + a }
pub broadcast proof fn lemma_push_cat<T>(a: Seq<T>, x: T, b: Seq<T>)
    ensures #[trigger] (a + cons(x, b)) == a.push(x) + b,
{
    reveal(cons);
    assert(a.push(x) + b =~= a + (seq![x] + b));
}

pub proof fn lemma_has_word(ws: Seq<Seq<char>>, n: Seq<char>)
    ensures
        has_word(ws, n) == (ws.len() > 0 && (name_eq(n, ws[0]) || has_word(ws.skip(1), n))),
{
    let t = ws.skip(1);
    if has_word(ws, n) {
        let i = choose|i: int| 0 <= i < ws.len() && name_eq(n, #[trigger] ws[i]);
        if i > 0 { assert(t[i - 1] == ws[i]); }
    }
    if ws.len() > 0 && has_word(t, n) {
        let i = choose|i: int| 0 <= i < t.len() && name_eq(n, #[trigger] t[i]);
        assert(ws[i + 1] == t[i]);
    }
}
pub proof fn lemma_a_has_class(a: Seq<AttrV>, n: Seq<char>)
    ensures
        a_has_class(a, n) == (a.len() > 0 && (attr_has_class(a[0], n) || a_has_class(a.skip(1), n))),
{
    let t = a.skip(1);
    if a_has_class(a, n) {
        let i = choose|i: int| 0 <= i < a.len() && attr_has_class(#[trigger] a[i], n);
        if i > 0 { assert(t[i - 1] == a[i]); }
    }
    if a.len() > 0 && a_has_class(t, n) {
        let i = choose|i: int| 0 <= i < t.len() && attr_has_class(#[trigger] t[i], n);
        assert(a[i + 1] == t[i]);
    }
}
pub proof fn lemma_a_has_id(a: Seq<AttrV>, n: Seq<char>)
    ensures
        a_has_id(a, n) == (a.len() > 0 && (attr_has_id(a[0], n) || a_has_id(a.skip(1), n))),
{
    let t = a.skip(1);
    if a_has_id(a, n) {
        let i = choose|i: int| 0 <= i < a.len() && attr_has_id(#[trigger] a[i], n);
        if i > 0 { assert(t[i - 1] == a[i]); }
    }
    if a.len() > 0 && a_has_id(t, n) {
        let i = choose|i: int| 0 <= i < t.len() && attr_has_id(#[trigger] t[i], n);
        assert(a[i + 1] == t[i]);
    }
}

// ------------------------------------------------------------------ rendering

pub open spec fn attr_disp(a: AttrV) -> Seq<char> {
    a.name + (match a.value { Some(v) => seq!['=', '"'] + (v + seq!['"']), None => Seq::empty() })
}
/// the attributes, separated by spaces; `first`: none was rendered before
#[verifier::opaque]
pub open spec fn attrs_disp_from(a: Seq<AttrV>, first: bool) -> Seq<char>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() }
    else if first { attr_disp(a[0]) + attrs_disp_from(a.skip(1), false) }
    else { seq![' '] + (attr_disp(a[0]) + attrs_disp_from(a.skip(1), false)) }
}
pub proof fn lemma_attrs_disp(a: Seq<AttrV>, first: bool)
    ensures
        a.len() == 0 ==> attrs_disp_from(a, first) == Seq::<char>::empty(),
        a.len() > 0 && first ==> attrs_disp_from(a, first) == attr_disp(a[0]) + attrs_disp_from(a.skip(1), false),
        a.len() > 0 && !first ==> attrs_disp_from(a, first) == seq![' '] + (attr_disp(a[0]) + attrs_disp_from(a.skip(1), false)),
{
    reveal(attrs_disp_from);
}
pub open spec fn tag_disp(t: Seq<char>, a: Seq<AttrV>) -> Seq<char> {
    t + (if a.len() > 0 { seq![' '] + attrs_disp_from(a, true) } else { Seq::empty() })
}
pub open spec fn ev_disp(e: EvV) -> Seq<char> {
    match e {
        EvV::Noop => Seq::empty(),
        EvV::Doctype(c) => seq!['<', '!', 'd', 'o', 'c', 't', 'y', 'p', 'e', ' '] + (c + seq!['>']),
        EvV::Comment(c) => seq!['<', '!', '-', '-'] + (c + seq!['-', '-', '>']),
        EvV::Data(c) => c,
        EvV::Raw(c) => c,
        EvV::Open(t, a) => seq!['<'] + (tag_disp(t, a) + seq!['>']),
        EvV::Void(t, a) => seq!['<'] + (tag_disp(t, a) + seq!['>']),
        EvV::SelfClosed(t, a) => seq!['<'] + (tag_disp(t, a) + seq![' ', '/', '>']),
        EvV::Close(t) => seq!['<', '/'] + (t + seq!['>']),
    }
}

/// a whole document
#[verifier::opaque]
pub open spec fn doc_disp(es: Seq<EvV>) -> Seq<char>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else { ev_disp(es[0]) + doc_disp(es.skip(1)) }
}
pub proof fn lemma_doc_disp(es: Seq<EvV>)
    ensures
        es.len() == 0 ==> doc_disp(es) == Seq::<char>::empty(),
        es.len() > 0 ==> doc_disp(es) == ev_disp(es[0]) + doc_disp(es.skip(1)),
{
    reveal(doc_disp);
}

// ------------------------------------------------------------------ the parser

pub enum ModeV { Data, Raw(Seq<char>) }

/// one parsed event, where it starts, how to go on
pub struct ParsedV { pub e: EvV, pub l: LocV, pub m: ModeV, pub r: InputV }

pub enum ErrV {
    UnsupportedDoctype(LocV, Seq<char>),
    UnclosedDoctype(LocV),
    UnclosedComment(LocV),
    ExpectedOpeningTagClose(LocV, Seq<char>),
    ExpectedClosingTagClose(LocV, Seq<char>),
    ExpectedOpeningTagIdentifier(LocV),
    InvalidOpeningTagIdentifier(LocV, IdErrV),
    ExpectedClosingTagIdentifier(LocV),
    InvalidClosingTagIdentifier(LocV, IdErrV),
    InvalidAttributeIdentifier(LocV, IdErrV),
    InvalidAttributeValue(LocV, Seq<char>, Seq<char>),
    UnclosedAttributeValue(LocV, Seq<char>, Seq<char>),
    UnexpectedInput(LocV),
    MissingClosingTags((Seq<char>, LocV), Seq<(Seq<char>, LocV)>),
    StackLimitExceeded(LocV, Seq<char>, nat),
    UnexpectedClosingTag(LocV, Seq<char>),
    MismatchedClosingTag((Seq<char>, LocV), (Seq<char>, LocV)),
}

pub type PR = Result<ParsedV, ErrV>;

pub open spec fn parsed(i: InputV, e: EvV, m: ModeV, r: InputV) -> PR { Ok(ParsedV { e, l: i.l, m, r }) }

/// `< / name >`
#[verifier::opaque]
pub open spec fn s_tag_close(i: InputV) -> Option<PR> {
    match p_char(i, '<') {
        None => None,
        Some(a) => match p_char(ws(a), '/') {
            None => None,
            Some(b) => {
                let c = ws(b);
                Some(match p_ident(c) {
                    Err(e) => Err(ErrV::InvalidClosingTagIdentifier(c.l, e)),
                    Ok(None) => Err(ErrV::ExpectedClosingTagIdentifier(c.l)),
                    Ok(Some((n, d))) => match p_char(ws(d), '>') {
                        None => Err(ErrV::ExpectedClosingTagClose(ws(d).l, n)),
                        Some(r) => parsed(i, EvV::Close(n), ModeV::Data, r),
                    },
                })
            },
        },
    }
}

/// `name` or `name = "value"`
#[verifier::opaque]
pub open spec fn s_attr(tag: Seq<char>, i: InputV) -> Result<Option<(AttrV, InputV)>, ErrV> {
    match p_ident(i) {
        Err(e) => Err(ErrV::InvalidAttributeIdentifier(i.l, e)),
        Ok(None) => Ok(None),
        Ok(Some((n, a))) => match p_char(ws(a), '=') {
            None => Ok(Some((AttrV { name: n, value: None }, ws(a)))),
            Some(b) => {
                let c = ws(b);
                match p_char(c, '"') {
                    None => Err(ErrV::InvalidAttributeValue(c.l, tag, n)),
                    Some(d) => match p_until_char(d, '"') {
                        None => Err(ErrV::UnclosedAttributeValue(c.l, tag, n)),
                        Some((v, e)) => Ok(Some((AttrV { name: n, value: Some(v) }, adv(e, 1)))),
                    },
                }
            },
        },
    }
}

/// as many attributes as there are, in order
#[verifier::opaque]
pub open spec fn s_attrs(tag: Seq<char>, i: InputV) -> Result<(Seq<AttrV>, InputV), ErrV>
    decreases i.s.len(),
{
    if i.s.len() == 0 { Ok((Seq::empty(), i)) } else {
        match s_attr(tag, i) {
            Err(e) => Err(e),
            Ok(None) => Ok((Seq::empty(), i)),
            Ok(Some((a, r))) => if ws(r).s.len() >= i.s.len() { Ok((Seq::empty(), i)) } else {
                match s_attrs(tag, ws(r)) { Err(e) => Err(e), Ok((x, r)) => Ok((cons(a, x), r)) }
            },
        }
    }
}
pub proof fn lemma_s_attrs(tag: Seq<char>, i: InputV)
    requires inp_wf(i),
    ensures
        i.s.len() == 0 ==> s_attrs(tag, i) == Ok::<(Seq<AttrV>, InputV), ErrV>((Seq::empty(), i)),
        i.s.len() > 0 ==> (match s_attr(tag, i) {
            Err(e) => s_attrs(tag, i) == Err::<(Seq<AttrV>, InputV), ErrV>(e),
            Ok(None) => s_attrs(tag, i) == Ok::<(Seq<AttrV>, InputV), ErrV>((Seq::empty(), i)),
            Ok(Some((a, r))) => ws(r).s.len() < i.s.len() && s_attrs(tag, i) == (match s_attrs(tag, ws(r)) {
                Err(e) => Err::<(Seq<AttrV>, InputV), ErrV>(e),
                Ok((x, r)) => Ok((cons(a, x), r)),
            }),
        }),
{
    reveal(s_attrs); reveal(s_attr);
    broadcast use lemma_idx_set, lemma_ws_len;
}

/// attributes found so far in front of what the rest yields
pub open spec fn with_attrs(acc: Seq<AttrV>, x: Result<(Seq<AttrV>, InputV), ErrV>) -> Result<(Seq<AttrV>, InputV), ErrV> {
    match x { Err(e) => Err(e), Ok((a, r)) => Ok((acc + a, r)) }
}

pub open spec fn raw_tags() -> Seq<&'static str> { seq!["script", "style", "title", "textarea"] }
pub open spec fn void_tags() -> Seq<&'static str> {
    seq!["area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link",
        "menuitem", "meta", "param", "source", "track", "wbr"]
}
/// the first of the names equal to `t`
pub open spec fn first_name(ts: Seq<&'static str>, t: Seq<char>) -> Option<Seq<char>>
    decreases ts.len(),
{
    if ts.len() == 0 { None } else if name_eq(t, ts[0]@) { Some(ts[0]@) } else { first_name(ts.skip(1), t) }
}
pub open spec fn is_void(t: Seq<char>) -> bool { first_name(void_tags(), t) is Some }
pub open spec fn s_mode(t: Seq<char>, self_close: bool) -> ModeV {
    if self_close { ModeV::Data } else { match first_name(raw_tags(), t) { Some(n) => ModeV::Raw(n), None => ModeV::Data } }
}

/// `< name attributes [/] >`
#[verifier::opaque]
pub open spec fn s_tag_open(i: InputV) -> Option<PR> {
    match p_char(i, '<') {
        None => None,
        Some(a) => {
            let b = ws(a);
            Some(match p_ident(b) {
                Err(e) => Err(ErrV::InvalidOpeningTagIdentifier(b.l, e)),
                Ok(None) => Err(ErrV::ExpectedOpeningTagIdentifier(b.l)),
                Ok(Some((n, c))) => match s_attrs(n, ws(ws(c))) {
                    Err(e) => Err(e),
                    Ok((at, d)) => {
                        let d = ws(d);
                        let sc = p_char(d, '/') is Some;
                        let f = match p_char(d, '/') { Some(x) => ws(x), None => d };
                        match p_char(f, '>') {
                            None => Err(ErrV::ExpectedOpeningTagClose(f.l, n)),
                            Some(r) => parsed(i, if is_void(n) { EvV::Void(n, at) } else if sc { EvV::SelfClosed(n, at) } else { EvV::Open(n, at) },
                                s_mode(n, sc), r),
                        }
                    },
                },
            })
        },
    }
}

pub open spec fn s_tag(i: InputV) -> Option<PR> { match s_tag_close(i) { Some(x) => Some(x), None => s_tag_open(i) } }

pub open spec fn comment_open() -> Seq<char> { seq!['<', '!', '-', '-'] }
pub open spec fn comment_close() -> Seq<char> { seq!['-', '-', '>'] }

#[verifier::opaque]
pub open spec fn s_comment(i: InputV) -> Option<PR> {
    match p_str(i, comment_open()) {
        None => None,
        Some(a) => Some(match p_until_str(a, comment_close()) {
            None => Err(ErrV::UnclosedComment(i.l)),
            Some((c, b)) => parsed(i, EvV::Comment(c), ModeV::Data, adv(b, 3)),
        }),
    }
}

pub open spec fn decl_open() -> Seq<char> { seq!['<', '!'] }
pub open spec fn doctype_name() -> Seq<char> { seq!['d', 'o', 'c', 't', 'y', 'p', 'e'] }
pub open spec fn html_name() -> Seq<char> { seq!['h', 't', 'm', 'l'] }

#[verifier::opaque]
pub open spec fn s_doctype(i: InputV) -> Option<PR> {
    match p_str(i, decl_open()) {
        None => None,
        Some(a) => match p_exact(ws(a), doctype_name()) {
            None => None,
            Some((_, b)) => Some(match p_until_char(ws(b), '>') {
                None => Err(ErrV::UnclosedDoctype(i.l)),
                Some((c, d)) => if name_eq(trim(c), html_name()) { parsed(i, EvV::Doctype(trim(c)), ModeV::Data, adv(d, 1)) }
                    else { Err(ErrV::UnsupportedDoctype(i.l, trim(c))) },
            }),
        },
    }
}

pub open spec fn or_rest(i: InputV, x: Option<(Seq<char>, InputV)>) -> (Seq<char>, InputV) {
    match x { Some(x) => x, None => p_at(i, i.s.len() as int) }
}

#[verifier::opaque]
pub open spec fn s_data(i: InputV) -> Option<PR> {
    let (d, r) = or_rest(i, p_until_char(i, '<'));
    if d.len() == 0 { None } else { Some(parsed(i, EvV::Data(d), ModeV::Data, r)) }
}

#[verifier::opaque]
pub open spec fn s_in_data(i: InputV) -> PR {
    match s_comment(i) { Some(x) => x, None => match s_doctype(i) { Some(x) => x, None => match s_tag(i) { Some(x) => x, None => match s_data(i) {
        Some(x) => x, None => Err(ErrV::UnexpectedInput(i.l)) } } } }
}

/// the input starts with a closing tag for `t`
pub open spec fn closes(i: InputV, t: Seq<char>) -> bool {
    match s_tag_close(i) { Some(Ok(p)) => name_eq(p.e->Close_0, t), _ => false }
}
/// a closing tag for `t` starts at `k`
pub open spec fn is_end(i: InputV, t: Seq<char>, k: int) -> bool { i.s[k] == '<' && closes(adv(i, k), t) }
/// first position from `k` on where a closing tag for `t` starts, or the end
pub open spec fn raw_end(i: InputV, t: Seq<char>, k: int) -> int
    decreases i.s.len() - k,
{
    if k >= i.s.len() || k < 0 { i.s.len() as int } else if is_end(i, t, k) { k } else { raw_end(i, t, k + 1) }
}
pub proof fn lemma_raw_end(i: InputV, t: Seq<char>, k: int)
    requires 0 <= k <= i.s.len(),
    ensures
        k <= raw_end(i, t, k) <= i.s.len(),
        raw_end(i, t, k) < i.s.len() ==> is_end(i, t, raw_end(i, t, k)),
        forall|j: int| k <= j < raw_end(i, t, k) ==> !#[trigger] is_end(i, t, j),
    decreases i.s.len() - k,
{
    if k < i.s.len() && !is_end(i, t, k) { lemma_raw_end(i, t, k + 1); }
}
pub proof fn lemma_raw_end_is(i: InputV, t: Seq<char>, k: int)
    requires
        0 <= k <= i.s.len(),
        k < i.s.len() ==> is_end(i, t, k),
        forall|j: int| 0 <= j < k ==> !#[trigger] is_end(i, t, j),
    ensures raw_end(i, t, 0) == k,
{
    lemma_raw_end(i, t, 0);
    let e = raw_end(i, t, 0);
    if e < k { assert(!is_end(i, t, e)); }
    if k < e { assert(!is_end(i, t, k)); }
}

pub open spec fn s_raw(i: InputV, t: Seq<char>) -> PR {
    let (c, r) = p_at(i, raw_end(i, t, 0));
    parsed(i, EvV::Raw(c), ModeV::Data, r)
}

pub open spec fn s_parse(m: ModeV, i: InputV) -> PR {
    match m { ModeV::Data => s_in_data(i), ModeV::Raw(t) => s_raw(i, t) }
}

/// the whole state of the parser
pub struct StateV { pub r: InputV, pub m: ModeV, pub st: Seq<(Seq<char>, LocV)>, pub limit: Option<nat> }

pub open spec fn at_end(s: StateV) -> StateV { StateV { r: adv(s.r, s.r.s.len() as int), ..s } }

/// the end of the input stays the end
pub proof fn lemma_at_end(s: StateV)
    requires inp_wf(s.r),
    ensures inp_wf(at_end(s).r), at_end(s).r.s.len() == 0,
{
    lemma_adv_wf(s.r, s.r.s.len() as int);
}

/// the next result and the state after it
pub open spec fn s_next(s: StateV) -> (Option<Result<EvV, ErrV>>, StateV) {
    if s.r.s.len() == 0 {
        if s.st.len() == 0 { (None, s) }
        else { (Some(Err(ErrV::MissingClosingTags(s.st.last(), s.st.drop_last()))), StateV { st: s.st.drop_last(), ..s }) }
    } else {
        match s_parse(s.m, s.r) {
            Err(e) => (Some(Err(e)), at_end(s)),
            Ok(p) => match p.e {
                EvV::Open(t, _) => if s.limit == Some(s.st.len()) { (Some(Err(ErrV::StackLimitExceeded(p.l, t, s.st.len()))), at_end(s)) }
                    else { (Some(Ok(p.e)), StateV { r: p.r, m: p.m, st: s.st.push((t, p.l)), ..s }) },
                EvV::Close(t) => if s.st.len() == 0 { (Some(Err(ErrV::UnexpectedClosingTag(p.l, t))), at_end(s)) }
                    else if !name_eq(t, s.st.last().0) { (Some(Err(ErrV::MismatchedClosingTag(s.st.last(), (t, p.l)))), at_end(StateV { st: s.st.drop_last(), ..s })) }
                    else { (Some(Ok(p.e)), StateV { r: p.r, m: p.m, st: s.st.drop_last(), ..s }) },
                _ => (Some(Ok(p.e)), StateV { r: p.r, m: p.m, ..s }),
            },
        }
    }
}

pub open spec fn mode_rank(m: ModeV) -> int { match m { ModeV::Data => 0, ModeV::Raw(_) => 1 } }

/// C05: every step makes progress
pub proof fn lemma_parse_progress(m: ModeV, i: InputV)
    requires inp_wf(i), i.s.len() > 0,
    ensures
        match s_parse(m, i) {
            Ok(p) => inp_wf(p.r) && p.r.s.len() <= i.s.len() && p.l == i.l && (m is Data ==> p.r.s.len() < i.s.len()) && (m is Raw ==> p.m is Data),
            Err(_) => true,
        },
{
    match m {
        ModeV::Data => { lemma_in_data(i); },
        ModeV::Raw(t) => { lemma_raw_end(i, t, 0); lemma_adv_wf(i, raw_end(i, t, 0)); },
    }
}

/// the rest of a successful parse is shorter
pub open spec fn shorter(x: Option<PR>, i: InputV) -> bool {
    match x { Some(Ok(p)) => inp_wf(p.r) && p.r.s.len() < i.s.len() && p.l == i.l && inp_wf(i), _ => true }
}
pub proof fn lemma_char(i: InputV, c: char)
    requires inp_wf(i),
    ensures match p_char(i, c) { Some(r) => inp_wf(r) && r.s.len() == i.s.len() - 1, None => true },
{
    if i.s.len() > 0 { lemma_adv_wf(i, 1); }
}
pub proof fn lemma_ws(i: InputV)
    requires inp_wf(i),
    ensures inp_wf(ws(i)), ws(i).s.len() <= i.s.len(),
{
    lemma_ws_len(i.s);
    lemma_adv_wf(i, ws_len(i.s));
}
pub proof fn lemma_ident(i: InputV)
    requires inp_wf(i),
    ensures match p_ident(i) { Ok(Some((w, r))) => inp_wf(r) && r.s.len() < i.s.len(), _ => true },
{
    lemma_idx_set(i.s, term_chars());
    lemma_adv_wf(i, wlen(i.s));
}
pub proof fn lemma_until(i: InputV, c: char)
    requires inp_wf(i),
    ensures match p_until_char(i, c) { Some((w, r)) => inp_wf(r) && 0 < r.s.len() <= i.s.len() && r.s[0] == c && inp_wf(adv(r, 1)), _ => true },
{
    let k = idx_set(i.s, seq![c]);
    lemma_idx_set(i.s, seq![c]);
    if k < i.s.len() {
        lemma_adv_wf(i, k);
        lemma_adv_wf(adv(i, k), 1);
        assert(seq![c].contains(i.s[k]));
        let j = choose|j: int| 0 <= j < seq![c].len() && seq![c][j] == i.s[k];
    }
}
pub proof fn lemma_tag_close(i: InputV)
    requires inp_wf(i),
    ensures shorter(s_tag_close(i), i),
{
    reveal(s_tag_close);
    lemma_char(i, '<');
    if let Some(a) = p_char(i, '<') {
        lemma_ws(a); lemma_char(ws(a), '/');
        if let Some(b) = p_char(ws(a), '/') {
            lemma_ws(b); lemma_ident(ws(b));
            if let Ok(Some((n, d))) = p_ident(ws(b)) { lemma_ws(d); lemma_char(ws(d), '>'); }
        }
    }
}
pub proof fn lemma_attr(tag: Seq<char>, i: InputV)
    requires inp_wf(i),
    ensures match s_attr(tag, i) { Ok(Some((a, r))) => inp_wf(r) && r.s.len() < i.s.len(), _ => true },
{
    reveal(s_attr);
    lemma_ident(i);
    if let Ok(Some((n, a))) = p_ident(i) {
        lemma_ws(a); lemma_char(ws(a), '=');
        if let Some(b) = p_char(ws(a), '=') {
            lemma_ws(b); lemma_char(ws(b), '"');
            if let Some(d) = p_char(ws(b), '"') { lemma_until(d, '"'); }
        }
    }
}
pub proof fn lemma_attrs(tag: Seq<char>, i: InputV)
    requires inp_wf(i),
    ensures match s_attrs(tag, i) { Ok((a, r)) => inp_wf(r) && r.s.len() <= i.s.len(), _ => true },
    decreases i.s.len(),
{
    lemma_s_attrs(tag, i);
    if i.s.len() > 0 {
        lemma_attr(tag, i);
        if let Ok(Some((a, r))) = s_attr(tag, i) { lemma_ws(r); lemma_attrs(tag, ws(r)); }
    }
}
pub proof fn lemma_tag_open(i: InputV)
    requires inp_wf(i),
    ensures shorter(s_tag_open(i), i),
{
    reveal(s_tag_open);
    lemma_char(i, '<');
    if let Some(a) = p_char(i, '<') {
        lemma_ws(a); lemma_ident(ws(a));
        if let Ok(Some((n, c))) = p_ident(ws(a)) {
            lemma_ws(c); lemma_ws(ws(c)); lemma_attrs(n, ws(ws(c)));
            if let Ok((at, d)) = s_attrs(n, ws(ws(c))) {
                lemma_ws(d); lemma_char(ws(d), '/');
                if let Some(x) = p_char(ws(d), '/') { lemma_ws(x); lemma_char(ws(x), '>'); }
                lemma_char(ws(d), '>');
            }
        }
    }
}
pub proof fn lemma_comment(i: InputV)
    requires inp_wf(i),
    ensures shorter(s_comment(i), i),
{
    reveal(s_comment);
    if let Some(a) = p_str(i, comment_open()) {
        lemma_adv_wf(i, 4);
        let k = idx_str(a.s, comment_close());
        lemma_idx_str(a.s, comment_close());
        if k >= 0 { lemma_adv_wf(a, k); lemma_adv_wf(adv(a, k), 3); }
    }
}
pub proof fn lemma_doctype(i: InputV)
    requires inp_wf(i),
    ensures shorter(s_doctype(i), i),
{
    reveal(s_doctype);
    if let Some(a) = p_str(i, decl_open()) {
        lemma_adv_wf(i, 2);
        lemma_ws(a); lemma_idx_set(ws(a).s, term_chars()); lemma_adv_wf(ws(a), wlen(ws(a).s));
        if let Some((_, b)) = p_exact(ws(a), doctype_name()) { lemma_ws(b); lemma_until(ws(b), '>'); }
    }
}
pub proof fn lemma_data(i: InputV)
    requires inp_wf(i),
    ensures shorter(s_data(i), i),
{
    reveal(s_data);
    lemma_idx_set(i.s, seq!['<']);
    lemma_adv_wf(i, idx_set(i.s, seq!['<']));
    lemma_adv_wf(i, i.s.len() as int);
}
pub proof fn lemma_in_data(i: InputV)
    requires inp_wf(i),
    ensures shorter(Some(s_in_data(i)), i),
{
    reveal(s_in_data);
    lemma_comment(i); lemma_doctype(i); lemma_tag_close(i); lemma_tag_open(i); lemma_data(i);
}

/// everything the parser produces from a state
#[verifier::opaque]
pub open spec fn s_run(s: StateV) -> Seq<Result<EvV, ErrV>>
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    let (x, t) = s_next(s);
    match x {
        None => Seq::empty(),
        Some(x) => if t.r.s.len() < s.r.s.len() || (t.r.s.len() == s.r.s.len() && (mode_rank(t.m) < mode_rank(s.m) || (mode_rank(t.m) == mode_rank(s.m) && t.st.len() < s.st.len())))
            { cons(x, s_run(t)) } else { Seq::empty() },
    }
}
pub proof fn lemma_s_run(s: StateV)
    requires inp_wf(s.r),
    ensures
        inp_wf(s_next(s).1.r),
        match s_next(s).0 {
            None => s_run(s).len() == 0 && s_next(s).1 == s,
            Some(x) => s_run(s) == cons(x, s_run(s_next(s).1)) && s_run(s).len() > 0 && s_run(s)[0] == x && s_run(s).skip(1) == s_run(s_next(s).1),
        },
{
    reveal(s_run);
    reveal(cons);
    if s.r.s.len() > 0 {
        lemma_parse_progress(s.m, s.r);
        lemma_adv_wf(s.r, s.r.s.len() as int);
    }
    if let Some(x) = s_next(s).0 {
        assert(cons(x, s_run(s_next(s).1)).skip(1) =~= s_run(s_next(s).1));
    }
}

// ------------------------------------------------------------------ nesting and limits

/// the open elements after the event, innermost last; none if the event closes something else
pub open spec fn nest_step(st: Seq<Seq<char>>, e: EvV) -> Option<Seq<Seq<char>>> {
    match e {
        EvV::Open(t, _) => Some(st.push(t)),
        EvV::Close(t) => if st.len() > 0 && name_eq(t, st.last()) { Some(st.drop_last()) } else { None },
        _ => Some(st),
    }
}
pub open spec fn nest(st: Seq<Seq<char>>, es: Seq<EvV>) -> Option<Seq<Seq<char>>>
    decreases es.len(),
{
    if es.len() == 0 { Some(st) } else { match nest_step(st, es[0]) { None => None, Some(t) => nest(t, es.skip(1)) } }
}
/// every opening tag is closed by a matching closing tag, last opened first closed
pub open spec fn balanced(es: Seq<EvV>) -> bool { nest(Seq::empty(), es) == Some(Seq::<Seq<char>>::empty()) }

pub open spec fn names(st: Seq<(Seq<char>, LocV)>) -> Seq<Seq<char>> { Seq::new(st.len(), |i: int| st[i].0) }
pub open spec fn all_ok(rs: Seq<Result<EvV, ErrV>>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]) is Ok }
pub open spec fn oks(rs: Seq<Result<EvV, ErrV>>) -> Seq<EvV> { Seq::new(rs.len(), |i: int| rs[i]->Ok_0) }

/// C07: what parses without an error is balanced
pub proof fn lemma_run_balanced(s: StateV)
    requires inp_wf(s.r), all_ok(s_run(s)),
    ensures nest(names(s.st), oks(s_run(s))) == Some(Seq::<Seq<char>>::empty()),
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    lemma_s_run(s);
    let (x, t) = s_next(s);
    match x {
        None => { assert(names(s.st) =~= Seq::empty()); },
        Some(x) => {
            let run = s_run(s);
            assert(run[0] == x);
            lemma_parse_progress(s.m, s.r);
            assert forall|i: int| 0 <= i < s_run(t).len() implies (#[trigger] s_run(t)[i]) is Ok by { assert(run.skip(1)[i] == run[i + 1]); }
            lemma_run_balanced(t);
            assert(oks(run).skip(1) =~= oks(s_run(t))) by { assert forall|i: int| 0 <= i < s_run(t).len() implies run[i + 1] == s_run(t)[i] by { assert(run.skip(1)[i] == run[i + 1]); } }
            assert(oks(run)[0] == x->Ok_0);
            match x->Ok_0 {
                EvV::Open(n, _) => { assert(names(t.st) =~= names(s.st).push(n)); },
                EvV::Close(n) => { assert(names(t.st) =~= names(s.st).drop_last()); assert(names(s.st).last() == s.st.last().0); },
                _ => { assert(names(t.st) =~= names(s.st)); },
            }
        },
    }
}

// ------------------------------------------------------------------ what keeps events balanced

/// the open elements after events and more events
pub proof fn lemma_nest_cat(st: Seq<Seq<char>>, a: Seq<EvV>, b: Seq<EvV>)
    ensures nest(st, a + b) == match nest(st, a) { None => None, Some(t) => nest(t, b) },
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b)[0] == a[0]);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        match nest_step(st, a[0]) { None => { }, Some(t) => lemma_nest_cat(t, a.skip(1), b) }
    }
}
pub proof fn lemma_nest_one(st: Seq<Seq<char>>, e: EvV)
    ensures nest(st, seq![e]) == nest_step(st, e),
{
    assert(seq![e].skip(1) =~= Seq::<EvV>::empty());
    match nest_step(st, e) { None => { }, Some(t) => { assert(nest(t, seq![e].skip(1)) == Some(t)); } }
}
pub proof fn lemma_nest_push(st: Seq<Seq<char>>, es: Seq<EvV>, e: EvV)
    ensures nest(st, es.push(e)) == match nest(st, es) { None => None, Some(t) => nest_step(t, e) },
{
    lemma_nest_cat(st, es, seq![e]);
    assert(es.push(e) =~= es + seq![e]);
    match nest(st, es) { None => { }, Some(t) => lemma_nest_one(t, e) }
}
/// what nests by itself nests within open elements, which stay open
pub proof fn lemma_nest_under(p: Seq<Seq<char>>, st: Seq<Seq<char>>, es: Seq<EvV>)
    requires nest(st, es) is Some,
    ensures nest(p + st, es) == Some(p + nest(st, es)->Some_0),
    decreases es.len(),
{
    if es.len() > 0 {
        let t = nest_step(st, es[0])->Some_0;
        match es[0] {
            EvV::Open(n, _) => { assert((p + st).push(n) =~= p + st.push(n)); },
            EvV::Close(n) => { assert((p + st).last() == st.last()); assert((p + st).drop_last() =~= p + st.drop_last()); },
            _ => { },
        }
        lemma_nest_under(p, t, es.skip(1));
    }
}
pub proof fn lemma_balanced_within(st: Seq<Seq<char>>, es: Seq<EvV>)
    requires balanced(es),
    ensures nest(st, es) == Some(st),
{ lemma_nest_under(st, Seq::empty(), es); assert(st + Seq::<Seq<char>>::empty() =~= st); }
/// one after the other
pub proof fn lemma_balanced_cat(a: Seq<EvV>, b: Seq<EvV>)
    requires balanced(a), balanced(b),
    ensures balanced(a + b),
{ lemma_nest_cat(Seq::empty(), a, b); }
/// something balanced put in anywhere
pub proof fn lemma_balanced_inserted(a: Seq<EvV>, m: Seq<EvV>, b: Seq<EvV>)
    requires balanced(a + b), balanced(m),
    ensures balanced(a + m + b),
{
    lemma_nest_cat(Seq::empty(), a, b);
    let t = nest(Seq::empty(), a)->Some_0;
    lemma_balanced_within(t, m);
    lemma_nest_cat(Seq::empty(), a, m);
    lemma_nest_cat(Seq::empty(), a + m, b);
}
/// something balanced taken out
pub proof fn lemma_balanced_without(a: Seq<EvV>, m: Seq<EvV>, b: Seq<EvV>)
    requires balanced(a + m + b), balanced(m),
    ensures balanced(a + b),
{
    lemma_nest_cat(Seq::empty(), a, m);
    lemma_nest_cat(Seq::empty(), a + m, b);
    let t = nest(Seq::empty(), a)->Some_0;
    lemma_balanced_within(t, m);
    lemma_nest_cat(Seq::empty(), a, b);
}
/// something balanced between an opening tag and its closing tag
pub proof fn lemma_balanced_wrapped(o: EvV, es: Seq<EvV>, c: EvV)
    requires o is Open, c is Close, name_eq(c->Close_0, o->Open_0), balanced(es),
    ensures balanced(seq![o] + es + seq![c]),
{
    let st = seq![o->Open_0];
    let none = Seq::<Seq<char>>::empty();
    assert(none.push(o->Open_0) =~= st);
    lemma_nest_one(none, o);
    lemma_nest_cat(none, seq![o], es);
    lemma_balanced_within(st, es);
    lemma_nest_cat(none, seq![o] + es, seq![c]);
    lemma_nest_one(st, c);
    assert(st.drop_last() =~= none);
}
/// a tag that is neither opening nor closing, text, a comment, a doctype
pub proof fn lemma_balanced_single(e: EvV)
    requires !(e is Open), !(e is Close),
    ensures balanced(seq![e]),
{ lemma_nest_one(Seq::empty(), e); }
/// the attributes of a tag do not matter
pub proof fn lemma_nest_first(st: Seq<Seq<char>>, a: Seq<EvV>, b: Seq<EvV>)
    requires a.len() > 0, b.len() > 0, a.skip(1) == b.skip(1), nest_step(st, a[0]) == nest_step(st, b[0]),
    ensures nest(st, a) == nest(st, b),
{ }

/// index of the first opening tag with `d` elements already open, when `n` are open at the start
pub open spec fn first_over(rs: Seq<Result<EvV, ErrV>>, n: int, d: int) -> Option<int>
    decreases rs.len(),
{
    if rs.len() == 0 { None } else {
        match rs[0] {
            Ok(EvV::Open(_, _)) => if n == d { Some(0int) } else { match first_over(rs.skip(1), n + 1, d) { Some(k) => Some(k + 1), None => None } },
            Ok(EvV::Close(_)) => match first_over(rs.skip(1), n - 1, d) { Some(k) => Some(k + 1), None => None },
            Ok(_) => match first_over(rs.skip(1), n, d) { Some(k) => Some(k + 1), None => None },
            Err(_) => None,
        }
    }
}
/// the first error of a run, or all of its events
pub open spec fn verdict(rs: Seq<Result<EvV, ErrV>>) -> Result<Seq<EvV>, ErrV>
    decreases rs.len(),
{
    if rs.len() == 0 { Ok(Seq::empty()) } else {
        match rs[0] { Err(e) => Err(e), Ok(x) => match verdict(rs.skip(1)) { Err(e) => Err(e), Ok(y) => Ok(cons(x, y)) } }
    }
}
/// C08: a depth limit of `d` rejects exactly what has an opening tag with `d` elements open before
/// the first error it would have anyway, with that limit, and changes nothing else
pub proof fn lemma_depth_limit(s: StateV, d: nat)
    requires inp_wf(s.r), s.limit is None, s.st.len() <= d,
    ensures
        match first_over(s_run(s), s.st.len() as int, d as int) {
            None => verdict(s_run(StateV { limit: Some(d), ..s })) == verdict(s_run(s)),
            Some(k) => match verdict(s_run(StateV { limit: Some(d), ..s })) { Err(ErrV::StackLimitExceeded(_, _, n)) => n == d, _ => false },
        },
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    let s2 = StateV { limit: Some(d), ..s };
    lemma_s_run(s); lemma_s_run(s2);
    let (x, t) = s_next(s);
    let (x2, t2) = s_next(s2);
    match x {
        None => { },
        Some(Err(e)) => { },
        Some(Ok(e)) => {
            lemma_parse_progress(s.m, s.r);
            match e {
                EvV::Open(n, _) if s.st.len() == d => {
                    let p = s_parse(s.m, s.r)->Ok_0;
                    assert(s_run(s2)[0] == Err::<EvV, ErrV>(ErrV::StackLimitExceeded(p.l, n, d)));
                    assert(verdict(s_run(s2)) == Err::<Seq<EvV>, ErrV>(ErrV::StackLimitExceeded(p.l, n, d)));
                },
                _ => {
                    assert(t2 == (StateV { limit: Some(d), ..t }));
                    lemma_depth_limit(t, d);
                },
            }
        },
    }
}
/// C07, C08: what a run without an error means
pub proof fn lemma_verdict(rs: Seq<Result<EvV, ErrV>>)
    ensures
        verdict(rs) is Ok <==> all_ok(rs),
        all_ok(rs) ==> verdict(rs) == Ok::<Seq<EvV>, ErrV>(oks(rs)),
    decreases rs.len(),
{
    if rs.len() > 0 {
        let t = rs.skip(1);
        lemma_verdict(t);
        reveal(cons);
        if rs[0] is Ok {
            if all_ok(t) {
                assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]) is Ok by { if i > 0 { assert(t[i - 1] == rs[i]); } }
                assert(verdict(rs)->Ok_0 =~= oks(rs));
            }
            if all_ok(rs) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Ok by { assert(t[i] == rs[i + 1]); } }
        }
    } else { assert(oks(rs) =~= Seq::empty()); }
}

/// the first error decides
pub proof fn lemma_verdict_err(rs: Seq<Result<EvV, ErrV>>, k: int)
    requires 0 <= k < rs.len(), rs[k] is Err, forall|j: int| 0 <= j < k ==> (#[trigger] rs[j]) is Ok,
    ensures verdict(rs) == Err::<Seq<EvV>, ErrV>(rs[k]->Err_0),
    decreases rs.len(),
{
    if k > 0 {
        let t = rs.skip(1);
        assert(t[k - 1] == rs[k]);
        assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] t[j]) is Ok by { assert(t[j] == rs[j + 1]); }
        lemma_verdict_err(t, k - 1);
    }
}

// ------------------------------------------------------------------ reported locations

/// `r` is the rest of `i` after some of its characters
pub open spec fn sub(i: InputV, r: InputV) -> bool { exists|k: int| 0 <= k <= i.s.len() && r == #[trigger] adv(i, k) }
/// `l` is the location of one of the positions in `i`
pub open spec fn reach(i: InputV, l: LocV) -> bool { exists|k: int| 0 <= k <= i.s.len() && l == (#[trigger] adv(i, k)).l }

pub broadcast proof fn lemma_sub_trans(i: InputV, a: InputV, b: InputV)
    requires #[trigger] sub(i, a), #[trigger] sub(a, b),
    ensures sub(i, b),
{
    let j = choose|j: int| 0 <= j <= i.s.len() && a == #[trigger] adv(i, j);
    let k = choose|k: int| 0 <= k <= a.s.len() && b == #[trigger] adv(a, k);
    lemma_adv_adv(i, j, k);
    assert(b == adv(i, j + k));
}
pub broadcast proof fn lemma_sub_reach(i: InputV, a: InputV, l: LocV)
    requires #[trigger] sub(i, a), #[trigger] reach(a, l),
    ensures reach(i, l),
{
    let k = choose|k: int| 0 <= k <= a.s.len() && l == (#[trigger] adv(a, k)).l;
    assert(sub(a, adv(a, k)));
    lemma_sub_trans(i, a, adv(a, k));
    let m = choose|m: int| 0 <= m <= i.s.len() && adv(a, k) == #[trigger] adv(i, m);
}
pub proof fn lemma_reach_0(i: InputV)
    ensures reach(i, i.l), sub(i, i),
{
    lemma_adv_0(i);
    assert(adv(i, 0) == i);
}
/// the location of every sub-input is reached
pub proof fn lemma_sub_l(i: InputV, a: InputV)
    requires sub(i, a),
    ensures reach(i, a.l),
{
    let k = choose|k: int| 0 <= k <= i.s.len() && a == #[trigger] adv(i, k);
}
pub proof fn lemma_sub_adv(i: InputV, k: int)
    requires 0 <= k <= i.s.len(),
    ensures sub(i, adv(i, k)),
{}
pub proof fn lemma_sub_ws(i: InputV)
    ensures sub(i, ws(i)),
{ lemma_ws_len(i.s); lemma_sub_adv(i, ws_len(i.s)); }
pub proof fn lemma_sub_char(i: InputV, c: char)
    ensures match p_char(i, c) { Some(r) => sub(i, r), None => true },
{ if i.s.len() > 0 { lemma_sub_adv(i, 1); } }
pub proof fn lemma_sub_ident(i: InputV)
    ensures match p_ident(i) { Ok(Some((w, r))) => sub(i, r), _ => true },
{ lemma_idx_set(i.s, term_chars()); lemma_sub_adv(i, wlen(i.s)); }
pub proof fn lemma_sub_until(i: InputV, c: char)
    ensures match p_until_char(i, c) { Some((w, r)) => sub(i, r) && r.s.len() > 0 && sub(i, adv(r, 1)), None => true },
{
    lemma_p_until_char(i, c);
    lemma_idx_set(i.s, seq![c]);
    let k = idx_set(i.s, seq![c]);
    if k < i.s.len() { lemma_sub_adv(i, k); lemma_sub_adv(adv(i, k), 1); lemma_sub_trans(i, adv(i, k), adv(adv(i, k), 1)); }
}

pub open spec fn pair_at(i: InputV, e: (Seq<char>, LocV)) -> bool { reach(i, e.1) }
pub open spec fn pairs_at(i: InputV, st: Seq<(Seq<char>, LocV)>) -> bool { forall|j: int| 0 <= j < st.len() ==> reach(i, (#[trigger] st[j]).1) }

/// every location in the error is one of a position in `i`
pub open spec fn err_at(i: InputV, e: ErrV) -> bool {
    match e {
        ErrV::UnsupportedDoctype(l, _) => reach(i, l),
        ErrV::UnclosedDoctype(l) => reach(i, l),
        ErrV::UnclosedComment(l) => reach(i, l),
        ErrV::ExpectedOpeningTagClose(l, _) => reach(i, l),
        ErrV::ExpectedClosingTagClose(l, _) => reach(i, l),
        ErrV::ExpectedOpeningTagIdentifier(l) => reach(i, l),
        ErrV::InvalidOpeningTagIdentifier(l, _) => reach(i, l),
        ErrV::ExpectedClosingTagIdentifier(l) => reach(i, l),
        ErrV::InvalidClosingTagIdentifier(l, _) => reach(i, l),
        ErrV::InvalidAttributeIdentifier(l, _) => reach(i, l),
        ErrV::InvalidAttributeValue(l, _, _) => reach(i, l),
        ErrV::UnclosedAttributeValue(l, _, _) => reach(i, l),
        ErrV::UnexpectedInput(l) => reach(i, l),
        ErrV::MissingClosingTags(a, st) => pair_at(i, a) && pairs_at(i, st),
        ErrV::StackLimitExceeded(l, _, _) => reach(i, l),
        ErrV::UnexpectedClosingTag(l, _) => reach(i, l),
        ErrV::MismatchedClosingTag(a, b) => pair_at(i, a) && pair_at(i, b),
    }
}
pub proof fn lemma_err_sub(i: InputV, a: InputV, e: ErrV)
    requires sub(i, a), err_at(a, e),
    ensures err_at(i, e),
{
    broadcast use lemma_sub_reach;
    assert(forall|l: LocV| reach(a, l) ==> #[trigger] reach(i, l));
}
pub open spec fn pr_at(i: InputV, x: PR) -> bool { match x { Ok(p) => sub(i, p.r) && p.l == i.l, Err(e) => err_at(i, e) } }
pub open spec fn opr_at(i: InputV, x: Option<PR>) -> bool { match x { Some(x) => pr_at(i, x), None => true } }

pub proof fn lemma_at_tag_close(i: InputV)
    ensures opr_at(i, s_tag_close(i)),
{
    reveal(s_tag_close);
    broadcast use lemma_sub_trans;
    lemma_sub_char(i, '<');
    if let Some(a) = p_char(i, '<') {
        lemma_sub_ws(a); lemma_sub_char(ws(a), '/');
        if let Some(b) = p_char(ws(a), '/') {
            let c = ws(b);
            lemma_sub_ws(b); lemma_sub_ident(c); lemma_sub_l(i, c);
            if let Ok(Some((n, d))) = p_ident(c) { lemma_sub_ws(d); lemma_sub_l(i, ws(d)); lemma_sub_char(ws(d), '>'); }
        }
    }
}
pub proof fn lemma_at_attr(tag: Seq<char>, i: InputV)
    ensures match s_attr(tag, i) { Ok(Some((a, r))) => sub(i, r), Ok(None) => true, Err(e) => err_at(i, e) },
{
    reveal(s_attr);
    broadcast use lemma_sub_trans;
    lemma_reach_0(i);
    lemma_sub_ident(i);
    if let Ok(Some((n, a))) = p_ident(i) {
        lemma_sub_ws(a); lemma_sub_char(ws(a), '=');
        if let Some(b) = p_char(ws(a), '=') {
            let c = ws(b);
            lemma_sub_ws(b); lemma_sub_l(i, c); lemma_sub_char(c, '"');
            if let Some(d) = p_char(c, '"') { lemma_sub_until(d, '"'); }
        }
    }
}
pub proof fn lemma_at_attrs(tag: Seq<char>, i: InputV)
    requires inp_wf(i),
    ensures match s_attrs(tag, i) { Ok((a, r)) => sub(i, r), Err(e) => err_at(i, e) },
    decreases i.s.len(),
{
    broadcast use lemma_sub_trans;
    lemma_s_attrs(tag, i);
    lemma_reach_0(i);
    if i.s.len() > 0 {
        lemma_at_attr(tag, i); lemma_attr(tag, i);
        if let Ok(Some((a, r))) = s_attr(tag, i) {
            lemma_ws(r); lemma_sub_ws(r); lemma_at_attrs(tag, ws(r));
            if let Err(e) = s_attrs(tag, ws(r)) { lemma_err_sub(i, ws(r), e); }
        }
    }
}
/// the end of an opening tag after its attributes
pub proof fn lemma_at_tag_end(i: InputV, d: InputV)
    requires sub(i, d),
    ensures ({
        let e = ws(d);
        let f = match p_char(e, '/') { Some(x) => ws(x), None => e };
        sub(i, f) && reach(i, f.l) && match p_char(f, '>') { Some(r) => sub(i, r), None => true }
    }),
{
    let e = ws(d);
    lemma_sub_ws(d); lemma_sub_trans(i, d, e);
    lemma_sub_char(e, '/');
    if let Some(x) = p_char(e, '/') { lemma_sub_trans(i, e, x); lemma_sub_ws(x); lemma_sub_trans(i, x, ws(x)); }
    let f = match p_char(e, '/') { Some(x) => ws(x), None => e };
    lemma_sub_l(i, f); lemma_sub_char(f, '>');
    if let Some(r) = p_char(f, '>') { lemma_sub_trans(i, f, r); }
}
pub proof fn lemma_at_tag_open(i: InputV)
    requires inp_wf(i),
    ensures opr_at(i, s_tag_open(i)),
{
    reveal(s_tag_open);
    lemma_char(i, '<'); lemma_sub_char(i, '<');
    if let Some(a) = p_char(i, '<') {
        let b = ws(a);
        lemma_ws(a); lemma_sub_ws(a); lemma_sub_trans(i, a, b); lemma_ident(b); lemma_sub_ident(b); lemma_sub_l(i, b);
        if let Ok(Some((n, c))) = p_ident(b) {
            let e = ws(ws(c));
            lemma_sub_trans(i, b, c);
            lemma_ws(c); lemma_ws(ws(c)); lemma_sub_ws(c); lemma_sub_trans(i, c, ws(c)); lemma_sub_ws(ws(c)); lemma_sub_trans(i, ws(c), e);
            lemma_at_attrs(n, e);
            match s_attrs(n, e) {
                Err(x) => { lemma_err_sub(i, e, x); },
                Ok((at, d)) => { lemma_sub_trans(i, e, d); lemma_at_tag_end(i, d); },
            }
        }
    }
}
pub proof fn lemma_at_comment(i: InputV)
    ensures opr_at(i, s_comment(i)),
{
    reveal(s_comment);
    broadcast use lemma_sub_trans;
    lemma_reach_0(i);
    if let Some(a) = p_str(i, comment_open()) {
        lemma_sub_adv(i, 4);
        let k = idx_str(a.s, comment_close());
        lemma_idx_str(a.s, comment_close());
        if k >= 0 { lemma_sub_adv(a, k); lemma_sub_adv(adv(a, k), 3); }
    }
}
pub proof fn lemma_at_doctype(i: InputV)
    ensures opr_at(i, s_doctype(i)),
{
    reveal(s_doctype);
    lemma_reach_0(i);
    if let Some(a) = p_str(i, decl_open()) {
        let a1 = ws(a);
        lemma_sub_adv(i, 2);
        lemma_sub_ws(a); lemma_sub_trans(i, a, a1);
        lemma_idx_set(a1.s, term_chars()); lemma_sub_adv(a1, wlen(a1.s));
        if let Some((_, b)) = p_exact(a1, doctype_name()) {
            lemma_sub_trans(i, a1, b);
            lemma_sub_ws(b); lemma_sub_trans(i, b, ws(b)); lemma_sub_until(ws(b), '>');
            if let Some((c, d)) = p_until_char(ws(b), '>') { lemma_sub_trans(i, ws(b), d); lemma_sub_trans(i, ws(b), adv(d, 1)); lemma_sub_trans(i, d, adv(d, 1)); }
        }
    }
}
pub proof fn lemma_at_data(i: InputV)
    ensures opr_at(i, s_data(i)),
{
    reveal(s_data);
    lemma_idx_set(i.s, seq!['<']);
    lemma_sub_adv(i, idx_set(i.s, seq!['<']));
    lemma_sub_adv(i, i.s.len() as int);
}
pub proof fn lemma_at_parse(m: ModeV, i: InputV)
    requires inp_wf(i),
    ensures pr_at(i, s_parse(m, i)),
{
    reveal(s_in_data);
    match m {
        ModeV::Data => {
            lemma_reach_0(i);
            lemma_at_comment(i); lemma_at_doctype(i); lemma_at_tag_close(i); lemma_at_tag_open(i); lemma_at_data(i);
        },
        ModeV::Raw(t) => { lemma_raw_end(i, t, 0); lemma_sub_adv(i, raw_end(i, t, 0)); },
    }
}
/// C04: every location an error reports is exactly the location of a position in the parsed text
pub proof fn lemma_run_locations(i: InputV, s: StateV)
    requires inp_wf(s.r), sub(i, s.r), pairs_at(i, s.st),
    ensures forall|j: int| 0 <= j < s_run(s).len() ==> match #[trigger] s_run(s)[j] { Err(e) => err_at(i, e), Ok(_) => true },
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    broadcast use lemma_sub_trans;
    lemma_s_run(s);
    let (x, t) = s_next(s);
    if let Some(x) = x {
        if s.r.s.len() > 0 { lemma_parse_progress(s.m, s.r); }
        lemma_at_parse(s.m, s.r);
        lemma_sub_adv(s.r, s.r.s.len() as int);
        lemma_sub_l(i, s.r);
        if s.r.s.len() > 0 { if let Err(e) = s_parse(s.m, s.r) { lemma_err_sub(i, s.r, e); } }
        else { assert(reach(i, s.st[s.st.len() - 1].1)); }
        if s.r.s.len() > 0 && s.st.len() > 0 { assert(reach(i, s.st[s.st.len() - 1].1)); }
        assert(sub(i, t.r));
        assert(pairs_at(i, t.st));
        lemma_run_locations(i, t);
        assert forall|j: int| 0 <= j < s_run(s).len() implies match #[trigger] s_run(s)[j] { Err(e) => err_at(i, e), Ok(_) => true } by {
            if j > 0 { assert(s_run(s).skip(1)[j - 1] == s_run(s)[j]); }
        }
    }
}

} // verus!
}
