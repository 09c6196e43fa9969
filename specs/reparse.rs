/// What is rendered parses again to the same events.
pub mod reparse {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::markup::*;
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {

// ------------------------------------------------------------------ events the parser can produce

/// no character of `cs` in `s`
pub open spec fn free(s: Seq<char>, cs: Seq<char>) -> bool { idx_set(s, cs) == s.len() }
pub open spec fn name_ok(n: Seq<char>) -> bool { n.len() > 0 && id_check(n) is None && free(n, term_chars()) }
pub open spec fn attr_ok(a: AttrV) -> bool { name_ok(a.name) && match a.value { Some(v) => free(v, seq!['"']), None => true } }
pub open spec fn tag_ok(t: Seq<char>, a: Seq<AttrV>) -> bool {
    name_ok(t) && t[0] != '!' && forall|i: int| 0 <= i < a.len() ==> attr_ok(#[trigger] a[i])
}
/// nothing in `c` closes `t`
pub open spec fn raw_ok(c: Seq<char>, t: Seq<char>) -> bool {
    forall|j: int| 0 <= j < c.len() ==> !#[trigger] is_end(InputV { s: c, l: loc_start() }, t, j)
}
pub open spec fn comment_ok(c: Seq<char>) -> bool { idx_str(c + comment_close(), comment_close()) == c.len() }
/// what comes next starts with `<`, if there is anything
pub open spec fn opens(es: Seq<EvV>) -> bool { es.len() == 0 || !(es[0] is Data || es[0] is Raw || es[0] is Noop) }

/// the event can be parsed from its rendering; the mode after it
pub open spec fn ev_ok(e: EvV) -> bool {
    match e {
        EvV::Data(c) => c.len() > 0 && free(c, seq!['<']),
        EvV::Comment(c) => comment_ok(c),
        EvV::Doctype(c) => name_eq(c, html_name()),
        EvV::Open(t, a) => tag_ok(t, a) && !is_void(t),
        EvV::SelfClosed(t, a) => tag_ok(t, a) && !is_void(t),
        EvV::Void(t, a) => tag_ok(t, a) && is_void(t),
        EvV::Close(t) => name_ok(t),
        EvV::Raw(_) => false,
        EvV::Noop => false,
    }
}
pub open spec fn mode_after(e: EvV) -> ModeV { match e { EvV::Open(t, _) => s_mode(t, false), _ => ModeV::Data } }

/// a sequence of events the parser can produce in the mode
pub open spec fn canon(m: ModeV, es: Seq<EvV>) -> bool
    decreases es.len(),
{
    es.len() == 0 || match m {
        ModeV::Raw(t) => raw_then_close(t, es) && canon(ModeV::Data, es.skip(1)),
        ModeV::Data => ev_ok(es[0]) && (es[0] is Data ==> opens(es.skip(1))) && canon(mode_after(es[0]), es.skip(1)),
    }
}
pub open spec fn raw_then_close(t: Seq<char>, es: Seq<EvV>) -> bool {
    es.len() >= 2 && (match es[0] { EvV::Raw(c) => raw_ok(c, t), _ => false }) && (match es[1] { EvV::Close(x) => name_ok(x) && name_eq(x, t), _ => false })
}

// ------------------------------------------------------------------ pieces of input

pub proof fn lemma_term(n: Seq<char>)
    requires free(n, term_chars()),
    ensures forall|i: int| 0 <= i < n.len() ==> !term_chars().contains(#[trigger] n[i]),
{
    lemma_idx_set(n, term_chars());
}
pub proof fn lemma_is_term(c: char)
    ensures term_chars().contains(c) == (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '>' || c == '<' || c == '"' || c == '/' || c == '=' || c == '\'' || c == '&'),
{
    let t = term_chars();
    assert(t[0] == ' ' && t[1] == '\t' && t[2] == '\r' && t[3] == '\n' && t[4] == '>' && t[5] == '<' && t[6] == '"' && t[7] == '/' && t[8] == '=' && t[9] == '\'' && t[10] == '&');
}
pub proof fn lemma_contains1(c: char, d: char)
    ensures seq![c].contains(d) == (c == d),
{
    assert(seq![c][0] == c);
}

/// no white space in front
pub proof fn lemma_ws0(i: InputV)
    requires i.s.len() > 0, !is_ws(i.s[0]),
    ensures ws(i) == i,
{
    lemma_adv_0(i);
}
pub proof fn lemma_ws_end(i: InputV)
    requires i.s.len() == 0,
    ensures ws(i) == i,
{
    lemma_adv_0(i);
}
/// one space in front
pub proof fn lemma_ws1(i: InputV)
    requires i.s.len() > 1, is_ws(i.s[0]), !is_ws(i.s[1]),
    ensures ws(i) == adv(i, 1),
{
    assert(i.s.skip(1)[0] == i.s[1]);
    assert(ws_len(i.s.skip(1)) == 0);
}

/// a name in front of a character that ends it
pub proof fn lemma_name_first(n: Seq<char>)
    requires name_ok(n),
    ensures !is_ws(n[0]), !term_chars().contains(n[0]),
{
    lemma_id_check_exact(n);
    lemma_term(n);
}
pub proof fn lemma_take_cat(i: InputV, n: Seq<char>, r: Seq<char>)
    requires i.s == n + r,
    ensures i.s.take(n.len() as int) == n, adv(i, n.len() as int).s == r, i.s.len() == n.len() + r.len(),
{
    assert(i.s.take(n.len() as int) =~= n);
    assert(i.s.skip(n.len() as int) =~= r);
}
pub proof fn lemma_p_name(i: InputV, n: Seq<char>, r: Seq<char>)
    requires name_ok(n), i.s == n + r, r.len() > 0, term_chars().contains(r[0]),
    ensures
        ws(i) == i,
        p_ident(i) == Ok::<Option<(Seq<char>, InputV)>, IdErrV>(Some((n, adv(i, n.len() as int)))),
        adv(i, n.len() as int).s == r,
{
    lemma_name_first(n);
    lemma_term(n);
    lemma_take_cat(i, n, r);
    assert(i.s[0] == n[0]);
    lemma_ws0(i);
    assert(i.s[n.len() as int] == r[0]);
    assert forall|k: int| 0 <= k < n.len() implies !term_chars().contains(#[trigger] i.s[k]) by { assert(i.s[k] == n[k]); }
    lemma_idx_set_is(i.s, term_chars(), n.len() as int);
}
/// nothing that could be a name
pub proof fn lemma_p_none(i: InputV)
    requires i.s.len() > 0, term_chars().contains(i.s[0]),
    ensures p_ident(i) == Ok::<Option<(Seq<char>, InputV)>, IdErrV>(None),
{
    lemma_idx_set_is(i.s, term_chars(), 0);
}

// ------------------------------------------------------------------ rendering, then parsing: one event

/// `</name>`
pub proof fn lemma_re_tag_close(i: InputV, t: Seq<char>, rest: Seq<char>)
    requires name_ok(t), i.s == ev_disp(EvV::Close(t)) + rest,
    ensures
        s_tag_close(i) matches Some(Ok(p)) && p.e == EvV::Close(t) && p.m == ModeV::Data && p.r.s == rest,
        i.s[0] == '<', i.s[1] == '/', i.s.len() > 1,
{
    reveal(s_tag_close);
    lemma_is_term('>');
    let a = adv(i, 1);
    assert(a.s =~= seq!['/'] + (t + (seq!['>'] + rest)));
    lemma_ws0(a);
    let b = adv(a, 1);
    let gr = seq!['>'] + rest;
    assert(b.s =~= t + gr);
    lemma_p_name(b, t, gr);
    let d = adv(b, t.len() as int);
    lemma_ws0(d);
    assert(adv(d, 1).s =~= rest);
}
pub proof fn lemma_no_comment(i: InputV)
    requires i.s.len() == 0 || i.s[0] != '<' || i.s.len() == 1 || i.s[1] != '!',
    ensures s_comment(i) is None, s_doctype(i) is None,
{
    reveal(s_comment); reveal(s_doctype);
    if starts(i.s, comment_open()) { assert(i.s.take(4)[0] == comment_open()[0] && i.s.take(4)[1] == comment_open()[1]); }
    if starts(i.s, decl_open()) { assert(i.s.take(2)[0] == decl_open()[0] && i.s.take(2)[1] == decl_open()[1]); }
}
pub proof fn lemma_re_close(i: InputV, t: Seq<char>, rest: Seq<char>)
    requires name_ok(t), i.s == ev_disp(EvV::Close(t)) + rest,
    ensures s_in_data(i) matches Ok(p) && p.e == EvV::Close(t) && p.m == ModeV::Data && p.r.s == rest,
{
    reveal(s_in_data);
    lemma_re_tag_close(i, t, rest);
    lemma_no_comment(i);
}

/// text up to the next `<`
pub proof fn lemma_re_data(i: InputV, c: Seq<char>, rest: Seq<char>)
    requires c.len() > 0, free(c, seq!['<']), i.s == c + rest, rest.len() > 0 ==> rest[0] == '<',
    ensures s_in_data(i) matches Ok(p) && p.e == EvV::Data(c) && p.m == ModeV::Data && p.r.s == rest,
{
    reveal(s_in_data); reveal(s_data); reveal(s_tag_close); reveal(s_tag_open);
    lemma_idx_set(c, seq!['<']);
    assert forall|k: int| 0 <= k < c.len() implies !seq!['<'].contains(#[trigger] i.s[k]) by { assert(i.s[k] == c[k]); }
    lemma_contains1('<', c[0]);
    assert(!seq!['<'].contains(c[0]));
    assert(i.s[0] == c[0]);
    lemma_no_comment(i);
    lemma_take_cat(i, c, rest);
    lemma_contains1('<', '<');
    if rest.len() > 0 { assert(i.s[c.len() as int] == rest[0]); }
    lemma_idx_set_is(i.s, seq!['<'], c.len() as int);
    if rest.len() == 0 { assert(i.s =~= c); }
}

pub proof fn lemma_re_comment(i: InputV, c: Seq<char>, rest: Seq<char>)
    requires comment_ok(c), i.s == ev_disp(EvV::Comment(c)) + rest,
    ensures s_in_data(i) matches Ok(p) && p.e == EvV::Comment(c) && p.m == ModeV::Data && p.r.s == rest,
{
    reveal(s_in_data); reveal(s_comment);
    let cc = comment_close();
    assert(i.s.take(4) =~= comment_open());
    let a = adv(i, 4);
    let w = c + cc;
    let n = c.len() as int;
    assert(a.s =~= w + rest);
    lemma_idx_str(w, cc);
    lemma_idx_str(a.s, cc);
    assert(w.skip(n) =~= cc);
    assert(a.s.skip(n).take(3) =~= cc);
    assert(starts(a.s.skip(n), cc));
    let k = idx_str(a.s, cc);
    if k < 0 { assert(!starts(a.s.skip(n), cc)); }
    if k > n { assert(!starts(a.s.skip(n), cc)); }
    if k < n {
        assert(starts(a.s.skip(k), cc));
        assert(w.skip(k).take(3) =~= a.s.skip(k).take(3));
        assert(!starts(w.skip(k), cc));
    }
    assert(k == n);
    assert(a.s.take(n) =~= c);
    let b = adv(a, n);
    assert(adv(b, 3).s =~= rest);
}

pub proof fn lemma_html(c: Seq<char>)
    requires name_eq(c, html_name()),
    ensures c.len() == 4, trim(c) == c, forall|k: int| 0 <= k < 4 ==> !is_ws(#[trigger] c[k]) && c[k] != '>' && c[k] != '<',
{
    let h = html_name();
    assert(h[0] == 'h' && h[1] == 't' && h[2] == 'm' && h[3] == 'l');
    assert(lower(c[0]) == lower(h[0]) && lower(c[1]) == lower(h[1]) && lower(c[2]) == lower(h[2]) && lower(c[3]) == lower(h[3]));
    assert(c.skip(0) =~= c);
}
pub proof fn lemma_re_doctype(i: InputV, c: Seq<char>, rest: Seq<char>)
    requires name_eq(c, html_name()), i.s == ev_disp(EvV::Doctype(c)) + rest,
    ensures s_in_data(i) matches Ok(p) && p.e == EvV::Doctype(c) && p.m == ModeV::Data && p.r.s == rest,
{
    reveal(s_in_data); reveal(s_comment); reveal(s_doctype);
    lemma_html(c);
    if starts(i.s, comment_open()) { assert(i.s.take(4)[2] == comment_open()[2]); }
    assert(i.s.take(2) =~= decl_open());
    let a = adv(i, 2);
    let dn = doctype_name();
    let gr = seq![' '] + (c + (seq!['>'] + rest));
    assert(a.s =~= dn + gr);
    lemma_ws0(a);
    assert(dn[0] == 'd' && dn[1] == 'o' && dn[2] == 'c' && dn[3] == 't' && dn[4] == 'y' && dn[5] == 'p' && dn[6] == 'e');
    assert forall|k: int| 0 <= k < 7 implies !term_chars().contains(#[trigger] dn[k]) by { lemma_is_term(dn[k]); }
    assert forall|k: int| 0 <= k < 7 implies !forbidden().contains(#[trigger] dn[k]) by {
        let f = forbidden();
        if f.contains(dn[k]) { let j = choose|j: int| 0 <= j < f.len() && f[j] == dn[k]; }
    }
    lemma_idx_set_is(dn, term_chars(), 7);
    lemma_id_check_exact(dn);
    lemma_is_term(' ');
    lemma_p_name(a, dn, gr);
    lemma_name_eq_refl(dn);
    let b = adv(a, 7);
    assert(b.s[1] == c[0]);
    lemma_ws1(b);
    let d = adv(b, 1);
    assert(d.s =~= c + (seq!['>'] + rest));
    lemma_contains1('>', '>');
    assert forall|k: int| 0 <= k < 4 implies !seq!['>'].contains(#[trigger] d.s[k]) by { assert(d.s[k] == c[k]); lemma_contains1('>', c[k]); }
    assert(d.s[4] == '>');
    lemma_idx_set_is(d.s, seq!['>'], 4);
    assert(d.s.take(4) =~= c);
    assert(adv(adv(d, 4), 1).s =~= rest);
}

// ------------------------------------------------------------------ rendering, then parsing: tags

/// the text after a tag's name when there are attributes left; `er` is the end of the tag
pub open spec fn attrs_text(a: Seq<AttrV>, sp: Seq<char>, er: Seq<char>) -> Seq<char> {
    if a.len() == 0 { er } else { attrs_disp_from(a, true) + (sp + er) }
}
pub open spec fn is_er(sp: Seq<char>, er: Seq<char>) -> bool {
    er.len() > 0 && (er[0] == '>' || er[0] == '/') && (sp == Seq::<char>::empty() || sp == seq![' '])
}

/// after an attribute: a space and the other attributes, or the end of the tag
pub proof fn lemma_after_attr(z: InputV, a: Seq<AttrV>, sp: Seq<char>, er: Seq<char>)
    requires is_er(sp, er), forall|i: int| 0 <= i < a.len() ==> attr_ok(#[trigger] a[i]), z.s == attrs_disp_from(a, false) + (sp + er),
    ensures
        z.s.len() > 0, term_chars().contains(z.s[0]), z.s[0] != '=',
        ws(z).s == attrs_text(a, sp, er), ws(ws(z)) == ws(z),
        ws(z).s.len() > 0, ws(z).s[0] != '=', ws(z).s.len() <= z.s.len(),
{
    lemma_attrs_disp(a, false);
    lemma_attrs_disp(a, true);
    lemma_is_term(' '); lemma_is_term('>'); lemma_is_term('/'); lemma_is_term('=');
    if a.len() == 0 {
        assert(z.s =~= sp + er);
        if sp.len() == 0 {
            assert(z.s =~= er);
            lemma_ws0(z);
        } else {
            assert(z.s[0] == ' ' && z.s[1] == er[0]);
            lemma_ws1(z);
            assert(ws(z).s =~= er);
            lemma_ws0(ws(z));
        }
    } else {
        let n = a[0].name;
        assert(attr_ok(a[0]));
        lemma_name_first(n);
        let t = attrs_disp_from(a, true) + (sp + er);
        assert(z.s =~= seq![' '] + t);
        assert(t[0] == n[0]);
        assert(z.s[1] == n[0]);
        lemma_ws1(z);
        assert(ws(z).s =~= t);
        lemma_ws0(ws(z));
    }
}

pub proof fn lemma_re_attr(tag: Seq<char>, x: InputV, a: AttrV, z: Seq<char>)
    requires attr_ok(a), x.s == attr_disp(a) + z, z.len() > 0, term_chars().contains(z[0]), z[0] != '=',
        forall|y: InputV| y.s == z ==> (#[trigger] ws(y)).s.len() > 0 && ws(y).s[0] != '=',
    ensures s_attr(tag, x) matches Ok(Some((b, r))) && b == a && (r.s == z || exists|y: InputV| y.s == z && r == #[trigger] ws(y)), x.s.len() > 0,
{
    reveal(s_attr);
    let n = a.name;
    lemma_is_term('=');
    match a.value {
        None => {
            assert(x.s =~= n + z);
            lemma_p_name(x, n, z);
            let y = adv(x, n.len() as int);
            assert(ws(y).s[0] != '=');
        },
        Some(v) => {
            let z2 = seq!['=', '"'] + (v + (seq!['"'] + z));
            assert(x.s =~= n + z2);
            lemma_p_name(x, n, z2);
            let y = adv(x, n.len() as int);
            lemma_ws0(y);
            let b = adv(y, 1);
            assert(b.s =~= seq!['"'] + (v + (seq!['"'] + z)));
            lemma_ws0(b);
            let d = adv(b, 1);
            assert(d.s =~= v + (seq!['"'] + z));
            lemma_idx_set(v, seq!['"']);
            lemma_contains1('"', '"');
            assert forall|k: int| 0 <= k < v.len() implies !seq!['"'].contains(#[trigger] d.s[k]) by { assert(d.s[k] == v[k]); }
            assert(d.s[v.len() as int] == '"');
            lemma_idx_set_is(d.s, seq!['"'], v.len() as int);
            assert(d.s.take(v.len() as int) =~= v);
            assert(adv(adv(d, v.len() as int), 1).s =~= z);
        },
    }
}

pub proof fn lemma_re_attrs(tag: Seq<char>, x: InputV, a: Seq<AttrV>, sp: Seq<char>, er: Seq<char>)
    requires inp_wf(x), is_er(sp, er), forall|i: int| 0 <= i < a.len() ==> attr_ok(#[trigger] a[i]), x.s == attrs_text(a, sp, er),
    ensures s_attrs(tag, x) matches Ok((b, y)) && b == a && y.s == er,
    decreases a.len(),
{
    lemma_s_attrs(tag, x);
    if a.len() == 0 {
        reveal(s_attr);
        lemma_is_term('>'); lemma_is_term('/');
        lemma_p_none(x);
        assert(a =~= Seq::empty());
    } else {
        lemma_attrs_disp(a, true);
        let t = a.skip(1);
        let z = attrs_disp_from(t, false) + (sp + er);
        assert(x.s =~= attr_disp(a[0]) + z);
        assert forall|i: int| 0 <= i < t.len() implies attr_ok(#[trigger] t[i]) by { assert(t[i] == a[i + 1]); }
        assert forall|y: InputV| y.s == z implies (#[trigger] ws(y)).s.len() > 0 && ws(y).s[0] != '=' by { lemma_after_attr(y, t, sp, er); }
        assert(attr_ok(a[0]));
        let z0 = InputV { s: z, l: x.l };
        lemma_after_attr(z0, t, sp, er);
        lemma_re_attr(tag, x, a[0], z);
        let r = s_attr(tag, x)->Ok_0->Some_0.1;
        if r.s == z { lemma_after_attr(r, t, sp, er); }
        else { let y = choose|y: InputV| y.s == z && r == #[trigger] ws(y); lemma_after_attr(y, t, sp, er); }
        lemma_attr(tag, x);
        lemma_ws_len(r.s);
        lemma_adv_wf(r, ws_len(r.s));
        lemma_re_attrs(tag, ws(r), t, sp, er);
        reveal(cons);
        assert(cons(a[0], t) =~= a);
    }
}


pub open spec fn tag_end(sc: bool) -> Seq<char> { if sc { seq!['/', '>'] } else { seq!['>'] } }
pub open spec fn tag_sp(sc: bool) -> Seq<char> { if sc { seq![' '] } else { Seq::empty() } }
pub open spec fn tag_ev(t: Seq<char>, a: Seq<AttrV>, sc: bool) -> EvV { if is_void(t) { EvV::Void(t, a) } else if sc { EvV::SelfClosed(t, a) } else { EvV::Open(t, a) } }
pub open spec fn tag_text(t: Seq<char>, a: Seq<AttrV>, sc: bool) -> Seq<char> { seq!['<'] + (tag_disp(t, a) + (tag_sp(sc) + tag_end(sc))) }

pub proof fn lemma_re_tag(i: InputV, t: Seq<char>, a: Seq<AttrV>, sc: bool, rest: Seq<char>)
    requires inp_wf(i), tag_ok(t, a), i.s == tag_text(t, a, sc) + rest,
    ensures s_in_data(i) matches Ok(p) && p.e == tag_ev(t, a, sc) && p.m == s_mode(t, sc) && p.r.s == rest,
{
    reveal(s_in_data); reveal(s_tag_close); reveal(s_tag_open);
    lemma_name_first(t);
    lemma_is_term('<'); lemma_is_term('/'); lemma_is_term('>'); lemma_is_term(' ');
    let sp = tag_sp(sc);
    let er = tag_end(sc) + rest;
    let at = attrs_text(a, sp, er);
    lemma_attrs_disp(a, true);
    let body = (if a.len() > 0 { seq![' '] + attrs_disp_from(a, true) } else { Seq::empty() }) + (sp + er);
    assert(i.s =~= seq!['<'] + (t + body));
    assert(i.s[1] == t[0]);
    lemma_no_comment(i);
    lemma_adv_wf(i, 1);
    let x = adv(i, 1);
    assert(x.s =~= t + body);
    if a.len() > 0 { assert(body =~= seq![' '] + at); assert(body[0] == ' '); lemma_name_first(a[0].name); assert(attr_ok(a[0])); assert(at[0] == a[0].name[0]); }
    else { assert(body =~= sp + at); assert(sc ==> body[0] == ' ' && body[1] == '/'); assert(!sc ==> body[0] == '>'); }
    lemma_p_name(x, t, body);
    assert(s_tag_close(i) is None);
    let c = adv(x, t.len() as int);
    lemma_adv_wf(x, t.len() as int);
    assert(at.len() > 0 && !is_ws(at[0]));
    if body[0] == ' ' {
        assert(body =~= seq![' '] + at);
        assert(body[1] == at[0]);
        lemma_ws1(c);
        assert(ws(c).s =~= at);
        lemma_adv_wf(c, 1);
    } else {
        assert(body =~= at);
        lemma_ws0(c);
    }
    let y = ws(c);
    lemma_ws0(y);
    assert(is_er(sp, er)) by { assert(er[0] == tag_end(sc)[0]); }
    lemma_re_attrs(t, y, a, sp, er);
    let d = s_attrs(t, y)->Ok_0.1;
    lemma_ws0(d);
    if sc {
        let f = adv(d, 1);
        assert(d.s[1] == '>');
        assert(f.s[0] == '>');
        lemma_ws0(f);
        assert(adv(f, 1).s =~= rest);
    } else {
        assert(adv(d, 1).s =~= rest);
    }
}

/// no void element has raw content
pub proof fn lemma_void_mode(t: Seq<char>)
    requires is_void(t),
    ensures s_mode(t, false) == ModeV::Data, s_mode(t, true) == ModeV::Data,
{
    lemma_first_name(void_tags(), t);
    lemma_first_name(raw_tags(), t);
    if first_name(raw_tags(), t) is Some {
        let a = first_name(void_tags(), t)->Some_0;
        let b = first_name(raw_tags(), t)->Some_0;
        let i = choose|i: int| 0 <= i < void_tags().len() && a == #[trigger] void_tags()[i]@;
        let j = choose|j: int| 0 <= j < raw_tags().len() && b == #[trigger] raw_tags()[j]@;
        lemma_name_eq_sym(t, a);
        lemma_name_eq_trans(a, t, b);
        lemma_tables(i, j);
        assert(lower(a[0]) == lower(b[0]));
        assert(lower(a[1]) == lower(b[1]));
    }
}
pub proof fn lemma_first_name(ts: Seq<&'static str>, t: Seq<char>)
    ensures first_name(ts, t) matches Some(n) ==> name_eq(t, n) && exists|i: int| 0 <= i < ts.len() && n == #[trigger] ts[i]@,
    decreases ts.len(),
{
    if ts.len() > 0 {
        if name_eq(t, ts[0]@) { assert(ts[0]@ == ts[0]@); }
        else {
            lemma_first_name(ts.skip(1), t);
            if let Some(n) = first_name(ts.skip(1), t) {
                let i = choose|i: int| 0 <= i < ts.skip(1).len() && n == #[trigger] ts.skip(1)[i]@;
                assert(ts[i + 1]@ == n);
            }
        }
    }
}
pub proof fn lemma_tables(i: int, j: int)
    requires 0 <= i < void_tags().len(), 0 <= j < raw_tags().len(),
    ensures ({ let a = void_tags()[i]@; let b = raw_tags()[j]@;
        a.len() >= 2 && b.len() >= 2 && (a.len() != b.len() || lower(a[0]) != lower(b[0]) || lower(a[1]) != lower(b[1])) }),
{
    reveal_strlit("area"); reveal_strlit("base"); reveal_strlit("br"); reveal_strlit("col"); reveal_strlit("embed"); reveal_strlit("hr");
    reveal_strlit("img"); reveal_strlit("input"); reveal_strlit("keygen"); reveal_strlit("link"); reveal_strlit("menuitem"); reveal_strlit("meta");
    reveal_strlit("param"); reveal_strlit("source"); reveal_strlit("track"); reveal_strlit("wbr");
    reveal_strlit("script"); reveal_strlit("style"); reveal_strlit("title"); reveal_strlit("textarea");
}

/// C06: an event the parser can produce is parsed from its rendering
pub proof fn lemma_re_event(i: InputV, e: EvV, rest: Seq<char>)
    requires inp_wf(i), ev_ok(e), i.s == ev_disp(e) + rest, e is Data && rest.len() > 0 ==> rest[0] == '<',
    ensures s_in_data(i) matches Ok(p) && p.e == e && p.m == mode_after(e) && p.r.s == rest, i.s.len() > 0,
{
    match e {
        EvV::Data(c) => lemma_re_data(i, c, rest),
        EvV::Comment(c) => lemma_re_comment(i, c, rest),
        EvV::Doctype(c) => lemma_re_doctype(i, c, rest),
        EvV::Close(t) => lemma_re_close(i, t, rest),
        EvV::Open(t, a) => {
            assert(tag_sp(false) + tag_end(false) =~= seq!['>']);
            lemma_re_tag(i, t, a, false, rest);
        },
        EvV::Void(t, a) => {
            assert(tag_sp(false) + tag_end(false) =~= seq!['>']);
            lemma_re_tag(i, t, a, false, rest);
            lemma_void_mode(t);
        },
        EvV::SelfClosed(t, a) => {
            assert(tag_sp(true) + tag_end(true) =~= seq![' ', '/', '>']);
            lemma_re_tag(i, t, a, true, rest);
        },
        _ => {},
    }
}

// ------------------------------------------------------------------ closing tags are recognised locally

/// the first `n` characters are the same
pub open spec fn same(a: InputV, b: InputV, n: int) -> bool {
    0 <= n <= a.s.len() && n <= b.s.len() && forall|k: int| 0 <= k < n ==> #[trigger] a.s[k] == b.s[k]
}
pub proof fn lemma_same_adv(a: InputV, b: InputV, n: int, k: int)
    requires same(a, b, n), 0 <= k <= n,
    ensures same(adv(a, k), adv(b, k), n - k),
{
    assert forall|j: int| 0 <= j < n - k implies #[trigger] adv(a, k).s[j] == adv(b, k).s[j] by { assert(a.s[k + j] == b.s[k + j]); }
}
pub proof fn lemma_same_ws(a: InputV, b: InputV, n: int)
    requires same(a, b, n), ws_len(a.s) < n,
    ensures ws_len(b.s) == ws_len(a.s), same(ws(a), ws(b), n - ws_len(a.s)),
{
    lemma_ws_len(a.s); lemma_ws_len(b.s);
    let k = ws_len(a.s);
    let j = ws_len(b.s);
    if j < k { assert(a.s[j] == b.s[j]); }
    if k < j { assert(a.s[k] == b.s[k]); }
    lemma_same_adv(a, b, n, k);
}
pub proof fn lemma_same_ident(a: InputV, b: InputV, n: int)
    requires same(a, b, n), wlen(a.s) < n,
    ensures
        wlen(b.s) == wlen(a.s),
        p_ident(a) matches Ok(Some((w, r))) ==> r == adv(a, wlen(a.s)) && p_ident(b) == Ok::<Option<(Seq<char>, InputV)>, IdErrV>(Some((w, adv(b, wlen(a.s))))),
        same(adv(a, wlen(a.s)), adv(b, wlen(a.s)), n - wlen(a.s)),
{
    lemma_idx_set(a.s, term_chars()); lemma_idx_set(b.s, term_chars());
    let k = wlen(a.s);
    let j = wlen(b.s);
    if j < k { assert(a.s[j] == b.s[j]); }
    if k < j { assert(a.s[k] == b.s[k]); }
    assert(a.s.take(k) =~= b.s.take(k));
    lemma_same_adv(a, b, n, k);
}
/// a closing tag depends only on its own characters, none of which but the first is a `<`
pub proof fn lemma_close_local(a: InputV) -> (n: int)
    requires s_tag_close(a) matches Some(Ok(p)),
    ensures
        0 < n <= a.s.len(),
        forall|k: int| 1 <= k < n ==> #[trigger] a.s[k] != '<',
        forall|b: InputV| #[trigger] same(a, b, n) ==> (s_tag_close(b) matches Some(Ok(q)) && q.e == s_tag_close(a)->Some_0->Ok_0.e),
{
    reveal(s_tag_close);
    let a1 = adv(a, 1);
    let k1 = ws_len(a1.s);
    lemma_ws_len(a1.s);
    let a2 = ws(a1);
    let a3 = adv(a2, 1);
    let k3 = ws_len(a3.s);
    lemma_ws_len(a3.s);
    let a4 = ws(a3);
    lemma_idx_set(a4.s, term_chars());
    let k4 = wlen(a4.s);
    let a5 = adv(a4, k4);
    let k5 = ws_len(a5.s);
    lemma_ws_len(a5.s);
    let a6 = ws(a5);
    let n = 1 + k1 + 1 + k3 + k4 + k5 + 1;
    assert(p_ident(a4) is Ok && p_ident(a4)->Ok_0 is Some);
    assert(a6.s.len() > 0 && a6.s[0] == '>');
    assert(a2.s.len() > 0 && a2.s[0] == '/');
    lemma_is_term('<');
    assert forall|k: int| 1 <= k < n implies #[trigger] a.s[k] != '<' by {
        if k < 1 + k1 { assert(a1.s[k - 1] == a.s[k]); }
        else if k == 1 + k1 { assert(a2.s[0] == a.s[k]); }
        else if k < 2 + k1 + k3 { assert(a3.s[k - 2 - k1] == a.s[k]); }
        else if k < 2 + k1 + k3 + k4 { assert(a4.s[k - 2 - k1 - k3] == a.s[k]); }
        else if k < 2 + k1 + k3 + k4 + k5 { assert(a5.s[k - 2 - k1 - k3 - k4] == a.s[k]); }
        else { assert(a6.s[0] == a.s[k]); }
    }
    assert forall|b: InputV| #[trigger] same(a, b, n) implies (s_tag_close(b) matches Some(Ok(q)) && q.e == s_tag_close(a)->Some_0->Ok_0.e) by {
        assert(a.s[0] == b.s[0]);
        lemma_same_adv(a, b, n, 1);
        let b1 = adv(b, 1);
        lemma_same_ws(a1, b1, n - 1);
        let b2 = ws(b1);
        assert(a2.s[0] == b2.s[0]);
        lemma_same_adv(a2, b2, n - 1 - k1, 1);
        let b3 = adv(b2, 1);
        lemma_same_ws(a3, b3, n - 2 - k1);
        let b4 = ws(b3);
        lemma_same_ident(a4, b4, n - 2 - k1 - k3);
        let b5 = adv(b4, k4);
        lemma_same_ws(a5, b5, n - 2 - k1 - k3 - k4);
        assert(a6.s[0] == ws(b5).s[0]);
    }
    n
}
/// whether raw content has an end at `j` does not depend on what follows the `<` after it
pub proof fn lemma_end_local(a: InputV, b: InputV, t: Seq<char>, c: int, j: int)
    requires same(a, b, c), 0 <= j < c, c == a.s.len() || a.s[c] == '<', is_end(a, t, j),
    ensures is_end(b, t, j),
{
    let x = adv(a, j);
    let n = lemma_close_local(x);
    if n > c - j { assert(x.s[c - j] == a.s[c]); }
    lemma_same_adv(a, b, c, j);
    assert(same(x, adv(b, j), n));
    assert(a.s[j] == b.s[j]);
}

// ------------------------------------------------------------------ whole documents

pub proof fn lemma_disp_opens(es: Seq<EvV>)
    requires es.len() > 0, opens(es),
    ensures doc_disp(es).len() > 0, doc_disp(es)[0] == '<',
{
    lemma_doc_disp(es);
    assert(ev_disp(es[0])[0] == '<');
}

/// never more elements open than the limit allows
pub open spec fn fits(limit: Option<nat>, n: nat, es: Seq<EvV>) -> bool
    decreases es.len(),
{
    es.len() == 0 || match es[0] {
        EvV::Open(_, _) => limit != Some(n) && fits(limit, n + 1, es.skip(1)),
        EvV::Close(_) => n > 0 && fits(limit, (n - 1) as nat, es.skip(1)),
        _ => fits(limit, n, es.skip(1)),
    }
}

pub proof fn lemma_re_raw(i: InputV, t: Seq<char>, es: Seq<EvV>)
    requires raw_then_close(t, es), i.s == doc_disp(es),
    ensures s_raw(i, t) matches Ok(p) && p.e == es[0] && p.m == ModeV::Data && p.r.s == doc_disp(es.skip(1)), i.s.len() > 0,
{
    let c = es[0]->Raw_0;
    let x = es[1]->Close_0;
    let fs = es.skip(1);
    assert(fs[0] == es[1]);
    lemma_doc_disp(es);
    lemma_doc_disp(fs);
    let n = c.len() as int;
    lemma_take_cat(i, c, doc_disp(fs));
    lemma_re_tag_close(adv(i, n), x, doc_disp(fs.skip(1)));
    assert(i.s[n] == adv(i, n).s[0]);
    assert(is_end(i, t, n));
    let ic = InputV { s: c, l: loc_start() };
    assert forall|j: int| 0 <= j < n implies !#[trigger] is_end(i, t, j) by {
        if is_end(i, t, j) {
            assert(same(i, ic, n)) by { assert forall|k: int| 0 <= k < n implies #[trigger] i.s[k] == ic.s[k] by { } }
            lemma_end_local(i, ic, t, n, j);
        }
    }
    lemma_raw_end_is(i, t, n);
}

/// C06, C16: a balanced sequence of events that can be parsed is what its rendering parses to
pub proof fn lemma_reparse(s: StateV, es: Seq<EvV>)
    requires
        inp_wf(s.r), s.r.s == doc_disp(es), canon(s.m, es),
        nest(names(s.st), es) == Some(Seq::<Seq<char>>::empty()), fits(s.limit, s.st.len(), es),
    ensures all_ok(s_run(s)), oks(s_run(s)) == es,
    decreases es.len(),
{
    lemma_s_run(s);
    lemma_doc_disp(es);
    if es.len() == 0 {
        assert(names(s.st).len() == 0);
        assert(oks(s_run(s)) =~= es);
    } else {
        let e = es[0];
        let fs = es.skip(1);
        let (x, t) = s_next(s);
        match s.m {
            ModeV::Raw(tag) => { lemma_re_raw(s.r, tag, es); },
            ModeV::Data => {
                if e is Data && fs.len() > 0 { lemma_disp_opens(fs); }
                if fs.len() == 0 { lemma_doc_disp(fs); }
                lemma_re_event(s.r, e, doc_disp(fs));
            },
        }
        let p = s_parse(s.m, s.r)->Ok_0;
        assert(p.e == e && p.r.s == doc_disp(fs));
        match e {
            EvV::Open(n, _) => { assert(names(s.st.push((n, p.l))) =~= names(s.st).push(n)); },
            EvV::Close(n) => {
                assert(names(s.st).last() == s.st.last().0);
                assert(names(s.st.drop_last()) =~= names(s.st).drop_last());
            },
            _ => {},
        }
        assert(x == Some(Ok::<EvV, ErrV>(e)));
        lemma_reparse(t, fs);
        let run = s_run(s);
        assert forall|i: int| 0 <= i < run.len() implies (#[trigger] run[i]) is Ok by { if i > 0 { assert(run.skip(1)[i - 1] == run[i]); } }
        assert(oks(run) =~= es) by {
            assert(run.len() == s_run(t).len() + 1) by { assert(run.skip(1).len() == run.len() - 1); }
            assert forall|i: int| 0 <= i < run.len() implies #[trigger] oks(run)[i] == es[i] by { if i > 0 { assert(run.skip(1)[i - 1] == run[i]); assert(oks(s_run(t))[i - 1] == fs[i - 1]); } }
        }
    }
}

// ------------------------------------------------------------------ what the parser produces can be parsed

/// the part before the first of some characters has none of them
pub proof fn lemma_free_take(s: Seq<char>, cs: Seq<char>)
    ensures free(s.take(idx_set(s, cs)), cs),
{
    lemma_idx_set(s, cs);
    let k = idx_set(s, cs);
    let n = s.take(k);
    assert forall|j: int| 0 <= j < n.len() implies !cs.contains(#[trigger] n[j]) by { assert(n[j] == s[j]); }
    lemma_idx_set_is(n, cs, k);
}
pub proof fn lemma_ident_ok(i: InputV)
    ensures p_ident(i) matches Ok(Some((w, r))) ==> name_ok(w),
{
    lemma_idx_set(i.s, term_chars());
    lemma_free_take(i.s, term_chars());
}
pub proof fn lemma_attr_ok(tag: Seq<char>, i: InputV)
    ensures s_attr(tag, i) matches Ok(Some((a, r))) ==> attr_ok(a),
{
    reveal(s_attr);
    lemma_ident_ok(i);
    if let Ok(Some((n, a))) = p_ident(i) {
        if let Some(b) = p_char(ws(a), '=') {
            if let Some(d) = p_char(ws(b), '"') { lemma_free_take(d.s, seq!['"']); }
        }
    }
}
pub proof fn lemma_attrs_ok(tag: Seq<char>, i: InputV)
    requires inp_wf(i),
    ensures s_attrs(tag, i) matches Ok((a, r)) ==> forall|j: int| 0 <= j < a.len() ==> attr_ok(#[trigger] a[j]),
    decreases i.s.len(),
{
    lemma_s_attrs(tag, i);
    if i.s.len() > 0 {
        lemma_attr_ok(tag, i);
        lemma_attr(tag, i);
        if let Ok(Some((a, r))) = s_attr(tag, i) {
            lemma_ws(r);
            lemma_attrs_ok(tag, ws(r));
            if let Ok((x, q)) = s_attrs(tag, ws(r)) {
                reveal(cons);
                assert forall|j: int| 0 <= j < cons(a, x).len() implies attr_ok(#[trigger] cons(a, x)[j]) by { if j > 0 { assert(cons(a, x)[j] == x[j - 1]); } }
            }
        }
    }
}

/// the known exception: an element whose name starts with `!` is not read again as one
pub open spec fn bang(e: EvV) -> bool { match ev_tag(e) { Some(t) => t.len() > 0 && t[0] == '!', None => false } }

/// what is read in the mode of text can be read again from its rendering
pub open spec fn data_ok(i: InputV, p: ParsedV) -> bool {
    &&& bang(p.e) || ev_ok(p.e)
    &&& p.m == mode_after(p.e)
    &&& p.e is Data ==> i.s[0] != '<' && (p.r.s.len() > 0 ==> p.r.s[0] == '<')
    &&& !(p.e is Raw) && !(p.e is Noop)
}
pub proof fn lemma_ok_comment(i: InputV)
    ensures s_comment(i) matches Some(Ok(p)) ==> data_ok(i, p),
{
    reveal(s_comment);
    let a = adv(i, 4);
    let cc = comment_close();
    let k = idx_str(a.s, cc);
    lemma_idx_str(a.s, cc);
    if p_str(i, comment_open()) is Some && k >= 0 {
        let c = a.s.take(k);
        let w = c + cc;
        assert(starts(a.s.skip(k), cc));
        assert(a.s.skip(k).take(3) =~= cc);
        assert(w =~= a.s.take(k + 3)) by {
            assert forall|j: int| 0 <= j < k + 3 implies w[j] == a.s.take(k + 3)[j] by { if j >= k { assert(a.s.skip(k).take(3)[j - k] == a.s[j]); } }
        }
        lemma_idx_str(w, cc);
        assert(w.skip(k) =~= cc);
        assert(cc.take(3) =~= cc);
        assert(starts(w.skip(k), cc));
        let h = idx_str(w, cc);
        if h < 0 { assert(!starts(w.skip(k), cc)); }
        if h > k { assert(!starts(w.skip(k), cc)); }
        if 0 <= h < k {
            assert(starts(w.skip(h), cc));
            assert(w.skip(h).take(3) =~= a.s.skip(h).take(3));
            assert(!starts(a.s.skip(h), cc));
        }
        assert(h == k);
    }
}
pub proof fn lemma_ok_tag_close(i: InputV)
    ensures s_tag_close(i) matches Some(Ok(p)) ==> data_ok(i, p) && p.e is Close && i.s.len() > 1 && i.s[0] == '<',
{
    reveal(s_tag_close);
    if let Some(a) = p_char(i, '<') {
        lemma_ws_len(a.s);
        if let Some(b) = p_char(ws(a), '/') { lemma_ident_ok(ws(b)); }
    }
}
pub proof fn lemma_ok_tag_open(i: InputV)
    requires inp_wf(i),
    ensures s_tag_open(i) matches Some(Ok(p)) ==> data_ok(i, p) && i.s.len() > 0 && i.s[0] == '<',
{
    reveal(s_tag_open);
    lemma_char(i, '<');
    if let Some(a) = p_char(i, '<') {
        let b = ws(a);
        lemma_ws(a); lemma_ident(b); lemma_ident_ok(b);
        if let Ok(Some((n, c))) = p_ident(b) {
            lemma_ws(c); lemma_ws(ws(c));
            lemma_attrs_ok(n, ws(ws(c)));
            if is_void(n) { lemma_void_mode(n); }
        }
    }
}
pub proof fn lemma_ok_in_data(i: InputV)
    requires inp_wf(i),
    ensures s_in_data(i) matches Ok(p) ==> data_ok(i, p),
{
    reveal(s_in_data); reveal(s_doctype); reveal(s_data);
    lemma_ok_comment(i); lemma_ok_tag_close(i); lemma_ok_tag_open(i);
    lemma_free_take(i.s, seq!['<']);
    lemma_idx_set(i.s, seq!['<']);
    let k = idx_set(i.s, seq!['<']);
    lemma_p_until_char(i, '<');
    lemma_contains1('<', '<');
    if i.s.len() > 0 && i.s[0] == '<' { assert(seq!['<'].contains(i.s[0])); }
    if k == i.s.len() { assert(i.s.take(k) =~= i.s); }
}

/// raw content ends where a closing tag for its element starts, which is what is read next
pub proof fn lemma_ok_raw(i: InputV, t: Seq<char>)
    requires inp_wf(i),
    ensures
        s_raw(i, t) matches Ok(p) && p.m == ModeV::Data && (match p.e { EvV::Raw(c) => p.r.s.len() > 0 ==> raw_ok(c, t), _ => false }),
        ({ let r = s_raw(i, t)->Ok_0.r; r.s.len() > 0 ==> (s_in_data(r) matches Ok(q) && q.e is Close && name_ok(q.e->Close_0) && name_eq(q.e->Close_0, t)) }),
{
    lemma_raw_end(i, t, 0);
    let k = raw_end(i, t, 0);
    let c = i.s.take(k);
    let r = adv(i, k);
    if r.s.len() > 0 {
        assert(is_end(i, t, k));
        let ic = InputV { s: c, l: loc_start() };
        assert forall|j: int| 0 <= j < c.len() implies !#[trigger] is_end(ic, t, j) by {
            if is_end(ic, t, j) {
                assert(same(ic, i, k));
                lemma_end_local(ic, i, t, k, j);
                assert(!is_end(i, t, j));
            }
        }
        reveal(s_in_data);
        lemma_ok_tag_close(r);
        assert(r.s[0] == '<' && s_tag_close(r) is Some);
        assert(r.s[1] != '!') by {
            reveal(s_tag_close);
            let a = adv(r, 1);
            lemma_ws_len(a.s);
            assert(a.s[0] == r.s[1]);
            if r.s[1] == '!' { lemma_ws0(a); }
        }
        lemma_no_comment(r);
    }
}

/// no element of a known kind of name
pub open spec fn no_bang(es: Seq<EvV>) -> bool { forall|i: int| 0 <= i < es.len() ==> !bang(#[trigger] es[i]) }
/// raw content is inside of an element
pub open spec fn raw_inside(s: StateV) -> bool { s.m is Raw ==> s.st.len() > 0 }

pub proof fn lemma_oks_next(s: StateV)
    requires inp_wf(s.r), all_ok(s_run(s)), s_next(s).0 is Some,
    ensures
        s_next(s).0->Some_0 is Ok, all_ok(s_run(s_next(s).1)), oks(s_run(s)).len() > 0,
        oks(s_run(s))[0] == s_next(s).0->Some_0->Ok_0, oks(s_run(s)).skip(1) == oks(s_run(s_next(s).1)),
{
    lemma_s_run(s);
    let t = s_next(s).1;
    let run = s_run(s);
    assert(run[0] is Ok);
    assert forall|i: int| 0 <= i < s_run(t).len() implies (#[trigger] s_run(t)[i]) is Ok by { assert(run.skip(1)[i] == run[i + 1]); }
    assert(oks(run).skip(1) =~= oks(s_run(t))) by { assert forall|i: int| 0 <= i < s_run(t).len() implies run[i + 1] == s_run(t)[i] by { assert(run.skip(1)[i] == run[i + 1]); } }
}

/// what parses without an error can be parsed again from its rendering
pub proof fn lemma_canon(s: StateV)
    requires inp_wf(s.r), all_ok(s_run(s)), raw_inside(s), no_bang(oks(s_run(s))),
    ensures canon(s.m, oks(s_run(s))), fits(s.limit, s.st.len(), oks(s_run(s))),
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    lemma_s_run(s);
    let (x, t) = s_next(s);
    let es = oks(s_run(s));
    if x is Some {
        lemma_oks_next(s);
        let fs = oks(s_run(t));
        let e = es[0];
        assert(s.r.s.len() > 0);
        lemma_parse_progress(s.m, s.r);
        let p = s_parse(s.m, s.r)->Ok_0;
        assert(p.e == e);
        assert(no_bang(fs)) by { assert forall|i: int| 0 <= i < fs.len() implies !bang(#[trigger] fs[i]) by { assert(es.skip(1)[i] == es[i + 1]); } }
        match s.m {
            ModeV::Data => {
                lemma_ok_in_data(s.r);
                assert(!bang(e));
                assert(raw_inside(t));
                lemma_canon(t);
                if e is Data && t.r.s.len() > 0 {
                    lemma_s_run(t);
                    lemma_oks_next(t);
                    lemma_ok_in_data(t.r);
                    assert(opens(fs));
                }
                if t.r.s.len() == 0 && fs.len() > 0 { lemma_s_run(t); lemma_oks_next(t); }
            },
            ModeV::Raw(tag) => {
                lemma_ok_raw(s.r, tag);
                lemma_canon(t);
                lemma_s_run(t);
                lemma_oks_next(t);
                assert(t.r.s.len() > 0);
                assert(fs[0] is Close);
                assert(es[1] == es.skip(1)[0]);
            },
        }
    } else {
        assert(s.m is Data);
    }
}

/// C06: what parses without an error renders to text that parses to the same events
pub proof fn lemma_roundtrip(s: StateV, t: StateV)
    requires
        inp_wf(s.r), all_ok(s_run(s)), raw_inside(s), no_bang(oks(s_run(s))),
        inp_wf(t.r), t.r.s == doc_disp(oks(s_run(s))), t.m == s.m, names(t.st) == names(s.st), t.limit == s.limit,
    ensures all_ok(s_run(t)), oks(s_run(t)) == oks(s_run(s)),
{
    lemma_canon(s);
    lemma_run_balanced(s);
    assert(t.st.len() == names(t.st).len() && s.st.len() == names(s.st).len());
    lemma_reparse(t, oks(s_run(s)));
}

} // verus!
}
