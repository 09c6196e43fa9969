/// What is written is what the events carry.
pub mod verbatim {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::theory::*;
#[allow(unused_imports)] use crate::markup::*;
#[allow(unused_imports)] use crate::reparse::{lemma_oks_next, lemma_ws0};
#[allow(unused_imports)] use crate::shim::ext::*;
verus! {

pub open spec fn blank(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_ws(#[trigger] w[i]) }

/// `x` is the closing tag of `t` as it can be written
pub open spec fn wr_close(t: Seq<char>, x: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| blank(a) && blank(b) && blank(c)
        && x == #[trigger] close_text(a, b, t, c)
}
pub open spec fn close_text(a: Seq<char>, b: Seq<char>, t: Seq<char>, c: Seq<char>) -> Seq<char> {
    seq!['<'] + a + seq!['/'] + b + t + c + seq!['>']
}
/// an attribute and the blank after it
pub open spec fn wr_attr(at: AttrV, x: Seq<char>) -> bool {
    match at.value {
        None => exists|a: Seq<char>| blank(a) && x == at.name + #[trigger] id_seq(a),
        Some(v) => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| blank(a) && blank(b) && blank(c) && x == #[trigger] attr_text(at.name, a, b, v, c),
    }
}
pub open spec fn id_seq(a: Seq<char>) -> Seq<char> { a }
pub open spec fn attr_text(n: Seq<char>, a: Seq<char>, b: Seq<char>, v: Seq<char>, c: Seq<char>) -> Seq<char> {
    n + a + seq!['='] + b + seq!['"'] + v + seq!['"'] + c
}
pub open spec fn wr_attrs(at: Seq<AttrV>, x: Seq<char>) -> bool
    decreases at.len(),
{
    if at.len() == 0 { x.len() == 0 }
    else { exists|y: Seq<char>, z: Seq<char>| wr_attr(at[0], y) && wr_attrs(at.skip(1), z) && x == #[trigger] (y + z) }
}
/// an opening tag as it can be written: `sl` is the slash if there is one
pub open spec fn tag_src(a: Seq<char>, t: Seq<char>, b: Seq<char>, at: Seq<char>, sl: Seq<char>) -> Seq<char> {
    seq!['<'] + a + t + b + at + sl + seq!['>']
}
pub open spec fn slash(sl: Seq<char>) -> bool { sl.len() > 0 && sl[0] == '/' && blank(sl.skip(1)) }
pub open spec fn wr_tag(t: Seq<char>, at: Seq<AttrV>, sc: bool, x: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, y: Seq<char>, sl: Seq<char>| blank(a) && blank(b) && wr_attrs(at, y)
        && (if sc { slash(sl) } else { sl.len() == 0 }) && x == #[trigger] tag_src(a, t, b, y, sl)
}
pub open spec fn doctype_src(a: Seq<char>, k: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char> {
    seq!['<', '!'] + a + k + b + c + seq!['>']
}
/// `x` is what was written for the event
pub open spec fn written(e: EvV, x: Seq<char>) -> bool {
    match e {
        EvV::Data(c) => x == c,
        EvV::Raw(c) => x == c,
        EvV::Comment(c) => x == seq!['<', '!', '-', '-'] + c + seq!['-', '-', '>'],
        EvV::Doctype(c) => exists|a: Seq<char>, k: Seq<char>, b: Seq<char>, d: Seq<char>| blank(a) && name_eq(k, doctype_name()) && blank(b)
            && c == trim(d) && x == #[trigger] doctype_src(a, k, b, d),
        EvV::Close(t) => wr_close(t, x),
        EvV::Open(t, a) => wr_tag(t, a, false, x),
        EvV::SelfClosed(t, a) => wr_tag(t, a, true, x),
        EvV::Void(t, a) => wr_tag(t, a, true, x) || wr_tag(t, a, false, x),
        EvV::Noop => false,
    }
}
/// the text is what was written for the events, one after the other
pub open spec fn written_all(es: Seq<EvV>, x: Seq<char>) -> bool
    decreases es.len(),
{
    if es.len() == 0 { x.len() == 0 }
    else { exists|y: Seq<char>, z: Seq<char>| written(es[0], y) && written_all(es.skip(1), z) && x == #[trigger] (y + z) }
}

/// `r` is what is left of `i` after `x`
pub open spec fn cut(i: InputV, x: Seq<char>, r: InputV) -> bool { i.s == x + r.s }

pub proof fn lemma_cut_ws(i: InputV) -> (w: Seq<char>)
    ensures blank(w), cut(i, w, ws(i)),
{
    lemma_ws_len(i.s);
    let w = i.s.take(ws_len(i.s));
    assert(w + i.s.skip(ws_len(i.s)) =~= i.s);
    assert forall|j: int| 0 <= j < w.len() implies is_ws(#[trigger] w[j]) by { assert(w[j] == i.s[j]); }
    w
}
pub proof fn lemma_cut_char(i: InputV, c: char)
    requires i.s.len() > 0, i.s[0] == c,
    ensures cut(i, seq![c], adv(i, 1)),
{
    assert(seq![c] + i.s.skip(1) =~= i.s);
}
pub proof fn lemma_cut_at(i: InputV, k: int)
    requires 0 <= k <= i.s.len(),
    ensures cut(i, i.s.take(k), adv(i, k)),
{
    assert(i.s.take(k) + i.s.skip(k) =~= i.s);
}
pub proof fn lemma_wr_close(i: InputV) -> (x: Seq<char>)
    ensures s_tag_close(i) matches Some(Ok(p)) ==> written(p.e, x) && cut(i, x, p.r),
{
    reveal(s_tag_close);
    match s_tag_close(i) {
        Some(Ok(p)) => {
            let a = adv(i, 1);
            lemma_cut_char(i, '<');
            let w1 = lemma_cut_ws(a);
            lemma_cut_char(ws(a), '/');
            let b = adv(ws(a), 1);
            let w2 = lemma_cut_ws(b);
            let c = ws(b);
            lemma_idx_set(c.s, term_chars());
            let t = c.s.take(wlen(c.s));
            lemma_cut_at(c, wlen(c.s));
            let d = adv(c, wlen(c.s));
            let w3 = lemma_cut_ws(d);
            lemma_cut_char(ws(d), '>');
            let x = close_text(w1, w2, t, w3);
            assert(i.s =~= x + p.r.s);
            x
        },
        _ => Seq::empty(),
    }
}
/// the part of `i` for an attribute and the blank after it
pub proof fn lemma_wr_attr(tag: Seq<char>, i: InputV) -> (x: Seq<char>)
    ensures s_attr(tag, i) matches Ok(Some((at, r))) ==> wr_attr(at, x) && cut(i, x, ws(r)),
{
    reveal(s_attr);
    match s_attr(tag, i) {
        Ok(Some((at, r))) => {
            lemma_idx_set(i.s, term_chars());
            lemma_cut_at(i, wlen(i.s));
            let a = adv(i, wlen(i.s));
            let w1 = lemma_cut_ws(a);
            match at.value {
                None => {
                    let w4 = lemma_cut_ws(ws(a));
                    let w = w1 + w4;
                    assert(blank(id_seq(w)));
                    let x = at.name + id_seq(w);
                    assert(i.s =~= x + ws(r).s);
                    x
                },
                Some(v) => {
                    lemma_cut_char(ws(a), '=');
                    let b = adv(ws(a), 1);
                    let w2 = lemma_cut_ws(b);
                    let c = ws(b);
                    lemma_cut_char(c, '"');
                    let d = adv(c, 1);
                    let k = idx_set(d.s, seq!['"']);
                    lemma_idx_set(d.s, seq!['"']);
                    lemma_p_until_char(d, '"');
                    lemma_cut_at(d, k);
                    let e = adv(d, k);
                    lemma_cut_char(e, '"');
                    let w3 = lemma_cut_ws(r);
                    let x = attr_text(at.name, w1, w2, v, w3);
                    assert(i.s =~= x + ws(r).s);
                    x
                },
            }
        },
        _ => Seq::empty(),
    }
}
pub proof fn lemma_wr_attrs(tag: Seq<char>, i: InputV) -> (x: Seq<char>)
    requires inp_wf(i),
    ensures s_attrs(tag, i) matches Ok((at, r)) ==> wr_attrs(at, x) && cut(i, x, r),
    decreases i.s.len(),
{
    lemma_s_attrs(tag, i);
    assert(Seq::<char>::empty() + i.s =~= i.s);
    if i.s.len() == 0 { return Seq::empty(); }
    let y = lemma_wr_attr(tag, i);
    lemma_attr(tag, i);
    match s_attr(tag, i) {
        Ok(Some((a, r))) => {
            lemma_ws(r);
            let z = lemma_wr_attrs(tag, ws(r));
            if let Ok((at, q)) = s_attrs(tag, ws(r)) {
                reveal(cons);
                assert(cons(a, at).skip(1) =~= at);
                assert(i.s =~= (y + z) + q.s);
            }
            y + z
        },
        _ => Seq::empty(),
    }
}
pub proof fn lemma_wr_open(i: InputV) -> (x: Seq<char>)
    requires inp_wf(i),
    ensures s_tag_open(i) matches Some(Ok(p)) ==> written(p.e, x) && cut(i, x, p.r),
{
    reveal(s_tag_open);
    match s_tag_open(i) {
        Some(Ok(p)) => {
            let a = adv(i, 1);
            lemma_cut_char(i, '<'); lemma_char(i, '<');
            let w1 = lemma_cut_ws(a);
            let b = ws(a);
            lemma_ws(a); lemma_ident(b);
            lemma_idx_set(b.s, term_chars());
            let n = b.s.take(wlen(b.s));
            lemma_cut_at(b, wlen(b.s));
            let c = adv(b, wlen(b.s));
            let w2 = lemma_cut_ws(c); let w3 = lemma_cut_ws(ws(c));
            lemma_ws(c); lemma_ws(ws(c));
            let w = w2 + w3;
            assert(blank(w));
            let e = ws(ws(c));
            let y = lemma_wr_attrs(n, e);
            lemma_attrs(n, e);
            let (at, d) = s_attrs(n, e)->Ok_0;
            lemma_ws(d);
            let w4 = lemma_cut_ws(d);
            lemma_ws_ws(ws(c)); lemma_no_ws(n, e);
            assert(w4 =~= Seq::empty());
            let g = ws(d);
            let sc = p_char(g, '/') is Some;
            if sc {
                lemma_cut_char(g, '/');
                let h = adv(g, 1);
                let w5 = lemma_cut_ws(h);
                lemma_cut_char(ws(h), '>');
                let sl = seq!['/'] + w5;
                assert(sl.skip(1) =~= w5);
                let x = tag_src(w1, n, w, y, sl);
                assert(i.s =~= x + p.r.s);
                assert(wr_tag(n, at, true, x));
                x
            } else {
                lemma_cut_char(g, '>');
                let sl = Seq::<char>::empty();
                let x = tag_src(w1, n, w, y, sl);
                assert(i.s =~= x + p.r.s);
                assert(wr_tag(n, at, false, x));
                x
            }
        },
        _ => Seq::empty(),
    }
}
/// the rest after the attributes starts with no blank if what the attributes start in does not
pub proof fn lemma_no_ws(tag: Seq<char>, i: InputV)
    requires inp_wf(i), ws_len(i.s) == 0,
    ensures s_attrs(tag, i) matches Ok((a, r)) ==> ws_len(r.s) == 0,
    decreases i.s.len(),
{
    lemma_s_attrs(tag, i);
    if i.s.len() > 0 {
        lemma_attr(tag, i);
        if let Ok(Some((a, r))) = s_attr(tag, i) {
            lemma_ws(r); lemma_ws_len(r.s); lemma_ws_ws(r);
            lemma_no_ws(tag, ws(r));
        }
    }
}
pub proof fn lemma_ws_ws(i: InputV)
    ensures ws_len(ws(i).s) == 0,
{
    lemma_ws_len(i.s); lemma_ws_len(ws(i).s);
    let k = ws_len(i.s);
    if ws_len(ws(i).s) > 0 { assert(ws(i).s[0] == i.s[k]); }
}
pub proof fn lemma_wr_comment(i: InputV) -> (x: Seq<char>)
    ensures s_comment(i) matches Some(Ok(p)) ==> written(p.e, x) && cut(i, x, p.r),
{
    reveal(s_comment);
    match s_comment(i) {
        Some(Ok(p)) => {
            let a = adv(i, 4);
            lemma_cut_at(i, 4);
            let k = idx_str(a.s, comment_close());
            lemma_idx_str(a.s, comment_close());
            lemma_cut_at(a, k);
            let b = adv(a, k);
            lemma_cut_at(b, 3);
            let x = seq!['<', '!', '-', '-'] + a.s.take(k) + seq!['-', '-', '>'];
            assert(i.s =~= x + p.r.s);
            x
        },
        _ => Seq::empty(),
    }
}
pub proof fn lemma_wr_doctype(i: InputV) -> (x: Seq<char>)
    ensures s_doctype(i) matches Some(Ok(p)) ==> written(p.e, x) && cut(i, x, p.r),
{
    reveal(s_doctype);
    match s_doctype(i) {
        Some(Ok(p)) => {
            let a = adv(i, 2);
            lemma_cut_at(i, 2);
            let w1 = lemma_cut_ws(a);
            let a1 = ws(a);
            lemma_idx_set(a1.s, term_chars());
            let k = a1.s.take(wlen(a1.s));
            lemma_cut_at(a1, wlen(a1.s));
            let b = adv(a1, wlen(a1.s));
            let w2 = lemma_cut_ws(b);
            let d = ws(b);
            let j = idx_set(d.s, seq!['>']);
            lemma_idx_set(d.s, seq!['>']);
            lemma_p_until_char(d, '>');
            let c = d.s.take(j);
            lemma_cut_at(d, j);
            lemma_cut_char(adv(d, j), '>');
            let x = doctype_src(w1, k, w2, c);
            assert(i.s =~= x + p.r.s);
            x
        },
        _ => Seq::empty(),
    }
}
pub proof fn lemma_wr_data(i: InputV) -> (x: Seq<char>)
    ensures s_data(i) matches Some(Ok(p)) ==> written(p.e, x) && cut(i, x, p.r),
{
    reveal(s_data);
    let k = idx_set(i.s, seq!['<']);
    lemma_idx_set(i.s, seq!['<']);
    lemma_cut_at(i, k);
    lemma_cut_at(i, i.s.len() as int);
    if k < i.s.len() { i.s.take(k) } else { i.s.take(i.s.len() as int) }
}
pub proof fn lemma_wr_parse(m: ModeV, i: InputV) -> (x: Seq<char>)
    requires inp_wf(i),
    ensures s_parse(m, i) matches Ok(p) ==> written(p.e, x) && cut(i, x, p.r),
{
    match m {
        ModeV::Data => {
            reveal(s_in_data);
            let a = lemma_wr_comment(i);
            let b = lemma_wr_doctype(i);
            let c = lemma_wr_close(i);
            let d = lemma_wr_open(i);
            let e = lemma_wr_data(i);
            if s_comment(i) is Some { a } else if s_doctype(i) is Some { b } else if s_tag_close(i) is Some { c } else if s_tag_open(i) is Some { d } else { e }
        },
        ModeV::Raw(t) => {
            lemma_raw_end(i, t, 0);
            lemma_cut_at(i, raw_end(i, t, 0));
            i.s.take(raw_end(i, t, 0))
        },
    }
}
/// C06: a text that parses without an error is what is written for its events, piece by piece
pub proof fn lemma_verbatim(s: StateV)
    requires inp_wf(s.r), all_ok(s_run(s)),
    ensures written_all(oks(s_run(s)), s.r.s),
    decreases s.r.s.len(), mode_rank(s.m), s.st.len(),
{
    lemma_s_run(s);
    let (x, t) = s_next(s);
    if x is Some {
        lemma_oks_next(s);
        lemma_parse_progress(s.m, s.r);
        let y = lemma_wr_parse(s.m, s.r);
        lemma_verbatim(t);
        assert(s.r.s == y + t.r.s);
    }
}

} // verus!
}
