pub mod theory {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- UTF-8 lengths and boundaries

pub open spec fn clen(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}

/// length in bytes
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}

/// `n` is a character boundary of `s`
#[verifier::opaque]
pub open spec fn bnd(s: Seq<char>, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && n == #[trigger] blen(s.take(k))
}

/// number of characters before the boundary `n`
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, n: int) -> int {
    choose|k: int| 0 <= k <= s.len() && n == #[trigger] blen(s.take(k))
}

pub proof fn lemma_blen_cat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_blen_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}

pub proof fn lemma_blen_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures blen(s) == blen(s.take(k)) + blen(s.skip(k)),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_blen_cat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
}

pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len(), blen(s) <= 4 * s.len(), s.len() == 0 <==> blen(s) == 0,
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 { lemma_blen_ge(s.drop_last()); }
}

pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures blen(s.take(i)) < blen(s.take(j)),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_blen_split(s.take(j), i);
    assert(s.take(j).take(i) =~= s.take(i));
    lemma_blen_ge(s.take(j).skip(i));
}

/// `cidx` undoes `blen . take`
pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        cidx(s, blen(#[trigger] s.take(k)) as int) == k,
        blen(s.take(k)) + blen(s.skip(k)) == blen(s),
        blen(s.take(k)) >= k,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    reveal(cidx);
    lemma_blen_split(s, k);
    lemma_blen_ge(s.take(k));
    let n = blen(s.take(k)) as int;
    assert(n == blen(s.take(k)));
    let j = cidx(s, n);
    assert(0 <= j <= s.len() && n == blen(s.take(j)));
    if j < k { lemma_blen_mono(s, j, k); }
    if k < j { lemma_blen_mono(s, k, j); }
}

pub broadcast proof fn lemma_bnd_take(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] bnd(s, blen(s.take(k)) as int),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    reveal(bnd);
}

pub broadcast proof fn lemma_bnd_0(s: Seq<char>)
    ensures #[trigger] bnd(s, 0),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_cidx_ends(s);
}

pub broadcast proof fn lemma_cidx_0(s: Seq<char>)
    ensures #[trigger] cidx(s, 0) == 0,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_cidx_ends(s);
}

pub broadcast proof fn lemma_bnd_n(s: Seq<char>)
    ensures #[trigger] bnd(s, blen(s) as int),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_cidx_ends(s);
}

pub broadcast proof fn lemma_cidx_n(s: Seq<char>)
    ensures #[trigger] cidx(s, blen(s) as int) == s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_cidx_ends(s);
}

pub broadcast proof fn lemma_blen_basic(s: Seq<char>)
    ensures #[trigger] blen(s) >= s.len(), s.len() == 0 <==> blen(s) == 0,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_blen_ge(s);
}

pub proof fn lemma_cidx_ends(s: Seq<char>)
    ensures
        bnd(s, 0),
        cidx(s, 0) == 0,
        bnd(s, blen(s) as int),
        cidx(s, blen(s) as int) == s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(s.take(0) =~= Seq::empty());
    assert(s.take(s.len() as int) =~= s);
    lemma_cidx(s, 0);
    lemma_cidx(s, s.len() as int);
    lemma_bnd_take(s, 0);
    lemma_bnd_take(s, s.len() as int);
}

pub broadcast proof fn lemma_cidx_range(s: Seq<char>, n: int)
    requires #[trigger] bnd(s, n),
    ensures 0 <= cidx(s, n) <= s.len(), blen(s.take(cidx(s, n))) == n, n >= 0,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    reveal(bnd);
    reveal(cidx);
}

/// the boundary after one character
pub proof fn lemma_first(s: Seq<char>)
    requires s.len() > 0,
    ensures
        bnd(s, clen(s[0]) as int),
        cidx(s, clen(s[0]) as int) == 1,
        blen(s) >= clen(s[0]),
        blen(s.take(1)) == clen(s[0]),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_cidx(s, 1);
    lemma_bnd_take(s, 1);
    assert(s.take(1).drop_last() =~= Seq::empty());
    assert(s.take(1).last() == s[0]);
    assert(blen(s.take(1).drop_last()) == 0);
    assert(blen(s.take(1)) == clen(s[0]));
}
pub broadcast proof fn lemma_bnd_first(s: Seq<char>)
    requires s.len() > 0,
    ensures #[trigger] bnd(s, clen(s[0]) as int), blen(s) >= clen(s[0]),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_first(s);
}
pub broadcast proof fn lemma_cidx_first(s: Seq<char>)
    requires s.len() > 0,
    ensures #[trigger] cidx(s, clen(s[0]) as int) == 1,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_first(s);
}

/// appending one character
pub proof fn lemma_blen_push(s: Seq<char>, c: char)
    ensures blen(s.push(c)) == blen(s) + clen(c),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(s.push(c).drop_last() =~= s);
}

pub proof fn lemma_blen_one(c: char)
    ensures blen(seq![c]) == clen(c),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(seq![c].drop_last() =~= Seq::empty());
    assert(blen(seq![c].drop_last()) == 0);
}

pub broadcast group group_cidx {
    lemma_cidx, lemma_bnd_take, lemma_bnd_0, lemma_cidx_0, lemma_bnd_n, lemma_cidx_n, lemma_blen_basic, lemma_cidx_range, lemma_bnd_first, lemma_cidx_first,
}

// ---------------------------------------------------------------- searching

/// first position of a character of `cs` in `s`, or the length
#[verifier::opaque]
pub open spec fn idx_set(s: Seq<char>, cs: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 }
    else if cs.contains(s[0]) { 0 }
    else { 1 + idx_set(s.skip(1), cs) }
}

pub broadcast proof fn lemma_idx_set(s: Seq<char>, cs: Seq<char>)
    ensures
        0 <= #[trigger] idx_set(s, cs) <= s.len(),
        idx_set(s, cs) < s.len() ==> cs.contains(s[idx_set(s, cs)]),
        forall|i: int| 0 <= i < idx_set(s, cs) ==> !cs.contains(#[trigger] s[i]),
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 && !cs.contains(s[0]) {
        lemma_idx_set(s.skip(1), cs);
        assert forall|i: int| 0 <= i < idx_set(s, cs) implies !cs.contains(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}

pub proof fn lemma_idx_set_is(s: Seq<char>, cs: Seq<char>, k: int)
    requires
        0 <= k <= s.len(),
        k < s.len() ==> cs.contains(s[k]),
        forall|i: int| 0 <= i < k ==> !cs.contains(#[trigger] s[i]),
    ensures idx_set(s, cs) == k,
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_idx_set(s, cs);
    let j = idx_set(s, cs);
    if j < k { assert(!cs.contains(s[j])); }
}

pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    s.len() >= p.len() && s.take(p.len() as int) == p
}

/// first position at which `p` occurs in `s`, or -1
#[verifier::opaque]
pub open spec fn idx_str(s: Seq<char>, p: Seq<char>) -> int
    decreases s.len(),
{
    if starts(s, p) { 0 }
    else if s.len() == 0 { -1 }
    else {
        let r = idx_str(s.skip(1), p);
        if r < 0 { -1 } else { r + 1 }
    }
}

pub broadcast proof fn lemma_idx_str(s: Seq<char>, p: Seq<char>)
    ensures
        -1 <= #[trigger] idx_str(s, p) <= s.len() - p.len() || idx_str(s, p) == -1,
        idx_str(s, p) >= 0 ==> starts(s.skip(idx_str(s, p)), p),
        idx_str(s, p) >= 0 ==> forall|i: int| 0 <= i < idx_str(s, p) ==> !starts(#[trigger] s.skip(i), p),
        idx_str(s, p) < 0 ==> forall|i: int| 0 <= i <= s.len() ==> !starts(#[trigger] s.skip(i), p),
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(s.skip(0) =~= s);
    if starts(s, p) || s.len() == 0 {
        if !starts(s, p) {
            assert forall|i: int| 0 <= i <= s.len() implies !starts(#[trigger] s.skip(i), p) by {
                assert(s.skip(i) =~= s);
            }
        }
    } else {
        let t = s.skip(1);
        lemma_idx_str(t, p);
        let r = idx_str(t, p);
        assert forall|i: int| 1 <= i <= s.len() implies #[trigger] s.skip(i) == t.skip(i - 1) by {
            assert(s.skip(i) =~= t.skip(i - 1));
        }
        if r < 0 {
            assert forall|i: int| 0 <= i <= s.len() implies !starts(#[trigger] s.skip(i), p) by {
                if i == 0 { assert(s.skip(i) =~= s); } else { assert(s.skip(i) == t.skip(i - 1)); }
            }
        } else {
            assert(s.skip(r + 1) == t.skip(r));
            assert forall|i: int| 0 <= i < r + 1 implies !starts(#[trigger] s.skip(i), p) by {
                if i == 0 { assert(s.skip(i) =~= s); } else { assert(s.skip(i) == t.skip(i - 1)); }
            }
        }
    }
}

/// last position of `c` in `s`, or -1
#[verifier::opaque]
pub open spec fn last_idx(s: Seq<char>, c: char) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 }
    else if s.last() == c { s.len() - 1 }
    else { last_idx(s.drop_last(), c) }
}

pub broadcast proof fn lemma_last_idx(s: Seq<char>, c: char)
    ensures
        -1 <= #[trigger] last_idx(s, c) < s.len(),
        last_idx(s, c) >= 0 ==> s[last_idx(s, c)] == c,
        forall|i: int| last_idx(s, c) < i < s.len() ==> #[trigger] s[i] != c,
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 && s.last() != c {
        lemma_last_idx(s.drop_last(), c);
        assert forall|i: int| last_idx(s, c) < i < s.len() implies #[trigger] s[i] != c by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
}

/// the boundary after the character at position `k`
pub proof fn lemma_after(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures
        blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
        bnd(s, (blen(s.take(k)) + clen(s[k])) as int),
        cidx(s, (blen(s.take(k)) + clen(s[k])) as int) == k + 1,
        blen(s.take(k)) + clen(s[k]) <= blen(s),
{
    reveal(blen);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    lemma_bnd_take(s, k + 1);
    lemma_cidx(s, k + 1);
}

pub broadcast proof fn lemma_after_last(s: Seq<char>, c: char)
    ensures
        #[trigger] last_idx(s, c) >= 0 ==> {
            let n = (blen(s.take(last_idx(s, c))) + clen(c)) as int;
            bnd(s, n) && cidx(s, n) == last_idx(s, c) + 1 && n <= blen(s)
        },
{
    lemma_last_idx(s, c);
    if last_idx(s, c) >= 0 { lemma_after(s, last_idx(s, c)); }
}

// ---------------------------------------------------------------- predicates applied to characters

/// `bs` are answers to the question `f` about the elements of `s`, where `f(x, b)` says that `b`
/// may be the answer for `x`
pub open spec fn trace<T>(f: spec_fn(T, bool) -> bool, s: Seq<T>, bs: Seq<bool>) -> bool {
    bs.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f(s[i], #[trigger] bs[i])
}

#[verifier::opaque]
pub open spec fn count_true(bs: Seq<bool>) -> nat
    decreases bs.len(),
{
    if bs.len() == 0 { 0 } else { count_true(bs.drop_last()) + (if bs.last() { 1nat } else { 0nat }) }
}

#[verifier::opaque]
pub open spec fn first_true(bs: Seq<bool>) -> int
    decreases bs.len(),
{
    if bs.len() == 0 { 0 } else if bs[0] { 0 } else { 1 + first_true(bs.skip(1)) }
}

// ---------------------------------------------------------------- locations

#[verifier::opaque]
pub open spec fn nls(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { nls(s.drop_last()) + (if s.last() == '\n' { 1nat } else { 0nat }) }
}

pub open spec fn is_nl_pred(f: spec_fn(char, bool) -> bool) -> bool {
    forall|c: char, b: bool| #[trigger] f(c, b) ==> b == (c == '\n')
}

pub broadcast proof fn lemma_trace_nl(f: spec_fn(char, bool) -> bool, s: Seq<char>, bs: Seq<bool>)
    requires #[trigger] trace(f, s, bs), is_nl_pred(f),
    ensures count_true(bs) == nls(s),
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(s.drop_last()[i], #[trigger] bs.drop_last()[i]) by {
            assert(s.drop_last()[i] == s[i]);
            assert(bs.drop_last()[i] == bs[i]);
        }
        lemma_trace_nl(f, s.drop_last(), bs.drop_last());
        assert(f(s[s.len() - 1], bs[s.len() - 1]));
    }
}

pub broadcast proof fn lemma_nls_last(s: Seq<char>)
    ensures #[trigger] nls(s) <= s.len(), nls(s) == 0 <==> last_idx(s, '\n') < 0,
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 { lemma_nls_last(s.drop_last()); }
}

/// A location: line, column, byte offset.
pub struct LocV { pub line: nat, pub column: nat, pub offset: nat }

/// The location after the text `s` when it starts at `l`.
pub open spec fn loc_adv(l: LocV, s: Seq<char>) -> LocV {
    LocV {
        line: l.line + nls(s),
        column: if last_idx(s, '\n') >= 0 { (s.len() - last_idx(s, '\n')) as nat } else { l.column + s.len() },
        offset: l.offset + blen(s),
    }
}

pub open spec fn loc_start() -> LocV { LocV { line: 1, column: 1, offset: 0 } }

pub proof fn lemma_nls_cat(a: Seq<char>, b: Seq<char>)
    ensures nls(a + b) == nls(a) + nls(b),
    decreases b.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_nls_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}

pub proof fn lemma_last_idx_cat(a: Seq<char>, b: Seq<char>, c: char)
    ensures last_idx(a + b, c) == if last_idx(b, c) >= 0 { a.len() + last_idx(b, c) } else { last_idx(a, c) },
    decreases b.len(),
{
    reveal(last_idx);
    let ab = a + b;
    if b.len() == 0 {
        assert(ab =~= a);
    } else {
        lemma_last_idx_cat(a, b.drop_last(), c);
        assert(ab.drop_last() =~= a + b.drop_last());
        assert(ab.last() == b.last());
        assert(ab.len() == a.len() + b.len());
        if b.last() == c {
            assert(last_idx(ab, c) == ab.len() - 1);
        } else {
            assert(last_idx(ab, c) == last_idx(a + b.drop_last(), c));
            assert(last_idx(b, c) == last_idx(b.drop_last(), c));
        }
    }
}

/// Advancing in two steps is advancing at once: locations only depend on the text before them.
pub proof fn lemma_loc_adv_cat(l: LocV, a: Seq<char>, b: Seq<char>)
    ensures loc_adv(loc_adv(l, a), b) == loc_adv(l, a + b),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_blen_cat(a, b);
    lemma_nls_cat(a, b);
    lemma_last_idx_cat(a, b, '\n');
    lemma_last_idx(a, '\n');
    lemma_last_idx(b, '\n');
}

/// lines and columns never exceed the offset by more than one
pub open spec fn loc_inv(l: LocV) -> bool { l.line <= l.offset + 1 && l.column <= l.offset + 1 && l.line >= 1 }

pub broadcast proof fn lemma_loc_bounds(l: LocV, s: Seq<char>)
    requires loc_inv(l),
    ensures loc_inv(#[trigger] loc_adv(l, s)), loc_adv(l, s).offset == l.offset + blen(s),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_nls_last(s);
    lemma_last_idx(s, '\n');
    lemma_blen_ge(s);
}

/// no `str` is longer than an allocation can be (trusted: a fact about Rust's memory model)
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures blen(#[trigger] s@) <= isize::MAX;

// ---------------------------------------------------------------- names and white space

pub open spec fn is_ascii_c(c: char) -> bool { (c as u32) < 128 }

pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ascii_c(#[trigger] s[i]) }

/// Unicode White_Space
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9 <= n && n <= 13) || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680 || (0x2000 <= n && n <= 0x200A)
        || n == 0x2028 || n == 0x2029 || n == 0x202F || n == 0x205F || n == 0x3000
}

pub open spec fn lower(c: char) -> u32 {
    if 65 <= c as u32 && c as u32 <= 90 { (c as u32 + 32) as u32 } else { c as u32 }
}

pub open spec fn lower_eq(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i])
}

/// equality of names
pub open spec fn name_eq(a: Seq<char>, b: Seq<char>) -> bool {
    is_ascii(a) && is_ascii(b) && lower_eq(a, b)
}

pub proof fn lemma_name_eq_refl(a: Seq<char>)
    requires is_ascii(a),
    ensures name_eq(a, a),
{}
pub proof fn lemma_name_eq_sym(a: Seq<char>, b: Seq<char>)
    ensures name_eq(a, b) == name_eq(b, a),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if name_eq(a, b) { assert forall|i: int| 0 <= i < b.len() implies lower(#[trigger] b[i]) == lower(a[i]) by { assert(lower(a[i]) == lower(b[i])); } }
    if name_eq(b, a) { assert forall|i: int| 0 <= i < a.len() implies lower(#[trigger] a[i]) == lower(b[i]) by { assert(lower(b[i]) == lower(a[i])); } }
}
pub proof fn lemma_name_eq_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires name_eq(a, b), name_eq(b, c),
    ensures name_eq(a, c),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert forall|i: int| 0 <= i < a.len() implies lower(#[trigger] a[i]) == lower(c[i]) by { assert(lower(b[i]) == lower(c[i])); }
}

pub open spec fn forbidden() -> Seq<char> { seq!['=', '"', '/', '>', '<', '&', ',', ';'] }

pub enum IdErrV { Empty, NotAscii, Whitespace(char), Forbidden(char) }

/// the first white space character, or the length
#[verifier::opaque]
pub open spec fn idx_ws(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if is_ws(s[0]) { 0 } else { 1 + idx_ws(s.skip(1)) }
}

pub broadcast proof fn lemma_idx_ws(s: Seq<char>)
    ensures
        0 <= #[trigger] idx_ws(s) <= s.len(),
        idx_ws(s) < s.len() ==> is_ws(s[idx_ws(s)]),
        forall|i: int| 0 <= i < idx_ws(s) ==> !is_ws(#[trigger] s[i]),
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 && !is_ws(s[0]) {
        lemma_idx_ws(s.skip(1));
        assert forall|i: int| 0 <= i < idx_ws(s) implies !is_ws(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}

/// the verdict on a string used as an identifier
pub open spec fn id_check(s: Seq<char>) -> Option<IdErrV> {
    if s.len() == 0 { Some(IdErrV::Empty) }
    else if !is_ascii(s) { Some(IdErrV::NotAscii) }
    else if idx_ws(s) < s.len() { Some(IdErrV::Whitespace(s[idx_ws(s)])) }
    else if idx_set(s, forbidden()) < s.len() { Some(IdErrV::Forbidden(s[idx_set(s, forbidden())])) }
    else { None }
}

/// C02: the accepted strings are exactly the valid ones
pub proof fn lemma_id_check_exact(s: Seq<char>)
    ensures
        id_check(s) is None <==> s.len() > 0 && is_ascii(s)
            && (forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]))
            && (forall|i: int| 0 <= i < s.len() ==> !forbidden().contains(#[trigger] s[i])),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    lemma_idx_ws(s);
    lemma_idx_set(s, forbidden());
}

// ---------------------------------------------------------------- text encoding

pub open spec fn enc_chars() -> Seq<char> { seq!['&', '<', '>', '"'] }

pub open spec fn ent(c: char) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else { seq![c] }
}

#[verifier::opaque]
pub open spec fn enc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { enc(s.drop_last()) + ent(s.last()) }
}

pub proof fn lemma_enc_cat(a: Seq<char>, b: Seq<char>)
    ensures enc(a + b) == enc(a) + enc(b),
    decreases b.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(enc(a) + enc(b) =~= enc(a));
    } else {
        lemma_enc_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(enc(a) + enc(b.drop_last()) + ent(b.last()) =~= enc(a) + (enc(b.drop_last()) + ent(b.last())));
    }
}

pub proof fn lemma_enc_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !enc_chars().contains(#[trigger] s[i]),
    ensures enc(s) == s,
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !enc_chars().contains(#[trigger] s.drop_last()[i]) by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_enc_plain(s.drop_last());
        let c = s[s.len() - 1];
        assert(!enc_chars().contains(c));
        assert(enc_chars()[0] == '&' && enc_chars()[1] == '<' && enc_chars()[2] == '>' && enc_chars()[3] == '"');
        assert(s =~= s.drop_last() + ent(c));
    } else {
        assert(enc(s) =~= s);
    }
}

pub proof fn lemma_enc_one(c: char)
    ensures enc(seq![c]) == ent(c),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(seq![c].drop_last() =~= Seq::empty());
    assert(enc(seq![c].drop_last()) =~= Seq::empty());
    assert(Seq::<char>::empty() + ent(c) =~= ent(c));
}

pub proof fn lemma_enc_ch(c: char)
    ensures enc_chars().contains(c) <==> (c == '&' || c == '<' || c == '>' || c == '"'),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    assert(enc_chars()[0] == '&' && enc_chars()[1] == '<' && enc_chars()[2] == '>' && enc_chars()[3] == '"');
}

/// what encoding does up to and including the first special character
pub broadcast proof fn lemma_enc_step(s: Seq<char>, cs: Seq<char>)
    requires cs == enc_chars(),
    ensures
        #![trigger idx_set(s, cs)]
        idx_set(s, cs) >= s.len() ==> enc(s) == s,
        idx_set(s, cs) < s.len() ==> {
            let k = idx_set(s, cs);
            enc(s) == s.take(k) + (ent(s[k]) + enc(s.skip(k).skip(1))) && s.skip(k)[0] == s[k]
        },
{
    lemma_idx_set(s, cs);
    let k = idx_set(s, cs);
    if k < s.len() {
        let a = s.take(k);
        let b = s.skip(k);
        assert(s =~= a + b);
        assert(b =~= seq![b[0]] + b.skip(1));
        lemma_enc_cat(a, b);
        lemma_enc_cat(seq![b[0]], b.skip(1));
        lemma_enc_one(b[0]);
        assert forall|i: int| 0 <= i < a.len() implies !enc_chars().contains(#[trigger] a[i]) by { assert(a[i] == s[i]); }
        lemma_enc_plain(a);
    } else {
        lemma_enc_plain(s);
    }
}

pub broadcast proof fn lemma_enc_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] enc(s) == Seq::<char>::empty(),
{
    reveal(enc);
}

/// concatenations are normalised to the right
pub broadcast proof fn lemma_cat_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

pub broadcast proof fn lemma_cat_empty_l<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0,
    ensures #[trigger] (a + b) == b,
{
    assert(a + b =~= b);
}

pub broadcast proof fn lemma_cat_empty_r<T>(a: Seq<T>, b: Seq<T>)
    requires b.len() == 0,
    ensures #[trigger] (a + b) == a,
{
    assert(a + b =~= a);
}

pub broadcast group group_cat { lemma_cat_assoc, lemma_cat_empty_l, lemma_cat_empty_r }

/// C01: encoded text contains no markup characters
pub proof fn lemma_enc_safe(s: Seq<char>)
    ensures forall|i: int| 0 <= i < enc(s).len() ==> #[trigger] enc(s)[i] != '<' && enc(s)[i] != '>' && enc(s)[i] != '"',
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() > 0 {
        lemma_enc_safe(s.drop_last());
        let a = enc(s.drop_last());
        assert forall|i: int| 0 <= i < enc(s).len() implies #[trigger] enc(s)[i] != '<' && enc(s)[i] != '>' && enc(s)[i] != '"' by {
            if i < a.len() { assert(enc(s)[i] == a[i]); } else { assert(enc(s)[i] == ent(s.last())[i - a.len()]); }
        }
    }
}

/// replaces the four entities, left to right
pub open spec fn dec(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if starts(s, ent('&')) { seq!['&'] + dec(s.skip(5)) }
    else if starts(s, ent('<')) { seq!['<'] + dec(s.skip(4)) }
    else if starts(s, ent('>')) { seq!['>'] + dec(s.skip(4)) }
    else if starts(s, ent('"')) { seq!['"'] + dec(s.skip(6)) }
    else { seq![s[0]] + dec(s.skip(1)) }
}

/// C01: replacing the entities back gives the original text
pub proof fn lemma_dec_enc(s: Seq<char>)
    ensures dec(enc(s)) == s,
    decreases s.len(),
{
    reveal(blen);reveal(nls);reveal(last_idx);reveal(idx_set);reveal(idx_str);reveal(idx_ws);reveal(count_true);reveal(first_true);reveal(enc);
    if s.len() == 0 {
        assert(dec(enc(s)) =~= s);
    } else {
        let c = s[0];
        let r = s.skip(1);
        lemma_dec_enc(r);
        lemma_enc_cat(seq![c], r);
        lemma_enc_one(c);
        assert(seq![c] + r =~= s);
        let e = enc(s);
        assert(e == ent(c) + enc(r));
        assert(e.skip(ent(c).len() as int) =~= enc(r));
        assert(e.take(ent(c).len() as int) =~= ent(c));
        if c == '&' || c == '<' || c == '>' || c == '"' {
            assert(starts(e, ent(c)));
            // the four entities differ in their second character
            if c != '&' { assert(e[1] == ent(c)[1]); if starts(e, ent('&')) { assert(e.take(5)[1] == e[1]); } }
            if c != '<' { assert(e[1] == ent(c)[1]); if starts(e, ent('<')) { assert(e.take(4)[1] == e[1]); } }
            if c != '>' { assert(e[1] == ent(c)[1]); if starts(e, ent('>')) { assert(e.take(4)[1] == e[1]); } }
            assert(dec(e) == seq![c] + dec(enc(r)));
        } else {
            assert(e[0] == c);
            if starts(e, ent('&')) { assert(e.take(5)[0] == e[0]); }
            if starts(e, ent('<')) { assert(e.take(4)[0] == e[0]); }
            if starts(e, ent('>')) { assert(e.take(4)[0] == e[0]); }
            if starts(e, ent('"')) { assert(e.take(6)[0] == e[0]); }
            assert(dec(e) == seq![e[0]] + dec(e.skip(1)));
        }
        assert(dec(e) =~= s);
    }
}

} // verus!
}
