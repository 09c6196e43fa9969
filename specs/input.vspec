@@ mod input
/// `r` is `x` split off and `i` left
pub open spec fn split_is<'i>(r: (&'i str, Input<'i>), x: (Seq<char>, InputV)) -> bool { r.0@ == x.0 && r.1.v() == x.1 && r.1.wf() }
pub open spec fn osplit_is<'i>(r: Option<(&'i str, Input<'i>)>, x: Option<(Seq<char>, InputV)>) -> bool {
    match (r, x) { (Some(r), Some(x)) => split_is(r, x), (None, None) => true, _ => false }
}
/// `check` refused every `c` before position `n`
pub open spec fn refused<'i>(v: InputV, c: char, check: spec_fn(Input<'i>, bool) -> bool, n: int) -> bool {
    forall|j: int| 0 <= j < n && #[trigger] v.s[j] == c ==> exists|i: Input<'i>| #[trigger] i.wf() && i.v() == adv(v, j) && check(i, false)
}
pub open spec fn oinput_is<'i>(r: Option<Input<'i>>, x: Option<InputV>) -> bool {
    match (r, x) { (Some(r), Some(x)) => r.v() == x && r.wf(), (None, None) => true, _ => false }
}
@@ impl input::Input
    pub open spec fn v(self) -> InputV { InputV { s: self.content@, l: self.location.v() } }
    pub open spec fn wf(self) -> bool { inp_wf(self.v()) }
@@ fn input::Input::new
@sig
    ensures ret.v() == (InputV { s: content@, l: loc_start() }), ret.wf()
@start
    broadcast use axiom_str_len;
@@ fn input::Input::is_empty
@sig
    ensures ret == (self.v().s.len() == 0)
@@ fn input::Input::end
@sig
    requires self.wf(),
    ensures ret.v() == adv(self.v(), self.v().s.len() as int), ret.wf(), ret.v().s.len() == 0
@start
    broadcast use group_cidx;
@@ fn input::Input::location
@sig
    ensures ret == self.location
@@ fn input::Input::consumed
@sig
    requires self.wf(), bnd(self.v().s, len as int),
    ensures split_is(ret, p_at(self.v(), cidx(self.v().s, len as int)))
@@ fn input::Input::consume_rest
@sig
    requires self.wf(),
    ensures split_is(ret, p_at(self.v(), self.v().s.len() as int))
@start
    broadcast use group_cidx;
@@ fn input::Input::advanced
@sig
    requires self.wf(), bnd(self.v().s, len as int),
    ensures ret.v() == adv(self.v(), cidx(self.v().s, len as int)), ret.wf()
@start
    broadcast use group_cidx, lemma_adv_wf;
@@ fn input::Input::take_all
@sig
    requires self.wf(),
    ensures split_is(ret, p_at(self.v(), self.v().s.len() as int))
@@ fn input::Input::take_until_str
@sig
    requires self.wf(),
    ensures osplit_is(ret, p_until_str(self.v(), end@))
@start
    broadcast use group_cidx, lemma_idx_str;
@@ fn input::Input::take_until_char
@sig
    requires self.wf(),
    ensures osplit_is(ret, p_until_char(self.v(), end))
@start
    broadcast use group_cidx, lemma_idx_set;
@@ fn input::Input::take_str
@sig
    requires self.wf(),
    ensures oinput_is(ret, p_str(self.v(), pat@))
@start
    broadcast use group_cidx, lemma_blen_prefix;
@@ fn input::Input::take_char
@sig
    requires self.wf(),
    ensures oinput_is(ret, p_char(self.v(), chr))
@start
    broadcast use group_cidx;
@@ fn input::Input::skip_whitespace
@sig
    requires self.wf(),
    ensures ret.v() == ws(self.v()), ret.wf()
@start
    broadcast use group_cidx, lemma_ws_len;
@@ fn input::Input::take_word
@sig
    requires self.wf(),
    ensures osplit_is(ret, p_word(self.v()))
@start
    broadcast use group_cidx, lemma_idx_set;
@@ fn input::Input::try_take_exact_identifier
@sig
    requires self.wf(),
    ensures match (ret, p_exact(self.v(), identifier@)) {
        (Some(r), Some(x)) => r.0@ == x.0 && r.1.v() == x.1 && r.1.wf(),
        (None, None) => true,
        _ => false,
    }
@@ fn input::Input::take_identifier
@sig
    requires self.wf(),
    ensures match (ret, p_ident(self.v())) {
        (Ok(Some(r)), Ok(Some(x))) => r.0@ == x.0 && r.1.v() == x.1 && r.1.wf(),
        (Ok(None), Ok(None)) => true,
        (Err(e), Err(x)) => e.v() == x,
        _ => false,
    }
@@ fn input::Input::take_until_end_char
@sig
    requires self.wf(), forall|i: Input<'i>| i.wf() ==> #[trigger] check.requires((i,)),
    ensures
        match ret {
            Some(r) => exists|k: int| 0 <= k < self.v().s.len() && #[trigger] self.v().s[k] == chr && split_is(r, p_at(self.v(), k))
                && (exists|i: Input<'i>| #[trigger] i.wf() && i.v() == adv(self.v(), k) && check.ensures((i,), true))
                && refused(self.v(), chr, |i: Input<'i>, b: bool| check.ensures((i,), b), k),
            None => refused(self.v(), chr, |i: Input<'i>, b: bool| check.ensures((i,), b), self.v().s.len() as int),
        }
@start
    broadcast use group_cidx, lemma_idx_set;
@loop 0
    invariant self.wf(), forall|i: Input<'i>| i.wf() ==> #[trigger] check.requires((i,)),
        __it0.s() == self.v().s, __it0.c() == chr, 0 <= __it0.pos() <= self.v().s.len(),
        refused(self.v(), chr, |i: Input<'i>, b: bool| check.ensures((i,), b), __it0.pos()),
    ensures refused(self.v(), chr, |i: Input<'i>, b: bool| check.ensures((i,), b), self.v().s.len() as int),
    decreases self.v().s.len() - __it0.pos(),
@loopstart 0
    broadcast use lemma_mi_next, group_cidx;
