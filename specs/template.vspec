@@ mod template
#[allow(unused_imports)] use crate::shim::fmt::Sink;
pub open spec fn evs(s: Seq<event::Event>) -> Seq<EvV> { Seq::new(s.len(), |i: int| s[i].v()) }
impl Template {
    pub open spec fn v(self) -> Seq<EvV> { evs(self.events@) }
}
impl TemplateStream {
    /// the events not produced yet
    pub open spec fn left(self) -> Seq<EvV> { if self.index <= self.events@.len() { evs(self.events@).skip(self.index as int) } else { Seq::empty() } }
}
/// the parser at the start of a text
pub open spec fn parse_start(s: Seq<char>, o: parse::Options) -> StateV {
    StateV { r: InputV { s, l: loc_start() }, m: ModeV::Data, st: Seq::empty(), limit: match o.max_stack_depth { Some(l) => Some(l as nat), None => None } }
}
pub open spec fn too_long(n: nat, o: parse::Options) -> bool { match o.max_input_len { Some(l) => n > l, None => false } }
/// what loading the text has to give
pub open spec fn loaded(s: Seq<char>, o: parse::Options, r: Result<Template, InputError>) -> bool {
    if too_long(blen(s), o) { r == Err::<Template, InputError>(InputError::LengthLimitExceeded { limit: o.max_input_len->Some_0 }) }
    else {
        match r {
            Ok(t) => verdict(s_run(parse_start(s, o))) == Ok::<Seq<EvV>, ErrV>(t.v()),
            Err(InputError::Parse { error }) => verdict(s_run(parse_start(s, o))) == Err::<Seq<EvV>, ErrV>(error.v()),
            Err(_) => false,
        }
    }
}
/// what loading the bytes of a file has to give
pub open spec fn file_loaded(b: Seq<u8>, o: parse::Options, r: Result<Template, FileError>) -> bool {
    match r {
        Ok(t) => str::utf8_dec(b) is Some && loaded(str::utf8_dec(b)->Some_0, o, Ok(t)),
        Err(FileError::Input { error, .. }) =>
            if too_long(b.len(), o) { error == (InputError::LengthLimitExceeded { limit: o.max_input_len->Some_0 }) }
            else { str::utf8_dec(b) is Some && loaded(str::utf8_dec(b)->Some_0, o, Err(error)) },
        Err(FileError::Decode { .. }) => !too_long(b.len(), o) && str::utf8_dec(b) is None,
        // the operating system refused to open or to read the file
        Err(FileError::Open { .. }) => true,
        Err(FileError::Read { .. }) => true,
    }
}
/// the single element for a tag name
pub open spec fn element_v(n: Seq<char>) -> EvV { if is_void(n) { EvV::Void(n, Seq::empty()) } else { EvV::SelfClosed(n, Seq::empty()) } }
pub open spec fn element_of(r: Result<text::Identifier, text::IdentifierError>, t: Result<Template, text::IdentifierError>) -> bool {
    match r {
        Ok(n) => t is Ok && t->Ok_0.v() == seq![element_v(n@)],
        Err(e) => t == Err::<Template, text::IdentifierError>(e),
    }
}
/// C08: a file is loaded with the result its decoded text is loaded with
pub proof fn lemma_file_same(s: Seq<char>, b: Seq<u8>, o: parse::Options, f: Result<Template, FileError>, t: Result<Template, InputError>)
    requires
        str::utf8_dec(b) == Some(s), b.len() == blen(s), file_loaded(b, o, f), loaded(s, o, t),
        !(f is Err && (f->Err_0 is Open || f->Err_0 is Read)),
    ensures
        f is Ok <==> t is Ok,
        f is Ok ==> f->Ok_0.v() == t->Ok_0.v(),
        f is Err ==> f->Err_0 is Input && match (f->Err_0->Input_error, t->Err_0) {
            (InputError::LengthLimitExceeded { limit: a }, InputError::LengthLimitExceeded { limit: b }) => a == b,
            (InputError::Parse { error: a }, InputError::Parse { error: b }) => a.v() == b.v(),
            _ => false,
        },
{
}
pub broadcast proof fn lemma_collected<'i>(items: Seq<Result<EvV, ErrV>>, r: Result<Vec<event::Event>, parse::Error>)
    requires #[trigger] crate::shim::ext::collected::<event::Event, parse::Error, parse::Iter<'i>>(items, r),
    ensures match r {
        Ok(v) => verdict(items) == Ok::<Seq<EvV>, ErrV>(evs(v@)),
        Err(e) => verdict(items) == Err::<Seq<EvV>, ErrV>(e.v()),
    },
{
    match r {
        Ok(v) => {
            assert forall|k: int| 0 <= k < items.len() implies (#[trigger] items[k]) == Ok::<EvV, ErrV>(v@[k].v()) by { }
            lemma_verdict(items);
            assert(oks(items) =~= evs(v@));
        },
        Err(e) => {
            let (k, v) = choose|k: int, v: Seq<event::Event>| 0 <= k < items.len() && #[trigger] v.len() == k && #[trigger] items[k] == parse::item_is(Err(e))
                && forall|j: int| 0 <= j < k ==> #[trigger] items[j] == parse::item_is(Ok(v[j]));
            lemma_verdict_err(items, k);
        },
    }
}
@@ fn template::Template::from_str
@sig
    ensures loaded(input@, options, ret)
@start
    broadcast use lemma_collected;
@@ fn template::Template::with_element
@sig
    ensures exists|r: Result<text::Identifier, text::IdentifierError>| #[trigger] tag.ident_spec(r) && element_of(r, ret)
@start
    broadcast use event::group_avs;
@tail
    proof { assert(ret->Ok_0.v() =~= seq![ret->Ok_0.events@[0].v()]); }
@@ fn template::Template::to_stream
@sig
    ensures ret.left() == self.v(), ret.index == 0, ret.events == self.events
@@ impl template::<Display for Template>
    open spec fn disp(&self) -> Seq<char> { doc_disp(self.v()) }
@@ fn template::<Display for Template>::fmt
@loop 0
    invariant fmt.w_out() + doc_disp(evs(__it0.rest())) == old(fmt).w_out() + doc_disp(self.v()),
    ensures fmt.w_out() == old(fmt).w_out() + doc_disp(self.v()),
    decreases __it0.rest().len(),
@loopstart 0
    let ghost r0 = __it0.rest();
    let ghost w0 = fmt.w_out();
    proof {
        lemma_doc_disp(evs(r0));
        if r0.len() > 0 {
            assert(evs(r0).skip(1) =~= evs(r0.skip(1)));
            lemma_cat_assoc(w0, ev_disp(evs(r0)[0]), doc_disp(evs(r0.skip(1))));
        }
    }
@@ fn template::Template::from_file
@attr
    verifier::loop_isolation(false)
@attr
    verifier::allow_complex_invariants
@sig
    ensures file_loaded(path::file_bytes(path.as_ref_v()), options, ret)
@loop 0
    invariant_except_break
        bytes@ + buffer.left() == path::file_bytes(path),
        bytes@.len() <= limit,
    invariant
        limit == (match options.max_input_len { Some(l) => l, None => usize::MAX }),
    ensures
        bytes@ == path::file_bytes(path),
        bytes@.len() <= limit,
    decreases buffer.left().len(),
@loopstart 0
    proof { assert((bytes@ + buffer.left()).len() == path::file_bytes(path).len()); }
