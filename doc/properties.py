"""Per property: how the family decides it here. Used by tools/mkdesign.py."""
P = {
"C01": ("Contracts on the text constructors and conversions (`text::data`, `text::value`, `text::encoded`, `text::deferred`): the rendered form is `enc(s)`. Lemmas: `lemma_enc_safe` (no markup characters in `enc(s)`), `lemma_dec_enc` (decoding gives `s` back).",
        "Insertion of the text into templates goes through the transform machinery, which the finder runs."),
"C02": ("`text::identifier`: every constructor returns exactly `id_check(s)`; `lemma_id_check_exact` states the classification.", "Names handed to attribute operations, run by the finder."),
"C03": ('`PartialEq` of identifiers, `is_eq` of encoded text, the tag tests of `event::Event` and the void and raw-text tag tables of `parse.rs` are `name_eq`; reflexivity, symmetry and transitivity are lemmas.',
        'The finder compares pairs and triples of names through every route.'),
"C04": ('`location.rs`, `input.rs` and the whole of `parse.rs` are under contract: the parser is `s_run`, a specification over sequences of characters in which a location is `loc_adv` of the consumed prefix. `lemma_loc_adv_cat` (pieces compose), `lemma_loc_bounds` (counts are exact) and `lemma_run_locations` (every location in an error of a run is the location of a position in the input).',
        'The finder recomputes locations from byte offsets.'),
"C05": ('Every function of `input.rs`, `location.rs` and `parse.rs` verifies with no precondition on the text: no panic, no overflow (usize checked exactly, using `axiom_str_len`), no slice off a character boundary, every loop with a decreasing measure; `Iter::next` is `s_next`, whose run terminates (`lemma_parse_progress`: every step consumes input, leaves raw-text mode or ends).',
        'The finder runs hostile input with a watchdog.'),
"C06": ('The parser is equal to a grammar `s_run` over sequences of characters (contracts of every `take_*` and `try_parse_*`); `lemma_verbatim`: a text that parses without an error is the concatenation of what is `written` for its events, one after the other, where `written` is a second, declarative description (the characters of text, comment, raw text, names and attribute values themselves; blanks only between the tokens of a tag; the slash; the doctype keyword in any case). Rendering is `doc_disp`; `lemma_roundtrip`: parsing `doc_disp` of the events of a run without an error gives the same events without an error (by `lemma_canon`: the parser only produces events that can be parsed again, in an order in which they can, and `lemma_reparse`: such a balanced sequence is what its rendering parses to). The lemma excludes elements whose name starts with `!`, which is the known finding.',
        'Reference parser and re-parsing.'),
"C07": ('`Template::from_str` returns `verdict(s_run(text))`; `lemma_run_balanced`: if a run has no error its events are balanced with matching names; the error items of `s_next` carry the offending tags and locations. The text of the messages goes through `write!`, which the verifier cannot read: the finder compares it with the error (bounded).',
        'Reference parser.'),
"C08": ('`from_str` rejects for length exactly when `blen(text) > limit`; `lemma_depth_limit`: the first event opening more than d elements is where the depth error is; `from_file` is under contract with a loop invariant over the bytes read (`lemma_file_same`).',
        'Inputs around the limits, files around buffer boundaries. The operating system (`File::open`, `BufReader`) is the assumed contract of the shim: reads may be of any size, give the bytes of the file in order.'),
"C09": ("Every `Selector` impl of `select.rs` is under contract: `matches` is `sel` of the event (`id_sel`, `tag_sel`, `class_sel`, `classes_sel`, and for the static form the conjunction over its parts); `into_selector` of a string is `static_res`: the parts are where `static_parts` says, each checked by `id_check` in order; `lemma_static_whole`: the parts are the whole text and do not overlap. `has_id`, `has_class` and the white-space separated `Classes` iterator of `event.rs` are under contract over `words`.",
        "Independent matcher."),
"C10": ("All of `event::Attributes` is under contract (`a_without`, `a_set`, `a_add_to`, `a_rm_class` …) with frame lemmas; every stream of `modifier/attribute.rs` has a step contract (`attr_step`), and by induction over the run `lemma_remove_class` … `lemma_add_to_attribute`: the first event's attributes are changed by the named modification, every other event is the source's, in order. The `Api` methods return these streams with the identifier that was given (`lemma_named`: an invalid one is the stream's error).",
        'List model of attributes on whole transforms.'),
"C11": ("Every `Stream` impl of the combinators is under contract (`trans(before, after, result)`, `done`), checked against its source's contract only. `lemma_run` lifts a step relation to whole runs; with it `lemma_prepend`, `lemma_append`, `lemma_replace`, `lemma_remove`, `lemma_combine`, `lemma_either`, `lemma_apply`, `lemma_expand`, `lemma_template_run` state the sequences: new then original, original then new, new only, nothing, each event once and unchanged. `SelectContent`, `CurrentContent` and the content forms have step contracts (`content_step`, `current_step`) over the shared cell's history; `lemma_append_contents`, `lemma_prepend_contents`, `lemma_replace_contents`, `lemma_remove_contents`: the output of a content form that does not fail is the opening tag, then the content and the new events in the order the form says (new only, or nothing), then the closing tag, or the void element alone; `lemma_current_content`: the content is nested, is read from the source in order, and ends exactly where the source has the closing tag of the element next.",
        "Tree model. The content forms read the element through an `Rc<RefCell<_>>`; that nobody else uses the cell in between is an assumption (`event::lemma_alone`: then no event is left out), which the tree model checks on generated programs."),
"C12": ("`Select`, `SelectOnce`, `SelectContent`, `SingleElement`, `Peek` and the four select streams have step contracts: `select_step`, `select_once_step` (a matching opening event in the right level starts an element, hands it to the builder and streams what that yields; anything else passes), `current_step` and `end_seen` (the element ends with its own closing tag by level counting); matching itself is C09's `sel`. `lemma_select`, `lemma_select_once`, `lemma_element`: the output of a whole run is a sequence of pieces, each an event of the source that is not selected, where it was, or everything that the stream made by the builder for a selected event yields; that stream was made of the event followed by the source's events up to and including its closing tag (`element_run`), the builder being called once per selected event, in order; `once`: nothing before the first selected event is selected and the rest is the source as it is; `direct`: `incl(level)` is level 0. The eight select forms are corollaries (`lemma_select_any` … `lemma_sub_direct_once`, the latter over the content only).",
        "Tree model with counting transforms. The element reads the source through an `Rc<RefCell<_>>`; that nobody else uses it in between is an assumption (`event::lemma_alone`), which the tree model checks on generated programs."),
"C13": ("Every `Stream` impl states when it yields an error: a result of the source (or of the builder) that is an error is the stream's result, and `done` (after an end or error the next result is `None`) is part of the trait's contract and proved for every impl (`State`, the `Fallible`, `Expand`, `Combine`, `Select` … machines). `lemma_run` and the sequence lemmas say that a run with an end met no error. `Template::transform` returns the first error of the stream (`collected`). Constructors of `Api` put identifier and selector errors into the stream (`lemma_named`, `lemma_selecting`, `lemma_fallible`).",
        "Programs with failing parts; streams driven past their end."),
"C14": ("`Repeat`, `RepeatOrElse` and `RepeatContentStream` have step contracts; `lemma_repeat`, `lemma_repeat_content_stream`, `lemma_repeat_or_else` say for whole runs: the source is collected once, then copy i is what the builder made of item i and the collected template, in order, each run to its end; no items: nothing, or what the fallback made of the template; `lemma_repeat_contents`: the same between the tags of the element, of the template collected from its content. A template's stream is its events (`lemma_template_run`).",
        "Tree model of repetition, of the element and of its content."),
"C15": ('Every `Display` impl of events, attributes, text, locations and templates has the exact text it writes as contract (`ev_disp`, `doc_disp`), which the formatter model collects.',
        'Independent serialiser.'),
"C16": ("What is below the transforms: text and identifiers render to text without markup characters (C01, C02), `doc_disp`, the parser's grammar, and `lemma_reparse`: a balanced sequence of events each of which can be parsed from its rendering (`canon`) renders to text that parses to exactly these events. And combinator by combinator (`specs/balance.vspec`): a parsed template is balanced; its stream, `append`, `prepend`, `replace`, the attribute operations, opening up, `either`, applying a function to a template, a repetition, and the operations on the content of an element, given balanced parts, yield balanced events; an element cut out of a properly nested source at its closing tag is balanced, and so is its content; a selection from a properly nested source in which every selected element becomes something balanced is balanced.", "That the parts of a whole program meet the conditions of these lemmas (a shared source is properly nested where a handle reads it), and re-parsing of the outputs of random programs."),
}
