@@ mod event
#[allow(unused_imports)] use crate::shim::fmt::Sink;
impl Attribute {
    pub open spec fn v(self) -> AttrV { AttrV { name: self.name@, value: match self.value { Some(x) => Some(x@), None => None } } }
}
pub open spec fn avs(s: Seq<Attribute>) -> Seq<AttrV> { Seq::new(s.len(), |i: int| s[i].v()) }
pub broadcast proof fn lemma_avs_push(s: Seq<Attribute>, a: Attribute)
    ensures #[trigger] avs(s.push(a)) == avs(s).push(a.v()),
{ assert(avs(s.push(a)) =~= avs(s).push(a.v())); }
pub broadcast proof fn lemma_avs_skip(s: Seq<Attribute>, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] avs(s.skip(k)) == avs(s).skip(k),
{ assert(avs(s.skip(k)) =~= avs(s).skip(k)); }
pub broadcast proof fn lemma_avs_empty(s: Seq<Attribute>)
    requires s.len() == 0,
    ensures #[trigger] avs(s) == Seq::<AttrV>::empty(),
{ assert(avs(s) =~= Seq::empty()); }
pub broadcast group group_avs { lemma_avs_push, lemma_avs_skip, lemma_avs_empty, lemma_push_cat, lemma_cat_empty_l, lemma_cat_empty_r }
impl Attributes {
    pub open spec fn v(self) -> Seq<AttrV> { avs(self.items@) }
}
impl EventKind {
    pub open spec fn v(self) -> EvV {
        match self {
            EventKind::Noop => EvV::Noop,
            EventKind::Doctype { content } => EvV::Doctype(content@),
            EventKind::Comment { content } => EvV::Comment(content@),
            EventKind::Data { content } => EvV::Data(content@),
            EventKind::RawData { content } => EvV::Raw(content@),
            EventKind::OpeningTag { tag, attributes } => EvV::Open(tag@, attributes.v()),
            EventKind::ClosingTag { tag } => EvV::Close(tag@),
            EventKind::SelfClosedTag { tag, attributes } => EvV::SelfClosed(tag@, attributes.v()),
            EventKind::VoidTag { tag, attributes } => EvV::Void(tag@, attributes.v()),
        }
    }
}
impl Event {
    pub open spec fn v(self) -> EvV { self.0.v() }
}
@@ fn event::Event::element_tag_start
@sig
    ensures match ret { Some(t) => ev_tag(self.v()) == Some(t@), None => ev_tag(self.v()) is None }
@@ fn event::Event::attributes
@sig
    ensures match ret { Some(a) => ev_attrs(self.v()) == Some(a.v()), None => ev_attrs(self.v()) is None }
@@ fn event::Event::is_opening_tag_for
@sig
    ensures ret == (self.v() is Open && name_eq(self.v()->Open_0, tag_name@))
@@ fn event::Event::is_closing_tag_for_str
@sig
    ensures ret == (self.v() is Close && name_eq(self.v()->Close_0, tag_name@))
@@ fn event::Event::is_closing_tag_for
@sig
    ensures ret == (self.v() is Close && name_eq(self.v()->Close_0, tag_name@))
@@ fn event::Event::closing_tag_name
@sig
    ensures match ret { Some(t) => self.0 == EventKind::ClosingTag { tag: *t } && self.v() == EvV::Close(t@), None => !(self.v() is Close) }
@@ fn event::Event::opening_tag_name
@sig
    ensures match ret { Some(t) => self.v() is Open && self.v()->Open_0 == t@, None => !(self.v() is Open) }
@@ fn event::noop
@sig
    ensures ret == Event(EventKind::Noop), ret.v() == EvV::Noop
@@ fn event::void
@sig
    ensures ret == Event(EventKind::VoidTag { tag, attributes }), ret.v() == EvV::Void(tag@, attributes.v())
@@ fn event::open
@sig
    ensures ret == Event(EventKind::OpeningTag { tag, attributes }), ret.v() == EvV::Open(tag@, attributes.v())
@@ fn event::self_closed
@sig
    ensures ret == Event(EventKind::SelfClosedTag { tag, attributes }), ret.v() == EvV::SelfClosed(tag@, attributes.v())
@@ fn event::close
@sig
    ensures ret == Event(EventKind::ClosingTag { tag }), ret.v() == EvV::Close(tag@)
@@ fn event::data
@sig
    ensures ret == Event(EventKind::Data { content }), ret.v() == EvV::Data(content@)
@@ fn event::raw_data
@sig
    ensures ret == Event(EventKind::RawData { content }), ret.v() == EvV::Raw(content@)
@@ fn event::doctype
@sig
    ensures ret == Event(EventKind::Doctype { content }), ret.v() == EvV::Doctype(content@)
@@ fn event::comment
@sig
    ensures ret == Event(EventKind::Comment { content }), ret.v() == EvV::Comment(content@)
@@ impl event::<Display for Event>
    open spec fn disp(&self) -> Seq<char> { ev_disp(self.v()) }
@@ fn event::<Display for Event>::fmt
@start
    broadcast use group_cat;
@@ impl event::<Display for TagDisplay>
    open spec fn disp(&self) -> Seq<char> { tag_disp(self.tag@, self.attributes.v()) }
@@ fn event::<Display for TagDisplay>::fmt
@start
    broadcast use group_cat;
@@ fn event::Attributes::new
@sig
    ensures ret.v() == avs(attributes@)
@@ fn event::Attributes::add_to_attribute
@sig
    ensures ret.v() == a_add_to(self.v(), name@, new_value@, separator@)
@start
    broadcast use group_avs;
@loop 0
    invariant_except_break iter.rest() == self.items@, attributes@.len() == 0,
    ensures a_add_to(self.v(), name@, new_value@, separator@) == avs(attributes@) + avs(iter.rest()),
    decreases 0int,
@loopstart 0
    broadcast use group_avs;
@loop 1
    invariant avs(attributes@) + a_add_to(avs(iter.rest()), name@, new_value@, separator@) == a_add_to(self.v(), name@, new_value@, separator@),
    ensures avs(attributes@).push(AttrV { name: name@, value: Some(new_value@) }) == a_add_to(self.v(), name@, new_value@, separator@),
    decreases iter.rest().len(),
@loopstart 1
    proof { lemma_a_add_to(avs(iter.rest()), name@, new_value@, separator@); }
    broadcast use group_avs;
@loop 2
    invariant avs(attributes@) + avs(__it2.rest()) == a_add_to(self.v(), name@, new_value@, separator@),
    ensures avs(attributes@) == a_add_to(self.v(), name@, new_value@, separator@),
    decreases __it2.rest().len(),
@loopstart 2
    broadcast use group_avs;
@@ fn event::Attributes::replace_attribute
@sig
    ensures ret.v() == a_replace(self.v(), name@, match value { Some(x) => Some(x@), None => None })
@start
    broadcast use group_avs;
@loop 0
    invariant avs(attributes@) + a_without(avs(__it0.rest()), name@) == a_without(self.v(), name@),
    ensures avs(attributes@) == a_without(self.v(), name@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_without(avs(__it0.rest()), name@); }
    broadcast use group_avs;
@@ fn event::Attributes::add_attribute
@sig
    ensures ret.v() == self.v().push(AttrV { name: name@, value: match value { Some(x) => Some(x@), None => None } })
@start
    broadcast use group_avs;
@@ fn event::Attributes::remove_attribute
@sig
    ensures ret.v() == a_without(self.v(), name@)
@start
    broadcast use group_avs;
@loop 0
    invariant avs(attributes@) + a_without(avs(__it0.rest()), name@) == a_without(self.v(), name@),
    ensures avs(attributes@) == a_without(self.v(), name@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_without(avs(__it0.rest()), name@); }
    broadcast use group_avs;
@@ fn event::Attributes::set_attribute
@sig
    ensures ret.v() == a_set(self.v(), name@, match value { Some(x) => Some(x@), None => None })
@start
    broadcast use group_avs;
@loop 0
    invariant avs(attributes@) + a_without(avs(__it0.rest()), name@) == a_without(self.v(), name@),
    ensures avs(attributes@) == a_without(self.v(), name@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_without(avs(__it0.rest()), name@); }
    broadcast use group_avs;
@@ fn event::Attributes::remove_class
@sig
    ensures ret.v() == a_rm_class(self.v(), name@)
@start
    broadcast use group_avs;
    proof { if !a_has_class(self.v(), name@) { lemma_a_rm_class_none(self.v(), name@); } }
@loop 0
    invariant avs(attributes@) + a_rm_class(avs(__it0.rest()), name@) == a_rm_class(self.v(), name@),
    ensures avs(attributes@) == a_rm_class(self.v(), name@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_rm_class(avs(__it0.rest()), name@); }
    broadcast use group_avs;
@@ fn event::Attributes::has_class
@sig
    ensures ret == a_has_class(self.v(), name@)
@start
    broadcast use group_avs;
@loop 0
    invariant a_has_class(avs(__it0.rest()), name@) == a_has_class(self.v(), name@),
    ensures !a_has_class(self.v(), name@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_has_class(avs(__it0.rest()), name@); }
    broadcast use group_avs;
@@ fn event::Attributes::has_id
@sig
    ensures ret == a_has_id(self.v(), id@)
@start
    broadcast use group_avs;
@loop 0
    invariant a_has_id(avs(__it0.rest()), id@) == a_has_id(self.v(), id@),
    ensures !a_has_id(self.v(), id@),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_a_has_id(avs(__it0.rest()), id@); }
    broadcast use group_avs;
    proof { reveal_strlit("id"); }
@@ impl event::<Display for Attributes>
    open spec fn disp(&self) -> Seq<char> { attrs_disp_from(self.v(), true) }
@@ fn event::<Display for Attributes>::fmt
@start
    broadcast use group_avs;
@loop 0
    invariant fmt.w_out() + attrs_disp_from(avs(__it0.rest()), first) == old(fmt).w_out() + attrs_disp_from(self.v(), true),
    ensures fmt.w_out() == old(fmt).w_out() + attrs_disp_from(self.v(), true),
    decreases __it0.rest().len(),
@loopstart 0
    proof { lemma_attrs_disp(avs(__it0.rest()), first); }
    broadcast use group_avs;
    proof { reveal_strlit(" "); }
@@ impl event::<Iterator for Classes>
    type V = Seq<char>;
    open spec fn inv(&self) -> bool { self.iter.inv() && forall|i: int| 0 <= i < self.iter.items().len() ==> (#[trigger] self.iter.items()[i]).len() > 0 }
    open spec fn item_v(i: &'s str) -> Seq<char> { i@ }
    open spec fn items(&self) -> Seq<Seq<char>> { self.iter.items() }
@@ fn event::<Iterator for Classes>::next
@loop 0
    invariant self.inv(), self.items() == old(self).items(),
    decreases self.iter.items().len(),
@@ fn event::Attribute::new
@sig
    ensures ret.v() == (AttrV { name: name@, value: match value { Some(x) => Some(x@), None => None } })
@@ fn event::Attribute::classes
@sig
    ensures match ret { Some(c) => c.inv() && attr_classes(self.v()) == Some(c.items()), None => attr_classes(self.v()) is None }
@start
    proof { if self.value is Some { lemma_words(self.value->0@); } assert("class"@ =~= class_name()); }
@@ fn event::Attribute::has_class
@sig
    ensures ret == attr_has_class(self.v(), name@)
@start
@loop 0
    invariant __it0.inv(), has_word(__it0.items(), name@) == attr_has_class(self.v(), name@),
    ensures !attr_has_class(self.v(), name@),
    decreases __it0.items().len(),
@loopstart 0
    proof { lemma_has_word(__it0.items(), name@); }
@@ fn event::Attribute::remove_class
@sig
    ensures match ret { Some(a) => attr_rm_class(self.v(), name@) == Some(a.v()), None => attr_rm_class(self.v(), name@) is None }
@@ fn event::Attribute::remove_class/make_without
@sig
    ensures match ret {
        Some(v) => attr_has_class(attribute.v(), name@) && v@ == join_without(Seq::empty(), attr_classes(attribute.v())->Some_0, name@),
        None => !attr_has_class(attribute.v(), name@),
    }
@start
    broadcast use group_cat;
@loop 0
    invariant __it0.inv(), join_without(new_classes@, __it0.items(), name@) == join_without(Seq::empty(), attr_classes(attribute.v())->Some_0, name@),
    ensures new_classes@ == join_without(Seq::empty(), attr_classes(attribute.v())->Some_0, name@),
    decreases __it0.items().len(),
@loopstart 0
    proof { lemma_join_without(new_classes@, __it0.items(), name@); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
    broadcast use group_cat;
@@ impl event::<Display for Attribute>
    open spec fn disp(&self) -> Seq<char> { attr_disp(self.v()) }
@@ fn event::<Display for Attribute>::fmt
@start
    broadcast use group_cat;
