//! Tree model of templates and of what each operation does to them.
use crate::refparse::{name_eq, Attr, Ev};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Normal, SelfClosed, Void }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem { pub kind: Kind, pub open: String, pub close: String, pub attrs: Vec<Attr>, pub kids: Vec<Node> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node { Leaf(Ev), Elem(Elem) }

pub fn forest(evs: &[Ev]) -> Vec<Node> {
    let mut stack: Vec<(Elem, Vec<Node>)> = Vec::new();
    let mut cur: Vec<Node> = Vec::new();
    for e in evs {
        match e {
            Ev::Open(t, a) => {
                let el = Elem { kind: Kind::Normal, open: t.clone(), close: String::new(), attrs: a.clone(), kids: vec![] };
                stack.push((el, std::mem::replace(&mut cur, Vec::new())));
            },
            Ev::Close(t) => {
                let (mut el, outer) = stack.pop().expect("balanced");
                assert!(name_eq(&el.open, t), "balanced");
                el.close = t.clone();
                el.kids = std::mem::replace(&mut cur, outer);
                cur.push(Node::Elem(el));
            },
            Ev::SelfClosed(t, a) => cur.push(Node::Elem(Elem { kind: Kind::SelfClosed, open: t.clone(), close: t.clone(), attrs: a.clone(), kids: vec![] })),
            Ev::Void(t, a) => cur.push(Node::Elem(Elem { kind: Kind::Void, open: t.clone(), close: t.clone(), attrs: a.clone(), kids: vec![] })),
            x => cur.push(Node::Leaf(x.clone())),
        }
    }
    assert!(stack.is_empty(), "balanced");
    cur
}

fn render_attrs(attrs: &[Attr], out: &mut String) {
    for a in attrs {
        out.push(' ');
        out.push_str(&a.name);
        if let Some(v) = &a.value { out.push_str("=\""); out.push_str(v); out.push('"'); }
    }
}

pub fn render_into(ns: &[Node], out: &mut String) {
    for n in ns {
        match n {
            Node::Leaf(Ev::Doctype(t)) => { out.push_str("<!doctype "); out.push_str(t); out.push('>'); },
            Node::Leaf(Ev::Comment(t)) => { out.push_str("<!--"); out.push_str(t); out.push_str("-->"); },
            Node::Leaf(Ev::Data(t)) | Node::Leaf(Ev::Raw(t)) => out.push_str(t),
            Node::Leaf(_) => unreachable!(),
            Node::Elem(e) => {
                out.push('<');
                out.push_str(&e.open);
                render_attrs(&e.attrs, out);
                match e.kind {
                    Kind::SelfClosed => out.push_str(" />"),
                    Kind::Void => out.push('>'),
                    Kind::Normal => {
                        out.push('>');
                        render_into(&e.kids, out);
                        out.push_str("</");
                        out.push_str(&e.close);
                        out.push('>');
                    },
                }
            },
        }
    }
}

pub fn render(ns: &[Node]) -> String { let mut s = String::new(); render_into(ns, &mut s); s }

/// names of the elements, nested; used to compare structure after re-parsing
pub fn shape(ns: &[Node]) -> String {
    let mut s = String::new();
    for n in ns {
        if let Node::Elem(e) = n {
            s.push('(');
            s.push_str(&e.open.to_ascii_lowercase());
            s.push_str(&shape(&e.kids));
            s.push(')');
        }
    }
    s
}

pub fn encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

pub fn decode(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&")
}

fn has_class_attr(a: &Attr, class: &str) -> bool {
    name_eq(&a.name, "class") && a.value.as_ref().map_or(false, |v| v.split(char::is_whitespace).any(|w| !w.is_empty() && name_eq(w, class)))
}

pub fn has_class(attrs: &[Attr], class: &str) -> bool { attrs.iter().any(|a| has_class_attr(a, class)) }

pub fn has_id(attrs: &[Attr], id: &str) -> bool {
    attrs.iter().any(|a| name_eq(&a.name, "id") && a.value.as_ref().map_or(false, |v| name_eq(v, id)))
}

pub fn add_to(attrs: &mut Vec<Attr>, name: &str, value: &str, sep: &str) {
    for a in attrs.iter_mut() {
        if name_eq(&a.name, name) {
            a.value = Some(match a.value.take() { Some(v) => v + sep + value, None => value.to_string() });
            return;
        }
    }
    attrs.push(Attr { name: name.into(), value: Some(value.into()) });
}

pub fn remove(attrs: &mut Vec<Attr>, name: &str) -> bool {
    let n = attrs.len();
    attrs.retain(|a| !name_eq(&a.name, name));
    attrs.len() != n
}

pub fn remove_class(attrs: &mut Vec<Attr>, class: &str) {
    let mut out = Vec::new();
    for mut a in attrs.drain(..) {
        if has_class_attr(&a, class) {
            let rest: Vec<&str> = a.value.as_ref().unwrap().split_whitespace().filter(|w| !name_eq(w, class)).collect();
            if rest.is_empty() { continue; }
            let v = rest.join(" ");
            a.value = Some(v);
        }
        out.push(a);
    }
    *attrs = out;
}
