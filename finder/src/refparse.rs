//! Reference parser: an independent reading of what the library's parser must do, over a
//! vector of characters. Locations are computed from scratch for each position.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attr { pub name: String, pub value: Option<String> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Doctype(String),
    Comment(String),
    Data(String),
    Raw(String),
    Open(String, Vec<Attr>),
    Close(String),
    SelfClosed(String, Vec<Attr>),
    Void(String, Vec<Attr>),
}

pub type Loc = (usize, usize, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IdErr { Empty, NonAscii, Whitespace(char), Char(char) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PErr {
    Length(usize),
    UnsupportedDoctype(String, Loc),
    UnclosedDoctype(Loc),
    UnclosedComment(Loc),
    ExpectedOpeningTagClose(String, Loc),
    ExpectedClosingTagClose(String, Loc),
    ExpectedOpeningTagIdentifier(Loc),
    InvalidOpeningTagIdentifier(IdErr, Loc),
    ExpectedClosingTagIdentifier(Loc),
    InvalidClosingTagIdentifier(IdErr, Loc),
    InvalidAttributeIdentifier(IdErr, Loc),
    InvalidAttributeValue(String, String, Loc),
    UnclosedAttributeValue(String, String, Loc),
    UnexpectedInput(Loc),
    MissingClosingTags((String, Loc), Vec<(String, Loc)>),
    StackLimitExceeded(String, Loc, usize),
    UnexpectedClosingTag(String, Loc),
    MismatchedClosingTag(String, Loc, String, Loc),
}

pub fn id_check(s: &str) -> Result<(), IdErr> {
    if s.is_empty() { return Err(IdErr::Empty); }
    if !s.is_ascii() { return Err(IdErr::NonAscii); }
    for c in s.chars() {
        if c.is_whitespace() { return Err(IdErr::Whitespace(c)); }
    }
    for c in s.chars() {
        if "=\"/><&,;".contains(c) { return Err(IdErr::Char(c)); }
    }
    Ok(())
}

pub fn name_eq(a: &str, b: &str) -> bool {
    let low = |c: char| if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c };
    a.is_ascii() && b.is_ascii()
        && a.chars().count() == b.chars().count()
        && a.chars().zip(b.chars()).all(|(x, y)| low(x) == low(y))
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link",
    "menuitem", "meta", "param", "source", "track", "wbr",
];
pub const RAW: &[&str] = &["script", "style", "title", "textarea"];

pub fn is_void(n: &str) -> bool { VOID.iter().any(|v| name_eq(v, n)) }
pub fn raw_for(n: &str) -> Option<&'static str> { RAW.iter().cloned().find(|v| name_eq(v, n)) }

/// the location before each character, and after the last
fn locations(cs: &[char]) -> Vec<Loc> {
    let (mut line, mut col, mut off) = (1, 1, 0);
    let mut v = Vec::with_capacity(cs.len() + 1);
    v.push((line, col, off));
    for &c in cs {
        off += c.len_utf8();
        if c == '\n' { line += 1; col = 1; } else { col += 1; }
        v.push((line, col, off));
    }
    v
}

struct P<'a> { cs: &'a [char], locs: Vec<Loc> }

fn is_term(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n' | '>' | '<' | '"' | '/' | '=' | '\'' | '&')
}

impl<'a> P<'a> {
    fn at(&self, p: usize) -> Option<char> { self.cs.get(p).cloned() }
    fn ws(&self, mut p: usize) -> usize {
        while self.at(p).map_or(false, |c| c.is_whitespace()) { p += 1; }
        p
    }
    fn looking(&self, p: usize, s: &str) -> bool {
        s.chars().enumerate().all(|(i, c)| self.at(p + i) == Some(c))
    }
    fn find(&self, p: usize, s: &str) -> Option<usize> {
        (p..=self.cs.len()).find(|&q| self.looking(q, s) && q + s.chars().count() <= self.cs.len())
    }
    fn text(&self, a: usize, b: usize) -> String { self.cs[a..b].iter().collect() }
    fn word(&self, p: usize) -> (String, usize) {
        let mut q = p;
        while self.at(q).map_or(false, |c| !is_term(c)) { q += 1; }
        (self.text(p, q), q)
    }
    fn ident(&self, p: usize) -> Result<Option<(String, usize)>, IdErr> {
        let (w, q) = self.word(p);
        if w.is_empty() { return Ok(None); }
        id_check(&w)?;
        Ok(Some((w, q)))
    }
    fn loc(&self, p: usize) -> Loc { self.locs[p] }

    fn close(&self, p: usize) -> Option<Result<(Ev, usize), PErr>> {
        if self.at(p) != Some('<') { return None; }
        let q = self.ws(p + 1);
        if self.at(q) != Some('/') { return None; }
        let q = self.ws(q + 1);
        Some(match self.ident(q) {
            Ok(None) => Err(PErr::ExpectedClosingTagIdentifier(self.loc(q))),
            Err(e) => Err(PErr::InvalidClosingTagIdentifier(e, self.loc(q))),
            Ok(Some((w, r))) => {
                let r = self.ws(r);
                if self.at(r) == Some('>') { Ok((Ev::Close(w), r + 1)) }
                else { Err(PErr::ExpectedClosingTagClose(w, self.loc(r))) }
            },
        })
    }

    fn attrs(&self, tag: &str, p: usize) -> Result<(Vec<Attr>, usize), PErr> {
        let mut out = Vec::new();
        let mut p = self.ws(p);
        loop {
            let (name, q) = match self.ident(p) {
                Err(e) => return Err(PErr::InvalidAttributeIdentifier(e, self.loc(p))),
                Ok(None) => return Ok((out, p)),
                Ok(Some(x)) => x,
            };
            let q = self.ws(q);
            if self.at(q) != Some('=') {
                out.push(Attr { name, value: None });
                p = q;
                continue;
            }
            let q = self.ws(q + 1);
            if self.at(q) != Some('"') {
                return Err(PErr::InvalidAttributeValue(tag.into(), name, self.loc(q)));
            }
            match self.find(q + 1, "\"") {
                None => return Err(PErr::UnclosedAttributeValue(tag.into(), name, self.loc(q))),
                Some(e) => {
                    out.push(Attr { name, value: Some(self.text(q + 1, e)) });
                    p = self.ws(e + 1);
                },
            }
        }
    }

    fn open(&self, p: usize) -> Result<(Ev, usize), PErr> {
        let q = self.ws(p + 1);
        let (tag, r) = match self.ident(q) {
            Ok(None) => return Err(PErr::ExpectedOpeningTagIdentifier(self.loc(q))),
            Err(e) => return Err(PErr::InvalidOpeningTagIdentifier(e, self.loc(q))),
            Ok(Some(x)) => x,
        };
        let (attrs, mut r) = self.attrs(&tag, r)?;
        let mut slash = false;
        if self.at(r) == Some('/') { slash = true; r = self.ws(r + 1); }
        if self.at(r) != Some('>') {
            return Err(PErr::ExpectedOpeningTagClose(tag, self.loc(r)));
        }
        let ev = if is_void(&tag) { Ev::Void(tag, attrs) }
            else if slash { Ev::SelfClosed(tag, attrs) }
            else { Ev::Open(tag, attrs) };
        Ok((ev, r + 1))
    }

    fn markup(&self, p: usize) -> Result<(Ev, usize), PErr> {
        if self.looking(p, "<!--") {
            return match self.find(p + 4, "-->") {
                None => Err(PErr::UnclosedComment(self.loc(p))),
                Some(e) => Ok((Ev::Comment(self.text(p + 4, e)), e + 3)),
            };
        }
        if self.looking(p, "<!") {
            let q = self.ws(p + 2);
            let (w, r) = self.word(q);
            if name_eq(&w, "doctype") {
                let r = self.ws(r);
                return match self.find(r, ">") {
                    None => Err(PErr::UnclosedDoctype(self.loc(p))),
                    Some(e) => {
                        let t = self.text(r, e);
                        let t = t.trim();
                        if name_eq(t, "html") { Ok((Ev::Doctype(t.into()), e + 1)) }
                        else { Err(PErr::UnsupportedDoctype(t.into(), self.loc(p))) }
                    },
                };
            }
        }
        if let Some(r) = self.close(p) { return r; }
        self.open(p)
    }
}

pub struct Opts { pub depth: Option<usize>, pub len: Option<usize> }

pub fn parse(text: &str, o: &Opts) -> Result<Vec<Ev>, PErr> {
    if let Some(n) = o.len { if text.len() > n { return Err(PErr::Length(n)); } }
    let cs: Vec<char> = text.chars().collect();
    let p = P { cs: &cs, locs: locations(&cs) };
    let mut out = Vec::new();
    let mut stack: Vec<(String, Loc)> = Vec::new();
    let mut raw: Option<&'static str> = None;
    let mut pos = 0;
    while pos < cs.len() {
        if let Some(tag) = raw.take() {
            let end = (pos..cs.len()).find(|&q| match p.close(q) {
                Some(Ok((Ev::Close(n), _))) => name_eq(&n, tag),
                _ => false,
            }).unwrap_or(cs.len());
            out.push(Ev::Raw(p.text(pos, end)));
            pos = end;
            continue;
        }
        if cs[pos] != '<' {
            let end = (pos..cs.len()).find(|&q| cs[q] == '<').unwrap_or(cs.len());
            out.push(Ev::Data(p.text(pos, end)));
            pos = end;
            continue;
        }
        let here = p.loc(pos);
        let (ev, next) = p.markup(pos)?;
        match &ev {
            Ev::Open(tag, _) => {
                if o.depth == Some(stack.len()) {
                    return Err(PErr::StackLimitExceeded(tag.clone(), here, stack.len()));
                }
                stack.push((tag.clone(), here));
            },
            Ev::Close(tag) => match stack.pop() {
                None => return Err(PErr::UnexpectedClosingTag(tag.clone(), here)),
                Some((t, l)) => if !name_eq(&t, tag) {
                    return Err(PErr::MismatchedClosingTag(t, l, tag.clone(), here));
                },
            },
            _ => (),
        }
        // a raw-text start tag without a closing slash switches to raw text
        match &ev {
            Ev::Open(tag, _) => raw = raw_for(tag),
            _ => (),
        }
        out.push(ev);
        pos = next;
    }
    match stack.pop() {
        None => Ok(out),
        Some(inner) => Err(PErr::MissingClosingTags(inner, stack)),
    }
}
