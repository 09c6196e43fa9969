//! Prints token streams, replacing `__v_text!(n)` / `__v_pre!(n)` markers by contract text, and
//! keeps a map from output lines to the source or contract line they came from.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Debug, Clone, PartialEq)]
pub enum Origin {
    None,
    Src { file: String, line: usize },
    Spec { file: String, line: usize },
}

#[derive(Debug, Clone)]
pub struct Text {
    pub text: String,
    pub file: String,
    pub line: usize,
}

#[derive(Default)]
pub struct Out {
    pub text: String,
    pub map: Vec<(Origin, String)>,
    col0: bool,
    pub indent: usize,
    cur: Option<Origin>,
    pub owner: String,
}

impl Out {
    pub fn new() -> Out {
        Out { col0: true, ..Default::default() }
    }
    pub fn newline(&mut self) {
        if !self.col0 {
            self.text.push('\n');
            let o = self.cur.take().unwrap_or(Origin::None);
            self.map.push((o, self.owner.clone()));
            self.col0 = true;
        }
    }
    fn put(&mut self, s: &str, o: Origin) {
        if self.col0 {
            for _ in 0..self.indent {
                self.text.push_str("  ");
            }
            self.col0 = false;
        }
        if self.cur.is_none() && o != Origin::None {
            self.cur = Some(o);
        }
        self.text.push_str(s);
    }
    pub fn raw(&mut self, t: &Text) {
        self.newline();
        for (i, l) in t.text.lines().enumerate() {
            self.text.push_str(l);
            self.text.push('\n');
            self.map.push((
                if t.file.is_empty() { Origin::None } else { Origin::Spec { file: t.file.clone(), line: t.line + i } },
                self.owner.clone(),
            ));
        }
        self.col0 = true;
    }
    pub fn line(&mut self, s: &str) {
        self.newline();
        self.put(s, Origin::None);
        self.newline();
    }
    pub fn tokens(&mut self, ts: TokenStream, file: &str, texts: &[Text]) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // markers
            if let Some((n, used, pre)) = marker(&v[i..]) {
                if !pre {
                    self.raw(&texts[n]);
                }
                i += used;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let o = origin(file, g.span_open());
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut k = 0;
                            while let Some((n, used, true)) = marker(&inner[k..]) {
                                self.raw(&texts[n]);
                                k += used;
                                if let Some(TokenTree::Punct(p)) = inner.get(k) {
                                    if p.as_char() == ';' {
                                        k += 1;
                                    }
                                }
                            }
                            if inner.is_empty() {
                                self.put("{} ", o);
                            } else {
                                self.put("{", o);
                                self.newline();
                                self.indent += 1;
                                self.tokens(inner[k..].iter().cloned().collect(), file, texts);
                                self.newline();
                                self.indent -= 1;
                                self.put("} ", origin(file, g.span_close()));
                            }
                        }
                        Delimiter::Parenthesis | Delimiter::Bracket => {
                            let (a, b) = if g.delimiter() == Delimiter::Parenthesis { ("(", ") ") } else { ("[", "] ") };
                            self.put(a, o);
                            self.tokens(g.stream(), file, texts);
                            self.put(b, origin(file, g.span_close()));
                        }
                        Delimiter::None => self.tokens(g.stream(), file, texts),
                    }
                }
                TokenTree::Punct(p) => {
                    let o = origin(file, p.span());
                    let s = p.as_char().to_string();
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.put(&s, o);
                    } else {
                        self.put(&format!("{} ", s), o);
                        if p.as_char() == ';' || (p.as_char() == ',' && self.indent > 0 && ends_arm(&v, i)) {
                            self.newline();
                        }
                    }
                }
                t => {
                    let o = origin(file, t.span());
                    self.put(&format!("{} ", t), o);
                }
            }
            i += 1;
        }
    }
}

fn ends_arm(_v: &[TokenTree], _i: usize) -> bool {
    true
}

fn origin(file: &str, sp: proc_macro2::Span) -> Origin {
    let s = sp.start();
    let e = sp.end();
    if s == e || s.line == 0 {
        Origin::None
    } else {
        Origin::Src { file: file.into(), line: s.line }
    }
}

/// (text index, tokens used, is a `__v_pre!` marker)
fn marker(v: &[TokenTree]) -> Option<(usize, usize, bool)> {
    let pre = match v.first() {
        Some(TokenTree::Ident(i)) if i == "__v_text" => false,
        Some(TokenTree::Ident(i)) if i == "__v_pre" => true,
        _ => return None,
    };
    match (v.get(1), v.get(2)) {
        (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if p.as_char() == '!' => {
            let n: usize = g.stream().to_string().trim().parse().ok()?;
            Some((n, 3, pre))
        }
        _ => None,
    }
}
