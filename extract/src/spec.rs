//! The contract files (`/verif/specs/*.vspec`).
//!
//! A file is a sequence of entries `@@ <kind> <key>` followed by sections `@<name> [arg]` whose
//! text runs to the next line starting with `@`.  Text goes verbatim into the Verus input.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct Section {
    pub name: String,
    pub arg: String,
    pub text: String,
    pub file: String,
    pub line: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Entry {
    pub kind: String,
    pub key: String,
    pub file: String,
    pub line: usize,
    pub sections: Vec<Section>,
}

impl Entry {
    pub fn get(&self, name: &str) -> Option<&Section> {
        self.sections.iter().find(|s| s.name == name)
    }
    pub fn get_arg(&self, name: &str, arg: &str) -> Option<&Section> {
        self.sections.iter().find(|s| s.name == name && s.arg == arg)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Section> + 'a {
        self.sections.iter().filter(move |s| s.name == name)
    }
}

#[derive(Debug, Default)]
pub struct Db {
    pub entries: BTreeMap<(String, String), Entry>,
    /// the contract of a written-out `Clone` implementation (the same as the one a derived one has)
    pub clone: Entry,
}

impl Db {
    pub fn get(&self, kind: &str, key: &str) -> Option<&Entry> {
        self.entries.get(&(kind.to_string(), key.to_string())).or_else(|| {
            if kind == "fn" && key.contains("::<Clone for ") && key.ends_with(">::clone") { Some(&self.clone) } else { None }
        })
    }
    pub fn load(dir: &str) -> Db {
        let mut db = Db::default();
        db.clone = Entry {
            kind: "fn".into(),
            sections: vec![Section { name: "sig".into(), text: "    ensures ret == *self\n".into(), ..Default::default() }],
            ..Default::default()
        };
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|e| e == "vspec").unwrap_or(false))
            .collect();
        files.sort();
        for f in files {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            let text = std::fs::read_to_string(&f).unwrap();
            let mut cur: Option<Entry> = None;
            for (i, line) in text.lines().enumerate() {
                if let Some(h) = line.strip_prefix("@@ ") {
                    if let Some(e) = cur.take() {
                        db.add(e);
                    }
                    let (kind, key) = h.trim().split_once(' ').unwrap_or((h.trim(), ""));
                    cur = Some(Entry {
                        kind: kind.into(),
                        key: key.trim().into(),
                        file: name.clone(),
                        line: i + 1,
                        sections: vec![Section {
                            name: "body".into(),
                            file: name.clone(),
                            line: i + 2,
                            ..Default::default()
                        }],
                    });
                } else if line.starts_with('@') {
                    let h = line[1..].trim();
                    let (n, a) = h.split_once(' ').unwrap_or((h, ""));
                    cur.as_mut().expect("section outside entry").sections.push(Section {
                        name: n.into(),
                        arg: a.trim().into(),
                        text: String::new(),
                        file: name.clone(),
                        line: i + 2,
                    });
                } else if line.starts_with("##") {
                    continue;
                } else if let Some(e) = cur.as_mut() {
                    let s = e.sections.last_mut().unwrap();
                    s.text.push_str(line);
                    s.text.push('\n');
                }
            }
            if let Some(e) = cur.take() {
                db.add(e);
            }
        }
        db
    }
    fn add(&mut self, e: Entry) {
        let k = (e.kind.clone(), e.key.clone());
        if let Some(old) = self.entries.get_mut(&k) {
            old.sections.extend(e.sections);
        } else {
            self.entries.insert(k, e);
        }
    }
}
