//! Type table produced by `/verif/driver`.
use std::collections::HashMap;

#[derive(Debug, Clone)]
pub struct T {
    pub kind: String,
    pub path: String,
    pub recv: String,
    pub ty: String,
    pub aty: String,
}

#[derive(Default)]
pub struct Types {
    map: HashMap<(String, usize, usize), Vec<T>>,
}

impl Types {
    pub fn load(path: &str) -> Types {
        let mut t = Types::default();
        for l in std::fs::read_to_string(path).expect("type table").lines() {
            let v: serde_json::Value = serde_json::from_str(l).expect("type table line");
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            t.map
                .entry((s("f"), v["lo"].as_u64().unwrap() as usize, v["hi"].as_u64().unwrap() as usize))
                .or_default()
                .push(T { kind: s("k"), path: s("path"), recv: s("recv"), ty: s("ty"), aty: s("aty") });
        }
        t
    }
    pub fn get(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map.get(&(f.to_string(), lo, hi)).and_then(|v| v.iter().find(|t| t.kind != "c"))
    }
    /// the expression a `for` loop iterates over (the desugaring puts a call of `into_iter` around it)
    pub fn inner(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map.get(&(f.to_string(), lo, hi)).and_then(|v| {
            match v.iter().position(|t| t.path == "std::iter::IntoIterator::into_iter" && t.kind == "p") {
                Some(i) if i + 1 < v.len() => Some(&v[i + 1]),
                _ => v.iter().find(|t| t.kind != "c"),
            }
        })
    }
    /// the type of the operand of a `?` (the desugaring puts a call around it)
    pub fn tried(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map.get(&(f.to_string(), lo, hi)).and_then(|v| v.iter().find(|t| t.kind != "c" && t.ty.starts_with("std::result::Result<")))
    }
    pub fn method(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map
            .get(&(f.to_string(), lo, hi))
            .and_then(|v| v.iter().find(|t| t.kind == "m"))
    }
    pub fn closure(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map
            .get(&(f.to_string(), lo, hi))
            .and_then(|v| v.iter().find(|t| t.kind == "c"))
    }
    pub fn path(&self, f: &str, lo: usize, hi: usize) -> Option<&T> {
        self.map
            .get(&(f.to_string(), lo, hi))
            .and_then(|v| v.iter().find(|t| t.kind == "p"))
    }
}
