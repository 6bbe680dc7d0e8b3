//! A dictionary of literals for the generators, taken from the sources under test.
//!
//! Lengths, counts, codes and strings that the code compares with are where its behaviour may change, so
//! generators use them now and then. Literals that the sources have but `fixtures/literals.txt` (the tree this
//! was written for) has not, or has less often, are used more. Only generation depends on it, no judgement.
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lit {
    Int(u64),
    Str(String),
}
#[derive(Default)]
pub struct Dict {
    ints: Vec<u64>,
    fresh_ints: Vec<u64>,
    strs: Vec<String>,
    fresh_strs: Vec<String>,
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}
/// the literals of a source text, without comments and trailing test modules
fn scan(text: &str, out: &mut BTreeMap<Lit, u32>) {
    let text = match text.find("#[cfg(test)]").into_iter().chain(text.find("feature = \"nightly\", test")).min() {
        Some(p) => &text[..p],
        None => text,
    };
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut put = |l: Lit| *out.entry(l).or_insert(0) += 1;
    // the value and operator in front, for products and shifts
    let mut run: Option<(u64, char)> = None;
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if x == '/' && at(i + 1) == '*' {
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if x == '#' && at(i + 1) == '[' {
            // attributes
            while i < c.len() && c[i] != ']' {
                i += 1;
            }
            continue;
        }
        if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && at(i + 2) == '"') && !(i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let hash = at(i + 1) == '#';
            let mut j = i + if hash { 3 } else { 2 };
            let s = j;
            while j < c.len() && !(c[j] == '"' && (!hash || at(j + 1) == '#')) {
                j += 1;
            }
            put(Lit::Str(c[s..j.min(c.len())].iter().collect()));
            i = j + 2;
            continue;
        }
        if x == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        '0' => s.push('\0'),
                        k @ ('"' | '\'' | '\\') => s.push(k),
                        _ => {}
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            put(Lit::Str(s));
            continue;
        }
        if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                let k = match at(i + 2) {
                    'n' => 10,
                    'r' => 13,
                    't' => 9,
                    '0' => 0,
                    'x' => c[i + 3..(i + 5).min(c.len())].iter().collect::<String>().as_str().pipe(|s| u64::from_str_radix(s, 16).unwrap_or(0)),
                    k => k as u64,
                };
                put(Lit::Int(k));
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
                continue;
            }
            if at(i + 2) == '\'' {
                put(Lit::Int(at(i + 1) as u64));
                i += 3;
                continue;
            }
            i += 1;
            continue;
        }
        if x.is_ascii_digit() {
            let mut s = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                if at(i) != '_' {
                    s.push(at(i));
                }
                i += 1;
            }
            let s = s.to_ascii_lowercase();
            let (radix, body) = match s.get(..2) {
                Some("0x") => (16, &s[2..]),
                Some("0b") => (2, &s[2..]),
                Some("0o") => (8, &s[2..]),
                _ => (10, &s[..]),
            };
            let cut = body.find(if radix == 16 { "zzz" } else { "usize" }).or_else(|| body.find(['u', 'i'])).unwrap_or(body.len());
            if let Ok(n) = u64::from_str_radix(&body[..cut], radix) {
                put(Lit::Int(n));
                let v = match run {
                    Some((a, '*')) => a.checked_mul(n),
                    Some((a, '<')) if n < 64 => a.checked_mul(1u64 << n),
                    _ => None,
                };
                if let Some(v) = v {
                    put(Lit::Int(v));
                }
                let v = v.unwrap_or(n);
                let mut j = i;
                while at(j) == ' ' || at(j) == '\n' || at(j) == '\t' {
                    j += 1;
                }
                run = match (at(j), at(j + 1)) {
                    ('*', _) => Some((v, '*')),
                    ('<', '<') => Some((v, '<')),
                    _ => None,
                };
            }
            continue;
        }
        if x.is_alphanumeric() || x == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            // a prefix of a byte literal is no word of its own
            continue;
        }
        i += 1;
    }
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for &str {}

pub fn literals() -> BTreeMap<Lit, u32> {
    let mut files = vec![];
    sources(Path::new("/repo/src"), &mut files);
    sources(Path::new("/repo/websocket-base/src"), &mut files);
    let mut out = BTreeMap::new();
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            scan(&t, &mut out);
        }
    }
    out
}
/// one line per literal: count, then the literal
pub fn print() {
    for (l, n) in literals() {
        match l {
            Lit::Int(i) => println!("{} {}", n, i),
            Lit::Str(s) => println!("{} {}", n, serde_json::to_string(&s).unwrap()),
        }
    }
}
fn known() -> BTreeMap<Lit, u32> {
    include_str!("../fixtures/literals.txt")
        .lines()
        .filter_map(|l| {
            let (n, l) = l.split_once(' ')?;
            let l = match l.parse::<u64>() {
                Ok(i) => Lit::Int(i),
                Err(_) => Lit::Str(serde_json::from_str(l).ok()?),
            };
            Some((l, n.parse().ok()?))
        })
        .collect()
}
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let known = known();
        let mut d = Dict::default();
        let (mut ints, mut fresh) = (BTreeSet::new(), BTreeSet::new());
        // sizes of buffers below the library
        ints.extend([512u64, 1024, 2048, 4096, 8192, 16384, 32768]);
        let mut all = literals();
        // to try the generators: further literals
        if let Ok(v) = std::env::var("VERIF_FRESH") {
            for w in v.split(',') {
                let l = w.parse().map(Lit::Int).unwrap_or_else(|_| Lit::Str(w.to_string()));
                *all.entry(l).or_insert(0) += 1000;
            }
        }
        for (l, n) in all {
            let new = n > known.get(&l).copied().unwrap_or(0);
            match l {
                Lit::Int(i) => {
                    ints.insert(i);
                    if new {
                        fresh.insert(i);
                    }
                }
                Lit::Str(s) if s.is_empty() || s.len() > 60 => {}
                Lit::Str(s) => {
                    if new {
                        d.fresh_strs.push(s.clone());
                    }
                    d.strs.push(s);
                }
            }
        }
        d.ints = ints.into_iter().collect();
        d.fresh_ints = fresh.into_iter().collect();
        d
    })
}

/// the integers themselves and their neighbours, up to `max`
fn near(v: &[u64], max: u64) -> Vec<u64> {
    let s: BTreeSet<u64> = v
        .iter()
        .flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)])
        .filter(|n| *n <= max)
        .collect();
    s.into_iter().collect()
}
fn mix<T: std::fmt::Debug + 'static>(base: BoxedStrategy<T>, rest: Vec<(u32, BoxedStrategy<T>)>, w: u32) -> BoxedStrategy<T> {
    let mut v = vec![(w, base)];
    v.extend(rest);
    if v.len() == 1 {
        return v.pop().unwrap().1;
    }
    Union::new_weighted(v).boxed()
}
/// `base`, and now and then something made of an integer of interest in `min..=max` (and a random number)
pub fn ints<T: std::fmt::Debug + 'static>(base: BoxedStrategy<T>, min: u64, max: u64, f: impl Fn(u64, u32) -> T + Clone + 'static) -> BoxedStrategy<T> {
    let d = get();
    let mut rest = vec![];
    for (w, v) in [(1, near(&d.ints, max)), (5, near(&d.fresh_ints, max))] {
        let v: Vec<u64> = v.into_iter().filter(|n| *n >= min).collect();
        if !v.is_empty() {
            let f = f.clone();
            rest.push((w, (select(v), any::<u32>()).prop_map(move |(n, r)| f(n, r)).boxed()));
        }
    }
    mix(base, rest, 20)
}
/// the same with literals of the changed parts of the sources only
pub fn fresh_ints<T: std::fmt::Debug + 'static>(base: BoxedStrategy<T>, min: u64, max: u64, f: impl Fn(u64, u32) -> T + 'static) -> BoxedStrategy<T> {
    let v: Vec<u64> = near(&get().fresh_ints, max).into_iter().filter(|n| *n >= min).collect();
    let rest = if v.is_empty() { vec![] } else { vec![(5, (select(v), any::<u32>()).prop_map(move |(n, r)| f(n, r)).boxed())] };
    mix(base, rest, 20)
}
/// `base`, and now and then something made of a string of interest
pub fn strs<T: std::fmt::Debug + 'static>(base: BoxedStrategy<T>, fit: impl Fn(&str) -> bool, f: impl Fn(String, u32) -> T + Clone + 'static) -> BoxedStrategy<T> {
    let d = get();
    let mut rest = vec![];
    for (w, v) in [(1, &d.strs), (4, &d.fresh_strs)] {
        let v: Vec<String> = v.iter().filter(|s| fit(s)).cloned().collect();
        if !v.is_empty() {
            let f = f.clone();
            rest.push((w, (select(v), any::<u32>()).prop_map(move |(s, r)| f(s, r)).boxed()));
        }
    }
    mix(base, rest, 20)
}
