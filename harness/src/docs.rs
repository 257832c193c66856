//! Replays histories of DoctorText.tla into the doctors of the library and reads what they
//! write: the textual doctor's entries, and the graph doctor's DOT document.
use crate::graph::{Parser, Val};
use crate::small::Rng;
use crate::Args;
use daab::canning::*;
use daab::diagnostics::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- builders and artifacts

/// A builder or artifact with any debug text and a type name of all sorts.
pub struct X<const C: char, T: 'static> {
    text: &'static str,
    _t: std::marker::PhantomData<fn() -> T>,
}
impl<const C: char, T> X<C, T> {
    fn new(text: &'static str) -> Self {
        X { text, _t: std::marker::PhantomData }
    }
}
impl<const C: char, T> fmt::Debug for X<C, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // Depends on the alternate flag, as derived implementations do.
        if f.alternate() {
            write!(f, "{}", self.text)
        } else {
            write!(f, "<{}>", self.text)
        }
    }
}
type X1 = X<'a', u8>;
type X2 = X<'"', Vec<&'static str>>;
type X3 = X<'\\', fn(u8) -> Option<u8>>;
type X4 = X<'}', ()>;
type X5 = X<'\n', LongType>;
type LongType = fn(
    Vec<Option<Result<String, Box<dyn std::error::Error + Send + Sync>>>>,
    BTreeMap<String, Vec<(u64, &'static str, [u8; 3])>>,
) -> std::collections::HashMap<Vec<Option<std::rc::Rc<str>>>, BTreeSet<(i128, String, Option<Vec<u8>>)>>;
pub const TYPES: usize = 5;

pub const TEXTS: &[&str] = &[
    "Plain { x: 1 }",
    "",
    "Quote \"inner\" end",
    "back\\slash",
    "trail\\",
    "quote\\\"mixed\\\\\"",
    "two\nlines",
    "\n",
    "Deep {\n    text: \"a -> b\",\n    c: '}',\n}",
    "a -> b; c => d [label = \"x\"] }",
    "} digraph {",
    "#0.0 ",
    "built #0.1  X => Y",
    "resolves A -> B",
    "{\"json\": [1, 2]}",
    "// comment",
    "/* open",
    "<b>html</b> &amp;",
    "tab\tand\rreturn",
    "nul\0bell\u{7}",
    "unicode \u{00e9} \u{4e2d} \u{1f600} \u{200b}",
    "\\N \\G \\l \\r \\n",
    "\"",
    "\\",
    "'",
    "\"\"\"",
    "0x1234 -> 0x5678",
    "strict digraph { graph [labeljust = l];",
    "  blanks  around  ",
    "carriage\r\nreturn\n\n",
    LONG,
    MANY,
];
/// Longer than any line that one would write.
const LONG: &str = r#"Config { name: "long", values: [
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
    "C:\\directory\\file", '"', "end" ] }"#;
/// Much to be escaped.
const MANY: &str = r#""\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"#;

// ---------------------------------------------------------------- the flavours

pub trait Flavour {
    type A: CanBase + Clone;
    type B: CanBase + Clone;
    fn builder(ty: usize, text: &'static str) -> BuilderHandle<Self::B>;
    fn artifact(ty: usize, text: &'static str) -> ArtifactHandle<Self::A>;
}
macro_rules! flavour {
    ($F:ident, $A:ty, $B:ty, $bin:ident) => {
        pub struct $F;
        impl Flavour for $F {
            type A = $A;
            type B = $B;
            fn builder(ty: usize, text: &'static str) -> BuilderHandle<$B> {
                fn mk<const C: char, T: 'static>(text: &'static str) -> BuilderHandle<$B> {
                    // The handle keeps the builder alive.
                    BuilderHandle::new(&daab::blueprint::Blueprint::<X<C, T>, $B>::new(X::new(text)))
                }
                match ty {
                    0 => mk::<'a', u8>(text),
                    1 => mk::<'"', Vec<&'static str>>(text),
                    2 => mk::<'\\', fn(u8) -> Option<u8>>(text),
                    3 => mk::<'}', ()>(text),
                    _ => mk::<'\n', LongType>(text),
                }
            }
            fn artifact(ty: usize, text: &'static str) -> ArtifactHandle<$A> {
                match ty {
                    0 => ArtifactHandle::new::<X1>($bin::new(X::new(text))),
                    1 => ArtifactHandle::new::<X2>($bin::new(X::new(text))),
                    2 => ArtifactHandle::new::<X3>($bin::new(X::new(text))),
                    3 => ArtifactHandle::new::<X4>($bin::new(X::new(text))),
                    _ => ArtifactHandle::new::<X5>($bin::new(X::new(text))),
                }
            }
        }
    };
}
flavour!(FRc, Rc<dyn Any>, Rc<dyn Any>, Rc);
flavour!(FArc, Arc<dyn Any + Send + Sync>, Arc<dyn Any + Send + Sync>, Arc);
fn type_name(ty: usize) -> &'static str {
    match ty {
        0 => std::any::type_name::<X1>(),
        1 => std::any::type_name::<X2>(),
        2 => std::any::type_name::<X3>(),
        3 => std::any::type_name::<X4>(),
        _ => std::any::type_name::<X5>(),
    }
}
fn short_name(ty: usize, mn: Option<(usize, usize)>) -> String {
    let s = type_name(ty);
    #[cfg(feature = "tynm")]
    if let Some((m, n)) = mn {
        let t: tynm::TypeName = s.into();
        return t.as_str_mn(m, n);
    }
    let _ = mn;
    s.to_string()
}

// ---------------------------------------------------------------- the sink

/// Takes what is written in small portions, and now and then asks to be called again.
#[derive(Clone)]
struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    rng: Rc<RefCell<Rng>>,
    mode: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len();
        if self.mode > 0 && n > 0 {
            let mut r = self.rng.borrow_mut();
            if self.mode > 1 && r.n(7) == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            n = 1 + r.n(n);
        }
        self.data.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- reading DOT

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    P(&'static str),
}
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut r = vec![];
    let mut bol = true;
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            bol = true;
            i += 1;
        } else if x.is_whitespace() {
            i += 1;
        } else if x == '#' && bol {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    return Err("comment without end".into());
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
        } else if x == '"' {
            bol = false;
            i += 1;
            let mut t = String::new();
            loop {
                match c.get(i) {
                    None => return Err("string without end".into()),
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'"') => {
                        t.push('"');
                        i += 2;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'\\') => {
                        // Kept for the label's own escapes.
                        t.push_str("\\\\");
                        i += 2;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'\n') => i += 2,
                    Some(y) => {
                        t.push(*y);
                        i += 1;
                    }
                }
            }
            r.push(Tok::Id(t));
        } else if x.is_alphanumeric() || x == '_' || x == '.' || (x == '-' && c.get(i + 1).map_or(false, |y| y.is_ascii_digit() || *y == '.')) {
            bol = false;
            let st = i;
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                i += 1;
            }
            r.push(Tok::Id(c[st..i].iter().collect()));
        } else {
            bol = false;
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if two == "->" {
                r.push(Tok::P("->"));
                i += 2;
            } else if let Some(p) = ["{", "}", "[", "]", ";", ",", "=", ":"].iter().find(|p| p.chars().next() == Some(x)) {
                r.push(Tok::P(p));
                i += 1;
            } else {
                return Err(format!("unexpected character {:?}", x));
            }
        }
    }
    Ok(r)
}
#[derive(Default, Debug)]
struct Dot {
    nodes: BTreeMap<String, BTreeMap<String, String>>,
    edges: BTreeSet<(String, String)>,
}
struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&mut self, p: &'static str) -> bool {
        if self.peek() == Some(&Tok::P(p)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> Result<String, String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => Err(format!("expected a name, found {:?} at token {}", x, self.i)),
        }
    }
    fn attrs(&mut self) -> Result<BTreeMap<String, String>, String> {
        let mut m = BTreeMap::new();
        while self.is("[") {
            while !self.is("]") {
                let k = self.id()?;
                if !self.is("=") {
                    return Err(format!("expected = at token {}", self.i));
                }
                m.insert(k, self.id()?);
                let _ = self.is(",") || self.is(";");
            }
        }
        Ok(m)
    }
}
fn parse_dot(s: &str) -> Result<Dot, String> {
    let mut p = P { t: lex(s)?, i: 0 };
    let mut d = Dot::default();
    let mut w = p.id()?;
    if w.eq_ignore_ascii_case("strict") {
        w = p.id()?;
    }
    if !w.eq_ignore_ascii_case("digraph") {
        return Err(format!("not a digraph: {}", w));
    }
    if let Some(Tok::Id(_)) = p.peek() {
        p.i += 1;
    }
    if !p.is("{") {
        return Err("no opening brace".into());
    }
    while !p.is("}") {
        if p.is(";") {
            continue;
        }
        let kw = matches!(p.peek(), Some(Tok::Id(s)) if ["graph", "node", "edge"].contains(&s.as_str()));
        let a = p.id()?;
        if kw {
            p.attrs()?;
            continue;
        }
        if p.is("=") {
            p.id()?;
            continue;
        }
        let mut chain = vec![a];
        while p.is("->") {
            chain.push(p.id()?);
        }
        let at = p.attrs()?;
        for n in &chain {
            d.nodes.entry(n.clone()).or_default();
        }
        if chain.len() == 1 {
            d.nodes.get_mut(&chain[0]).unwrap().extend(at);
        }
        for e in chain.windows(2) {
            d.edges.insert((e[0].clone(), e[1].clone()));
        }
    }
    if p.i != p.t.len() {
        return Err("something follows the closing brace".into());
    }
    Ok(d)
}
/// The text shown for a label: its escapes resolved, without white space.
fn shown(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut r = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 2;
            match c[i - 1] {
                'n' | 'l' | 'r' | 't' | '0' => {}
                'u' if c.get(i) == Some(&'{') => {
                    let e = (i..c.len()).find(|j| c[*j] == '}').unwrap_or(c.len() - 1);
                    let h: String = c[i + 1..e].iter().collect();
                    if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        r.push(x);
                    }
                    i = e + 1;
                }
                x => r.push(x),
            }
        } else {
            r.push(c[i]);
            i += 1;
        }
    }
    plain(&r)
}
fn plain(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !c.is_control()).collect()
}

// ---------------------------------------------------------------- the check of one history

struct Case {
    bt: Vec<(usize, &'static str)>,
    at: Vec<(usize, &'static str)>,
    vals: (bool, bool, bool),
    mn: Option<(usize, usize)>,
    mode: usize,
    fin: usize,
    same: bool,
}
fn ints(v: &Val) -> Vec<i64> {
    v.t().iter().map(|x| x.i()).collect()
}
fn num(v: &Val, i: usize) -> i64 {
    v.t()[i].i()
}

fn feed<F: Flavour, D: Doctor<F::A, F::B>>(d: &mut D, text: &Val, b: &[BuilderHandle<F::B>], a: &[ArtifactHandle<F::A>]) {
    for e in text.t() {
        let (k, p, q) = (num(e, 0), num(e, 3) as usize, num(e, 4) as usize);
        match k {
            1 => d.resolve(&b[p - 1], &b[q - 1]),
            2 => d.build(&b[p - 1], &a[q - 1]),
            3 => d.clear(),
            _ => d.invalidate(&b[p - 1]),
        }
    }
}

/// Finds the pieces in order from position `at`, the first one at once if `start`; what lies in
/// between is returned.
fn pieces(out: &str, at: usize, ps: &[String]) -> Result<(usize, String), String> {
    let mut i = at;
    let mut gaps = String::new();
    for p in ps {
        // What lies between the pieces has no line end.
        let rest = &out[i..];
        let lim = rest.find('\n').unwrap_or(rest.len());
        // A piece begins on this line.
        let k = rest.match_indices(p.as_str()).map(|x| x.0).find(|k| *k <= lim).ok_or_else(|| format!("{:?} not found in {:?}", p, &rest[..lim]))?;
        gaps.push_str(&rest[..k]);
        gaps.push(' ');
        i += k + p.len();
    }
    Ok((i, gaps))
}

/// All ways to read the entry could be tried; the pieces are long enough for the first to do,
/// except for texts that occur in the frame of the entry, which are tried in turn.
fn entry(out: &str, at: usize, ps: &[String]) -> Result<Vec<(usize, String)>, String> {
    // Breadth-first over the positions of the pieces.
    let mut ends: Vec<(usize, String)> = vec![(at, String::new())];
    for p in ps {
        let mut next: Vec<(usize, String)> = vec![];
        for (i, g) in &ends {
            let rest = &out[*i..];
            let lim = rest.find('\n').unwrap_or(rest.len());
            let mut k = 0;
            while k <= lim {
                if rest.is_char_boundary(k) && rest[k..].starts_with(p.as_str()) {
                    let e = i + k + p.len();
                    if !next.iter().any(|x| x.0 == e) {
                        next.push((e, format!("{}{} ", g, &rest[..k])));
                    }
                }
                k += 1;
                if next.len() > 64 {
                    break;
                }
            }
        }
        if next.is_empty() {
            return Err(match pieces(out, at, ps) {
                Err(e) => e,
                Ok(_) => format!("{:?} not found", p),
            });
        }
        ends = next;
    }
    // The entry ends with its line.
    let r: Vec<(usize, String)> = ends.into_iter().filter(|(e, _)| out[*e..].starts_with('\n')).map(|(e, g)| (e + 1, g)).collect();
    if r.is_empty() {
        return Err("the entry does not end with its line".into());
    }
    Ok(r)
}

fn check_text<F: Flavour>(out: &str, text: &Val, c: &Case, b: &[BuilderHandle<F::B>], a: &[ArtifactHandle<F::A>]) -> Result<(), String> {
    let bn = |i: usize| if c.vals.0 { c.bt[i - 1].1.to_string() } else { short_name(c.bt[i - 1].0, c.mn) };
    let an = |i: usize| if c.vals.1 { c.at[i - 1].1.to_string() } else { short_name(c.at[i - 1].0, c.mn) };
    let ba = |i: usize| format!("{:p}", b[i - 1].id());
    let aa = |i: usize| format!("{:p}", a[i - 1].value.can_as_ptr() as *const ());
    let mut at: Vec<usize> = vec![0];
    for (n, e) in text.t().iter().enumerate() {
        let (k, g, i, p, q) = (num(e, 0), num(e, 1), num(e, 2), num(e, 3) as usize, num(e, 4) as usize);
        let mut ps: Vec<String> = vec![];
        let word = match k {
            1 => "resolve",
            2 => "buil",
            3 => "lear",
            _ => "nvalidate",
        };
        ps.push(word.into());
        match k {
            2 => ps.push(format!("#{}.{} ", g, i)),
            3 => ps.push(format!("#{}", g)),
            4 => ps.push(format!("#{} ", g)),
            _ => {}
        }
        let mut names = vec![];
        if p > 0 {
            names.push((ba(p), bn(p)));
        }
        if k == 1 {
            names.push((ba(q), bn(q)));
        }
        if k == 2 {
            names.push((aa(q), an(q)));
        }
        for (x, y) in names {
            if c.vals.2 {
                ps.push(x);
            }
            ps.push(y);
        }
        let mut next = vec![];
        let mut err = String::new();
        for x in &at {
            match entry(out, *x, &ps) {
                Ok(v) => {
                    for (e, gaps) in v {
                        if !c.vals.2 && gaps.contains("0x") {
                            err = "shows an address".into();
                        } else if !next.contains(&e) {
                            next.push(e);
                        }
                    }
                }
                Err(e) => err = e,
            }
        }
        if next.is_empty() {
            return Err(format!("event {} ({:?}): {} in:\n{}", n + 1, ints(e), err, out));
        }
        at = next;
    }
    if !at.contains(&out.len()) {
        return Err(format!("more entries than events in:\n{}", out));
    }
    Ok(())
}

fn check_dot<F: Flavour>(out: &str, text: &Val, dep: &Val, c: &Case, b: &[BuilderHandle<F::B>]) -> Result<(), String> {
    let d = parse_dot(out).map_err(|e| format!("not well-formed: {} in:\n{}", e, out))?;
    let name = |i: usize| format!("{:p}", b[i - 1].id());
    let bad = |s: String| Err(format!("{} in:\n{}", s, out));
    let mut builders = BTreeSet::new();
    let mut want: BTreeSet<(String, String)> = BTreeSet::new();
    for (i, r) in dep.t().iter().enumerate() {
        for (j, x) in r.t().iter().enumerate() {
            if x.i() == 1 {
                builders.insert(i + 1);
                builders.insert(j + 1);
                want.insert((name(i + 1), name(j + 1)));
            }
        }
    }
    let mut built = vec![];
    for e in text.t() {
        if num(e, 0) == 2 {
            builders.insert(num(e, 3) as usize);
            built.push((num(e, 1), num(e, 2), num(e, 3) as usize, num(e, 4) as usize));
        }
    }
    let names: BTreeSet<String> = builders.iter().map(|i| name(*i)).collect();
    for i in &builders {
        let Some(n) = d.nodes.get(&name(*i)) else { return bad(format!("no node for builder {}", i)) };
        let w = if c.vals.0 { c.bt[i - 1].1 } else { type_name(c.bt[i - 1].0) };
        let l = n.get("label").map(|x| shown(x)).unwrap_or_default();
        if !l.contains(&plain(w)) {
            return bad(format!("builder {} is labelled {:?}", i, n.get("label")));
        }
    }
    let arts: Vec<&String> = d.nodes.keys().filter(|k| !names.contains(*k)).collect();
    if arts.len() != built.len() {
        return bad(format!("{} artifact nodes instead of {}", arts.len(), built.len()));
    }
    for (g, i, p, q) in &built {
        let tag = format!("#{}.{} ", g, i);
        let m: Vec<&&String> =
            arts.iter().filter(|k| d.nodes[**k].get("label").map_or(false, |l| l.trim_start().starts_with(&tag))).collect();
        if m.len() != 1 {
            return bad(format!("{} nodes for artifact {}", m.len(), tag));
        }
        let l = shown(&d.nodes[*m[0]]["label"]);
        if !l.contains(&plain(type_name(c.at[q - 1].0))) || (c.vals.1 && !l.contains(&plain(c.at[q - 1].1))) {
            return bad(format!("artifact {} is labelled {:?}", tag, d.nodes[*m[0]]["label"]));
        }
        if !c.vals.1 && plain(c.at[q - 1].1).len() > 8 && l.contains(&plain(c.at[q - 1].1)) {
            return bad(format!("artifact {} shows its value", tag));
        }
        want.insert((name(*p), m[0].to_string()));
    }
    if d.edges != want {
        let x: Vec<_> = d.edges.symmetric_difference(&want).take(4).collect();
        return bad(format!("edges differ: {:?}", x));
    }
    Ok(())
}

fn one<F: Flavour>(text: &Val, dep: &Val, rng: &mut Rng) -> Result<String, (String, String)> {
    let nb = dep.t().len();
    let na = text.t().iter().filter(|e| num(e, 0) == 2).map(|e| num(e, 4) as usize).max().unwrap_or(0).max(1);
    let pick = |rng: &mut Rng| (rng.n(TYPES), TEXTS[if rng.n(4) == 0 { 0 } else { rng.n(TEXTS.len()) }]);
    let mut c = Case {
        bt: (0..nb).map(|_| pick(rng)).collect(),
        at: (0..na).map(|_| pick(rng)).collect(),
        vals: (rng.n(2) == 0, rng.n(2) == 0, rng.n(2) == 0),
        mn: [None, Some((0, 0)), Some((1, 0)), Some((0, 1)), Some((usize::MAX, usize::MAX))][rng.n(5)],
        mode: rng.n(3),
        fin: rng.n(2),
        same: rng.n(3) == 0,
    };
    if c.same {
        // Builders and artifacts that look alike are told apart all the same.
        for i in 1..nb {
            c.bt[i] = c.bt[0];
        }
        for i in 1..na {
            c.at[i] = c.at[0];
        }
    }
    let b: Vec<_> = c.bt.iter().map(|(t, s)| F::builder(*t, s)).collect();
    let a: Vec<_> = c.at.iter().map(|(t, s)| F::artifact(*t, s)).collect();
    let what = format!(
        "builders {:?} artifacts {:?} values {:?} tynm {:?} writer {} finish {} events {:?}",
        c.bt, c.at, c.vals, c.mn, c.mode, c.fin, text.t().iter().map(ints).collect::<Vec<_>>()
    );
    let sink = || Sink { data: Rc::new(RefCell::new(vec![])), rng: Rc::new(RefCell::new(Rng(rng_seed()))), mode: c.mode };
    let read = |s: &Sink| String::from_utf8_lossy(&s.data.borrow()).into_owned();
    // The textual doctor.
    let s = sink();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut t = TextualDoc::new(
            TextualDocOptions { show_builder_values: c.vals.0, show_artifact_values: c.vals.1, show_addresses: c.vals.2, tynm_m_n: c.mn },
            s.clone(),
        );
        feed::<F, _>(&mut t, text, &b, &a);
        if c.fin == 0 {
            drop(t.into_inner());
        }
    }));
    if r.is_err() {
        return Err(("text/panic".into(), what));
    }
    if let Err(e) = check_text::<F>(&read(&s), text, &c, &b, &a) {
        return Err(("text/output".into(), format!("{}\n{}", e, what)));
    }
    // The graph doctor.
    let s = sink();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut t = VisgraphDoc::new(VisgraphDocOptions { show_builder_values: c.vals.0, show_artifact_values: c.vals.1 }, s.clone());
        feed::<F, _>(&mut t, text, &b, &a);
        if c.fin == 0 {
            drop(t.into_inner());
        }
    }));
    if r.is_err() {
        return Err(("graph/panic".into(), what));
    }
    if let Err(e) = check_dot::<F>(&read(&s), text, dep, &c, &b) {
        return Err(("graph/output".into(), format!("{}\n{}", e, what)));
    }
    Ok(what)
}
thread_local! { static SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(88172645463325252) }; }
fn rng_seed() -> u64 {
    SEED.with(|s| {
        s.set(s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
        s.get() | 1
    })
}

pub fn main(args: &Args) {
    let rd = BufReader::with_capacity(1 << 20, std::fs::File::open(args.s("in", "")).expect("histories"));
    let mut hist: Vec<(Val, Val)> = vec![];
    for line in rd.lines() {
        let line = line.expect("read");
        if !line.starts_with("\"<<\\\"D\\\"") {
            continue;
        }
        let mut p = Parser { s: &line.as_bytes()[1..line.len() - 1], i: 2 };
        p.val();
        let t = p.val();
        let d = p.val();
        hist.push((t, d));
    }
    assert!(!hist.is_empty(), "no histories");
    let threads = args.n("threads", 4) as usize;
    let secs = args.f("secs", 5.0);
    let seed = args.n("seed", 1) as u64;
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let res: Mutex<(u64, u64, BTreeMap<String, u64>, Vec<(String, String)>, Vec<String>)> = Mutex::default();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (hist, res) = (&hist, &res);
            s.spawn(move || {
                let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(t as u64 * 104_729 + 3) | 1);
                let mut round = 0u64;
                // Every history once, then random ones as long as there is time.
                let mut i = t;
                loop {
                    let k = if round == 0 { i } else { rng.n(hist.len()) };
                    if round == 0 {
                        i += threads;
                        if i >= hist.len() {
                            round = 1;
                        }
                    } else if Instant::now() > end {
                        break;
                    }
                    let Some((text, dep)) = hist.get(k) else { continue };
                    let r = match rng.n(2) {
                        0 => one::<FRc>(text, dep, &mut rng),
                        _ => one::<FArc>(text, dep, &mut rng),
                    };
                    let mut m = res.lock().unwrap();
                    m.0 += 1;
                    m.1 += text.t().len() as u64;
                    match r {
                        Ok(w) => {
                            if m.4.len() < 3 && text.t().len() > 3 {
                                m.4.push(w);
                            }
                        }
                        Err((sig, w)) => {
                            let n = m.2.entry(sig.clone()).or_insert(0);
                            *n += 1;
                            if *n <= 3 {
                                m.3.push((sig, w));
                            }
                            if m.2.values().sum::<u64>() > 300 {
                                break;
                            }
                        }
                    }
                }
            });
        }
    });
    let m = res.into_inner().unwrap();
    let js = crate::small::js;
    let o = format!(
        "{{\"histories\":{},\"runs\":{},\"events\":{},\"signatures\":{{{}}},\"divs\":[{}],\"samples\":[{}]}}",
        hist.len(),
        m.0,
        m.1,
        m.2.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        m.3.iter().map(|(k, v)| format!("{{\"signature\":{},\"text\":{}}}", js(k), js(v))).collect::<Vec<_>>().join(","),
        m.4.iter().map(|v| js(v)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(args.s("out", "/dev/stdout"), o).expect("report");
}
