// Generic, comparable form of tokens and trees ("Tr"), for the code under test and for the reference.
use std::rc::Rc;
use std::sync::Arc;
use crate::parser::nodes::ASTNode;
use crate::parser::tokens::Token;
use crate::parser::trivias::Trivia;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tv { pub kind: &'static str, pub s: u32, pub e: u32, pub text: String }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tk {
    pub kind: &'static str,
    pub pos: Option<(u32, u32)>,          // None: indent, dedent
    pub triv: Vec<Tv>,                    // in source order
    pub text: Option<String>,             // names, numbers, strings, type comments, newline characters
    pub prefix: Option<String>,
}

impl Tk {
    pub fn new(kind: &'static str, pos: Option<(u32, u32)>, triv: Vec<Tv>, text: Option<String>, prefix: Option<String>) -> Tk {
        Tk { kind, pos, triv, text, prefix }
    }
    pub fn short(&self) -> String {
        let mut r = self.kind.to_string();
        if let Some(p) = &self.prefix { r += &format!("<{}>", p) }
        if let Some(t) = &self.text { r += &format!("{:?}", t) }
        match self.pos { Some((a, b)) => r += &format!("@{}..{}", a, b), None => {} }
        r
    }
    /// Equality without trivia
    pub fn same(&self, o: &Tk) -> bool { self.kind == o.kind && self.pos == o.pos && self.text == o.text && self.prefix == o.prefix }
    /// Equality of meaning: kind and text, newline characters ignored
    pub fn sem(&self, o: &Tk) -> bool {
        self.kind == o.kind && self.prefix == o.prefix && (self.kind == "Newline" || self.text == o.text)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tr {
    Nil,
    Tok(Tk),
    List(Vec<Tr>),
    Pair(Vec<Tr>),
    // start, lowest and highest accepted end (the same for the code under test)
    Node(&'static str, u32, (u32, u32), Vec<Tr>),
}

pub fn nd(kind: &'static str, s: u32, e: u32, f: Vec<Tr>) -> Tr { Tr::Node(kind, s, (e, e), f) }

// The trees of long chains are deep on the left side; their default drop and clone recurse. All
// workloads run on threads with large stacks.

pub trait TextOf { fn text(&self) -> String; }
impl TextOf for String { fn text(&self) -> String { self.clone() } }
impl TextOf for Box<String> { fn text(&self) -> String { (**self).clone() } }
impl TextOf for Rc<String> { fn text(&self) -> String { (**self).clone() } }
impl TextOf for Box<str> { fn text(&self) -> String { self.to_string() } }
impl TextOf for &str { fn text(&self) -> String { self.to_string() } }

pub trait TrivOf { fn collect_to(&self, out: &mut Vec<Tv>); }
impl TrivOf for Trivia {
    fn collect_to(&self, out: &mut Vec<Tv>) {
        out.push(match self {
            Trivia::WhiteSpace(s, e, c) => Tv { kind: "WhiteSpace", s: *s, e: *e, text: c.to_string() },
            Trivia::Newline(s, e, a, b) => Tv { kind: "Newline", s: *s, e: *e, text: [*a, *b].iter().collect() },
            Trivia::LineContinuation(s, e, a, b, c) => Tv { kind: "LineContinuation", s: *s, e: *e, text: [*a, *b, *c].iter().collect() },
            Trivia::Comment(s, e, t) => Tv { kind: "Comment", s: *s, e: *e, text: t.text() },
            #[allow(unreachable_patterns)]
            _ => Tv { kind: "?", s: 0, e: 0, text: String::new() },
        })
    }
}
impl<T: TrivOf + ?Sized> TrivOf for Box<T> { fn collect_to(&self, out: &mut Vec<Tv>) { (**self).collect_to(out) } }
impl<T: TrivOf + ?Sized> TrivOf for Rc<T> { fn collect_to(&self, out: &mut Vec<Tv>) { (**self).collect_to(out) } }
impl<T: TrivOf> TrivOf for Vec<T> { fn collect_to(&self, out: &mut Vec<Tv>) { for x in self { x.collect_to(out) } } }
impl<T: TrivOf> TrivOf for Option<T> { fn collect_to(&self, out: &mut Vec<Tv>) { if let Some(x) = self { x.collect_to(out) } } }
/// Trivia of a token in source order (the code lists it from last to first)
pub fn trivs<T: TrivOf>(t: &T) -> Vec<Tv> { let mut v = vec![]; t.collect_to(&mut v); v.reverse(); v }

pub trait Dump { fn dump(&self) -> Tr; }
impl<T: Dump + ?Sized> Dump for Box<T> { fn dump(&self) -> Tr { (**self).dump() } }
impl<T: Dump + ?Sized> Dump for Rc<T> { fn dump(&self) -> Tr { (**self).dump() } }
impl<T: Dump + ?Sized> Dump for Arc<T> { fn dump(&self) -> Tr { (**self).dump() } }
impl<T: Dump> Dump for Option<T> { fn dump(&self) -> Tr { match self { Some(x) => x.dump(), None => Tr::Nil } } }
impl<T: Dump> Dump for Vec<T> { fn dump(&self) -> Tr { Tr::List(self.iter().map(|x| x.dump()).collect()) } }
impl<A: Dump, B: Dump> Dump for (A, B) { fn dump(&self) -> Tr { Tr::Pair(vec![self.0.dump(), self.1.dump()]) } }
impl<A: Dump, B: Dump, C: Dump> Dump for (A, B, C) { fn dump(&self) -> Tr { Tr::Pair(vec![self.0.dump(), self.1.dump(), self.2.dump()]) } }
impl Dump for Token { fn dump(&self) -> Tr { Tr::Tok(tok_of(self)) } }

include!(concat!(env!("PCR_VERIF_GEN"), "/adapter.rs"));

impl Tr {
    pub fn show(&self, spans: bool) -> String {
        let mut o = String::new(); self.w(&mut o, spans); o
    }
    fn w(&self, o: &mut String, sp: bool) {
        if o.len() > 20000 { return }
        match self {
            Tr::Nil => o.push('-'),
            Tr::Tok(t) => if sp { *o += &t.short() } else { *o += t.kind; if let Some(p) = &t.prefix { *o += &format!("<{}>", p) } if t.kind != "Newline" { if let Some(x) = &t.text { *o += &format!("{:?}", x) } } },
            Tr::List(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' ') } x.w(o, sp) } o.push(']') }
            Tr::Pair(v) => { o.push('<'); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' ') } x.w(o, sp) } o.push('>') }
            Tr::Node(k, s, e, f) => { *o += k; if sp { *o += &if e.0 == e.1 { format!("@{}..{}", s, e.0) } else { format!("@{}..{}~{}", s, e.0, e.1) } }
                o.push('('); for (i, x) in f.iter().enumerate() { if i > 0 { o.push(' ') } x.w(o, sp) } o.push(')') }
        }
    }
    pub fn toks<'a>(&'a self, out: &mut Vec<&'a Tk>) {
        match self {
            Tr::Nil => {}
            Tr::Tok(t) => out.push(t),
            Tr::List(v) | Tr::Pair(v) | Tr::Node(_, _, _, v) => for x in v { x.toks(out) },
        }
    }
    pub fn kinds(&self, out: &mut std::collections::BTreeMap<&'static str, u64>) {
        match self {
            Tr::Nil | Tr::Tok(_) => {}
            Tr::List(v) | Tr::Pair(v) => for x in v { x.kinds(out) },
            Tr::Node(k, _, _, v) => { *out.entry(*k).or_insert(0) += 1; for x in v { x.kinds(out) } }
        }
    }
    pub fn size(&self) -> usize {
        match self { Tr::Nil => 0, Tr::Tok(_) => 1, Tr::List(v) | Tr::Pair(v) => v.iter().map(|x| x.size()).sum(), Tr::Node(_, _, _, v) => 1 + v.iter().map(|x| x.size()).sum::<usize>() }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Cmp { Shape, Spans, Full }   // Shape: kinds and meaning; Spans: also node spans; Full: also token spans and trivia

pub fn first_pos(t: &Tr) -> Option<u32> {
    match t { Tr::Nil => None, Tr::Tok(t) => t.pos.map(|p| p.0), Tr::List(v) | Tr::Pair(v) | Tr::Node(_, _, _, v) => v.iter().filter_map(first_pos).min() }
}
/// Whether the elements of a list stand in source order; nothing for lists too short to tell
pub fn rising(v: &[Tr]) -> Option<bool> {
    if v.len() < 2 { return None }
    let (a, b) = (first_pos(&v[0])?, first_pos(&v[1])?);
    Some(a < b)
}

/// First difference between the tree of the code under test and the expected one
pub fn diff(got: &Tr, want: &Tr, how: Cmp, path: &str) -> Option<String> {
    match (got, want) {
        (Tr::Nil, Tr::Nil) => None,
        (Tr::Tok(a), Tr::Tok(b)) => {
            let same = match how { Cmp::Shape | Cmp::Spans => a.sem(b), Cmp::Full => a.same(b) && a.triv == b.triv };
            if same { None } else { Some(format!("at {}: token {} instead of {}{}", path, a.short(), b.short(), if a.same(b) { format!(" (trivia {:?} instead of {:?})", a.triv, b.triv) } else { String::new() })) }
        }
        (Tr::List(a), Tr::List(b)) | (Tr::Pair(a), Tr::Pair(b)) => {
            if a.len() != b.len() { return Some(format!("at {}: {} elements instead of {}: {} / {}", path, a.len(), b.len(), clip(&got.show(false), 300), clip(&want.show(false), 300))) }
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                if let Some(d) = diff(x, y, how, &if path.len() > 600 { path.to_string() } else { format!("{}[{}]", path, i) }) { return Some(d) }
            }
            // elements that look the same (separators) tell the direction only by where they stand
            if matches!(got, Tr::List(_)) { if let (Some(x), Some(y)) = (rising(a), rising(b)) { if x != y { return Some(format!("at {}: elements in {} order instead of {}: {}", path, if x { "source" } else { "reversed" }, if y { "source" } else { "reversed" }, clip(&got.show(true), 300))) } } }
            None
        }
        (Tr::Node(k, s, e, f), Tr::Node(k2, s2, e2, f2)) => {
            if k != k2 { return Some(format!("at {}: node {} instead of {}: {} / {}", path, k, k2, clip(&got.show(false), 300), clip(&want.show(false), 300))) }
            if f.len() != f2.len() { return Some(format!("at {}: node {} with {} fields instead of {}", path, k, f.len(), f2.len())) }
            if how != Cmp::Shape && (s != s2 || e.0 < e2.0 || e.0 > e2.1) {
                return Some(format!("at {}: node {} spans {}..{} instead of {}..{}{}", path, k, s, e.0, s2, e2.0, if e2.0 != e2.1 { format!("~{}", e2.1) } else { String::new() }))
            }
            for (i, (x, y)) in f.iter().zip(f2.iter()).enumerate() {
                if let Some(d) = diff(x, y, how, &if path.len() > 600 { path.to_string() } else { format!("{}/{}.{}", path, k, i) }) { return Some(d) }
            }
            None
        }
        _ => Some(format!("at {}: {} instead of {}", path, clip(&got.show(false), 300), clip(&want.show(false), 300))),
    }
}

pub fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" } }
