// Oracles: what a check demands of one execution.
use std::cell::RefCell;
use std::collections::BTreeMap;
use super::engine::{obs, Obs, V, mix, hash_str};
use super::refparse::{self, Entry, Pe};
use super::tree::*;
use super::{reflex, sut};

thread_local! {
    pub static TOKS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    pub static NODES: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    pub static TALLY: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn tally(k: &'static str) { TALLY.with(|t| *t.borrow_mut().entry(k).or_insert(0) += 1) }
pub fn see_toks(t: &[Tk]) { TOKS.with(|m| { let mut m = m.borrow_mut(); for x in t { *m.entry(x.kind).or_insert(0) += 1; for v in &x.triv { *m.entry(v.kind).or_insert(0) += 1 } } }) }
pub fn see_nodes(t: &Tr) { NODES.with(|m| t.kinds(&mut m.borrow_mut())) }

pub fn chars(t: &str) -> Vec<char> { t.chars().collect() }
pub fn slice(c: &[char], a: u32, b: u32) -> Option<String> { if a <= b && (b as usize) <= c.len() { Some(c[a as usize..b as usize].iter().collect()) } else { None } }
fn layout_kind(k: &str) -> bool { matches!(k, "Newline" | "Indent" | "Dedent" | "EOF") }
fn show(t: &[Tk]) -> String { clip(&t.iter().map(|x| x.short()).collect::<Vec<_>>().join(" "), 900) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus { Words, Spans, Trivia, Indents, Newlines, Brackets, Everything }

fn skeleton(t: &[Tk], newline: bool) -> Vec<String> {
    t.iter().map(|x| match x.kind { "Newline" if newline => x.short(), k if layout_kind(k) => k.to_string(), _ => "x".into() }).collect()
}
fn outcome(err: bool) -> &'static str { if err { "an error" } else { "no error" } }

/// First deviation of the observed tokens from the expected ones in the aspect looked at
pub fn cmp_lex(c: &[char], s: &sut::SutLex, r: &reflex::Lexed, f: Focus) -> Option<String> {
    if s.runaway { return Some(format!("more than 3n+16 tokens for {} characters: {}", c.len(), show(&s.toks[..12]))) }
    let serr = s.err.is_some();
    if serr != r.err { return Some(format!("tokenizer reports {} ({}) instead of {}; tokens {} expected {}", outcome(serr), s.err.as_deref().unwrap_or(""), outcome(r.err), show(&s.toks), show(&r.toks))) }
    match f {
        Focus::Words => {
            let a: Vec<&Tk> = s.toks.iter().filter(|t| !layout_kind(t.kind)).collect();
            let b: Vec<&Tk> = r.toks.iter().filter(|t| !layout_kind(t.kind)).collect();
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() { if !x.same(y) { return Some(format!("token {} is {} instead of {}", i, x.short(), y.short())) } }
            if a.len() != b.len() { return Some(format!("{} tokens instead of {}: {} expected {}", a.len(), b.len(), show(&s.toks), show(&r.toks))) }
        }
        Focus::Indents | Focus::Brackets => {
            let (a, b) = (skeleton(&s.toks, false), skeleton(&r.toks, false));
            if a != b { return Some(format!("line structure {} instead of {}", a.join(" "), b.join(" "))) }
        }
        Focus::Newlines => {
            let (a, b) = (skeleton(&s.toks, true), skeleton(&r.toks, true));
            if a != b { return Some(format!("line structure {} instead of {}", a.join(" "), b.join(" "))) }
        }
        Focus::Spans => {
            if s.toks.len() != r.toks.len() { return Some(format!("{} tokens instead of {}", s.toks.len(), r.toks.len())) }
            for (x, y) in s.toks.iter().zip(r.toks.iter()) {
                if x.pos != y.pos || x.text != y.text || x.prefix != y.prefix { return Some(format!("token {} instead of {}", x.short(), y.short())) }
                if x.triv.len() != y.triv.len() || x.triv.iter().zip(y.triv.iter()).any(|(a, b)| (a.s, a.e) != (b.s, b.e) || (a.kind == "Comment") != (b.kind == "Comment") || (a.kind == "Comment" && a.text != b.text)) {
                    return Some(format!("trivia of {} is {:?} instead of {:?}", x.short(), x.triv, y.triv)) }
            }
        }
        Focus::Trivia => {
            if s.toks.len() != r.toks.len() { return Some(format!("{} tokens instead of {}", s.toks.len(), r.toks.len())) }
            for (x, y) in s.toks.iter().zip(r.toks.iter()) { if x.triv != y.triv { return Some(format!("trivia of {} is {:?} instead of {:?}", x.short(), x.triv, y.triv)) } }
        }
        Focus::Everything => {
            for (x, y) in s.toks.iter().zip(r.toks.iter()) {
                if !x.same(y) { return Some(format!("token {} instead of {}", x.short(), y.short())) }
                if x.triv != y.triv { return Some(format!("trivia of {} is {:?} instead of {:?}", x.short(), x.triv, y.triv)) }
            }
            if s.toks.len() != r.toks.len() { return Some(format!("{} tokens instead of {}", s.toks.len(), r.toks.len())) }
        }
    }
    None
}

pub fn lex(t: &str, f: Focus) -> V {
    let c = chars(t);
    let s = sut::tokens(t);
    see_toks(&s.toks); tally(if s.err.is_some() { "texts with lexical error" } else { "texts tokenized" });
    let r = reflex::lex(&c, false);
    let mut o = obs(&s.toks, s.err.is_some());
    if let Some(d) = cmp_lex(&c, &s, &r, f).or_else(|| if r.crlf { None } else { intrinsic(&c, &s, f) }) {
        if !r.crlf { return Err(d) }
        // a finding recorded for P07 and P09: such a line break takes the character behind it along
        let q = reflex::lex(&c, true);
        if cmp_lex(&c, &s, &q, f).is_some() { return Err(d) }
        if matches!(f, Focus::Trivia | Focus::Newlines) { o.known = Some("crlf-newline-takes-three-characters"); if layout_only(&s) { o.weight = 0 } }
        else { o.weight = 0; tally("texts with CRLF, judged by the recorded finding") }
    }
    Ok(o)
}
fn layout_only(s: &sut::SutLex) -> bool { s.toks.iter().all(|t| layout_kind(t.kind)) }

/// What can be said of a token stream without the reference
fn intrinsic(c: &[char], s: &sut::SutLex, f: Focus) -> Option<String> {
    match f {
        Focus::Spans => {
            let mut at = 0u32;
            for t in &s.toks {
                for v in &t.triv {
                    if v.s < at || v.e < v.s || v.e as usize > c.len() { return Some(format!("trivia {:?} of {} out of order", v, t.short())) }
                    if v.kind == "Comment" && slice(c, v.s, v.e).as_deref() != Some(&v.text) { return Some(format!("comment text {:?} is not at {}..{}", v.text, v.s, v.e)) }
                    at = v.e;
                }
                if let Some((a, b)) = t.pos {
                    if a < at || b < a || b as usize > c.len() { return Some(format!("token {} out of order or outside the text", t.short())) }
                    if t.kind != "Newline" { if let Some(x) = &t.text {
                        let want = format!("{}{}", t.prefix.clone().unwrap_or_default(), x);
                        if slice(c, a, b).as_deref() != Some(&want) { return Some(format!("token {} does not have the text at its span {:?}", t.short(), slice(c, a, b))) }
                    } }
                    at = b;
                }
            }
            None
        }
        Focus::Trivia => if s.err.is_some() { None } else { rebuild(c, &s.toks) },
        Focus::Indents => {
            let mut d = 0i64;
            for t in &s.toks { match t.kind { "Indent" => d += 1, "Dedent" => d -= 1, _ => {} } if d < 0 { return Some("a dedent without an indent".into()) } }
            if s.err.is_none() && d != 0 && balanced(&s.toks) { return Some(format!("{} indents without a dedent", d)) }
            None
        }
        _ => None,
    }
}
fn balanced(t: &[Tk]) -> bool {
    let mut d = 0i64;
    for x in t { match x.kind { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => d += 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => d -= 1, _ => {} } }
    d == 0
}
/// Source from tokens and trivia; what is missing may only be blanks at the start of a physical line
fn rebuild(c: &[char], toks: &[Tk]) -> Option<String> {
    let mut at = 0u32;
    let gap = |a: u32, b: u32| -> Option<String> {
        if b < a { return Some(format!("overlap at {}", b)) }
        for i in a..b {
            let blank = matches!(c[i as usize], ' ' | '\t');
            let mut j = i as usize; while j > 0 && matches!(c[j - 1], ' ' | '\t') { j -= 1 }
            if !blank || !(j == 0 || matches!(c[j - 1], '\n' | '\r')) { return Some(format!("character {:?} at {} is in no token or trivia", c[i as usize], i)) }
        }
        None
    };
    for t in toks {
        for v in &t.triv {
            if let Some(m) = gap(at, v.s) { return Some(m) }
            let raw = slice(c, v.s, v.e)?;
            let ok = match v.kind {
                "WhiteSpace" => !raw.is_empty() && raw.chars().all(|x| x.to_string() == v.text),
                "Comment" => raw == v.text,
                "Newline" => v.text.trim_end_matches(' ') == raw,
                _ => v.text.trim_end_matches(' ') == raw,
            };
            if !ok { return Some(format!("trivia {:?} stands for {:?}", v, raw)) }
            at = v.e;
        }
        if let Some((a, b)) = t.pos { if let Some(m) = gap(at, a) { return Some(m) } at = b }
    }
    gap(at, c.len() as u32)
}

// ---- trees ---------------------------------------------------------------------------------------

/// Must: the text is made from the grammar. Either: it may be anything. Accept / Reject: judge only these.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Tree, Accept, Reject, AcceptTree }

pub fn tree_obs(t: &Result<Tr, String>, toks: &[Tk]) -> Obs {
    let mut h = 7u64; let mut n = 0;
    match t { Ok(t) => { see_nodes(t); shape_hash(t, &mut h, &mut n); tally("texts accepted") } Err(_) => { tally("texts rejected"); h = 1; for t in toks { h = hash_str(h, t.kind) } n = toks.len() } }
    Obs { sig: h, weight: n, known: None }
}
pub fn shape_hash(t: &Tr, h: &mut u64, n: &mut usize) {
    match t {
        Tr::Nil => *h = mix(*h, 1),
        Tr::Tok(t) => { *h = hash_str(*h, t.kind); *n += 1 }
        Tr::List(v) | Tr::Pair(v) => { *h = mix(*h, 2 + v.len() as u64); for x in v { shape_hash(x, h, n) } }
        Tr::Node(k, _, _, v) => { *h = hash_str(*h, k); *n += 1; for x in v { shape_hash(x, h, n) } }
    }
}

pub fn tree(t: &str, e: Entry, how: Cmp, m: Mode) -> V {
    let c = chars(t);
    let l = reflex::lex(&c, false);
    let r = refparse::expect(&l.toks, l.err, e);
    let s = sut::parse(t, e);
    let o = tree_obs(&s, &l.toks);
    if l.crlf {
        // either as it should be, or as the recorded finding has it
        let one = tree_against(&s, &r, e, how, m, Obs { weight: o.weight, sig: o.sig, known: None });
        if one.is_ok() { return one }
        tally("texts with CRLF, judged by the recorded finding");
        let q = reflex::lex(&c, true);
        let r = refparse::expect(&q.toks, q.err, e);
        return tree_against(&s, &r, e, how, m, Obs { weight: 0, ..o })
    }
    tree_against(&s, &r, e, how, m, o)
}
fn tree_against(s: &Result<Tr, String>, r: &Result<Tr, Pe>, e: Entry, how: Cmp, m: Mode, o: Obs) -> V {
    match (s, r) {
        (_, Err(Pe::Gap(w))) => { tally("no verdict: unsupported construct"); let _ = w; Ok(Obs { weight: 0, ..o }) }
        (Ok(a), Ok(b)) => { if m == Mode::Tree || m == Mode::AcceptTree { if let Some(d) = diff(a, b, how, "") { return Err(format!("{:?}: {}", e, d)) } } Ok(o) }
        (Err(_), Err(_)) => Ok(o),
        (Err(x), Ok(b)) => if m == Mode::Reject { Ok(o) } else { Err(format!("{:?}: a text of the grammar is rejected ({}); expected {}", e, x, clip(&b.show(false), 600))) },
        (Ok(a), Err(_)) => if m == Mode::Accept || m == Mode::AcceptTree { Ok(o) } else { Err(format!("{:?}: a text outside the grammar is accepted as {}", e, clip(&a.show(false), 600))) },
    }
}
/// True when the reference accepts the text (generator self-check)
pub fn derivable(t: &str, e: Entry) -> bool { let l = reflex::lex(&chars(t), false); refparse::expect(&l.toks, l.err, e).is_ok() }
pub fn verdict(t: &str, e: Entry) -> Result<Tr, Pe> { let l = reflex::lex(&chars(t), false); refparse::expect(&l.toks, l.err, e) }

/// The tokens of the tree against the tokens of the text
pub fn conservation(t: &str, e: Entry) -> V {
    let s = sut::parse(t, e);
    let l = sut::tokens(t);
    let o = tree_obs(&s, &l.toks);
    let tree = match &s { Ok(x) => x, Err(_) => return Ok(Obs { weight: 0, ..o }) };
    if l.err.is_some() && e != Entry::Single { return Err(format!("{:?}: accepted although the tokenizer reports {}", e, l.err.unwrap())) }
    let mut got: Vec<&Tk> = vec![]; tree.toks(&mut got);
    let key = |t: &&Tk| t.pos.unwrap_or((0, 0));
    let (mut a, mut b): (Vec<&Tk>, Vec<&Tk>) = (got.iter().cloned().filter(|t| t.pos.is_some()).collect(), l.toks.iter().filter(|t| t.pos.is_some()).collect());
    a.sort_by_key(key); b.sort_by_key(key);
    // single input leaves what follows its statement alone
    if e == Entry::Single { b.truncate(a.len()) }
    for (x, y) in a.iter().zip(b.iter()) {
        if !x.same(y) { return Err(format!("{:?}: the tree has {} where the text has {}", e, x.short(), y.short())) }
        if x.triv != y.triv { return Err(format!("{:?}: token {} has trivia {:?} in the tree and {:?} in the text", e, x.short(), x.triv, y.triv)) }
    }
    if a.len() != b.len() { return Err(format!("{:?}: {} tokens in the tree, {} in the text: {}", e, a.len(), b.len(), clip(&tree.show(true), 800))) }
    if e != Entry::Single { for k in ["Indent", "Dedent"] {
        let tr = |v: &[&Tk]| { let mut w: Vec<String> = v.iter().filter(|t| t.kind == k).map(|t| format!("{:?}", t.triv)).collect(); w.sort(); w };
        let all: Vec<&Tk> = l.toks.iter().collect();
        let (x, y) = (tr(&got), tr(&all));
        if x != y { return Err(format!("{:?}: {} {} tokens in the tree, {} in the text, or their trivia differ", e, x.len(), k, y.len())) }
    } }
    order(tree)?;
    // the direction of each list, where the reference has it too
    let c = chars(t);
    let r = reflex::lex(&c, false);
    if !r.crlf { if let Ok(w) = refparse::expect(&r.toks, r.err, e) {
        let (mut x, mut y) = (BTreeMap::new(), BTreeMap::new());
        directions(tree, &mut x); directions(&w, &mut y);
        for (k, d) in &x { if let Some(d2) = y.get(k) { if d != d2 { return Err(format!("{:?}: elements of {}.{} are in {} order instead of {}", e, k.0, k.1, way(*d), way(*d2))) } } }
    } }
    Ok(o)
}
thread_local! { static ORDER: RefCell<BTreeMap<(&'static str, usize), bool>> = const { RefCell::new(BTreeMap::new()) }; }
/// Every list of a node is in source order or in reverse, the same way for that field everywhere
fn order(t: &Tr) -> Result<(), String> {
    match t {
        Tr::Nil | Tr::Tok(_) => {}
        Tr::List(v) | Tr::Pair(v) => for x in v { order(x)? },
        Tr::Node(k, _, _, f) => for (i, x) in f.iter().enumerate() {
            if let Tr::List(v) = x {
                let p: Vec<u32> = v.iter().filter_map(first_pos).collect();
                if p.len() >= 2 {
                    let up = p[0] < p[1];
                    if p.windows(2).any(|w| (w[0] < w[1]) != up) { return Err(format!("elements of {}.{} are in no order: {:?}", k, i, clip(&format!("{:?}", p), 300))) }
                    let was = ORDER.with(|o| *o.borrow_mut().entry((k, i)).or_insert(up));
                    if was != up { return Err(format!("elements of {}.{} are sometimes in source order and sometimes reversed", k, i)) }
                }
            }
            order(x)?
        },
    }
    Ok(())
}

fn way(up: bool) -> &'static str { if up { "source" } else { "reversed" } }
fn directions(t: &Tr, m: &mut BTreeMap<(&'static str, usize), bool>) {
    match t {
        Tr::Nil | Tr::Tok(_) => {}
        Tr::List(v) | Tr::Pair(v) => for x in v { directions(x, m) },
        Tr::Node(k, _, _, f) => for (i, x) in f.iter().enumerate() {
            if let Tr::List(v) = x { if let Some(up) = rising(v) { m.insert((*k, i), up); } }
            directions(x, m)
        },
    }
}

/// Spans: against the tokens the tree holds, and against the reference
pub fn spans(t: &str, e: Entry) -> V {
    let c = chars(t);
    let l = reflex::lex(&c, false);
    let r = refparse::expect(&l.toks, l.err, e);
    let s = sut::parse(t, e);
    let mut o = tree_obs(&s, &l.toks);
    if l.crlf { o.weight = 0; return Ok(o) }
    let a = match &s { Ok(a) => a, Err(_) => { o.weight = 0; return Ok(o) } };
    nested(a)?;
    if let Ok(b) = &r { if diff(a, b, Cmp::Shape, "").is_none() { if let Some(d) = diff(a, b, Cmp::Spans, "") { return Err(format!("{:?}: {}", e, d)) } } }
    Ok(o)
}
fn nested(t: &Tr) -> Result<Option<(u32, u32)>, String> {
    match t {
        Tr::Nil => Ok(None),
        Tr::Tok(t) => Ok(t.pos),
        Tr::List(v) | Tr::Pair(v) => { let mut r = None; for x in v { r = join(r, nested(x)?) } Ok(r) }
        Tr::Node(k, s, e, v) => {
            let mut r = None;
            for x in v { r = join(r, nested(x)?) }
            if s > &e.0 { return Err(format!("{} spans {}..{}", k, s, e.0)) }
            if let Some((a, b)) = r {
                // whole-input nodes start with the text, before anything else
                let whole = k.ends_with("Input");
                if a < *s || (a != *s && !whole) || b > e.0 { return Err(format!("{} spans {}..{} but its tokens and parts span {}..{}", k, s, e.0, a, b)) }
            }
            Ok(Some((*s, r.map(|x| x.1.max(e.0)).unwrap_or(e.0))))
        }
    }
}
fn join(a: Option<(u32, u32)>, b: Option<(u32, u32)>) -> Option<(u32, u32)> {
    match (a, b) { (Some(x), Some(y)) => Some((x.0.min(y.0), x.1.max(y.1))), (x, None) => x, (None, y) => y }
}

/// The place an error message names
pub fn place_of(m: &str) -> Option<u32> {
    let i = m.find(" at ")? + 4;
    let d: String = m[i..].trim_start_matches('(').chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
/// The place an error names: in the innermost part of the program that is not finished, at a token, not behind what is wrong
pub fn error_place(t: &str, e: Entry) -> V {
    let c = chars(t);
    let l = reflex::lex(&c, false);
    let s = sut::parse(t, e);
    let mut o = tree_obs(&s, &l.toks);
    let m = match s { Err(m) if !l.crlf => m, _ => { o.weight = 0; return Ok(o) } };
    let n = match place_of(&m) { Some(n) => n, None => return Err(format!("{:?}: the error '{}' names no place", e, m)) };
    if n as usize > c.len() { return Err(format!("{:?}: '{}' for a text of {} characters", e, m, c.len())) }
    let (open, bad) = match refparse::place(&l.toks, l.err, e) { Some(x) => x, None => { o.weight = 0; return Ok(o) } };
    let to = bad.map(|b| b.0).unwrap_or(l.bad.0);
    if n < open { return Err(format!("{:?}: '{}', but all in front of {} is finished and right", e, m, open)) }
    if n > to { return Err(format!("{:?}: '{}', but the text is wrong at {} already", e, m, to)) }
    if n != 0 && n != to && bad.is_none_or(|b| b.1) && !l.toks.iter().any(|t| t.pos.is_some_and(|p| p.0 == n)) { return Err(format!("{:?}: '{}': no token starts there", e, m)) }
    tally("errors whose place was judged");
    o.sig = mix(mix(o.sig, (n - open) as u64), (to - n) as u64);
    Ok(o)
}
/// The same for the tokenizer: in the token that is wrong, not further than it can be read
pub fn lex_error_place(t: &str) -> V {
    let c = chars(t);
    let l = reflex::lex(&c, false);
    let s = sut::tokens(t);
    let mut o = obs(&l.toks, l.err);
    let m = match s.err { Some(m) if l.err && !l.crlf => m, _ => { o.weight = 0; return Ok(o) } };
    let n = match place_of(&m) { Some(n) => n, None => { tally("tokenizer errors that name no place"); o.weight = 0; return Ok(o) } };
    let (from, to) = l.bad;
    if n < from || n > to { return Err(format!("tokenizer: '{}', but the token that is wrong starts at {} and cannot be read further than {}", m, from, to)) }
    tally("tokenizer errors whose place was judged");
    o.sig = mix(o.sig, (n - from) as u64);
    Ok(o)
}
