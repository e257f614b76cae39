// One function per property: its workloads and which oracle judges them.
use super::engine::*;
use super::gen::*;
use super::judge::{self, Focus, Mode};
use super::refparse::Entry;
use super::tree::*;
use super::work::{self, *};
use super::{alloc, reflex, sut};
use crate::parser::parser::Parser;
use std::collections::BTreeMap;

const ENTRIES: [Entry; 4] = [Entry::File, Entry::Eval, Entry::Single, Entry::Func];

pub fn run(cx: &mut Ctx, pid: &str) -> bool {
    match pid {
        "P01" => p01(cx), "P02" => p02(cx), "P03" => p03(cx), "P04" => p04(cx), "P05" => p05(cx), "P06" => p06(cx), "P07" => p07(cx), "P08" => p08(cx), "P09" => p09(cx), "P10" => p10(cx),
        "P11" => p11(cx), "P12" => p12(cx), "P13" => p13(cx), "P14" => p14(cx), "P15" => p15(cx), "P16" => p16(cx), "P17" => p17(cx), "P18" => p18(cx), "P19" => p19(cx), "P20" => p20(cx),
        "P21" => p21(cx), "P22" => p22(cx), "P23" => p23(cx), "P24" => p24(cx), "P25" => p25(cx), "P26" => p26(cx), "P27" => p27(cx), "P28" => p28(cx), "P29" => p29(cx),
        _ => return false,
    }
    true
}

// ---- shared pieces ---------------------------------------------------------------------------------

/// every form of the areas, at every size up to the limit: f(text, form)
fn forms(cx: &mut Ctx, name: &str, areas: &[Area], quick: usize, thorough: usize, f: &dyn Fn(&mut Ctx, &str, &Form)) {
    let fs: Vec<&Form> = FORMS.iter().filter(|f| areas.is_empty() || areas.contains(&f.area)).collect();
    let limit = if cx.thorough { thorough } else { quick };
    let sz = sizes(limit);
    let n = (fs.len() * sz.len()) as u64;
    cx.all(name, n, |cx, i| {
        let form = fs[i as usize % fs.len()];
        let size = sz[i as usize / fs.len()];
        if form.deep && size > 300 { return }
        let t = form.text(size);
        f(cx, &t, form)
    });
}
/// blanks, comments and lines in front of or behind a text
fn padded(r: &mut Rng, t: &str) -> String {
    let k = r.n(6);
    let n = match r.n(4) { 0 => r.n(10), 1 => r.n(300), 2 => (1usize << (4 + r.n(13))) + r.n(3), _ => 250 + r.n(12) };
    match k {
        0 => format!("{}{}", "\n".repeat(n), t),
        1 => format!("#{}\n{}", "c".repeat(n), t),
        2 => format!("{}\n{}", "a;".repeat(n / 2), t),
        3 => format!("{}\n{}", "é,".repeat(n / 2), t),
        4 => format!("'{}'\n{}", "\u{1F600}".repeat(n), t),
        _ => format!("a{}\n{}", " ".repeat(n), t),
    }
}
fn gen_error(cx: &mut Ctx, what: &str, t: &str) { if cx.errors.len() < 5 { cx.errors.push(format!("generator made a text that is not derivable ({}): {:?}", what, t)) } }

fn lexstream(cx: &mut Ctx, name: &str, quick: u64, thorough: u64, f: Focus, mut g: impl FnMut(&mut Ctx, &mut Rng) -> String) {
    cx.stream(name, quick, thorough, |cx, i| { let mut r = cx.rng(i); let t = g(cx, &mut r); cx.text(&t, &|t| judge::lex(t, f)); });
}
fn lexall(cx: &mut Ctx, name: &str, alphabet: &[&str], quick: usize, thorough: usize, f: Focus, wrap: &[(&str, &str)]) {
    let max = if cx.thorough { thorough } else { quick };
    let n = work::words(alphabet, max);
    cx.all(name, n * wrap.len() as u64, |cx, i| {
        let w = wrap[(i % wrap.len() as u64) as usize];
        let t = format!("{}{}{}", w.0, spell(alphabet, max, i / wrap.len() as u64, ""), w.1);
        cx.text(&t, &|t| judge::lex(t, f));
    });
}
/// programs, damaged programs and noise for the tokenizer
fn noise(r: &mut Rng, crlf: bool) -> String {
    let size = [20, 60, 150][r.n(3)];
    let (p, r2) = program(None, r.clone(), size); *r = r2;
    let st = Style::random(r, crlf);
    if r.p(4) { let t = layout(&p.items, &st, r); return oddly(&t, r) }
    match r.n(8) {
        0 => { let k = 1 + r.n(20); let t = soup(r, k); if crlf { t } else { t.replace("\r\n", "\n") } }
        1 | 2 => { let m = mutate(&p.items, r); layout(&m, &st, r) }
        3 => { let t = layout(&p.items, &st, r); let t = chars_mutate(&t, r); if crlf { t } else { t.replace("\r\n", "\n") } }
        _ => layout(&p.items, &st, r),
    }
}

// ---- P01 -------------------------------------------------------------------------------------------

fn everything(t: &str) -> V {
    let s = sut::tokens(t);
    judge::see_toks(&s.toks);
    judge::tally(if s.err.is_some() { "texts with lexical error" } else { "texts tokenized" });
    if s.runaway { return Err(format!("more than 3n+16 tokens without end of file, e.g. {}", s.toks.last().unwrap().short())) }
    for e in ENTRIES { judge::tally(if sut::raw(t, e).is_ok() { "entry point calls that accepted" } else { "entry point calls that rejected" }) }
    Ok(obs(&s.toks, s.err.is_some()))
}
fn every_rule(t: &str) -> V {
    let n = sut::RULES.len();
    let from = hash_str(5, t) as usize % n;
    for k in 0..17.min(n) { let _ = sut::run_rule(t, sut::RULES[(from + k * 7) % n].1); judge::tally("rule calls") }
    everything(t)
}
const CHARS: [&str; 44] = ["\0", "\t", "\n", "\r", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", "-", ".", "/", "0", "1", "9", ":", ";", "<", "=", ">", "?", "@", "X", "[", "\\", "]", "_", "a", "e", "j", "r", "b", "{", "}", "~", "é", "\u{1F600}"];

fn p01(cx: &mut Ctx) {
    let max = if cx.thorough { 4 } else { 3 };
    cx.all("short strings", work::words(&CHARS, max), |cx, i| { let t = spell(&CHARS, max, i, ""); cx.text(&t, &everything); });
    cx.stream("noise", 40_000, 1_500_000, |cx, i| { let mut r = cx.rng(i); let t = noise(&mut r, true); cx.text(&t, &every_rule); });
    cx.stream("cut off", 6_000, 200_000, |cx, i| {
        let mut r = cx.rng(i);
        let (p, mut r) = { let (p, r2) = program(None, r.clone(), 60); r = r2; (p, r) };
        let t: Vec<char> = text_of(&p.items, &mut r).chars().collect();
        for _ in 0..8 { let k = r.n(t.len() + 1); let s: String = t[..k].iter().collect(); if !cx.text(&s, &every_rule) { break } }
    });
    cx.stream("token noise", 20_000, 500_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = 1 + r.n(14);
        let mut t = String::new();
        for _ in 0..n { t += *r.pick(&SOUP); t += *r.pick(&[" ", " ", " ", "", "\n", "\n  "]) }
        cx.text(&t, &every_rule);
    });
    cx.stream("any characters", 10_000, 300_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = 1 + r.n(24);
        let t: String = (0..n).map(|_| loop { let m = [128, 0x800, 0x10000, 0x110000][r.n(4)]; if let Some(c) = char::from_u32((r.u64() % m) as u32) { break c } }).collect();
        cx.text(&t, &every_rule);
    });
    forms(cx, "scaled", &[], 4097, 65537, &|cx, t, _| { cx.text(t, &everything); });
    forms(cx, "scaled and cut off", &[], 257, 4097, &|cx, t, f| {
        let cut: String = { let c: Vec<char> = t.chars().collect(); let k = f.post.chars().count() + f.mid.chars().count().min(2); c[..c.len() - k.min(c.len())].iter().collect() };
        cx.text(&cut, &everything); let half: String = t.chars().take(t.chars().count() * 2 / 3).collect(); cx.text(&half, &everything);
        cx.text(&format!("{} $", t.trim_end()), &everything); });
    // one big text of each kind
    let big = if cx.thorough { 300_001 } else { 65_537 };
    cx.all("bulk", FORMS.len() as u64, |cx, i| { let f = &FORMS[i as usize]; if !f.deep { let t = f.text(big); cx.case(&format!("{} x {}", f.name, big), || everything(&t)); } });
    let top = if cx.thorough { 600 } else { 300 };
    cx.all("nested blocks", 10 * 12, |cx, i| { let n = [1, 2, 3, 10, 50, 99, 100, 101, 127, 200, 255, top][(i / 10) as usize]; let t = nested_blocks((i % 10) as usize, n); cx.text(&t, &everything); });
    cx.all("open brackets", 4 * 20, |cx, i| { let n = sizes(1025)[(i / 4) as usize * 3 % 70]; let t = ["(", "[", "{", "f(["][(i % 4) as usize].repeat(n); cx.text(&t, &everything); });
    // flat texts must not use up an ordinary stack
    cx.all("flat texts on a small stack", FORMS.len() as u64, |cx, i| {
        let f = &FORMS[i as usize];
        // right recursive rules nest as deep as they are long, and the tree of an operator chain is as deep as the chain is long
        if f.deep || f.name.contains("chain") || f.name.starts_with("comp ") || f.area == Area::Ops || ["words", "operators only"].contains(&f.name) { return }
        let t = f.text(40_000);
        // 800 bytes of stack for each repetition: too little to parse it by recursion; the tree may be deep to the left and is dropped elsewhere
        cx.case(&format!("{} x 40000 on a 32 MB stack", f.name), move || {
            let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || sut::raw(&t, f.entry).ok()).unwrap();
            h.join().map_err(|_| "panic".to_string())?;
            Ok(Obs { sig: i, weight: 9, known: None })
        });
    });
}

// ---- P02 .. P10: tokens ------------------------------------------------------------------------------

const OPCHARS: [&str; 25] = ["<", ">", "=", "!", "*", "/", "+", "-", "%", "@", "&", "|", "^", "~", ":", ".", ",", ";", "(", ")", "[", "]", "{", "}", "a"];
const HEADS: [(&str, &str); 3] = [("", ""), ("x", "y\n"), ("1 ", " 2\n")];

fn p02(cx: &mut Ctx) {
    lexall(cx, "operator characters", &OPCHARS, 3, 4, Focus::Words, &HEADS);
    lexall(cx, "punctuation runs", &["<", ">", "=", "!", "*", "/", "-", ".", ":", "&"], 5, 6, Focus::Words, &[("a", "b")]);
    lexall(cx, "any character", &CHARS, 2, 3, Focus::Words, &[("", ""), ("a", "b"), ("=", "=")]);
    lexstream(cx, "operators in context", 30_000, 1_000_000, Focus::Words, |_, r| {
        let mut t = String::new();
        for _ in 0..1 + r.n(12) { t += r.pick(&reflex::OPS).0; t += *r.pick(&["", "", " ", "a", "1", "'s'", "\t", "_", ".5", "é"]) }
        if r.p(30) { t.push(*r.pick(&['$', '?', '!', '`', '\u{a0}', '\u{7f}', '€', '\0', '\u{b2}', '٣'])) }
        if r.p(10) { padded(r, &t) } else { t }
    });
    lexstream(cx, "single characters", 20_000, 200_000, Focus::Words, |_, r| {
        let c = loop { let m = [0x300, 0x3000, 0x110000][r.n(3)]; if let Some(c) = char::from_u32((r.u64() % m) as u32) { break c } };
        if c == '\r' { return "a".into() }
        format!("{}{}{}", r.pick(&["", "a ", "(", "1+", "a"]), c, r.pick(&["", " b", ")", "=", "c"]))
    });
    let sz = sizes(if cx.thorough { 131_073 } else { 16_385 });
    cx.all("operators after a distance", (sz.len() * reflex::OPS.len()) as u64, |cx, i| {
        let n = sz[i as usize / reflex::OPS.len()]; let o = reflex::OPS[i as usize % reflex::OPS.len()].0;
        let (a, b) = if i % 3 == 0 { ("b", "é") } else if i % 3 == 1 { (" ", "") } else { ("1", " ") };
        let open = match o { ")" => "(", "]" => "[", "}" => "{", _ => "" };
        let t = format!("{}{}{}{}", open, a.repeat(n), o, b);
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
    lexstream(cx, "programs", 3_000, 100_000, Focus::Words, |_, r| { let (p, mut q) = program(None, r.clone(), 100); text_of(&p.items, &mut q) });
    lexstream(cx, "noise", 6_000, 200_000, Focus::Words, |_, r| noise(r, true));
}

fn p03(cx: &mut Ctx) {
    let kw: Vec<&str> = reflex::KEYWORDS.iter().map(|k| k.0).collect();
    let near: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for w in kw.iter().cloned().chain(["match", "case", "type", "print", "exec", "self", "nil", "null", "true", "false", "none", "r", "u", "f", "b", "br", "rb", "fr", "rf", "ur", "bf", "rr", "bu", "rbr"]) {
            v.push(w.to_string()); v.push(w.to_uppercase()); v.push(w.to_lowercase());
            let c: Vec<char> = w.chars().collect();
            v.push(c[0].to_uppercase().chain(c[1..].iter().cloned()).collect());
            for x in ["_", "a", "0", "s", "é", "A", "9"] { v.push(format!("{}{}", w, x)); if x != "0" && x != "9" { v.push(format!("{}{}", x, w)) } }
            for k in 0..c.len() { let mut d = c.clone(); d.remove(k); if !d.is_empty() { v.push(d.iter().collect()) } let mut d = c.clone(); d.insert(k, c[k]); v.push(d.iter().collect()); let mut d = c.clone(); d[k] = if d[k] == 'e' { 'a' } else { 'e' }; v.push(d.iter().collect()); let mut d = c.clone(); d[k] = d[k].to_ascii_uppercase(); v.push(d.iter().collect()) }
            for k in &kw { v.push(format!("{}{}", w, k)); v.push(format!("{}_{}", w, k)) }
            // look-alikes
            v.push(w.replace('o', "о").replace('a', "а")); v.push(w.replace('i', "ı")); v.push(w.replace('s', "ſ")); v.push(w.replace('f', "ｆ"));
        }
        v.sort(); v.dedup(); v
    };
    let ctx = [("", ""), ("", "\n"), ("a ", " b\n"), ("(", ")"), ("1.", ""), ("a.", ".b"), ("0 ", ":"), ("'s'", "'t'"), ("\\\n", ""), ("\t", " "), ("#c\n", "#c"), ("0x1f ", "("), ("=", "="), ("~", "\r"), ("é", ""), ("_", "_"), ("b\"\"", "["), ("  ", "\n")];
    let n = (near.len() * ctx.len()) as u64;
    cx.all("keywords and near misses", n, |cx, i| { let c = ctx[i as usize % ctx.len()]; let t = format!("{}{}{}", c.0, near[i as usize / ctx.len()], c.1); cx.text(&t, &|t| judge::lex(t, Focus::Words)); });
    let pairs = (near.len() * kw.len()) as u64;
    let step = if cx.thorough { 1 } else { 7 };
    cx.all("word sequences", pairs / step, |cx, i| { let i = i * step + cx.seed % step; let t = format!("{} {} {}\n", kw[i as usize % kw.len()], near[i as usize / kw.len()], kw[(i * 7 + 3) as usize % kw.len()]); cx.text(&t, &|t| judge::lex(t, Focus::Words)); });
    // every keyword between any two characters
    let around: Vec<char> = (0u32..128).filter(|c| *c != 13).chain([0xa0, 0xaa, 0xb2, 0xe9, 0x661, 0x2028, 0x3042, 0xfeff, 0x1f600]).filter_map(char::from_u32).collect();
    const SOME: [&str; 24] = ["", " ", "\t", "\n", "\r", "\\\n", "#c\n", "(", ")", "[", "]", ":", ".", ",", "=", "-", "*", "'s'", "\"", "1", "a", "_", "@", "\\\r\n"];
    let words: Vec<&str> = kw.iter().cloned().chain(["match", "case", "a", "r", "rb", "asyn", "_", "e1", "j", "x0"]).collect();
    let (na, ns, nw) = (around.len() as u64, SOME.len() as u64, words.len() as u64);
    cx.all("words between characters", na * ns * nw * 2, |cx, i| {
        let (c, s, w) = (around[(i % na) as usize], SOME[(i / na % ns) as usize], words[(i / na / ns % nw) as usize]);
        let t = if i / na / ns / nw == 0 { format!("{}{}{}x", c, w, s) } else { format!("{}{}{} x", s, w, c) };
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
    lexall(cx, "short words", &["a", "i", "f", "n", "o", "r", "s", "b", "_", "0", "A", "é"], 4, 6, Focus::Words, &[("", "")]);
    let top = if cx.thorough { 131_073 } else { 16_385 };
    let mut len: Vec<usize> = (1..=300).collect(); len.extend(sizes(top)); len.sort(); len.dedup();
    cx.all("lengths", (len.len() * 8) as u64, |cx, i| {
        let n = len[i as usize / 8].max(1);
        let w: String = match i % 8 { 0 => "a".repeat(n), 1 => "_".repeat(n), 2 => "if".repeat(n), 3 => format!("{}0", "é".repeat(n)), 4 => format!("r{}'s'", "b".repeat(n)), 5 => (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect(), 6 => format!("{} if {}", "x".repeat(n), "y".repeat(n)), _ => format!("{}not", " ".repeat(n)) };
        let t = if i % 3 == 0 { format!("x={}\n", w) } else { w };
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
    cx.stream("letters of all scripts", 20_000, 300_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut w = String::new();
        for _ in 0..1 + r.n(6) { let c = loop { let m = [0x80, 0x250, 0x3000, 0x30000][r.n(4)]; if let Some(c) = char::from_u32((r.u64() % m) as u32) { if r.p(20) || c.is_alphanumeric() || c == '_' { break c } } }; if c != '\r' { w.push(c) } }
        cx.text(&w, &|t| judge::lex(t, Focus::Words));
    });
    lexstream(cx, "identifiers in programs", 10_000, 300_000, Focus::Words, |_, r| {
        let mut t = String::new();
        for _ in 0..1 + r.n(10) { t += if r.p(40) { r.pick(&kw) } else { r.pick(&near) }; t += *r.pick(&[" ", " ", ".", ",", "(", "[", "=", ":", "+", "\n", "\\\n", " #c\n"]) }
        if r.p(5) { padded(r, &t) } else { t }
    });
}

fn number(r: &mut Rng) -> String {
    if r.p(40) { return r.pick(&NUMBERS).to_string() }
    let digits = |r: &mut Rng, set: &str, us: u64| { let c: Vec<char> = set.chars().collect(); let n = 1 + r.count(0, 12); let mut s = String::new(); for i in 0..n { s.push(*r.pick(&c)); if i + 1 < n && r.p(us) { s.push('_') } } s };
    let us = if r.p(50) { 0 } else { 25 };
    let mut s = match r.n(8) {
        0 => format!("0{}{}{}", r.pick(&["x", "X"]), r.pick(&["", "_"]), digits(r, "0123456789abcdefABCDEF", us)),
        1 => format!("0{}{}{}", r.pick(&["o", "O"]), r.pick(&["", "_"]), digits(r, "01234567", us)),
        2 => format!("0{}{}{}", r.pick(&["b", "B"]), r.pick(&["", "_"]), digits(r, "01", us)),
        3 => digits(r, "0", us), 4 => format!(".{}", digits(r, "0123456789", us)), 5 => format!("{}.", digits(r, "0123456789", us)), 6 => format!("{}.{}", digits(r, "0123456789", us), digits(r, "0123456789", us)),
        _ => format!("{}{}", r.pick(&["1", "2", "9"]), digits(r, "0123456789", us)),
    };
    if !s.starts_with("0x") && !s.starts_with("0X") && r.p(30) { s += &format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r, "0123456789", us)) }
    if r.p(25) { s += *r.pick(&["j", "J"]) }
    s
}
fn p04(cx: &mut Ctx) {
    const A: [&str; 15] = ["0", "1", "7", "9", "_", ".", "e", "E", "+", "-", "x", "o", "b", "j", "a"];
    lexall(cx, "number characters", &A, 5, 6, Focus::Words, &[("", "")]);
    lexall(cx, "number characters in context", &A, 3, 4, Focus::Words, &[("x=", "\n"), ("(", ")"), ("[1,", "]"), ("a.", " "), ("- ", "if"), ("0x", ""), ("0b", ""), ("0o", "8"), ("1e", ""), ("0.", "J"), ("00", ""), ("1_", "")]);
    // whatever stands behind a number, finished or not
    let behind: Vec<String> = (0u32..128).filter(|c| *c != 13).chain([0xa0, 0xb2, 0xe9, 0x661, 0xff11, 0x1f600]).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    let starts: Vec<String> = { let mut v: Vec<String> = ["0", "1", "9", "0_", "1_", "00_", "0x", "0x_", "0xf", "0xf_", "0o", "0o_", "0o7", "0o7_", "0b", "0b_", "0b1", "0b1_", "1.", "1._", "1.5", "1.5_", ".5", ".5_", "1e", "1e+", "1e-", "1e5", "1e5_", "1e+5_", "1.e", "1.5e-", "0e", "0e0_", "1j", "1.j", "0j", "00", "09", "09.", "09e", "1_0", "1_0_", "1__", "0X", "0O", "0B", "0x1_f_", "1E", "1.5E+0_", "00.", "0.0_", "12345_", ".0e", "1e1j"].iter().map(|x| x.to_string()).collect(); v.extend(["0_0", "1_1_1", "0.1_1", "08", "0_9", "00_0_"].iter().map(|x| x.to_string())); v };
    let nb = behind.len() as u64; let ns = starts.len() as u64;
    cx.all("numbers and what is behind", nb * nb * ns, |cx, i| {
        let (a, b, c) = (&starts[(i % ns) as usize], &behind[(i / ns % nb) as usize], &behind[(i / ns / nb) as usize]);
        if !cx.thorough && i / ns / nb > 0 && (i / ns + cx.seed) % 5 != 0 { return }
        let t = if i / ns / nb == 0 { format!("{}{}", a, b) } else { format!("{}{}{}", a, b, c) };
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
    lexstream(cx, "numbers", 40_000, 1_500_000, Focus::Words, |_, r| {
        let mut t = number(r);
        if r.p(35) { t = chars_mutate(&t, r).replace('\r', "") }
        let a = *r.pick(&["", "", "x=", "(", "1+", "a[", "a ", "-", "\n"]); let b = *r.pick(&["", "\n", ")", "+1", ".a", "if", " if", "_", ":", "..", "and", "é", "j", "l", "L", "0", "'s'", "#c", "\0"]);
        format!("{}{}{}", a, t, b)
    });
    lexstream(cx, "numbers in lists", 6_000, 200_000, Focus::Words, |_, r| {
        let n = 1 + r.n(20); let mut t = String::from("[");
        for _ in 0..n { t += &number(r); t += *r.pick(&[",", ", ", "+", " -", "<<", "\n,", " if "]) }
        t += "0]\n";
        if r.p(10) { padded(r, &t) } else { t }
    });
    let top = if cx.thorough { 65_537 } else { 8_193 };
    let mut len: Vec<usize> = (0..=200).collect(); len.extend(sizes(top)); len.sort(); len.dedup();
    cx.all("lengths", (len.len() * 16) as u64, |cx, i| {
        let n = len[i as usize / 16];
        let t = match i % 16 { 0 => format!("1{}", "2".repeat(n)), 1 => format!("0x{}f", "0".repeat(n)), 2 => format!("0o{}1", "7".repeat(n)), 3 => format!("0b{}1", "01".repeat(n)), 4 => format!("0{}", "0".repeat(n)), 5 => format!("0{}1", "0".repeat(n)), 6 => format!("0{}.5", "9".repeat(n)), 7 => format!("1{}", "_1".repeat(n)), 8 => format!("1.{}", "0".repeat(n)), 9 => format!(".5{}", "_5".repeat(n)), 10 => format!("1e1{}", "0".repeat(n)), 11 => format!("1{}j", "0".repeat(n)), 12 => format!("0{}e-1{}", "0".repeat(n), "1".repeat(n)), 13 => format!("1{}_", "0".repeat(n)), 14 => format!("1{}__1", "0".repeat(n)), _ => format!("0x_1{}g", "_a".repeat(n)) };
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
}

fn p05(cx: &mut Ctx) {
    lexall(cx, "string characters", &["r", "b", "\"", "'", "\\", "\n", "x", " "], 6, 7, Focus::Words, &[("", "")]);
    lexall(cx, "inside quotes", &["\"", "'", "\\", "\n", "\r", "x", "é", "#"], 5, 6, Focus::Words, &[("'", "'"), ("\"", "\""), ("'''", "'''"), ("\"\"\"", "\"\"\""), ("rb'", "'"), ("F\"", "\" x")]);
    lexall(cx, "prefixes", &["r", "R", "b", "B", "f", "F", "u", "U", "x", "_"], 3, 4, Focus::Words, &[("", "''"), ("", "\"a\""), ("", "'''b'''"), ("a=", "\"\"\"\n\"\"\"\n"), ("(", "'\\''"), ("", " 's'"), ("1", "''")]);
    lexstream(cx, "literals", 40_000, 1_500_000, Focus::Words, |_, r| {
        let mut t = string_literal(r);
        if r.p(35) { t = chars_mutate(&t, r).replace('\r', "") }
        let a = *r.pick(&["", "", "x=", "(", "1+", "a ", "\n", "''", "x.", "[\n"]); let b = *r.pick(&["", "\n", ")", "+1", ".a", "if", "'", "\"", "''", "#c'", "\\", "\\\n'x'", "r'x'", "\0"]);
        format!("{}{}{}", a, t, b)
    });
    lexstream(cx, "literal lists", 8_000, 300_000, Focus::Words, |_, r| {
        let n = 1 + r.n(14); let mut t = String::new();
        for _ in 0..n { t += &string_literal(r); t += *r.pick(&[" ", ", ", "+", "\n", "", " # ' \n", " if "]) }
        if r.p(10) { padded(r, &t) } else { t }
    });
    let top = if cx.thorough { 131_073 } else { 16_385 };
    let mut len: Vec<usize> = (0..=300).collect(); len.extend(sizes(top)); len.sort(); len.dedup();
    cx.all("lengths", (len.len() * 14) as u64, |cx, i| {
        let n = len[i as usize / 14];
        let t = match i % 14 { 0 => format!("'{}'", "x".repeat(n)), 1 => format!("\"{}\"", "é".repeat(n)), 2 => format!("'''{}'''", "x\n".repeat(n)), 3 => format!("\"\"\"{}\"\"\"", "'".repeat(n)), 4 => format!("'{}'", "\\'".repeat(n)), 5 => format!("b'{}'", "\\\\".repeat(n)), 6 => format!("'{}\\'", "\\\\".repeat(n)), 7 => format!("'{}\n'", "x".repeat(n)), 8 => format!("'''{}''", "x".repeat(n)), 9 => format!("\"\"\"{}\"\"\"", "\"\\\"\"".repeat(n)), 10 => format!("'{}'", "\\\n".repeat(n)), 11 => format!("{}''", "''".repeat(n)), 12 => format!("rb'''{}'''a", "'\\''".repeat(n)), _ => format!("f\"{}\"'{}'", "{".repeat(n), "\u{1F600}".repeat(n)) };
        cx.text(&t, &|t| judge::lex(t, Focus::Words));
    });
}

fn p06(cx: &mut Ctx) {
    lexall(cx, "short strings", &CHARS, 3, 4, Focus::Spans, &[("", "")]);
    lexstream(cx, "programs and noise", 25_000, 1_000_000, Focus::Spans, |_, r| noise(r, false));
    lexstream(cx, "with CRLF", 6_000, 200_000, Focus::Spans, |_, r| noise(r, true));
    lexstream(cx, "far into the text", 2_500, 60_000, Focus::Spans, |_, r| { let t = noise(r, false); padded(r, &t) });
    forms(cx, "scaled", &[], 1025, 65537, &|cx, t, _| { cx.text(t, &|t| judge::lex(t, Focus::Spans)); });
    let big = if cx.thorough { 400_000 } else { 70_000 };
    cx.all("positions past 65536", FORMS.len() as u64, |cx, i| { let f = &FORMS[i as usize]; let t = format!("{}\n{}", "é;".repeat(big / 2), f.text(5)); cx.text(&t, &|t| judge::lex(t, Focus::Spans)); });
}

fn p07(cx: &mut Ctx) {
    lexall(cx, "layout characters", &["a", " ", "\t", "\n", "\r", "\\", "#", "(", ")", ":", "'"], 5, 6, Focus::Trivia, &[("", "")]);
    lexall(cx, "trivia runs", &[" ", "\t", "\n", "\r", "\\\n", "\\\r", "#c", "\\\r\n"], 5, 6, Focus::Trivia, &[("a", "b\n"), ("(a", ")\n"), ("if a:\n  b\n", "c\n")]);
    lexall(cx, "CRLF runs", &[" ", "\n", "\r\n", "#c", "a", "\\\r\n"], 4, 6, Focus::Trivia, &[("a", "b\n"), ("(a", ")\n")]);
    lexstream(cx, "programs and noise", 25_000, 1_000_000, Focus::Trivia, |_, r| noise(r, false));
    lexstream(cx, "programs with CRLF", 4_000, 100_000, Focus::Trivia, |_, r| noise(r, true));
    lexstream(cx, "heavy layout", 8_000, 300_000, Focus::Trivia, |_, r| {
        let (p, mut r2) = program(None, r.clone(), 50);
        let st = Style { nl: [0, 1, 2][r2.n(3)], space: 90, tabs: 40, cont: 30, brk: 50, comments: 50, blank: 60, mixind: true, final_nl: r2.p(60) };
        let t = layout(&p.items, &st, &mut r2); *r = r2; t
    });
    lexstream(cx, "comments", 10_000, 200_000, Focus::Trivia, |_, r| {
        let mut t = String::new();
        for _ in 0..1 + r.n(6) { t += *r.pick(&["", "a", "a ", "  ", "(", ")", "if a:"]); t += &comment(r); t += *r.pick(&["", "x", " é日", "'", "\\", "# type: y", "\t"]); t += *r.pick(&["\n", "\n", "\r", "\n\n", ""]) }
        t
    });
    layout_runs(cx, &|t, _| judge::lex(t, Focus::Trivia)); layout_before(cx, &|t| judge::lex(t, Focus::Trivia));
    forms(cx, "scaled", &[Area::Lexical, Area::Compound], 1025, 65537, &|cx, t, _| { cx.text(t, &|t| judge::lex(t, Focus::Trivia)); });
}

fn p08(cx: &mut Ctx) {
    const LINES: [&str; 15] = ["a", " a", "  a", "    a", "\ta", "#c", "   #c", "", "  ", "(", "  )", " \\", "\t\tb", "'''", " \tc"];
    let max = if cx.thorough { 5 } else { 4 };
    cx.all("line sequences", work::words(&LINES, max), |cx, i| {
        let w = word(&LINES, max, i).unwrap();
        let mut t = String::new();
        for k in &w { t += LINES[*k]; t += ["\n", "\n", "\r"][(i % 3) as usize] }
        if i % 2 == 1 { t.pop(); }
        cx.text(&t, &|t| judge::lex(t, Focus::Indents));
    });
    lexstream(cx, "random columns", 25_000, 1_000_000, Focus::Indents, |_, r| {
        let mut t = String::new();
        let mut cols: Vec<usize> = vec![0];
        for _ in 0..2 + r.n(24) {
            match r.n(10) {
                0..=2 => { let c = cols.last().unwrap() + 1 + r.n(9); cols.push(c) }
                3 | 4 => { let k = 1 + r.n(cols.len()); cols.truncate(k) }
                5 => if r.p(20) { let c = r.n(12); cols.push(c) },
                _ => {}
            }
            let col = *cols.last().unwrap();
            let tb = r.p(50);
            t += &blanks_to(r, col, tb);
            t += *r.pick(&["a", "a", "a", "if a:", "# c", "", "(a", "a)", "[", "]", "\\", "x='''\n  '''", "a \\\n        b", "a#c"]);
            t += *r.pick(&["\n", "\n", "\n", "\r", "\n\n", "\n   \n", "\n  # c\n"]);
        }
        if r.p(40) { t.pop(); }
        if r.p(20) { t += *r.pick(&["  ", "\t", "# c", "    # c", "\\\n"]) }
        t.replace("\r\n", "\n")
    });
    lexstream(cx, "programs", 12_000, 400_000, Focus::Indents, |_, r| noise(r, false));
    lexstream(cx, "with CRLF", 6_000, 200_000, Focus::Indents, |_, r| noise(r, true));
    let top = if cx.thorough { 1025 } else { 300 };
    let sz = sizes(top);
    cx.all("deep blocks", (sz.len() * 10) as u64, |cx, i| { let t = nested_blocks((i % 10) as usize, sz[i as usize / 10]); let t = if i % 2 == 0 { t.trim_end().to_string() } else { t + "x\n" }; cx.text(&t, &|t| judge::lex(t, Focus::Indents)); });
    cx.all("columns", 300 * 6, |cx, i| { let n = (i / 6) as usize; let mut r = cx.rng(i); let b = blanks_to(&mut r, n, i % 2 == 0); let b2 = blanks_to(&mut r, n, true); let t = match i % 6 { 0 | 1 => format!("if a:\n{}b\n{}c\nd\n", b, b2), 2 => format!("a\n{}b\n", b), 3 => format!("if a:\n {}b\n{}c\n", b, b2), 4 => format!("{}a\n", b), _ => format!("if a:\n {}b\n # c\n{} \n {}c\n d", b, b2, b2) }; cx.text(&t, &|t| judge::lex(t, Focus::Indents)); });
    forms(cx, "scaled", &[Area::Lexical, Area::Compound], 1025, 65537, &|cx, t, _| { cx.text(t, &|t| judge::lex(t, Focus::Indents)); });
}

fn p09(cx: &mut Ctx) {
    lexall(cx, "line break characters", &["a", " ", "\n", "\r", "\r\n", "\\", "#", "(", ")", "'"], 5, 6, Focus::Newlines, &[("", "")]);
    lexall(cx, "lines", &["a", "a ", "#c", "a#c", "", "  ", "\\", "a\\", "(", ")", "'''", "if a:", " b", "# type: x"], 0, 0, Focus::Newlines, &[("", "")]);
    const L: [&str; 14] = ["a", "a ", "#c", "a#c", "", "  ", "\\", "a\\", "(", ")", "'''", "if a:", " b", "# type: x"];
    let max = if cx.thorough { 5 } else { 4 };
    cx.all("line sequences", work::words(&L, max), |cx, i| {
        let w = word(&L, max, i).unwrap();
        let nl = ["\n", "\r", "\n", "\r\n"][(i % 4) as usize];
        let t = w.iter().map(|k| L[*k]).collect::<Vec<_>>().join(nl);
        cx.text(&t, &|t| judge::lex(t, Focus::Newlines));
    });
    lexstream(cx, "backslashes", 15_000, 300_000, Focus::Newlines, |_, r| {
        let mut t = String::new();
        for _ in 0..1 + r.n(8) { t += *r.pick(&["a", "a ", "(", ")", " ", "'s'", "#c", "\n", "if x:"]); if r.p(40) { t += "\\"; t += *r.pick(&["\n", "\r", "\r\n", "\n\n", " \n", "", "a", "#", "\\\n", "\t\n"]) } }
        t
    });
    lexstream(cx, "programs and noise", 20_000, 800_000, Focus::Newlines, |_, r| noise(r, false));
    lexstream(cx, "programs with CRLF", 3_000, 60_000, Focus::Newlines, |_, r| noise(r, true));
    lexstream(cx, "last lines", 10_000, 200_000, Focus::Newlines, |_, r| {
        let (p, mut q) = program(None, r.clone(), 30);
        let st = Style { final_nl: false, ..Style::random(&mut q, false) };
        let mut t = layout(&p.items, &st, &mut q);
        t += *q.pick(&["", " ", "\t ", "#c", "  # c", "\\\n", "\n", "\n ", "\n#", "\\"]); *r = q; t
    });
    forms(cx, "scaled", &[], 600, 16385, &|cx, t, _| { cx.text(t, &|t| judge::lex(t, Focus::Newlines)); let u = t.trim_end(); cx.text(u, &|t| judge::lex(t, Focus::Newlines)); });
}

fn p10(cx: &mut Ctx) {
    lexall(cx, "bracket sequences", &["(", "[", "{", ")", "]", "}", "a", "\n", "\n  "], 6, 7, Focus::Brackets, &[("", "")]);
    lexall(cx, "brackets only", &["(", "[", "{", ")", "]", "}"], 7, 8, Focus::Brackets, &[("", "\nb\n")]);
    lexstream(cx, "random nestings", 20_000, 800_000, Focus::Brackets, |_, r| {
        let mut t = String::new(); let mut st: Vec<char> = vec![];
        let n = 2 + r.count(0, 60); let deepen = 30 + r.n(50) as u64;
        let mut bad = r.p(35) as usize * (1 + r.n(n));
        if r.p(30) { t += "if a:\n    b\n    " }
        for _ in 0..n {
            bad = bad.wrapping_sub(1);
            if bad == 0 { t.push(*r.pick(&['(', ')', '[', ']', '{', '}'])); continue }
            if r.p(deepen) { let c = *r.pick(&['(', '[', '{']); t.push(c); st.push(match c { '(' => ')', '[' => ']', _ => '}' }) }
            else if let Some(c) = st.pop() { t.push(c) }
            t += *r.pick(&["", "", "a", ",", "\n", "\r", "\n   ", "\n\t", "\n\n  # c )\n", "'('", "\\\n", " ", "#]\n", "\nif"]);
        }
        if r.p(80) { while let Some(c) = st.pop() { t.push(c); if r.p(20) { t += *r.pick(&["\n", "\n     ", " #(\n"]) } } }
        t += *r.pick(&["\n", "\n  c\n", "\nc\n", "", "\n    c\nd\n", "\n)", ";]"]);
        t
    });
    lexstream(cx, "programs", 12_000, 400_000, Focus::Brackets, |_, r| {
        let (p, mut q) = program(Some(Area::Prim), r.clone(), 80);
        let items = if q.p(40) { mutate(&p.items, &mut q) } else { p.items };
        let st = Style { nl: [0, 1][q.n(2)], brk: 60, comments: 25, ..Style::random(&mut q, false) };
        let t = layout(&items, &st, &mut q); *r = q; t
    });
    let sz = sizes(if cx.thorough { 65_537 } else { 4_097 });
    cx.all("depths", (sz.len() * 10) as u64, |cx, i| {
        let n = sz[i as usize / 10];
        let (a, b, x) = [("(", ")", ""), ("[", "]", ""), ("{", "}", ""), ("([{", "}])", ""), ("(\n  ", ")\n ", ""), ("(", ")", ")"), ("[", "]", "("), ("{", "}", "]"), ("(\r", ")", "\n"), ("[(", "])", "")][(i % 10) as usize];
        let t = format!("if a:\n  {}{}{}\n  b\nc\n", a.repeat(n), b.repeat(n), x);
        cx.text(&t, &|t| judge::lex(t, Focus::Brackets));
    });
}

// ---- P11 .. P18: trees ---------------------------------------------------------------------------------

fn treestream(cx: &mut Ctx, name: &str, area: Option<Area>, quick: u64, thorough: u64, size: i32, how: Cmp, m: Mode) {
    cx.stream(name, quick, thorough, |cx, i| {
        let (p, mut r) = program(area, cx.rng(i), size);
        let t = text_of(&p.items, &mut r);
        let t = if p.entry == Entry::File && r.p(3) { padded(&mut r, &t) } else { t };
        if i % 8 == 0 && !judge::derivable(&t, p.entry) { gen_error(cx, name, &t) }
        cx.text(&t, &|t| judge::tree(t, p.entry, how, m));
        // file input of what another entry point takes
        if p.entry != Entry::File && p.entry != Entry::Func { cx.text(&t, &|t| judge::tree(t, Entry::File, how, m)); }
    });
}
fn treewords(cx: &mut Ctx, name: &str, alphabet: &[&str], quick: usize, thorough: usize, wrap: &[(&str, &str)], e: Entry, f: &dyn Fn(&str, Entry) -> V) {
    let max = if cx.thorough { thorough } else { quick };
    let n = work::words(alphabet, max);
    cx.all(name, n * wrap.len() as u64, |cx, i| {
        let w = wrap[(i % wrap.len() as u64) as usize];
        let t = format!("{}{}{}", w.0, spell(alphabet, max, i / wrap.len() as u64, " "), w.1);
        cx.text(&t, &|t| f(t, e));
    });
}
const ALLOPS: [&str; 27] = ["or", "and", "<", ">", "<=", ">=", "==", "!=", "<>", "in", "not in", "is", "is not", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "//", "%", "@", "**", "if x else"];
const UNARY: [&str; 7] = ["", "- ", "+ ", "~ ", "not ", "await ", "- not "];

fn structured_ops(cx: &mut Ctx, j: &dyn Fn(&str, Entry) -> V) {
    let no = ALLOPS.len() as u64; let nu = UNARY.len() as u64;
    cx.all("operator pairs with unary operators", no * no * nu * nu * nu, |cx, i| {
        let (o1, o2) = (ALLOPS[(i % no) as usize], ALLOPS[(i / no % no) as usize]);
        let k = i / no / no; let (u, v, w) = (UNARY[(k % nu) as usize], UNARY[(k / nu % nu) as usize], UNARY[(k / nu / nu) as usize]);
        let t = format!("{}a {} {}b {} {}c\n", u, o1, v, o2, w);
        cx.text(&t, &|t| j(t, Entry::Eval));
    });
    let step = if cx.thorough { 1 } else { 3 };
    cx.all("operator triples", no * no * no * 8 / step, |cx, i| {
        let i = i * step + cx.seed % step;
        let k = i / 8; let (o1, o2, o3) = (ALLOPS[(k % no) as usize], ALLOPS[(k / no % no) as usize], ALLOPS[(k / no / no) as usize]);
        let t = match i % 8 { 0 => format!("a {} b {} c {} d\n", o1, o2, o3), 1 => format!("(a {} b) {} c {} d\n", o1, o2, o3), 2 => format!("a {} (b {} c) {} d\n", o1, o2, o3), 3 => format!("x = a {} b {} (c {} d)\n", o1, o2, o3), 4 => format!("f(a {} -b {} c, d {} e)\n", o1, o2, o3), 5 => format!("if a {} b.c {} d() {} e[0]: pass\n", o1, o2, o3), 6 => format!("[a {} b {} c {} d for z in y]\n", o1, o2, o3), _ => format!("a {} 1 {} 'c' {} None\n", o1, o2, o3) };
        cx.text(&t, &|t| j(t, Entry::File));
    });
    treewords(cx, "expression words", &["a", "b", "not", "-", "**", "*", "<", "is", "in", "if", "else", "or", "and", "await", "(", ")", "lambda :", ":="], 4, 5, &[("", "\n"), ("(", ")\n"), ("a ", " b\n")], Entry::File, j);
    cx.all("expressions in places", (PLACES.len() * ALLOPS.len() * 6) as u64, |cx, i| {
        let p = PLACES[i as usize % PLACES.len()]; let o = ALLOPS[i as usize / PLACES.len() % ALLOPS.len()];
        let e = match i as usize / PLACES.len() / ALLOPS.len() { 0 => format!("a {} b", o), 1 => format!("a {} b {} c", o, o), 2 => format!("a {} not b.c", o), 3 => format!("-a {} -b ** -c", o), 4 => format!("a + b {} c | d", o), _ => format!("not a < b {} c == d and e", o) };
        let t = format!("{}{}{}", p.0, e, p.1);
        cx.text(&t, &|t| j(t, Entry::File));
    });
}
fn p11(cx: &mut Ctx) {
    let j = |t: &str, e: Entry| judge::tree(t, e, Cmp::Shape, Mode::AcceptTree);
    structured_ops(cx, &j); far_down(cx, &j);
    forms(cx, "chains", &[Area::Ops], 4097, 65537, &|cx, t, f| { cx.text(t, &|t| j(t, f.entry)); });
    cx.stream("random chains", 60_000, 2_000_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = 1 + r.count(0, 40);
        let k = 1 + r.n(8); let ops: Vec<&str> = (0..k).map(|_| *r.pick(&ALLOPS)).collect();
        let pu = [0, 10, 40][r.n(3)];
        let mut t = String::new(); let mut open = 0;
        for q in 0..=n {
            if q > 0 { t += " "; t += *r.pick(&ops); t += " " }
            while r.p(pu) { t += *r.pick(&UNARY[1..5]) }
            if r.p(8) { t += "(" ; open += 1 }
            if r.p(8) { t += "await " }
            t += *r.pick(&["a", "b", "c", "1", "'s'", "f()", "x.y", "x[0]", "[a]", "(a, b)", "lambda_", "..."]);
            while open > 0 && r.p(40) { t += ")"; open -= 1 }
        }
        while open > 0 { t += ")"; open -= 1 }
        if r.p(10) { t += " if lambda_ else lambda: a or b" }
        t += "\n";
        cx.text(&t, &|t| j(t, Entry::Eval));
    });
    treestream(cx, "expressions", Some(Area::Ops), 30_000, 1_000_000, 90, Cmp::Shape, Mode::AcceptTree);
}

const PRIMS: [&str; 60] = ["a", "1", "'s'", "None", "True", "False", "...", "'a' 'b'", "()", "(a)", "(a,)", "(a, b)", "(a, b,)", "(*a, b)", "(yield a)", "(yield from a)", "(a := b)", "[]", "[a]", "[a,]", "[a, *b]", "[a for b in c]", "(a for b in c if d)", "[a async for b, c in d for e in f]", "{}", "{a}", "{a, b,}", "{*a, b}", "{a: b}", "{a: b, c: d,}", "{**a}", "{a: b, **c}", "a.b", "a.b.c", "a()", "a(b)", "a(b, c=d, *e, **f)", "a(b for c in d)", "a(b,)", "a(b := c)", "a[b]", "a[b:c]", "a[:]", "a[::]", "a[b:c:d]", "a[:, b]", "a[b,]", "a.b(c)[d].e", "await a", "await a.b()", "lambda: a", "lambda a: b", "lambda a, b=c: d", "lambda *a, **b: c", "lambda a, /, b: c", "lambda *, a: b", "[[a, b], (c,)]", "a[b[c[d]]]", "f(g(h(i)))", "{a: {b: {c}}}"];

fn structured_prim(cx: &mut Ctx, j: &dyn Fn(&str, Entry) -> V) {
    treewords(cx, "inside brackets", &["a", ",", "*", "**", "=", ":", ":=", "for b in c", "if d", ".", "yield", "'s'"], 4, 5, &[("(", ")\n"), ("[", "]\n"), ("{", "}\n"), ("f(", ")\n"), ("x[", "]\n")], Entry::Eval, j);
    treewords(cx, "after a primary", &["a", "(", ")", "[", "]", ".", ",", ":", "*", "="], 5, 6, &[("a", "\n")], Entry::File, j);
    treewords(cx, "lambda parameters", &["a", ",", "=", "*", "**", "/", ":"], 6, 7, &[("lambda ", " : x\n")], Entry::Eval, j);
    treewords(cx, "comprehensions", &["a", "for", "async", "in", "if", ",", "or", "lambda :", "*", "else"], 5, 6, &[("[a for ", "]\n"), ("f(a ", ")\n")], Entry::Eval, j);
    let np = PRIMS.len() as u64;
    cx.all("primaries, calls and subscripts in places", np * PLACES.len() as u64 * 3, |cx, i| {
        let p = PLACES[(i % PLACES.len() as u64) as usize]; let a = PRIMS[(i / PLACES.len() as u64 % np) as usize];
        let b = PRIMS[((i * 31 + cx.seed) % np) as usize];
        let t = match i / PLACES.len() as u64 / np { 0 => format!("{}{}{}", p.0, a, p.1), 1 => format!("{}x({}){}", p.0, a, p.1), _ => format!("{}[{}, {}]{}", p.0, a, b, p.1) };
        cx.text(&t, &|t| j(t, Entry::File));
    });
    cx.all("primaries inside primaries", np * np * 6, |cx, i| {
        let a = PRIMS[(i % np) as usize]; let b = PRIMS[(i / np % np) as usize];
        let t = match i / np / np { 0 => format!("({}, {})\n", a, b), 1 => format!("{{{}: {}}}\n", a, b), 2 => format!("f({}, x={})\n", a, b), 3 => format!("x[{}:{}]\n", a, b), 4 => format!("[{} for x in {}]\n", a, b), _ => format!("x({})[{}].y\n", a, b) };
        cx.text(&t, &|t| j(t, Entry::Eval));
    });
}
fn p12(cx: &mut Ctx) {
    let j = |t: &str, e: Entry| judge::tree(t, e, Cmp::Shape, Mode::AcceptTree);
    structured_prim(cx, &j); forms_in_places(cx, &j); far_down(cx, &j); sentences(cx, &["lambda parameters", "brackets", "trailers", "comprehensions"], &j);
    forms(cx, "sizes", &[Area::Prim], 2049, 65537, &|cx, t, f| { cx.text(t, &|t| j(t, f.entry)); });
    cx.stream("random lists", 30_000, 1_000_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = r.count(0, 60);
        let kind = r.n(9);
        let item = |r: &mut Rng| -> String {
            let a = if r.p(70) { "a" } else { *r.pick(&PRIMS) }; let b = if r.p(70) { "b" } else { *r.pick(&PRIMS) };
            match kind {
                0 | 1 => if r.p(20) { "*x".into() } else if r.p(10) { format!("x:={}", a) } else { a.into() },
                2 => if r.p(20) { "**x".into() } else { format!("{}:{}", a, b) },
                3 => if r.p(20) { "*x".into() } else { a.into() },
                4 | 5 => match r.n(6) { 0 => format!("*{}", a), 1 => format!("**{}", a), 2 => format!("x={}", a), 3 => format!("x:={}", a), _ => a.into() },
                6 => match r.n(5) { 0 => ":".into(), 1 => format!("{}:", a), 2 => format!(":{}:{}", a, b), 3 => "::".into(), _ => a.into() },
                7 => match r.n(3) { 0 => format!("x={}", a), _ => "x".into() },
                _ => a.into(),
            }
        };
        let mut s: Vec<String> = (0..n).map(|_| item(&mut r)).collect();
        if kind == 7 && r.p(40) { let k = r.n(s.len() + 1); s.insert(k, "*y".into()); if r.p(40) { s.push("**z".into()) } }
        let mut l = s.join(*r.pick(&[",", ", ", ",\n "]));
        if n > 0 && r.p(30) { l += "," }
        let t = match kind { 0 => format!("[{}]", l), 1 => format!("({})", l), 2 | 3 => format!("{{{}}}", l), 4 => format!("f({})", l), 5 => format!("a.b({})(c)", l), 6 => format!("x[{}]", if l.is_empty() { "0".into() } else { l }), 7 => format!("lambda {}: 0", l.replace('\n', "")), _ => format!("({}, {})", l.trim_end_matches(','), "z").replace("(, ", "(") };
        cx.text(&(t + "\n"), &|t| j(t, Entry::Eval));
    });
    treestream(cx, "primaries", Some(Area::Prim), 30_000, 1_000_000, 90, Cmp::Shape, Mode::AcceptTree);
}

const SIMPLE_HEADS: [(&str, &str); 26] = [("", "\n"), ("a ", "\n"), ("a = ", "\n"), ("a : ", "\n"), ("a += ", "\n"), ("del ", "\n"), ("return ", "\n"), ("raise ", "\n"), ("yield ", "\n"), ("import ", "\n"), ("from ", "\n"), ("from a import ", "\n"), ("from . import ", "\n"), ("global ", "\n"), ("nonlocal ", "\n"), ("assert ", "\n"), ("pass ", "\n"), ("break ", "\n"), ("continue ", "\n"), ("a ; ", "\n"), ("from a import ( ", ")\n"), ("from . ", " import a\n"), ("a = yield ", "\n"), ("a = b ", "\n"), ("a : b = ", "\n"), ("raise a ", "\n")];
const SIMPLES: [&str; 62] = ["a", "a, b", "a,", "*a, b", "a = b", "a = b = c", "a, b = c, d", "a = yield b", "a: b", "a: b = c", "a.b: c", "a[0]: b = yield c", "a += b", "a -= b, c", "a *= yield b", "a /= b", "a //= b", "a %= b", "a @= b", "a **= b", "a <<= b", "a >>= b", "a |= b", "a ^= b", "a &= b", "del a", "del a, b", "del (a, b),", "pass", "break", "continue", "return", "return a", "return a, *b", "raise", "raise a", "raise a from b", "yield a", "yield a, b", "yield from a", "import a", "import a.b.c", "import a as b", "import a, b.c as d", "from a import b", "from a.b import c as d, e", "from . import a", "from .a import *", "from ... import a", "from .... a import (b, c as d,)", "from a import (b)", "from ..a.b import (c as d)", "global a", "global a, b", "nonlocal a, b, c", "assert a", "assert a, b", "a = b # type: c", "a()", "'doc'", "lambda: a", "[a for b in c]"];

fn structured_simple(cx: &mut Ctx, j: &dyn Fn(&str, Entry) -> V) {
    treewords(cx, "statement words", &["a", "b", ",", ".", "...", "*", "as", "from", "import", "(", ")", "=", ":", "yield", ";", "+=", "# type: x\n"], 3, 4, &SIMPLE_HEADS, Entry::File, j);
    treewords(cx, "import words", &["a", ",", ".", "as", "*", "(", ")", "import", "..."], 5, 6, &[("from ", "\n"), ("import ", "\n"), ("from a import ", "\n")], Entry::File, j);
    let n = SIMPLES.len() as u64;
    cx.all("statement pairs", n * n * 6, |cx, i| {
        let (a, b) = (SIMPLES[(i % n) as usize], SIMPLES[(i / n % n) as usize]);
        let t = match i / n / n { 0 => format!("{}\n{}\n", a, b), 1 => format!("{};{}\n", a, b), 2 => format!("{} ; {};\n", a, b), 3 => format!("if x: {}; {}\n", a, b), 4 => format!("if x:\n  {}\n  {}", a, b), _ => format!("{}\n\n{}", a, b) };
        cx.text(&t, &|t| j(t, Entry::File));
    });
    let np = PRIMS.len() as u64;
    const TARGETS: [&str; 9] = ["a", "a.b", "a[b]", "a, b", "a,", "*a, b", "(a, b)", "[a]", "a = b"];
    const ASSIGN: [&str; 17] = ["=", "+=", "-=", "*=", "/=", "//=", "%=", "@=", "&=", "|=", "^=", "<<=", ">>=", "**=", ":", ": c =", "= c ="];
    const VALUES: [&str; 15] = ["d", "d,", "d, e", "yield d", "yield d, e", "yield *d, e", "yield from d", "*d, e", "d if e else f", "lambda: d", "d := e", "(yield)", "not d", "d = e", "d # type: e"];
    cx.all("assignments", (TARGETS.len() * ASSIGN.len() * VALUES.len() * 2) as u64, |cx, i| {
        let i = i as usize; let (a, o, v) = (TARGETS[i % 9], ASSIGN[i / 9 % 17], VALUES[i / 153 % 15]);
        let t = if i / 153 / 15 == 0 { format!("{} {} {}\n", a, o, v) } else { format!("if x:\n  {} {} {}; {}\n", a, o, v.split(" #").next().unwrap(), a) };
        cx.text(&t, &|t| j(t, Entry::File));
    });
    cx.all("statements of primaries", np * np * 24, |cx, i| {
        let (a, b) = (PRIMS[(i % np) as usize], PRIMS[(i / np % np) as usize]);
        let s = [("", " = "), ("", ": "), ("", " += "), ("", " **= "), ("del ", ", "), ("return ", ", "), ("raise ", " from "), ("assert ", ", "), ("yield ", ", "), ("x = ", " = "), ("x: ", " = "), ("", ", "), ("x = yield ", ", "), ("", " = yield "), ("*x, ", " = "), ("", "; "), ("", " >>= "), ("x, y = ", ", "), ("", " = yield from "), ("", " @= yield "), ("return ", ";"), ("", " //= "), ("raise ", "; raise "), ("x: y = ", ", ")][(i / np / np) as usize];
        let t = format!("{}{}{}{}\n", s.0, a, s.1, b);
        cx.text(&t, &|t| j(t, Entry::File));
    });
}
fn p13(cx: &mut Ctx) {
    let j = |t: &str, e: Entry| judge::tree(t, e, Cmp::Shape, Mode::AcceptTree);
    structured_simple(cx, &j); far_down(cx, &j); sentences(cx, &["statements", "imports"], &j);
    forms(cx, "sizes", &[Area::Simple], 2049, 65537, &|cx, t, f| { cx.text(t, &|t| j(t, f.entry)); });
    cx.stream("statement lists", 20_000, 500_000, |cx, i| {
        let mut r = cx.rng(i); let k = 1 + r.count(0, 30); let mut t = String::new();
        for _ in 0..k { t += *r.pick(&SIMPLES); t += *r.pick(&["\n", "\n", ";", "; ", ";\n", "\n\n", " # c\n"]) }
        t += "pass"; if r.p(70) { t += "\n" }
        cx.text(&t, &|t| j(t, Entry::File));
    });
    treestream(cx, "simple statements", Some(Area::Simple), 40_000, 1_500_000, 80, Cmp::Shape, Mode::AcceptTree);
}

const HEADERS: [&str; 44] = ["if a:", "elif b:", "else:", "while a:", "for a in b:", "for a, *b in c, d:", "try:", "except:", "except a:", "except a as b:", "except* a:", "except* a as b:", "finally:", "with a:", "with a as b:", "with a, b as c:", "with (a, b):", "with (a as b, c,):", "def a():", "def a() -> b:", "class a:", "class a():", "class a(b, c=d, *e):", "async def a():", "async for a in b:", "async with a:", "@a", "@a.b", "@a()", "@a(b, c)", "if a := b:", "while a := b:", "if a and not b:", "for a in b: # type: c", "def a(): # type: b", "with a as (b, c):", "with a.b() as c.d:", "class a(b):", "class a(*b, **c):", "elif a or b:", "elif a := b:", "with a as b[c], d:", "async with a as b, c:", "for a.b in [c]:"];

fn compound_text(r: &mut Rng, n: usize) -> String {
    // lines with plausible and implausible indentation
    let mut t = String::new(); let mut cols = vec![0usize];
    let mut after = false;
    for _ in 0..n {
        if after && r.p(90) { let c = cols.last().unwrap() + [1, 2, 4][r.n(3)]; cols.push(c) } else if !after && r.p(35) { let k = 1 + r.n(cols.len()); cols.truncate(k) }
        let h = *r.pick(&HEADERS);
        t += &" ".repeat(*cols.last().unwrap());
        if r.p(65) { t += h; after = h.ends_with(':') || h.contains("# type"); if after && !h.contains('#') && r.p(50) { t += *r.pick(&[" x", " x; y", " pass;", " return a"]); after = false } }
        else { t += *r.pick(&SIMPLES); after = false }
        t += "\n";
    }
    if after { t += &" ".repeat(cols.last().unwrap() + 1); t += "pass\n" }
    t
}
fn structured_compound(cx: &mut Ctx, j: &dyn Fn(&str, Entry) -> V) {
    const H: [&str; 19] = ["if a:", "elif b:", "else:", "while a:", "for a in b:", "try:", "except:", "except a:", "except* a:", "finally:", "with a:", "def a():", "class a:", "async def a():", "async for a in b:", "async with a:", "@a", "x", "except a as b:"];
    let max = if cx.thorough { 5 } else { 4 };
    cx.all("clauses of all kinds", work::words(&H, max), |cx, i| {
        let w = word(&H, max, i).unwrap();
        let mut t = String::new();
        let mut z = i.wrapping_mul(0x9E3779B97F4A7C15) ^ cx.seed;
        for k in &w { t += H[*k]; if H[*k].ends_with(':') { z = z.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D); t += [" b", "\n  c", "\n  c\n  d", " b; c;"][(z >> 60) as usize % 4] } t += "\n" }
        cx.text(&t, &|t| j(t, Entry::File));
    });
    // two levels: the inner sequence ends, the outer goes on
    let n = HEADERS.len() as u64;
    cx.all("clauses after a nested block", n * n * 19 * 2, |cx, i| {
        let (a, b, c) = (HEADERS[(i % n) as usize], HEADERS[(i / n % n) as usize], H[(i / n / n % 19) as usize]);
        let body = |h: &str, ind: &str| if h.ends_with(':') || h.contains("# type") { format!("{}\n{}   y\n", h, ind) } else { format!("{}\n", h) };
        let inner = if i / n / n / 19 == 0 { "  " } else { "" };
        let t = format!("{}\n  {}{}{}z\n", a, body(b, "  "), inner, body(c, inner));
        let t = if a.starts_with('@') { format!("{}\n{}{}z\n", a, body(b, ""), body(c, "")) } else { t };
        cx.text(&t, &|t| j(t, Entry::File));
    });
    treewords(cx, "header words", &["a", "as", ",", "(", ")", "in", ":", "*", "b", "=", "->"], 4, 5, &[("with ", ": x\n"), ("for ", ": x\n"), ("class ", ": x\n"), ("try: x\nexcept ", ": x\n"), ("def a ", ": x\n"), ("@ ", "\nclass a: x\n"), ("if ", ": x\n")], Entry::File, j);
    let np = PRIMS.len() as u64;
    cx.all("headers of primaries", np * 30, |cx, i| {
        let a = PRIMS[(i % np) as usize]; let h = ["if {}: x\n", "if x: x\nelif {}:\n  y\nelse: z\n", "while {}:\n x\nelse:\n y\n", "for a in {}: x\n", "for {} in a: x\n", "with {}: x\n", "with b, {} as c: x\n", "with (b as c, {}): x\n", "try: x\nexcept {}: y\n", "try: x\nexcept* {} as e: y\n", "class a({}): x\n", "class a(b={}): x\n", "class a(*{}, **{}): x\n", "@a({})\nclass b: x\n", "def a() -> {}: x\n", "async for a in {}: x\nelse: y\n", "async with {} as a: x\n", "if (a := {}): x\n", "if a := {}: x\n", "for a in {}, {}: x\n", "for {}, b in a: x\n", "with a as {}: x\n", "if x:\n return {}\n", "while x: {}; {}\n", "try: {}\nfinally: {}\n", "if x:\n  if {}: y\n  elif {}: z\nelse: w\n", "class a:\n  {}\n  def b(): {}\n", "@a(b={})\n@c\nasync def d(): x\n", "for a in b:\n {}\nelse:\n {}\n", "if {}:\n if x: y\nelse: z\n"][(i / np) as usize].replace("{}", a);
        cx.text(&h, &|t| j(t, Entry::File));
    });
}
fn p14(cx: &mut Ctx) {
    let j = |t: &str, e: Entry| judge::tree(t, e, Cmp::Shape, Mode::AcceptTree);
    structured_compound(cx, &j); forms_in_places(cx, &j); far_down(cx, &j); sentences(cx, &["clauses", "headers"], &j);
    cx.stream("indented lines", 60_000, 2_000_000, |cx, i| { let mut r = cx.rng(i); let n = 2 + r.count(0, 14); let t = compound_text(&mut r, n); cx.text(&t, &|t| j(t, Entry::File)); });
    forms(cx, "sizes", &[Area::Compound], 2049, 16385, &|cx, t, f| { cx.text(t, &|t| j(t, f.entry)); });
    let sz = sizes(if cx.thorough { 600 } else { 257 });
    cx.all("nestings", (sz.len() * 10) as u64, |cx, i| { let t = nested_blocks((i % 10) as usize, sz[i as usize / 10]); cx.text(&t, &|t| j(t, Entry::File)); });
    treestream(cx, "compound statements", Some(Area::Compound), 40_000, 1_500_000, 110, Cmp::Shape, Mode::AcceptTree);
}

const WORDS: [&str; 62] = ["a", "1", "'s'", "None", "...", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "=", ":=", "->", "+=", "-", "*", "**", "~", "<", "@", "not", "in", "is", "and", "if", "else", "elif", "for", "while", "try", "except", "finally", "with", "as", "def", "class", "lambda", "yield", "from", "import", "return", "raise", "del", "pass", "global", "nonlocal", "assert", "async", "await", "break", "continue", "\n", "\n  ", "# type: x\n", "# c\n", "\\\n", "match"];
const GOODWORDS: [&str; 32] = ["a", "1", "(", ")", "[", "]", "{", "}", ",", ":", ".", "=", ":=", "-", "*", "**", "<", "not", "in", "if", "else", "for", "lambda", "yield", "await", ";", "is", "and", "...", "'s'", "from", "async"];

/// places that take less than any expression, and things to put there
const NARROW: [(&str, &str); 84] = [("{**", "}\n"), ("{a: b, **", "}\n"), ("{**", ", a: b}\n"), ("{*", "}\n"), ("{a, *", "}\n"), ("[*", "]\n"), ("[a, *", "]\n"), ("(*", ",)\n"), ("(a, *", ")\n"), ("*", ",\n"), ("a, *", "\n"), ("return *", ",\n"), ("x = *", ",\n"), ("yield *", ",\n"),
    ("with a as ", ": b\n"), ("with (a as ", "): b\n"), ("with ", ": b\n"), ("with a, ", ": b\n"), ("with (a, ", "): b\n"), ("for ", " in a: b\n"), ("for *", ", a in b: c\n"), ("for a in ", ": b\n"), ("for a, ", " in b: c\n"), ("del ", "\n"), ("del a, ", "\n"), ("[a for ", " in b]\n"), ("[a for b, ", " in c]\n"), ("[a for b in ", "]\n"), ("[a for b in ", " for c in d]\n"), ("[a for b in c if ", "]\n"), ("[a for b in c if ", " if d]\n"), ("[", " for b in c]\n"), ("(", " for b in c)\n"), ("f(", " for b in c)\n"), ("f(a, ", " for b in c)\n"),
    ("a + ", "\n"), ("", " + a\n"), ("-", "\n"), ("a ** ", "\n"), ("", " ** a\n"), ("not ", "\n"), ("a < ", "\n"), ("", " < a\n"), ("a not in ", "\n"), ("a is ", "\n"), ("a and ", "\n"), ("", " or a\n"), ("await ", "\n"), ("a if ", " else b\n"), ("a if b else ", "\n"), ("", " if a else b\n"), ("a | ", "\n"), ("a << ", "\n"), ("a @ ", "\n"),
    ("import ", "\n"), ("from ", " import a\n"), ("from a import ", "\n"), ("from a import (", ")\n"), ("import a as ", "\n"), ("try: a\nexcept ", ": b\n"), ("try: a\nexcept b as ", ": c\n"), ("try: a\nexcept* ", ": b\n"), ("global ", "\n"), ("@", "\nclass a: b\n"), ("@a(", ")\nclass a: b\n"), ("class ", ": b\n"), ("class a(", "): b\n"), ("def ", "(): b\n"), ("def a() -> ", ": b\n"), ("a.", "\n"), ("f(", "=a)\n"), ("f(a=", ")\n"), ("f(**", ")\n"), ("f(*", ")\n"), ("lambda ", ": a\n"), ("lambda *", ": a\n"), ("lambda a=", ": a\n"), ("lambda: ", "\n"),
    ("", " = a\n"), ("a = ", "\n"), ("", ": a\n"), ("a: ", "\n"), ("", " += a\n"), ("(", " := a)\n")];
const WIDE: [&str; 72] = ["a if b else c", "not a", "lambda: a", "lambda a, b: c", "lambda: a if b else c", "a < b", "a and b", "a or b", "a := b", "(a := b)", "*a", "**a", "yield a", "yield from a", "(yield a)", "a, b", "a,", "await a", "-a", "a ** b", "a | b", "a ^ b", "a & b", "a << b", "a + b", "a * b", "a for b in c", "a async for b in c", "(a for b in c)", "a: b", "a = b", "(a)", "a.b", "a()", "a b", "", "1", "'s'", "...", "None", "a not in b", "a is b", "a is not b", "a in b", "*a, b", "a, *b", "a[b]", "a;b", "if a", "a if b", "else a", "not", "in a", "as a", "a as b", "a.b.c as d", "*", "**", ".", ".a", "a.", "a.b.1", "a.b()", "async a", "a, b = c", "a += b", "a ->b", "[a]", "{a}", "{a: b}", "a[b:c]", "not a if b else not c"];
fn narrow(cx: &mut Ctx, f: &dyn Fn(&str, Entry) -> V) {
    let (nn, nw) = (NARROW.len() as u64, WIDE.len() as u64);
    cx.all("any expression in narrow places", nn * nw * 3, |cx, i| {
        let (p, w) = (NARROW[(i % nn) as usize], WIDE[(i / nn % nw) as usize]);
        let t = match i / nn / nw { 0 => format!("{}{}{}", p.0, w, p.1), 1 => format!("{}({}){}", p.0, w, p.1), _ => format!("if x:\n  y; {}{}{}", if p.1.ends_with(": b\n") || p.0.starts_with('@') || p.0.starts_with("try") || p.1.contains(": c") { "z\n  " } else { "" }, w_in(p.0), w.to_string() + &w_in(p.1)) };
        cx.text(&t, &|t| f(t, Entry::File));
    });
    let inner: Vec<(&str, &str)> = NARROW.iter().filter(|p| p.1.ends_with("\n") && !p.1.contains(": ") && !p.0.starts_with(|c: char| "abdegirxy@f".contains(c) && !p.0.starts_with("f(") && !p.0.starts_with("a ")) ).map(|p| (p.0, p.1.trim_end())).collect();
    let ni = inner.len() as u64;
    cx.all("narrow places in narrow places", nn * ni * nw, |cx, i| {
        if !cx.thorough && (i / nn + i + cx.seed) % 7 != 0 { return }
        let (p, q, w) = (NARROW[(i % nn) as usize], inner[(i / nn % ni) as usize], WIDE[(i / nn / ni) as usize]);
        let t = format!("{}{}{}{}{}", p.0, q.0, w, q.1, p.1);
        cx.text(&t, &|t| f(t, Entry::File));
    });
    const TYPES: [(&str, &str); 7] = [("(", ") -> a\n"), ("(*", ") -> a\n"), ("(**", ") -> a\n"), ("(a, *b, ", ") -> a\n"), ("(a) -> ", "\n"), ("(a, ", ", *c) -> a\n"), ("(*a, ", ", **c) -> a\n")];
    cx.all("any expression in types", 7 * nw, |cx, i| { let p = TYPES[(i % 7) as usize]; let t = format!("{}{}{}", p.0, WIDE[(i / 7) as usize], p.1); cx.text(&t, &|t| f(t, Entry::Func)); });
    cx.all("any expression in eval and single input", 2 * nn * nw, |cx, i| { let p = NARROW[(i % nn) as usize]; let t = format!("{}{}{}", p.0, WIDE[(i / nn % nw) as usize], p.1); let e = if i / nn / nw == 0 { Entry::Eval } else { Entry::Single }; cx.text(&t, &|t| f(t, e)); });
}
fn w_in(s: &str) -> String { let t = s.trim_end_matches('\n').replace('\n', "\n  "); if s.ends_with('\n') { t + "\n" } else { t } }

/// judgements P15 and P16 share their texts
fn grammar_texts(cx: &mut Ctx, m: Mode) {
    let both = move |t: &str, es: &[Entry]| -> V { let mut o = None; for e in es { o = Some(judge::tree(t, *e, Cmp::Shape, m)?); if m == Mode::Reject { judge::conservation(t, *e)?; } } Ok(o.unwrap()) };
    let max = if cx.thorough { 4 } else { 3 };
    cx.all("token sequences", work::words(&WORDS, max), |cx, i| {
        let mut t = spell(&WORDS, max, i, " ");
        if i % 3 != 0 { t += "\n" }
        cx.text(&t, &|t| both(t, &[Entry::File, Entry::Single]));
        if i % 4 == 0 { cx.text(&t, &|t| both(t, &[Entry::Eval, Entry::Func])); }
    });
    let max = if cx.thorough { 5 } else { 4 };
    cx.all("expression sequences", if cx.thorough { work::words(&GOODWORDS, max) } else { work::words(&GOODWORDS, max) / 2 }, |cx, i| {
        let i = if cx.thorough { i } else { i * 2 + (cx.seed & 1) };
        let t = spell(&GOODWORDS, max, i, " ") + "\n";
        cx.text(&t, &|t| both(t, &[Entry::Eval]));
    });
    cx.stream("damaged programs", 60_000, 2_000_000, |cx, i| {
        let area = [Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types), None][(i % 6) as usize];
        let (p, mut r) = program(area, cx.rng(i), 50);
        let m = mutate(&p.items, &mut r);
        let t = text_of(&m, &mut r);
        cx.text(&t, &|t| both(t, &[p.entry]));
        let t = text_of(&p.items, &mut r);
        let t = chars_mutate(&t, &mut r).replace("\r\n", "\n");
        cx.text(&t, &|t| both(t, &[p.entry]));
    });
    cx.stream("indented lines", 20_000, 600_000, |cx, i| { let mut r = cx.rng(i); let n = 1 + r.count(0, 10); let t = compound_text(&mut r, n); let t = if r.p(30) { chars_mutate(&t, &mut r).replace("\r\n", "\n") } else { t }; cx.text(&t, &|t| both(t, &[Entry::File])); });
    let j = move |t: &str, e: Entry| both(t, &[e]);
    treewords(cx, "words of statements", &["a", ",", ".", "*", "as", "from", "import", "(", ")", "=", ":", "yield", ";"], 3, 4, &SIMPLE_HEADS, Entry::File, &j);
    treewords(cx, "bracket words", &["a", ",", "*", "**", "=", ":", ":=", "for b in c", "if d", "yield"], 4, 5, &[("(", ")\n"), ("[", "]\n"), ("{", "}\n"), ("f(", ")\n"), ("x[", "]\n")], Entry::Eval, &j);
    structured_ops(cx, &j); structured_prim(cx, &j); structured_compound(cx, &j);
    let simple = |t: &str, e: Entry| j(t, e); structured_simple(cx, &simple);
    narrow(cx, &j); token_edits(cx, 1, &|t, e, _| j(t, e)); far_down(cx, &j);
    // any two tokens between names
    let all: Vec<&str> = reflex::OPS.iter().map(|o| o.0).chain(reflex::KEYWORDS.iter().map(|k| k.0)).chain(["1", "'s'", "\n", "not in", "is not", "# type: x\n"]).collect();
    const AROUND: [(&str, &str); 24] = [("", "\n"), ("x = ", "\n"), ("(", ")\n"), ("[", "]\n"), ("{", "}\n"), ("f(", ")\n"), ("x[", "]\n"), ("{x: ", "}\n"), ("return ", "\n"), ("del ", "\n"), ("from ", "\n"), ("import ", "\n"), ("if ", ": x\n"), ("for ", ": x\n"), ("with ", ": x\n"), ("class x(", "): y\n"), ("lambda ", ": x\n"), ("x; ", "\n"), ("yield ", "\n"), ("raise ", "\n"), ("assert ", "\n"), ("global ", "\n"), ("x: ", "\n"), ("try: x\nexcept ", ": y\n")];
    let (na, nc) = (all.len() as u64, AROUND.len() as u64);
    cx.all("token pairs between names", na * na * nc * 3, |cx, i| {
        let (x, y, w, k) = (all[(i % na) as usize], all[(i / na % na) as usize], AROUND[(i / na / na % nc) as usize], i / na / na / nc);
        if !cx.thorough && k > 0 && (i + i / na + cx.seed) % 3 != 0 { return }
        let t = match k { 0 => format!("{}a {} b {} c{}", w.0, x, y, w.1), 1 => format!("{}a {} {} b{}", w.0, x, y, w.1), _ => format!("{}{} a {}{}", w.0, x, y, w.1) };
        let e = if w.0.is_empty() && i % 2 == 0 { [Entry::File, Entry::Eval, Entry::Single] } else { [Entry::File; 3] };
        cx.text(&t, &|t| { for e in &e[1..] { if *e != Entry::File { j(t, *e)?; } } j(t, e[0]) });
    });
    treewords(cx, "assignment words", &["a", "=", ":", "-=", ",", "yield", "*", "+="], 5, 6, &[("", "\n"), ("a", "\n")], Entry::File, &j);
    treewords(cx, "lambda words", &["a", ",", "=", "*", "**", "/"], 6, 7, &[("lambda ", " : x\n")], Entry::Eval, &j);
    treewords(cx, "type items", &["a", "*b", "**c", ","], 8, 9, &[("(", ") -> e\n")], Entry::Func, &j);
    treewords(cx, "type words", &["a", ",", "*", "**", "(", ")", "->", ":"], 5, 6, &[("(", ") -> c\n"), ("", "\n")], Entry::Func, &j);
    const H: [&str; 16] = ["if a:", "elif b:", "else:", "while a:", "for a in b:", "try:", "except:", "except a:", "except* a:", "finally:", "with a:", "def a():", "class a:", "async", "@a", "x"];
    // sound bodies, so that only the sequence of the clauses decides
    const C: [&str; 11] = ["if a:", "elif b:", "else:", "while a:", "for a in b:", "try:", "except a:", "except* a:", "finally:", "with a:", "x"];
    let max = if cx.thorough { 6 } else { 5 };
    cx.all("clauses with bodies", work::words(&C, max), |cx, i| {
        let w = word(&C, max, i).unwrap();
        if w.len() > 3 && !(1..4).contains(&w.iter().filter(|k| ![1, 2, 6, 7, 8].contains(*k)).count()) { return }
        let mut t = String::new(); let mut z = i.wrapping_mul(0x9E3779B97F4A7C15) ^ cx.seed;
        for k in &w { t += C[*k]; if C[*k].ends_with(':') { z = z.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D); t += [" b", "\n  c", "\n\tc\n\td", " b; c;"][(z >> 60) as usize % 4] } t += "\n" }
        cx.text(&t, &|t| j(t, Entry::File));
    });
    let max = if cx.thorough { 5 } else { 4 };
    cx.all("clause sequences", work::words(&H, max), |cx, i| {
        let w = word(&H, max, i).unwrap();
        let mut t = String::new(); let mut z = i.wrapping_mul(0x9E3779B97F4A7C15) ^ cx.seed;
        for k in &w { t += H[*k]; if H[*k] == "async" { t += " "; continue } if H[*k].ends_with(':') { z = z.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D); t += [" b", "\n  c", "\n  c\n d", " b; c;", "", "\n", " b", "\n c"][(z >> 60) as usize % 8] } t += "\n" }
        cx.text(&t, &|t| j(t, Entry::File));
    });
}

const JUNK: [&str; 34] = ["$", "?", "`", "!", ")", "]", "}", "(", "[", "{", "1_", "0x", "09", "'", "\"\"\"", "\\", "a b", ",,", "=", ":", ";;", "..", "in", "else", "elif", "except", "finally", "as", "1 2", "**", "* *", "\n   ", "\0", "'a' b"];

fn p15(cx: &mut Ctx) {
    grammar_texts(cx, Mode::Reject);
    // something wrong at one place of a good program
    cx.stream("one fault", 60_000, 2_000_000, |cx, i| {
        let area = [Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types), None][(i % 6) as usize];
        let (p, mut r) = program(area, cx.rng(i), 60);
        let mut m = p.items.clone();
        let at = if r.p(30) { m.len() } else { r.n(m.len() + 1) };
        m.insert(at, G::T(r.pick(&JUNK).to_string()));
        let t = text_of(&m, &mut r);
        cx.text(&t, &|t| { judge::conservation(t, p.entry)?; judge::tree(t, p.entry, Cmp::Shape, Mode::Reject) });
    });
    cx.stream("text after the end", 20_000, 500_000, |cx, i| {
        let (p, mut r) = program([Some(Area::Ops), Some(Area::Types), Some(Area::Simple), None][(i % 4) as usize], cx.rng(i), 40);
        let e = if p.entry == Entry::Single { Entry::File } else { p.entry };
        let t = text_of(&p.items, &mut r) + *r.pick(&["$", ")", " x", "\n\n  x", "a b", "'", "\\", "0_", "]", "\n\n$", "  a\n", "else: x\n", "?", "\n}", "\"\"\"", "1__0", "\n\n\n!"]);
        cx.text(&t, &|t| { judge::conservation(t, e)?; judge::tree(t, e, Cmp::Shape, Mode::Reject) });
    });
    forms(cx, "fault after a long text", &[], 520, 4097, &|cx, t, f| {
        let e = if f.entry == Entry::Single { Entry::File } else { f.entry };
        for x in [" $", ")", "\n '", "\n0x"] { let u = format!("{}{}", t, x); cx.text(&u, &|t| judge::tree(t, e, Cmp::Shape, Mode::Reject)); }
        let u = t.replacen("b", "b c", 1); cx.text(&u, &|t| judge::tree(t, e, Cmp::Shape, Mode::Reject));
        let u = t.replacen(",", ",,", 1); cx.text(&u, &|t| judge::tree(t, e, Cmp::Shape, Mode::Reject));
        let k = t.rfind(',').or(t.rfind('b')).unwrap_or(0); let u = format!("{}={}", &t[..k], &t[k..]); cx.text(&u, &|t| judge::tree(t, e, Cmp::Shape, Mode::Reject));
        let u = format!("{} 1{}", &t[..k], &t[k..]); cx.text(&u, &|t| judge::tree(t, e, Cmp::Shape, Mode::Reject));
    });
}

/// every word and operator of the language, and a few other tokens
fn vocabulary() -> Vec<&'static str> { reflex::OPS.iter().map(|o| o.0).chain(reflex::KEYWORDS.iter().map(|k| k.0)).chain(["b", "1", "'s'", "\n", "not in", "is not", "# type: x\n"]).collect() }
/// small texts of every construct
fn canon() -> Vec<(String, Entry)> {
    let mut v: Vec<(String, Entry)> = vec![];
    for f in FORMS { if f.area == Area::Lexical { continue } for n in [0, 1, 2] { v.push((f.text(n), f.entry)) } }
    for s in SIMPLES { v.push((format!("{}\n", s), Entry::File)) }
    for s in PRIMS { v.push((format!("{}\n", s), Entry::Eval)); }
    for o in ALLOPS { v.push((format!("a {} b {} c\n", o, o), Entry::Eval)); v.push((format!("a {} - b\n", o), Entry::Eval)) }
    for h in HEADERS { v.push((format!("{}{}\n", h, if h.ends_with(':') { " b" } else { "\n  b" }), Entry::File)) }
    for k in 0..10 { v.push((nested_blocks(k, 2), Entry::File)) }
    v.sort_by(|a, b| (a.0.len(), &a.0, a.1 as u8).cmp(&(b.0.len(), &b.0, b.1 as u8))); v.dedup();
    v
}
/// one token more, less or other at every place of small texts
fn token_edits(cx: &mut Ctx, one_in: u64, f: &dyn Fn(&str, Entry, usize) -> V) {
    let voc = vocabulary();
    let mut at: Vec<(usize, usize, usize, u8)> = vec![];   // text, from, to, edit
    let texts = canon();
    for (k, (t, _)) in texts.iter().enumerate() {
        if t.len() > 160 { continue }
        let l = reflex::lex(&judge::chars(t), false);
        let p: Vec<(usize, usize)> = l.toks.iter().filter(|x| !["Indent", "Dedent", "EOF"].contains(&x.kind)).filter_map(|x| x.pos.map(|p| (p.0 as usize, p.1 as usize))).collect();
        for (q, x) in p.iter().enumerate() {
            at.push((k, x.0, x.0, 0)); at.push((k, x.0, x.1, 1)); at.push((k, x.0, x.1, 2)); at.push((k, x.0, x.1, 3));
            if let Some(y) = p.get(q + 1) { at.push((k, x.0, y.1, 4)) }
        }
    }
    let nv = voc.len() as u64;
    cx.all("one token more, other or less", at.len() as u64 * nv, |cx, i| {
        let ((k, a, b, how), w) = (at[(i / nv) as usize], voc[(i % nv) as usize]);
        if how > 1 && i % nv != 0 || !cx.thorough && how < 2 && mix(i / nv, i % nv + cx.seed * 99) % one_in != 0 { return }
        let (t, e) = &texts[k];
        let c = judge::chars(t);
        let (x, y, z): (String, String, String) = (c[..a].iter().collect(), c[a..b].iter().collect(), c[b..].iter().collect());
        let u = match how { 0 | 1 => format!("{} {} {}", x, w, z), 2 => format!("{} {}", x, z), 3 => format!("{}{} {} {}", x, y, y.trim_end_matches('\n'), z), _ => { let mid = y.len() / 2; let _ = mid; let l = reflex::lex(&judge::chars(&y), false); match l.toks.iter().filter_map(|t| t.pos).next() { Some(p) => { let d = judge::chars(&y); let k = p.1 as usize; format!("{}{} {}{}", x, d[k..].iter().collect::<String>().trim_start(), d[..k].iter().collect::<String>(), z) } None => return } } };
        cx.text(&u, &|t| f(t, *e, a));
    });
}
/// the same small texts far down in a long one
fn far_down(cx: &mut Ctx, f: &dyn Fn(&str, Entry) -> V) {
    let texts: Vec<(String, Entry)> = canon().into_iter().filter(|t| !t.0.starts_with([' ', '\t', '\n'])).collect();
    let mut sz = vec![70usize, 300, 1100, 5100, 9000, 33_000, 70_000];
    if cx.thorough { sz.extend([140_000, 300_000]) }
    for x in super::tree::COUNTED { if *x > 300 && *x < 70_000 && !sz.contains(&(*x as usize + 2)) { sz.push(*x as usize + 2) } }
    let nt = texts.len() as u64;
    cx.all("far down", nt * sz.len() as u64 * 5, |cx, i| {
        let ((t, e), n) = (&texts[(i % nt) as usize], sz[(i / nt % sz.len() as u64) as usize]);
        let k = i / nt / sz.len() as u64;
        // what costs most is tried on fewer texts
        if !cx.thorough && (n > 10_000 && (i + cx.seed) % 8 != 0 || k > 2 && n > 1100 && (i + cx.seed) % 16 != 0) { return }
        if k > 2 && !matches!(e, Entry::File) && n > 1100 { return }
        let front = match k { 0 => format!("#{}\n", "é".repeat(n)), 1 => "\n".repeat(n), 2 => format!("{}\n", "#c\n".repeat(n / 3)), 3 => "z\n".repeat(n / 2), _ => format!("if z:\n{}", " y;x\n".repeat(n / 5)) };
        if k > 2 && *e == Entry::Single { return }
        let e = if k > 2 { Entry::File } else { *e };
        let u = front + t;
        cx.text(&u, &|t| f(t, e));
    });
}
/// all small sentences of small vocabularies, at the top and far down
fn sentences(cx: &mut Ctx, only: &[&str], f: &dyn Fn(&str, Entry) -> V) {
    const SETS: [(&str, Entry, usize, &[&str], &[(&str, &str)]); 9] = [
        ("lambda parameters", Entry::Eval, 7, &["a", ",", "=b", "*c", "**d", "/", "*"], &[("lambda ", ": x\n")]),
        ("types", Entry::Func, 6, &["a", ",", "*b", "**c"], &[("(", ") -> d\n")]),
        ("imports", Entry::File, 5, &["a", ",", ".", "as b", "*", "(", ")", "import", "..."], &[("from ", "\n"), ("import ", "\n"), ("from a import ", "\n")]),
        ("brackets", Entry::Eval, 4, &["a", ",", "*b", "**c", "=d", ":", ":=e", "for f in g", "if h", "yield", "'s'"], &[("(", ")\n"), ("[", "]\n"), ("{", "}\n"), ("f(", ")\n"), ("x[", "]\n")]),
        ("trailers", Entry::File, 4, &["a", "()", "[", "]", ".b", ",", ":", "(c)", "="], &[("a", "\n")]),
        ("comprehensions", Entry::Eval, 4, &["for a in b", "for a, in b", "async for c, d in e", "if f", "if lambda: g", "or h"], &[("[x ", "]\n"), ("f(x ", ")\n"), ("{x: y, **z}, (x ", ")\n")]),
        ("statements", Entry::File, 4, &["a", "=", ": b", "-=", ",", "yield", "*c", ";", "from d", "# type: e\n"], &[("", "\n"), ("a", "\n"), ("return ", "\n"), ("raise ", "\n"), ("del ", "\n"), ("if x: a", "\n"), ("yield ", "\n")]),
        ("clauses", Entry::File, 4, &["if a: b\n", "elif c:\n d\n", "else: e\n", "while f: g\n", "for h in i: j\n", "try: k\n", "except l: m\n", "except: n\n", "except* o as p: q\n", "finally: r\n", "with s as t, u: v\n", "@w\n", "class x(y): z\n", "def a() -> b: c\n", "async "], &[("", "")]),
        ("headers", Entry::File, 4, &["a", "as b", ",", "(c)", "(", ")", "in", "*d", "=e"], &[("with ", ": x\n"), ("for ", ": x\n"), ("class y", ": x\n"), ("try: x\nexcept ", ": x\n"), ("try: x\nexcept* ", ": x\n"), ("@y", "\nclass z: x\n"), ("def y() -> ", ": x\n"), ("while ", ": x\nelse: y\n")]),
    ];
    for (name, e, max, voc, wraps) in SETS {
        if !only.is_empty() && !only.contains(&name) { continue }
        let nw = wraps.len() as u64;
        cx.all(&format!("sentences: {}", name), work::words(voc, max) * nw, |cx, i| {
            let w = wraps[(i % nw) as usize];
            let t = format!("{}{}{}", w.0, spell(voc, max, i / nw, " "), w.1).replace("\n ", "\n");
            let t = if name == "clauses" { t.replace("\nd", "\n d") } else { t };
            if !judge::derivable(&t, e) { return }
            for n in [0usize, 300, 5100, 9000, 70_000] {
                let one_in = match n { 0 => 1, 5100 => 2, 300 => 2, 9000 => 16, _ => 64 };
                if !cx.thorough && mix(i, n as u64 + cx.seed * 99) % one_in != 0 { continue }
                let front = match mix(i, n as u64) % 16 { 0 => "\n".repeat(n), 1 => "#c\n".repeat(n / 3), _ => format!("#{}\n", "é".repeat(n)) };
                let u = front + &t;
                if !cx.text(&u, &|t| f(t, e)) { return }
            }
        });
    }
}
/// runs of layout of all lengths and mixtures before every kind of token
fn layout_before(cx: &mut Ctx, f: &dyn Fn(&str) -> V) {
    let mut words: Vec<String> = vocabulary().iter().map(|w| w.to_string()).collect();
    for w in ["\r", "", "# c", "# c\n", "# type: x", "'''y\n'''", "rb\"z\"", "0x1F", "1.5e3j", "...", "é", "_", "if", "\nb", "\rb", "\n  b", "\n\n", "$", "1_", "'", "\\ "] { words.push(w.to_string()) }
    const HOST: [(&str, &str); 12] = [("a", "\n"), ("(a", ")\n"), ("", "\n"), ("if a:", " b\n"), ("if a:\n  b", "\nc\n"), ("if a:\n  b\n", "\n"), ("if a:\n  b\n    ", "\n"), ("'a'", ""), ("[(", ""), ("a.", " c\n"), ("a #c", ""), ("x = 1", ";y\n")];
    const BITS: [&str; 9] = [" ", "\t", "\\\n", " ", "\\\r", "\n", "#c\n", "\r", "\t\t"];
    let mut sz: Vec<usize> = (1..=20).collect();
    sz.extend([31, 32, 33, 63, 64, 65, 127, 129, 255, 256, 257, 600]);
    let (nw, nh, ns) = (words.len() as u64, HOST.len() as u64, sz.len() as u64);
    cx.all("runs of layout before every token", nw * nh * ns * 2, |cx, i| {
        let (w, h, n) = (&words[(i % nw) as usize], HOST[(i / nw % nh) as usize], sz[(i / nw / nh % ns) as usize]);
        let mut r = Rng::new(cx.seed, i, 7);
        // line breaks only in brackets, half of the time
        let nb = if h.0.contains('(') && i / nw / nh / ns == 0 { 9 } else { 5 };
        let (p, q) = (r.n(nb), r.n(nb)); let how = r.n(3);
        let mut run = String::new();
        for k in 0..n { run += BITS[match how { 0 => (p + k) % nb, 1 => if k % 2 == 0 { p } else { q }, _ => r.n(nb) }] }
        let t = format!("{}{}{}{}", h.0, run, w, h.1);
        cx.text(&t, &|t| f(t));
    });
}
/// long runs of layout at every kind of place
fn layout_runs(cx: &mut Ctx, f: &dyn Fn(&str, Entry) -> V) {
    const KIND: [&str; 14] = ["\n", "\r", "# c\n", "  \n", " ", "\t", "\\\n", " \\\r", "\n\t# c\n", "\t \n# cc\n", "#\n\n", "   # a comment\n    ", "\n ", "# type\n"];
    const HOST: [&str; 34] = ["(a$)\n", "($a)\n", "((a$))\n", "([a,$b])\n", "{a:$b}\n", "f(a,$b)\n", "f(x[(a$)])\n", "x[a:$b]\n", "[(({a$}))]\n", "a$\n", "$a\n", "a+$b\n", "a\n$b\n", "if x:\n  y\n$  z\n", "if x:\n$  z\n", "if x:\n  y\n$z\n", "if x:\n  y\n$", "if x:\n y\n$else:\n z\n", "try:\n y\n$except a:\n z\n$finally:\n w\n", "@a\n$def b(): c\n", "if a:\n if b:\n  c\n$ d\n", "def a():\n$\tb\n$\tc\n", "class a:$\n b\n", "x = ($\n1)\n$y\n", "[a for b in c$]\n", "(a$ for b in c)\n", "from a import ($b, c)\n", "with (a$, b): c\n", "if x:\n  ((a$))\n  b\n", "a;$b\n", "lambda:($a)\n", "not$ a\n", "'a'$'b'\n", "a = b$# type: c\n"];
    let mut sz = vec![2usize, 17, 64, 70, 129, 257, 300, 513, 800, 1025, 1100, 2049, 3000, 5000];
    if cx.thorough { sz.extend([7000, 10_001, 17_000, 33_000, 66_000]) } else { sz.push(9000) }
    for x in super::tree::COUNTED { if *x > 300 && *x < 66_000 && !sz.contains(&(*x as usize + 2)) { sz.push(*x as usize + 2) } }
    let (nk, nh) = (KIND.len() as u64, HOST.len() as u64);
    cx.all("runs of layout", nk * nh * sz.len() as u64, |cx, i| {
        let (k, h, n) = (KIND[(i % nk) as usize], HOST[(i / nk % nh) as usize], sz[(i / nk / nh) as usize]);
        if !cx.thorough && n > 1100 && (i + i / nk + cx.seed) % 4 != 0 { return }
        let t = h.replace('$', &k.repeat(n));
        cx.text(&t, &|t| f(t, Entry::File));
    });
}
/// expressions of every form, small and large, in every place
fn forms_in_places(cx: &mut Ctx, f: &dyn Fn(&str, Entry) -> V) {
    let ev: Vec<&Form> = FORMS.iter().filter(|f| matches!(f.area, Area::Ops | Area::Prim) && f.entry == Entry::Eval).collect();
    let sz: &[usize] = if cx.thorough { &[1, 3, 17, 70, 130, 300, 1100] } else { &[3, 70, 300] };
    let (nf, np) = (ev.len() as u64, PLACES.len() as u64);
    cx.all("forms in places", nf * np * sz.len() as u64, |cx, i| {
        let (f0, p, n) = (ev[(i % nf) as usize], PLACES[(i / nf % np) as usize], sz[(i / nf / np) as usize]);
        let n = if f0.deep { n.min(60) } else { n };
        if !cx.thorough && n > 70 && (i + i / nf + cx.seed) % 4 != 0 { return }
        let t = format!("{}{}{}", p.0, f0.text(n).trim_end(), p.1);
        cx.text(&t, &|t| f(t, Entry::File));
    });
    // statements of every form inside of blocks
    let st: Vec<&Form> = FORMS.iter().filter(|f| matches!(f.area, Area::Simple | Area::Compound) && f.entry == Entry::File && !f.deep).collect();
    const IN: [(&str, usize, &str); 12] = [("if z:\n", 1, ""), ("if z:\n x\nelse:\n", 2, ""), ("def z():\n", 4, "y\n"), ("class z:\n def y():\n", 2, " x\n"), ("try:\n", 3, "finally:\n y\n"), ("try:\n y\nexcept x:\n", 2, "except w: v\n"), ("while z:\n for y in x:\n  with w:\n", 3, "  z\n z\nz\n"), ("async def z() -> y:\n", 1, " x\n"), ("@z\nclass y(x):\n", 8, ""), ("if z: y\nelif x:\n", 4, "elif w: v\n"), ("for z in y:\n", 2, "else:\n x\n"), ("try: z\nexcept* y as x:\n", 1, "else: w\n")];
    let ns = st.len() as u64;
    let sz: &[usize] = if cx.thorough { &[1, 2, 5, 17, 70, 300, 1100] } else { &[1, 5, 70, 300] };
    cx.all("statements in blocks", ns * 12 * sz.len() as u64, |cx, i| {
        let (f0, w, n) = (st[(i % ns) as usize], IN[(i / ns % 12) as usize], sz[(i / ns / 12) as usize]);
        if !cx.thorough && n > 70 && (i + i / ns + cx.seed) % 4 != 0 { return }
        let pad = " ".repeat(w.1);
        let t = format!("{}{}{}", w.0, f0.text(n).trim_end().lines().map(|l| if l.is_empty() { "\n".into() } else { format!("{}{}\n", pad, l) }).collect::<String>(), w.2);
        cx.text(&t, &|t| f(t, Entry::File));
    });
}

// ---- P28: where errors are ------------------------------------------------------------------------------

fn p28(cx: &mut Ctx) {
    let lexical = |t: &str| { judge::lex_error_place(t)?; judge::error_place(t, Entry::File) };
    let max = if cx.thorough { 4 } else { 3 };
    cx.all("short strings", work::words(&CHARS, max), |cx, i| { let t = spell(&CHARS, max, i, ""); cx.text(&t, &lexical); });
    cx.stream("characters in programs", 30_000, 1_000_000, |cx, i| { let mut r = cx.rng(i); let t = noise(&mut r, false); cx.text(&t, &lexical); });
    cx.stream("one fault", 60_000, 2_000_000, |cx, i| {
        let area = [Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types), None][(i % 6) as usize];
        let (p, mut r) = program(area, cx.rng(i), 60);
        let mut m = p.items.clone();
        let at = if r.p(30) { m.len() } else { r.n(m.len() + 1) };
        m.insert(at, G::T(r.pick(&JUNK).to_string()));
        let t = text_of(&m, &mut r);
        cx.text(&t, &|t| { judge::lex_error_place(t)?; judge::error_place(t, p.entry) });
    });
    cx.stream("damaged programs", 60_000, 2_000_000, |cx, i| { let (p, mut r) = program([Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types), None][(i % 6) as usize], cx.rng(i), 50); let m = mutate(&p.items, &mut r); let t = text_of(&m, &mut r); cx.text(&t, &|t| judge::error_place(t, p.entry)); });
    tree_samples(cx, &|t, e| judge::error_place(t, e));
    forms(cx, "fault after a long text", &[], 520, 4097, &|cx, t, f| {
        let e = if f.entry == Entry::Single { Entry::File } else { f.entry };
        for x in [" $", ")", "\n '", "\n0x", " a b"] { let u = format!("{}{}", t, x); cx.text(&u, &|t| { judge::lex_error_place(t)?; judge::error_place(t, e) }); }
        let k = t.rfind(',').or(t.rfind('b')).unwrap_or(0); let u = format!("{} 1{}", &t[..k], &t[k..]); cx.text(&u, &|t| judge::error_place(t, e));
    });
    // what stands behind the first wrong token does not matter
    const TAILS: [&str; 12] = ["", "\n", " $", "\n$\n", " a", "\n  b\n c\n", ")))", " ' ", "\n\n\n\n", ": pass\nelse: c\n", " (", " = 1 if"];
    cx.stream("other tails", 30_000, 1_000_000, |cx, i| {
        let (p, mut r) = program([Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types), None][(i % 6) as usize], cx.rng(i), 40);
        let m = mutate(&p.items, &mut r); let t = text_of(&m, &mut r);
        let tail = *r.pick(&TAILS);
        let e = p.entry;
        cx.text(&t, &|t| {
            let c: Vec<char> = t.chars().collect();
            let l = reflex::lex(&c, false);
            let mut o = obs(&l.toks, l.err);
            let bad = match super::refparse::place(&l.toks, l.err, e) { Some((_, Some((b, true)))) if !l.crlf && e != Entry::Single => b, _ => { o.weight = 0; return Ok(o) } };
            let k = match l.toks.iter().find_map(|t| t.pos.filter(|p| p.0 == bad)) { Some(p) => p.1, None => { o.weight = 0; return Ok(o) } };
            let u: String = c[..k as usize].iter().collect::<String>() + tail;
            // the same tokens up to there?
            let l2 = reflex::lex(&u.chars().collect::<Vec<_>>(), false);
            let n = l.toks.iter().take_while(|t| t.pos.is_none_or(|p| p.1 <= k)).count();
            if l2.toks.len() < n || (0..n).any(|i| !l.toks[i].same(&l2.toks[i])) { o.weight = 0; return Ok(o) }
            let (a, b) = (sut::raw(t, e).err(), sut::raw(&u, e).err());
            if a.is_none() { o.weight = 0; return Ok(o) }
            if a != b { return Err(format!("wrong at {} already: '{}', and followed by {:?} instead: '{}'", bad, a.unwrap(), tail, b.unwrap_or("accepted".into()))) }
            judge::tally("errors compared with another tail");
            Ok(o)
        });
    });
    // good statements in front move the place by their length and change nothing else
    cx.stream("moved", 30_000, 1_000_000, |cx, i| {
        let (p, mut r) = program([Some(Area::Simple), Some(Area::Compound), None][(i % 3) as usize], cx.rng(i), 40);
        let m = mutate(&p.items, &mut r); let t = layout(&m, &Style::plain(), &mut r);
        if t.starts_with([' ', '\t', '#', '\\', '\n', '\r']) { return }
        let mut front = String::new();
        while front.is_empty() || r.p(60) { front += *r.pick(&["a\n", "é = 'ñ\u{1F600}'  # ß\n", "if a:\n  b\n", "x = [\n 1]\n\n", "\n# c\n", "def a(): pass\n", "b;c\n"]) }
        front += "z\n";
        let k = front.chars().count() as u32;
        cx.text(&t, &|t| {
            let (a, b) = (sut::raw(t, Entry::File).err(), sut::raw(&format!("{}{}", front, t), Entry::File).err());
            let l = reflex::lex(&t.chars().collect::<Vec<_>>(), false);
            let mut o = obs(&l.toks, l.err);
            match (a, b) {
                (Some(a), Some(b)) => {
                    let (x, y) = (judge::place_of(&a), judge::place_of(&b));
                    // an error in front of the first statement is reported where the text begins
                    if y != x.map(|x| x + k) && !(x == Some(0) && y.is_some_and(|y| y < k)) { return Err(format!("alone: '{}'; behind {} characters of good statements: '{}'", a, k, b)) }
                    judge::tally("pairs of errors compared");
                }
                _ => o.weight = 0,
            }
            Ok(o)
        });
    });
}

fn p16(cx: &mut Ctx) {
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        treestream(cx, n, a, 14_000, 600_000, 110, Cmp::Shape, Mode::Accept);
    }
    treestream(cx, "long programs", None, 1_000, 30_000, 3000, Cmp::Shape, Mode::Accept);
    cx.stream("unusual layout", 14_000, 500_000, |cx, i| {
        let (p, mut r) = program(None, cx.rng(i), 60);
        let st = Style { nl: [0, 1, 2][r.n(3)], space: r.u64() % 100, tabs: r.u64() % 100, cont: r.u64() % 40, brk: r.u64() % 80, comments: r.u64() % 60, blank: r.u64() % 70, mixind: true, final_nl: r.p(40) };
        let t = layout(&p.items, &st, &mut r);
        let e = p.entry;
        cx.text(&t, &|t| judge::tree(t, e, Cmp::Shape, Mode::Accept));
    });
    forms(cx, "sizes", &[], 4097, 65537, &|cx, t, f| { cx.text(t, &|t| judge::tree(t, f.entry, Cmp::Shape, Mode::Accept)); });
    forms(cx, "sizes without final line break", &[], 257, 4097, &|cx, t, f| { let u = t.trim_end(); cx.text(u, &|t| judge::tree(t, f.entry, Cmp::Shape, Mode::Accept)); });
    let big = if cx.thorough { 262_145 } else { 65_537 };
    cx.all("bulk", FORMS.len() as u64, |cx, i| { let f = &FORMS[i as usize]; if f.deep { return } let t = f.text(big); if t.len() > 3_000_000 { return } cx.case(&format!("{} x {}", f.name, big), || if sut::raw(&t, f.entry).is_ok() { Ok(Obs { sig: i, weight: 9, known: None }) } else if judge::derivable(&t, f.entry) { Err(format!("form '{}' repeated {} times is rejected: {}", f.name, big, sut::raw(&t, f.entry).err().unwrap())) } else { Ok(Obs { sig: 0, weight: 0, known: None }) }); });
    let sz = sizes(if cx.thorough { 600 } else { 300 });
    cx.all("nestings", (sz.len() * 10) as u64, |cx, i| { let t = nested_blocks((i % 10) as usize, sz[i as usize / 10]); cx.text(&t, &|t| judge::tree(t, Entry::File, Cmp::Shape, Mode::Accept)); });
    let j = |t: &str, e: Entry| judge::tree(t, e, Cmp::Shape, Mode::Accept);
    layout_runs(cx, &j); forms_in_places(cx, &j); sentences(cx, &[], &j);
    grammar_texts(cx, Mode::Accept);
}

fn p17(cx: &mut Ctx) {
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        cx.stream(n, 14_000, 500_000, |cx, i| {
            let (p, mut r) = program(a, cx.rng(i), 90);
            let t = text_of(&p.items, &mut r);
            let t = if p.entry == Entry::File && r.p(3) { padded(&mut r, &t) } else { t };
            cx.text(&t, &|t| judge::conservation(t, p.entry));
        });
    }
    cx.stream("damaged programs", 20_000, 600_000, |cx, i| { let (p, mut r) = program(None, cx.rng(i), 50); let m = mutate(&p.items, &mut r); let t = text_of(&m, &mut r); cx.text(&t, &|t| judge::conservation(t, p.entry)); });
    tree_samples(cx, &|t, e| judge::conservation(t, e));
    forms(cx, "sizes", &[], 1025, 16385, &|cx, t, f| { cx.text(t, &|t| judge::conservation(t, f.entry)); });
}
/// systematic small texts that touch every node kind
fn tree_samples(cx: &mut Ctx, f: &dyn Fn(&str, Entry) -> V) {
    let np = PRIMS.len() as u64;
    cx.all("primaries in places", np * PLACES.len() as u64, |cx, i| { let p = PLACES[(i % PLACES.len() as u64) as usize]; let t = format!("{}{}{}", p.0, PRIMS[(i / PLACES.len() as u64) as usize], p.1); cx.text(&t, &|t| f(t, Entry::File)); });
    let no = ALLOPS.len() as u64; let nu = UNARY.len() as u64;
    cx.all("operator pairs", no * no * nu, |cx, i| { let t = format!("{}a {} b {}  c\n", UNARY[(i / no / no) as usize], ALLOPS[(i % no) as usize], ALLOPS[(i / no % no) as usize]); cx.text(&t, &|t| f(t, Entry::Eval)); });
    let n = SIMPLES.len() as u64;
    cx.all("statement pairs", n * n, |cx, i| { let (a, b) = (SIMPLES[(i % n) as usize], SIMPLES[(i / n % n) as usize]); let t = if i % 2 == 0 { format!("{} ;{}\n", a, b) } else { format!("if x:\n  {}  # c\n\n  {}", a, b) }; cx.text(&t, &|t| f(t, Entry::File)); });
    cx.stream("indented lines", 20_000, 500_000, |cx, i| { let mut r = cx.rng(i); let n = 2 + r.count(0, 12); let t = compound_text(&mut r, n); cx.text(&t, &|t| f(t, Entry::File)); });
    const H: [&str; 15] = ["if a:", "elif b:", "else:", "while a:", "for a in b:", "try:", "except:", "except a as c:", "except* a:", "finally:", "with a:", "def a():", "class a:", "@a", "x"];
    cx.all("clause sequences", work::words(&H, 4), |cx, i| {
        let w = word(&H, 4, i).unwrap(); let mut t = String::new(); let mut z = i.wrapping_mul(0x9E3779B97F4A7C15) ^ cx.seed;
        for k in &w { t += H[*k]; if H[*k].ends_with(':') { z = z.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D); t += [" b", "\n  c", "\n  c # d\n\n  d", " b; c;"][(z >> 60) as usize % 4] } t += "\n" }
        cx.text(&t, &|t| f(t, Entry::File));
    });
    structured_ops(cx, f); structured_prim(cx, f); structured_simple(cx, f); structured_compound(cx, f);
    narrow(cx, f); forms_in_places(cx, f); token_edits(cx, 1, &|t, e, _| f(t, e)); far_down(cx, f); sentences(cx, &[], f);
    let max = if cx.thorough { 4 } else { 3 };
    cx.all("token sequences", work::words(&WORDS, max), |cx, i| { let t = spell(&WORDS, max, i, " ") + "\n"; cx.text(&t, &|t| f(t, Entry::File)); });
    cx.all("type inputs", work::words(&["a", ",", "*", "**", "b.c"], 5), |cx, i| { let t = format!("({}) -> d\n", spell(&["a", ",", "*", "**", "b.c"], 5, i, " ")); cx.text(&t, &|t| f(t, Entry::Func)); });
}

fn p18(cx: &mut Ctx) {
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        cx.stream(n, 12_000, 500_000, |cx, i| {
            let (p, mut r) = program(a, cx.rng(i), 90);
            let t = text_of(&p.items, &mut r);
            let t = if r.p(3) { padded(&mut r, &t) } else { t };
            cx.text(&t, &|t| judge::spans(t, p.entry));
        });
    }
    tree_samples(cx, &|t, e| judge::spans(t, e));
    forms(cx, "sizes", &[], 600, 16385, &|cx, t, f| { cx.text(t, &|t| judge::spans(t, f.entry)); });
}

// ---- P19, P21, P22, P26: relations ---------------------------------------------------------------------

fn p19(cx: &mut Ctx) {
    fn relation(cx: &mut Ctx, items: &[G], e: Entry, r: &mut Rng, n: usize) {
        let a = layout(items, &[Style::plain(), Style::pretty()][r.n(2)], r);
        let ra = match caught(|| sut::parse(&a, e)) { Ok(x) => x, Err(m) => Err(m) };
        for _ in 0..n {
            let st = Style::random(r, false);
            let b = layout(items, &st, r);
            let shown = format!("{}\u{1}{}", a, b);
            let ok = cx.case(&shown, || {
                let rb = sut::parse(&b, e);
                let o = judge::tree_obs(&rb, &[]);
                match (&ra, &rb) {
                    (Ok(x), Ok(y)) => if let Some(d) = diff(y, x, Cmp::Shape, "") { Err(format!("{:?}: same tokens, other layout, other tree: {}", e, d)) } else { judge::tally("layout pairs with equal trees"); Ok(o) },
                    (Err(_), Err(_)) => { judge::tally("layout pairs both rejected"); Ok(Obs { weight: 0, ..o }) }
                    (Err(m), Ok(_)) => Err(format!("{:?}: the first layout is rejected ({}), the second accepted", e, m)),
                    (Ok(_), Err(m)) => Err(format!("{:?}: the first layout is accepted, the second rejected ({})", e, m)),
                }
            });
            if !ok { return }
        }
    }
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        cx.stream(n, 8_000, 300_000, |cx, i| { let (p, mut r) = program(a, cx.rng(i), 80); relation(cx, &p.items, p.entry, &mut r, 3) });
    }
    cx.stream("damaged programs", 10_000, 400_000, |cx, i| {
        let (p, mut r) = program(None, cx.rng(i), 40);
        let m: Vec<G> = mutate(&p.items, &mut r).into_iter().filter(|g| !matches!(g, G::T(s) if s.starts_with("# type"))).collect();
        // the line structure must not depend on the columns chosen
        let clear = m.iter().enumerate().all(|(i, g)| { let (a, b) = (if i > 0 { m.get(i - 1) } else { Some(&G::Nl) }, m.get(i + 1)); match g { G::In => a == Some(&G::Nl) && matches!(b, Some(G::T(_))) && matches!(m[..i].iter().rev().find(|x| **x != G::Nl), None | Some(G::T(_))), G::De => matches!(a, Some(G::Nl) | Some(G::De)) && b != Some(&G::In), G::Nl => a != Some(&G::In), _ => true } });
        if clear { relation(cx, &m, p.entry, &mut r, 3) }
    });
    // one layout change at a time, at every place, between two tokens
    const BETWEEN: [&str; 10] = [" ", "  ", "\t", " \t ", "\\\n", " \\\n  ", "\\\r", "\\\r\n ", " \\\n\\\n ", "     "];
    cx.stream("one change", 30_000, 1_000_000, |cx, i| {
        let (p, mut r) = program([Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound)][(i % 4) as usize], cx.rng(i), 30);
        let toks = p.items.clone();
        let a = layout(&toks, &Style::pretty(), &mut r);
        // insert at a blank outside of literals and comments
        let l = reflex::lex(&judge::chars(&a), false);
        let mut spots: Vec<(usize, bool)> = vec![]; let mut depth = 0;
        for t in &l.toks {
            for v in &t.triv { if v.kind == "WhiteSpace" && t.kind != "TypeComment" && t.kind != "Newline" { spots.push((v.s as usize, depth > 0)) } }
            match t.kind { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => depth += 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => depth -= 1, _ => {} }
        }
        if spots.is_empty() { return }
        let (at, inside) = *r.pick(&spots);
        let ins = if inside && r.p(60) { *r.pick(&["\n", "\r", "\n\n", " # c\n", "# (\n  ", "\n\t", "\n# ]\n\n"]) } else { *r.pick(&BETWEEN) };
        let c = judge::chars(&a); let b: String = c[..at].iter().cloned().chain(ins.chars()).chain(c[at..].iter().cloned()).collect();
        let e = p.entry;
        cx.case(&format!("{}\u{1}{}", a, b), || {
            let (x, y) = (sut::parse(&a, e), sut::parse(&b, e));
            let o = judge::tree_obs(&y, &[]);
            match (x, y) { (Ok(x), Ok(y)) => match diff(&y, &x, Cmp::Shape, "") { Some(d) => Err(format!("{:?}: inserting {:?} at {} changes the tree: {}", e, ins, at, d)), None => Ok(o) }, (Err(_), Err(_)) => Ok(Obs { weight: 0, ..o }), (Ok(_), Err(m)) => Err(format!("{:?}: inserting {:?} at {} makes the text rejected: {}", e, ins, at, m)), (Err(m), _) => Err(format!("{:?}: without {:?} at {} the text is rejected: {}", e, ins, at, m)) }
        });
    });
    forms(cx, "sizes of layout", &[Area::Lexical], 2049, 65537, &|cx, t, f| {
        if !["blank", "comment", "spaces", "tabs", "continuation", "bracket", "column", "only"].iter().any(|w| f.name.contains(w)) || f.name.contains("long") || f.name.contains("type comment") { return }
        let none = f.text(0);
        let t = t.to_string();
        if f.name.contains("bracket lines") || f.name.contains("operators only") || f.name.contains("returns only") { return }
        cx.case(&clip(&t, 300), || match (sut::parse(&none, Entry::File), sut::parse(&t, Entry::File)) { (Ok(a), Ok(b)) => match diff(&b, &a, Cmp::Shape, "") { Some(d) => Err(format!("'{}': {}", f.name, d)), None => Ok(judge::tree_obs(&Ok(b), &[])) }, (a, b) => Err(format!("'{}': without {} with {}", f.name, a.err().unwrap_or("accepted".into()), b.err().unwrap_or("accepted".into()))) });
    });
}

fn field<'a>(t: &'a Tr, kind: &str, k: usize) -> Result<&'a Tr, String> { match t { Tr::Node(n, _, _, f) if *n == kind && k < f.len() => Ok(&f[k]), _ => Err(format!("expected a {} node, got {}", kind, clip(&t.show(false), 300))) } }
fn list(t: &Tr) -> Result<Vec<Tr>, String> {
    match t {
        Tr::List(v) => {
            let at: Vec<u32> = v.iter().map(|x| { let mut k = vec![]; x.toks(&mut k); k.iter().filter_map(|t| t.pos).map(|p| p.0).min().unwrap_or(0) }).collect();
            if at.windows(2).all(|w| w[0] < w[1]) { Ok(v.clone()) }
            else if at.windows(2).all(|w| w[0] > w[1]) { Ok(v.iter().rev().cloned().collect()) }
            else { Err(format!("the statements are neither in source order nor in the reverse: they start at {:?}", at)) }
        }
        _ => Err(format!("expected a list, got {}", clip(&t.show(false), 300))),
    }
}
/// statements of a file, in source order
fn stmts(t: &Tr) -> Result<Vec<Tr>, String> { list(field(t, "FileInput", 0)?) }
fn same(a: &[Tr], b: &[Tr], what: &str) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{}: {} statements instead of {}", what, a.len(), b.len())) }
    for (i, (x, y)) in a.iter().zip(b).enumerate() { if let Some(d) = diff(x, y, Cmp::Shape, "") { return Err(format!("{}: statement {}: {}", what, i, d)) } }
    Ok(())
}

fn p21(cx: &mut Ctx) {
    let file = |t: &str, what: &str| sut::parse(t, Entry::File).map_err(|m| format!("{} is rejected: {}", what, m));
    for (n, area) in [("concatenation", None), ("concatenation of simple statements", Some(Area::Simple)), ("concatenation of compound statements", Some(Area::Compound))] {
        cx.stream(n, 8_000, 300_000, |cx, i| {
            let mut r = cx.rng(i);
            let k = 2 + r.count(0, 6);
            let mut parts = vec![];
            for _ in 0..k { let (p, r2) = program(area, r.clone(), 40); r = r2; let st = Style { final_nl: true, ..Style::random(&mut r, false) }; let mut t = layout(&p.items, &st, &mut r); if !t.is_empty() && !t.ends_with('\n') && !t.ends_with('\r') { t += "\n" } if p.entry == Entry::File { parts.push(t) } }
            let whole: String = parts.concat();
            if whole.contains("\r\n") { return }
            cx.case(&whole, || {
                let mut want = vec![];
                let mut any = false;
                for p in &parts { match sut::parse(p, Entry::File) { Ok(x) => want.extend(stmts(&x)?), Err(_) => any = true } }
                if any { judge::tally("skipped: a part is rejected"); return Ok(Obs { sig: 0, weight: 0, known: None }) }
                let t = file(&whole, "the concatenation of accepted programs")?;
                same(&stmts(&t)?, &want, "concatenation")?;
                judge::tally("concatenations compared");
                Ok(judge::tree_obs(&Ok(t), &[]))
            });
        });
    }
    const HEADS: [(&str, &str, usize); 15] = [("if z:", "IfStmt", 3), ("while z:", "", 3), ("for z in y:", "", 0), ("class z:", "", 0), ("with z:", "", 0), ("try:", "", 0), ("else", "", 0), ("def z():", "", 0), ("async def z():", "", 0), ("elif", "", 0), ("finally", "", 0), ("async with z as y:", "", 0), ("except", "", 0), ("while-else", "", 0), ("@z", "", 0)];
    cx.stream("indentation", 16_000, 600_000, |cx, i| {
        let (p, mut r) = program([None, Some(Area::Simple), Some(Area::Compound)][(i % 3) as usize], cx.rng(i), 60);
        if p.items.is_empty() { return }
        let h = HEADS[r.n(HEADS.len())].0;
        let mut w: Vec<G> = vec![];
        let t = |w: &mut Vec<G>, s: &str| for x in s.split(' ') { w.push(G::T(x.into())) };
        match h {
            "else" => { t(&mut w, "if z : pass"); w.push(G::Nl); t(&mut w, "else :") }
            "elif" => { t(&mut w, "if z : pass"); w.push(G::Nl); t(&mut w, "elif z :") }
            "finally" => { t(&mut w, "try : pass"); w.push(G::Nl); t(&mut w, "finally :") }
            "except" => { t(&mut w, "try : pass"); w.push(G::Nl); t(&mut w, "except z as y :") }
            "while-else" => { t(&mut w, "while z : pass"); w.push(G::Nl); t(&mut w, "else :") }
            "@z" => { t(&mut w, "@ z"); w.push(G::Nl); t(&mut w, "class y :") }
            "def z():" => t(&mut w, "def z ( ) :"), "async def z():" => t(&mut w, "async def z ( ) :"), "if z:" => t(&mut w, "if z :"), "while z:" => t(&mut w, "while z :"), "for z in y:" => t(&mut w, "for z in y :"), "class z:" => t(&mut w, "class z :"), "with z:" => t(&mut w, "with z :"), "try:" => t(&mut w, "try :"), _ => t(&mut w, "async with z as y :"),
        }
        w.push(G::Nl); w.push(G::In); w.extend(p.items.iter().cloned()); w.push(G::De);
        if h == "try:" { t(&mut w, "finally : pass"); w.push(G::Nl) }
        let a = layout(&p.items, &Style::pretty(), &mut r);
        let st = Style::random(&mut r, false);
        let b = layout(&w, &st, &mut r);
        cx.case(&format!("{}\u{1}{}", a, b), || {
            let x = match sut::parse(&a, Entry::File) { Ok(x) => x, Err(_) => { judge::tally("skipped: a part is rejected"); return Ok(Obs { sig: 0, weight: 0, known: None }) } };
            let want = stmts(&x)?;
            let y = file(&b, "an accepted program put into a block")?;
            // the block is the suite with as many statements that holds most of the text
            let mut found = None; suites(&y, &mut found);
            let body = found.ok_or("no suite in the tree")?;
            same(&body, &want, "block")?;
            judge::tally("blocks compared");
            Ok(judge::tree_obs(&Ok(y), &[]))
        });
    });
    // an expression in its places
    const AT: [(&str, &str); 20] = [("(", ")\n"), ("[", "]\n"), ("f(", ")\n"), ("x[", "]\n"), ("x = ", "\n"), ("return ", "\n"), ("assert ", "\n"), ("{z: ", "}\n"), ("z, ", "\n"), ("f(z=", ")\n"), ("lambda: ", "\n"), ("z if y else ", "\n"), ("if ", ": pass\n"), ("while ", ": pass\n"), ("raise z from ", "\n"), ("x: ", "\n"), ("z.y(", ").x\n"), ("[(", ") for z in y]\n"), ("((", ") + z)\n"), ("-(", ") ** z\n")];
    cx.stream("expressions", 30_000, 1_000_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut g = Gen::new(r.clone(), 6 + r.n(40) as i32); r = g.r.clone();
        if i % 2 == 0 { g.o.ops = 60 } else { g.o.prim = 60 }
        g.test();
        let st = Style { comments: 0, nl: 0, brk: 0, ..Style::random(&mut r, false) };
        let mut its = g.out; its.push(G::Nl);
        let e = layout(&its, &Style { blank: 0, final_nl: false, ..st }, &mut r);
        let w = AT[r.n(AT.len())];
        let t = format!("{}{}{}", w.0, e, w.1);
        cx.case(&t, || {
            let a = match sut::parse(&e, Entry::Eval) { Ok(x) => x, Err(_) => { judge::tally("skipped: a part is rejected"); return Ok(Obs { sig: 0, weight: 0, known: None }) } };
            let a = field(&a, "EvalInput", 0)?;
            let b = file(&t, "an accepted expression in a larger construct")?;
            let from = w.0.chars().count() as u32;
            let mut best = None; at_start(&b, from, a, &mut best);
            match best { Some(None) => { judge::tally("expressions compared"); Ok(judge::tree_obs(&Ok(b), &[])) } Some(Some(d)) => Err(format!("the expression has another tree inside {:?}..{:?}: {}", w.0, w.1, d)), None => Err(format!("no node starts where the expression starts: {}", clip(&b.show(true), 500))) }
        });
    });
    cx.stream("statement in context", 20_000, 600_000, |cx, i| {
        let mut r = cx.rng(i);
        let s = if r.p(50) { r.pick(&SIMPLES).to_string() + "\n" } else { let (p, r2) = program(Some(Area::Compound), r.clone(), 40); r = r2; layout(&p.items, &Style::pretty(), &mut r) };
        let n1 = r.count(0, 4); let n2 = r.count(0, 4);
        let ctx = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| if r.p(70) { r.pick(&SIMPLES).to_string() + "\n" } else { r.pick(&["if a: b\n", "try: a\nexcept* b: c\n", "class a: b\n", "@a\ndef b(): c\n", "while a:\n b\n", "# c\n", "\n", "x = (\n1)\n", "'''\n'''\n"]).to_string() }).collect() };
        let (a, b) = (ctx(&mut r, n1), ctx(&mut r, n2));
        let whole = format!("{}{}{}", a, s, b);
        cx.case(&whole, || {
            let (x, y, z) = match (sut::parse(&a, Entry::File), sut::parse(&s, Entry::File), sut::parse(&b, Entry::File)) { (Ok(x), Ok(y), Ok(z)) => (x, y, z), _ => { judge::tally("skipped: a part is rejected"); return Ok(Obs { sig: 0, weight: 0, known: None }) } };
            let mut want = stmts(&x)?; want.extend(stmts(&y)?); want.extend(stmts(&z)?);
            let t = file(&whole, "a statement between others")?;
            same(&stmts(&t)?, &want, "in context")?;
            Ok(judge::tree_obs(&Ok(t), &[]))
        });
    });
    forms(cx, "long programs", &[Area::Simple, Area::Compound], 257, 2049, &|cx, t, f| {
        if f.entry != Entry::File { return }
        let t = t.to_string();
        cx.case(&clip(&t, 300), || {
            let one = match sut::parse(&t, Entry::File) { Ok(x) => x, Err(_) => return Ok(Obs { sig: 0, weight: 0, known: None }) };
            let two = file(&format!("{}{}", t, t), "a program twice")?;
            let s = stmts(&one)?; let mut want = s.clone(); want.extend(s);
            same(&stmts(&two)?, &want, "twice")?;
            Ok(judge::tree_obs(&Ok(two), &[]))
        });
    });
}
/// statements of the last suite with an indent, outermost
fn suites(t: &Tr, found: &mut Option<Vec<Tr>>) {
    match t {
        Tr::Nil | Tr::Tok(_) => {}
        Tr::List(v) | Tr::Pair(v) => for x in v { suites(x, found) },
        Tr::Node(_, _, _, f) => {
            let mut k = vec![]; for x in f { if let Tr::Tok(t) = x { k.push(t.kind) } }
            if k.contains(&"Indent") { if let Some(Tr::List(v)) = f.iter().find(|x| matches!(x, Tr::List(_))) { if let Ok(v) = list(&Tr::List(v.clone())) { *found = Some(v) } } return }
            for x in f { suites(x, found) }
        }
    }
}
/// best match among the nodes that start at a position
fn at_start(t: &Tr, from: u32, want: &Tr, best: &mut Option<Option<String>>) {
    match t {
        Tr::Nil | Tr::Tok(_) => {}
        Tr::List(v) | Tr::Pair(v) => for x in v { at_start(x, from, want, best) },
        Tr::Node(_, s, e, f) => {
            if *best == Some(None) || from < *s || from > e.0 { if !(*s <= from) { return } }
            if *s == from { match diff(t, want, Cmp::Shape, "") { None => *best = Some(None), Some(d) => if *best != Some(None) { if best.is_none() || kind_of(t) == kind_of(want) { *best = Some(Some(d)) } } } }
            for x in f { at_start(x, from, want, best) }
        }
    }
}
fn kind_of(t: &Tr) -> &'static str { match t { Tr::Node(k, ..) => k, _ => "" } }

fn p22(cx: &mut Ctx) {
    // outer handlers x position of nested trys x nested handlers
    #[derive(Clone)]
    struct T { h: Vec<bool>, nest: BTreeMap<usize, T>, els: bool, fin: bool }   // slot 0: body, 1..=n handlers, n+1 else, n+2 finally
    fn good(t: &T) -> bool { t.h.windows(2).all(|w| w[0] == w[1]) && t.nest.values().all(good) && (!t.h.is_empty() || (t.fin && !t.els)) }
    fn render(t: &T, ind: usize, o: &mut String, names: &mut usize, inline: bool) {
        let pad = " ".repeat(ind);
        let slot = |k: usize, head: String, o: &mut String, names: &mut usize| {
            *o += &pad; *o += &head;
            match t.nest.get(&k) { Some(n) => { *o += "\n"; if *names % 3 == 1 { *o += &" ".repeat(ind + 1); *o += "x\n" } render(n, ind + 1, o, names, inline); if *names % 2 == 1 { *o += &" ".repeat(ind + 1); *o += "y\n" } } None => { if inline { *o += " x\n" } else { *o += "\n"; *o += &" ".repeat(ind + 2); *o += "x\n" } } }
            *names += 1;
        };
        slot(0, "try:".into(), o, names);
        for (i, s) in t.h.iter().enumerate() { slot(i + 1, format!("except{} e{}:", if *s { "*" } else { "" }, if *names % 2 == 0 { " as n" } else { "" }), o, names) }
        if t.els { slot(t.h.len() + 1, "else:".into(), o, names) }
        if t.fin { slot(t.h.len() + 2, "finally:".into(), o, names) }
    }
    let seqs: Vec<Vec<bool>> = (0..=4usize).flat_map(|n| (0..1usize << n).map(move |b| (0..n).map(|k| b >> k & 1 == 1).collect())).collect();
    let inner: Vec<Vec<bool>> = vec![vec![], vec![false], vec![true], vec![false, false], vec![true, true], vec![false, true], vec![true, false]];
    let judge_try = |text: &str, want: bool| -> V {
        let s = sut::parse(text, Entry::File);
        let o = judge::tree_obs(&s, &[Tk::new("x", None, vec![], Some(text.to_string()), None)]);
        let o = Obs { sig: hash_str(o.sig, text), weight: 9, known: None };
        match (s.is_ok(), want) { (true, true) => { judge::tally("homogeneous trys accepted"); Ok(o) } (false, false) => { judge::tally("mixed trys rejected"); Ok(o) } (true, false) => Err("except and except* mixed in one try, but accepted".into()), (false, true) => Err(format!("every try has one kind of handler, but rejected: {}", s.err().unwrap())) }
    };
    // everything with up to two nested trys
    let n_in = (inner.len() + 1) as u64;
    cx.all("handler sequences with nested trys", seqs.len() as u64 * 7 * 7 * n_in * n_in * 2, |cx, i| {
        let q = &seqs[(i % seqs.len() as u64) as usize]; let mut k = i / seqs.len() as u64;
        let (p1, p2) = ((k % 7) as usize, (k / 7 % 7) as usize); k /= 49;
        let (n1, n2) = ((k % n_in) as usize, (k / n_in % n_in) as usize); k /= n_in * n_in;
        if p2 < p1 || (p1 == p2 && n2 != 0) { return }
        let leaf = |v: &Vec<bool>| T { h: v.clone(), nest: BTreeMap::new(), els: false, fin: v.is_empty() };
        let mut t = T { h: q.clone(), nest: BTreeMap::new(), els: q.len() > 0 && i % 3 == 0, fin: q.is_empty() || i % 5 < 2 };
        if n1 > 0 { t.nest.insert(p1, leaf(&inner[n1 - 1])); }
        if n2 > 0 { t.nest.insert(p2, leaf(&inner[n2 - 1])); }
        let last = q.len() + 2;
        t.nest.retain(|p, _| *p <= q.len() || (*p == last - 1 && t.els) || (*p == last && t.fin));
        let mut s = String::new(); render(&t, 0, &mut s, &mut (i as usize), k == 0);
        let w = good(&t);
        cx.case(&s, || judge_try(&s, w));
    });
    fn random(r: &mut Rng, d: usize) -> T {
        let n = r.count(0, 6); let kind = r.p(50); let mixed = r.p(6);
        let h: Vec<bool> = (0..n).map(|_| if mixed { r.p(50) } else { kind }).collect();
        let els = n > 0 && r.p(30); let fin = n == 0 || r.p(30);
        let mut nest = BTreeMap::new();
        if d > 0 { for k in 0..n + 3 { if (k <= n || (k == n + 1 && els) || (k == n + 2 && fin)) && r.p(40) { nest.insert(k, random(r, d - 1)); } } }
        T { h, nest, els, fin }
    }
    cx.stream("random nestings", 40_000, 1_000_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut s = String::new(); let mut w = true;
        for _ in 0..1 + r.n(3) { let d = r.n(4); let t = random(&mut r, d); w &= good(&t); let mut k = r.n(6); let inl = r.p(50); render(&t, 0, &mut s, &mut k, inl); if r.p(30) { s += "z\n" } }
        cx.case(&s, || judge_try(&s, w));
    });
    // nested in other statements, and handlers without a type
    cx.stream("trys in other blocks", 20_000, 500_000, |cx, i| {
        let mut r = cx.rng(i);
        let d = r.n(3); let t = random(&mut r, d);
        let heads = ["if a:\n", "while a:\n", "for a in b:\n", "def f():\n", "class c:\n", "with a:\n", "async def f():\n"];
        let mut s = String::new(); let mut ind = 0;
        // an outer try whose handler kind is fixed before the blocks begin
        let outer = r.p(60); let star = r.p(50); let second = r.p(50);
        if outer { s += "try: x\nexcept"; if star { s += "*" } s += " a:\n"; ind = 1 }
        for _ in 0..r.n(3) { s += &" ".repeat(ind); s += *r.pick(&heads); ind += 1 }
        let mut k = r.n(6); let inl = r.p(50); render(&t, ind, &mut s, &mut k, inl);
        let mut w = good(&t);
        if outer { let s2 = if second { star } else { r.p(50) }; s += "except"; if s2 { s += "*" } s += " b: y\n"; w &= s2 == star }
        cx.case(&s, || judge_try(&s, w));
    });
    // programs rich in trys, all of one kind each; then the star of one or more handlers is put or taken away
    cx.stream("stars put and taken away", 30_000, 800_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut g = Gen::new(r.clone(), 20 + r.n(120) as i32); r = g.r.clone();
        g.o.trys = 30 + g.r.u64() % 60; g.o.prim /= 3; g.o.ops /= 3;
        for _ in 0..1 + r.n(3) { let d = 1 + r.n(5); g.compound(d) }
        let items = g.out;
        let st = match r.n(3) { 0 => Style::plain(), _ => Style::random(&mut r, false) };
        let front = if r.p(4) { padded(&mut r, "") + "\n" } else { String::new() };
        let a = layout(&items, &st, &mut r.clone());
        let spots: Vec<usize> = (0..items.len()).filter(|k| items[*k] == G::T("except".into()) && items.get(k + 1) != Some(&G::T(":".into()))).collect();
        if spots.is_empty() { return }
        let mut m = items.clone();
        let mut chosen: Vec<usize> = (0..1 + r.n(2)).map(|_| *r.pick(&spots)).collect(); chosen.sort(); chosen.dedup(); chosen.reverse();
        for k in chosen { if m[k + 1] == G::T("*".into()) { m.remove(k + 1); } else { m.insert(k + 1, G::T("*".into())) } }
        let b = layout(&m, &st, &mut r);
        cx.case(&format!("{}\u{1}{}", a, b), || {
            let skip = Ok(Obs { sig: 0, weight: 0, known: None });
            if judge::verdict(&a, Entry::File).is_err() { return skip }
            let want = judge::verdict(&b, Entry::File).is_ok();
            if front.is_empty() { judge_try(&a, true)?; judge_try(&b, want) } else { judge_try(&(front.clone() + &a), true)?; judge_try(&(front.clone() + &b), want) }
        });
    });
    const TYPE: [&str; 58] = ["a", "a.b", "a.b.c", "(a)", "(a, b)", "(a,)", "((a))", "()", "a()", "a(b)", "a(b, c=d)", "a[b]", "a[b:c]", "[a]", "[a, b]", "[]", "{a}", "{a: b}", "{}", "'a'", "'a' 'b'", "1", "0x1f", "1.5j", "None", "True", "False", "...", "not a", "-a", "+a", "~a", "await a", "await a()", "a or b", "a and b", "a if b else c", "lambda: a", "lambda b: a", "a < b", "a == b", "a in b", "a not in b", "a is not b", "a | b", "a + b", "a ** b", "a @ b", "(a := b)", "(yield)", "(yield a)", "(lambda: a)", "[a for b in c]", "(a for b in c)", "{**a}", "(*a, b)", "(\n a,\n b)", "é"];
    let nt = TYPE.len() as u64;
    cx.all("handler types", nt * nt * 2 * 8, |cx, i| {
        let (x, y) = (TYPE[(i % nt) as usize], TYPE[(i / nt % nt) as usize]); let k = i / nt / nt;
        let (s, q, names, lines) = (k & 1 == 1, k >> 1 & 1 == 1, (k >> 2 & 1 == 1), k >> 3);
        let one = |star: bool, t: &str, n: &str| format!("except{}{}{}:{}", if star { "*" } else { "" }, if star && lines == 1 && !t.starts_with('*') { t.to_string() } else { format!(" {}", t) }, if names { n } else { "" }, if lines == 1 { "\n  z\n" } else { " z\n" });
        let (h1, h2) = (one(s, x, " as m"), one(q, y, " as n"));
        let body = if lines == 1 { "try:\n  z\n" } else { "try: z\n" };
        let t = format!("{}{}{}", body, h1, h2);
        cx.case(&t, || {
            // each handler on its own is right
            if judge::verdict(&format!("{}{}", body, h1), Entry::File).is_err() || judge::verdict(&format!("{}{}", body, h2), Entry::File).is_err() { return Ok(Obs { sig: 0, weight: 0, known: None }) }
            judge_try(&t, s == q)
        });
    });
    // every kind of statement in every part of a try
    let mut bodies: Vec<String> = SIMPLES.iter().map(|s| format!("{}\n", s)).collect();
    for h in HEADERS { if h.ends_with(':') && !["elif", "else", "except", "finally"].iter().any(|w| h.starts_with(w)) { bodies.push(if h == "try:" { "try: y\nfinally: z\n".into() } else { format!("{} y\n", h) }); bodies.push(if h == "try:" { "try:\n y\nfinally:\n z\n".into() } else { format!("{}\n y\n x\n", h) }) } else if h.starts_with('@') { for d in ["class y: z\n", "def y(): z\n", "def y() -> x:\n z\n", "async def y(): z\n"] { bodies.push(format!("{}\n{}", h, d)) } } }
    for h in ["def a() -> b:\n c\n", "def a():\n try: b\n except c: d\n", "def a():\n try: b\n except* c: d\n", "def a() -> e:\n try: b\n except* c: d\n", "class a(b):\n try: b\n except c: d\n", "class a:\n def e():\n  try: b\n  except* c: d\n", "try: b\nexcept c: d\nelse: e\n", "try: b\nexcept* c: d\nelse: e\nfinally: f\n", "try: b\nexcept: d\n", "try: b\nexcept c: d\nexcept: e\nfinally: f\n", "try:\n try: b\n except* c: d\nexcept e: f\n", "try: b\nfinally:\n try: c\n except d: e\n", "try: b\nexcept* c:\n try: d\n except e: f\nelse:\n try: g\n except* h: i\n", "if a:\n try: b\n except* c: d\nelse:\n try: b\n except c: d\n", "for a in b:\n try: b\n except c: d\nelse:\n try: b\n except* c: d\n", "while a:\n try: b\n finally: c\n", "with a:\n try: b\n except* c: d\n", "async def a():\n async with b:\n  try: c\n  except d: e\n", "try: b\nexcept* c: d\ntry: e\nexcept f: g\n", "a\ntry: b\nexcept c: d\nb\n", "def a(): # type: b\n c\n", "for a in b: # type: c\n d\n", "a = b # type: c\n"] { bodies.push(h.to_string()) }
    for f in FORMS { if f.entry == Entry::File && !f.deep && (f.area == Area::Simple || f.area == Area::Compound) { for n in [1, 3, 40] { bodies.push(f.text(n)) } } }
    for f in FORMS { if f.entry == Entry::Eval && !f.deep { for n in [2, 70] { bodies.push(f.text(n)) } } }
    let nb = bodies.len() as u64;
    cx.all("every statement in a try", nb * 10 * 4, |cx, i| {
        let b = &bodies[(i % nb) as usize]; let slot = (i / nb % 10) as usize; let (s, q) = (i / nb / 10 & 1 == 1, i / nb / 10 >> 1 == 1);
        if judge::verdict(b, Entry::File).is_err() { return }
        let sub = |k: usize| -> String { if k == slot { format!("\n{}", b.trim_end_matches('\n').lines().map(|l| format!("  {}\n", l)).collect::<String>()) } else { " x\n".into() } };
        let e = |star: bool| if star { "except*" } else { "except" };
        let shape = |s: bool, q: bool| match slot {
            5 => format!("{}try: x\n{} a: x\n{} b: x\n", b, e(s), e(q)),
            6 => format!("try: x\n{} a: x\n{} b: x\n{}", e(s), e(q), b),
            7 => format!("try: x\n{} a: x\n{} b: x\n{} c:\n{}", e(s), e(s), e(q), b.trim_end_matches('\n').lines().map(|l| format!("\t{}\n", l)).collect::<String>()),
            8 => format!("try: x\n{} a: x\n{}try: x\n{} b: x\n", e(s), b, e(q)),
            9 => format!("try: x\n{} a:\n  try: x\n  {} b:\n{}{} c: x\n", e(s), e(!s), b.trim_end_matches('\n').lines().map(|l| format!("    {}\n", l)).collect::<String>(), e(q)),
            _ => format!("try:{}{} a:{}{} b as c:{}else:{}finally:{}", sub(0), e(s), sub(1), e(q), sub(2), sub(3), sub(4)),
        };
        let t = shape(s, q);
        cx.case(&t, || {
            if judge::verdict(&shape(s, if slot == 8 { q } else { s }), Entry::File).is_err() { return Ok(Obs { sig: 0, weight: 0, known: None }) }
            judge_try(&t, slot == 8 || s == q)
        });
    });
    // a kind of its own at every level, and handlers that come when the inner trys are done
    cx.all("levels", 64 * 8, |cx, i| {
        let n = 1 + (i / 8) as usize; let k = i % 8; let mut s = String::new(); let mut r = cx.rng(i);
        let kinds: Vec<bool> = (0..n).map(|d| match k { 0 => d % 2 == 0, 1 => d % 2 == 1, 2 => false, 3 => true, _ => r.p(50) }).collect();
        let e = |star: bool| if star { "except*" } else { "except" };
        for d in 0..n { let p = " ".repeat(d); if (d as u64 + k) % 3 == 0 { s += &format!("{}try: x\n{}{} a:\n", p, p, e(kinds[d])) } else { s += &format!("{}try:\n", p) } }
        s += &format!("{}y\n", " ".repeat(n));
        let odd = if k >= 5 { Some(r.n(n)) } else { None };
        let mut want = true;
        for d in (0..n).rev() { let p = " ".repeat(d); let mut q = kinds[d]; if odd == Some(d) { q = !q; if (d as u64 + k) % 3 == 0 { want = false } } s += &format!("{}{} b: x\n", p, e(q)); if d % 2 == 0 { s += &format!("{}{} c: x\n", p, e(q)) } if d % 5 == 0 { s += &format!("{}else: z\n", p) } if d % 3 == 1 { s += &format!("{}finally: z\n", p) } }
        cx.case(&s, || judge_try(&s, want));
    });
    let sz = sizes(if cx.thorough { 200_001 } else { 70_000 });
    cx.all("behind a long text", sz.len() as u64 * 3 * 8, |cx, i| {
        let n = sz[(i / 24) as usize];
        let front = match i % 3 { 0 => format!("#{}\n", "c".repeat(n)), 1 => "a\n".repeat(n / 2), _ => format!("'{}'\n", "é\n".repeat(n).replace('\n', "")) };
        let (s, w) = [("try: a\nexcept b: c\nexcept* d: e\n", false), ("try: a\nexcept* b: c\nexcept d: e\n", false), ("try: a\nexcept* b:\n try: c\n except d: e\nexcept* f: g\n", true), ("try: a\nexcept b:\n try: c\n except* d: e\nexcept f: g\n", true), ("try: a\nexcept b:\n try: c\n except* d: e\nexcept* f: g\n", false), ("try: a\nexcept* b:\n try: c\n except* d: e\nexcept f: g\n", false), ("try:\n try: a\n except b: c\n finally: d\nexcept* e: f\n", true), ("try: a\nexcept: b\ntry: c\nexcept* d: e\n", true)][(i / 3 % 8) as usize];
        let t = front + s;
        cx.case(&t, || judge_try(&t, w));
    });
    const H: [(&str, u8); 7] = [("except:", 0), ("except a:", 1), ("except a as b:", 1), ("except* a:", 2), ("except* a as b:", 2), ("except *a:", 2), ("except*(a, b):", 2)];
    cx.all("handler spellings", work::words(&["", "", "", "", "", "", ""], 4), |cx, i| {
        let w = word(&["", "", "", "", "", "", ""], 4, i).unwrap();
        if w.is_empty() { return }
        let mut s = String::from("try: x\n"); for k in &w { s += H[*k].0; s += " y\n" }
        let star = w.iter().filter(|k| H[**k].1 == 2).count();
        let want = star == 0 || star == w.len();
        cx.case(&s, || judge_try(&s, want));
    });
    cx.all("long handler lists", 4 * 60, |cx, i| { let n = sizes(1025)[(i / 4) as usize % 60].max(1); let k = i % 4; let (a, b) = if k < 2 { ("except a: b\n", "except* a: b\n") } else { ("except* a: b\n", "except a: b\n") }; let s = format!("try: x\n{}{}{}", a.repeat(n), if k % 2 == 0 { "" } else { b }, a); cx.case(&s, || judge_try(&s, k % 2 == 0)); });
}

fn p26(cx: &mut Ctx) {
    for (n, a) in [("entry points", Some(Area::Types)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound))] {
        cx.stream(n, 12_000, 400_000, |cx, i| {
            let (p, mut r) = program(a, cx.rng(i), 60);
            let t = text_of(&p.items, &mut r);
            let e = p.entry;
            cx.text(&t, &|t| judge::tree(t, e, Cmp::Shape, Mode::AcceptTree));
            if e != Entry::Func { for e in [Entry::Single, Entry::Eval, Entry::File] { cx.text(&t, &|t| judge::tree(t, e, Cmp::Shape, Mode::Tree)); } }
        });
    }
    cx.stream("single as file", 30_000, 800_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut g = Gen::new(r.clone(), 4 + r.n(60) as i32); r = g.r.clone();
        let compound = i % 2 == 0;
        if compound { let d = r.n(4); g.compound(d) } else { g.simple() }
        let mut st = Style::random(&mut r, false); st.blank = if r.p(80) { 0 } else { st.blank };
        let t = layout(&g.out, &st, &mut r);
        cx.text(&t, &|t| single_file(t));
    });
    let n = SIMPLES.len() as u64;
    cx.all("single statement lines", n * n, |cx, i| { let (a, b) = (SIMPLES[(i % n) as usize], SIMPLES[(i / n) as usize]); let t = if i % 3 == 0 { format!("{}\n", a) } else { format!("{}; {}\n", a, b) }; cx.text(&t, &|t| single_file(t)); cx.text(&t, &|t| judge::tree(t, Entry::Single, Cmp::Shape, Mode::Tree)); });
    cx.stream("single blocks", 20_000, 500_000, |cx, i| { let mut r = cx.rng(i); let n = 1 + r.count(0, 8); let t = compound_text(&mut r, n) + if r.p(40) { "\n" } else { "" }; cx.text(&t, &|t| single_file(t)); });
    cx.all("bare newlines", 24, |cx, i| { let t = ["\n", "\r", "", " \n", "#c\n", "\\\n\n", "\n\n", "  ", "\t\n", "#c", "\r\r", "\n#c\n"][(i % 12) as usize]; let e = if i < 12 { Entry::Single } else { Entry::File }; cx.text(t, &|t| judge::tree(t, e, Cmp::Shape, Mode::Tree)); });
    cx.stream("eval as file", 30_000, 800_000, |cx, i| {
        let mut r = cx.rng(i);
        let mut g = Gen::new(r.clone(), 4 + r.n(60) as i32); r = g.r.clone();
        if r.p(50) { g.test() } else { g.testlist() }
        g.out.push(G::Nl);
        let st = Style::random(&mut r, false);
        let mut t = layout(&g.out, &st, &mut r);
        for _ in 0..r.n(4) { t += "\n" }
        cx.text(&t, &|t| {
            let a = sut::parse(t, Entry::Eval); let b = sut::parse(t, Entry::File);
            match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    let x = field(x, "EvalInput", 0)?; let s = stmts(y)?;
                    if s.len() != 1 { return Err(format!("eval accepts what file input reads as {} statements", s.len())) }
                    let l = list(field(&s[0], "SimpleStmtList", 0)?)?;
                    if l.len() != 1 { return Err(format!("eval accepts a line of {} statements", l.len())) }
                    let (p, q) = (x, &l[0]);
                    match (p, q) {
                        (Tr::Node("TestList", _, _, f), Tr::Node("TestListStarExpr", _, _, h)) => for k in 0..2 { same(&list(&f[k])?, &list(&h[k])?, "expression list")? },
                        _ => if let Some(d) = diff(p, q, Cmp::Shape, "") { return Err(format!("eval and file input differ: {}", d)) },
                    }
                    judge::tally("eval and file trees compared");
                    Ok(judge::tree_obs(&a, &[]))
                }
                (Ok(_), Err(m)) => Err(format!("eval input accepts, file input rejects: {}", m)),
                _ => Ok(Obs { sig: 0, weight: 0, known: None }),
            }
        });
    });
    treewords(cx, "type words", &["a", ",", "*", "**", "b.c", "[d]"], 6, 7, &[("(", ") -> e\n")], Entry::Func, &|t, e| judge::tree(t, e, Cmp::Shape, Mode::Tree));
    treewords(cx, "type items", &["a", "*b", "**c", ",", "*", "d.e[f]"], 7, 8, &[("(", ") -> e\n")], Entry::Func, &|t, e| judge::tree(t, e, Cmp::Shape, Mode::Tree));
    treewords(cx, "type texts", &["(", ")", "->", "a", ",", "\n"], 6, 7, &[("", ""), ("(a) ", "\n")], Entry::Func, &|t, e| judge::tree(t, e, Cmp::Shape, Mode::Tree));
    treewords(cx, "eval texts", &["a", ",", "\n", ";", "=", "*", "# c\n", "\\\n"], 5, 6, &[("", ""), ("a ", "\n")], Entry::Eval, &|t, e| judge::tree(t, e, Cmp::Shape, Mode::Tree));
    cx.stream("types and their expressions", 20_000, 500_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = r.count(0, 6); let star = r.p(40); let m = if star { r.count(0, 3) } else { 0 }; let pow = r.p(40);
        let one = |r: &mut Rng| -> String { let mut g = Gen::new(r.clone(), 2 + r.n(14) as i32); g.test(); *r = g.r.clone(); g.out.push(G::Nl); layout(&g.out, &Style { final_nl: false, ..Style::pretty() }, r) };
        let mut parts: Vec<(&str, String)> = (0..n).map(|_| ("", one(&mut r))).collect();
        if star { parts.push(("*", one(&mut r))); for _ in 0..m { parts.push(("", one(&mut r))) } }
        if pow { parts.push(("**", one(&mut r))) }
        let res = one(&mut r);
        let t = format!("({}) -> {}\n", parts.iter().map(|p| format!("{}{}", p.0, p.1)).collect::<Vec<_>>().join(", "), res);
        cx.case(&t, || {
            let x = sut::parse(&t, Entry::Func);
            let alone = |s: &str| -> Result<Tr, String> { field(&sut::parse(s, Entry::Eval)?, "EvalInput", 0).map(|x| x.clone()) };
            let mut want: Vec<Tr> = vec![]; let mut w_star = Tr::Nil; let mut w_pow = Tr::Nil;
            for p in &parts { let a = match alone(&p.1) { Ok(a) => a, Err(_) => return Ok(Obs { sig: 0, weight: 0, known: None }) }; match p.0 { "*" => w_star = a, "**" => w_pow = a, _ => want.push(a) } }
            let wr = match alone(&res) { Ok(a) => a, Err(_) => return Ok(Obs { sig: 0, weight: 0, known: None }) };
            let x = x.map_err(|m| format!("function type input rejects types that are expressions on their own: {}", m))?;
            let f = field(&x, "FuncTypeInput", 0)?;
            let l = field(f, "FuncType", 1)?;
            if parts.is_empty() { if *l != Tr::Nil { return Err("types where none are".into()) } }
            else {
                same(&list(field(l, "TypeList", 0)?)?, &want, "types")?;
                for (k, w) in [(3, &w_star), (5, &w_pow)] { if let Some(d) = diff(field(l, "TypeList", k)?, w, Cmp::Shape, "") { return Err(format!("starred type: {}", d)) } }
            }
            if let Some(d) = diff(field(f, "FuncType", 4)?, &wr, Cmp::Shape, "") { return Err(format!("result type: {}", d)) }
            judge::tally("type lists compared");
            Ok(judge::tree_obs(&Ok(x), &[]))
        });
    });
    forms(cx, "sizes", &[Area::Types], 2049, 65537, &|cx, t, f| { cx.text(t, &|t| judge::tree(t, f.entry, Cmp::Shape, Mode::Tree)); });
}
/// what single input accepts, against file input of the same text
fn single_file(t: &str) -> V {
    let a = sut::parse(t, Entry::Single); let b = sut::parse(t, Entry::File);
    let o = judge::tree_obs(&a, &[]);
    let skip = Ok(Obs { sig: 0, weight: 0, known: None });
    let r = judge::verdict(t, Entry::Single);
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            let s = stmts(y)?;
            let one = field(x, "SingleInput", 0)?;
            if *one == Tr::Nil { return skip }
            if s.is_empty() { return Err("single input has a statement, file input none".into()) }
            if let Some(d) = diff(one, &s[0], Cmp::Shape, "") { return Err(format!("single and file input differ: {}", d)) }
            judge::tally("single and file trees compared");
            Ok(o)
        }
        (Err(m), Ok(y)) => { let s = stmts(y)?; if s.len() == 1 && r.is_ok() { Err(format!("file input takes the text as one statement, single input rejects it: {}", m)) } else { skip } }
        (Ok(x), Err(_)) => { let _ = x; skip }
        _ => skip,
    }
}

// ---- P20 ----------------------------------------------------------------------------------------------

fn full_hash(t: &Tr, h: u64) -> u64 {
    match t {
        Tr::Nil => mix(h, 1), Tr::Tok(t) => tok_hash(t, h),
        Tr::List(v) => v.iter().fold(mix(h, 2 + v.len() as u64), |h, x| full_hash(x, h)), Tr::Pair(v) => v.iter().fold(mix(h, 3), |h, x| full_hash(x, h)),
        Tr::Node(k, s, e, v) => v.iter().fold(mix(mix(hash_str(h, k), *s as u64), e.0 as u64), |h, x| full_hash(x, h)),
    }
}
fn tok_hash(t: &Tk, h: u64) -> u64 {
    let mut h = hash_str(h, t.kind);
    if let Some(p) = t.pos { h = mix(mix(h, p.0 as u64), p.1 as u64) }
    h = hash_str(hash_str(h, t.text.as_deref().unwrap_or("\u{1}")), t.prefix.as_deref().unwrap_or("\u{1}"));
    for v in &t.triv { h = hash_str(mix(mix(hash_str(h, v.kind), v.s as u64), v.e as u64), &v.text) }
    h
}
pub fn lex_result(s: &sut::SutLex) -> u64 { let h = s.toks.iter().fold(11, |h, t| tok_hash(t, h)); hash_str(h, s.err.as_deref().unwrap_or("")) }
pub fn result(t: &str) -> u64 {
    caught(|| {
        let mut h = lex_result(&sut::tokens(t));
        for e in ENTRIES { h = match sut::parse(t, e) { Ok(x) => full_hash(&x, h), Err(m) => hash_str(mix(h, 5), &m) } }
        h
    }).unwrap_or(0)
}
/// The same texts in every process: the supervisor compares their results across processes
fn pool(seed: u64, n: u64) -> Vec<String> {
    let first: Vec<String> = pool_texts(seed, n);
    let mut r = Rng::new(seed, 0x706f6f6d, n);
    let more: Vec<String> = first.iter().map(|t| sibling(t, &mut r)).collect();
    first.into_iter().chain(more).collect()
}
/// the same text with longer names, strings, numbers and comments
fn stretched(t: &str, r: &mut Rng) -> String {
    let c: Vec<char> = t.chars().collect(); let mut o = String::new(); let mut i = 0;
    while i < c.len() {
        o.push(c[i]);
        if c[i].is_ascii_lowercase() && !(i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_')) && c.get(i + 1).map_or(true, |x| !x.is_alphanumeric() && !"_'\"".contains(*x)) && r.p(50) { for _ in 0..r.n(60) { o.push(*r.pick(&['a', 'b', '_', 'z', '7', 'é'])) } }
        i += 1
    }
    o
}
/// the result of a text in a process of its own
fn afresh(t: &str) -> Option<u64> {
    use std::io::Write;
    if !cfg!(unix) || cfg!(miri) { return None }
    let mut c = std::process::Command::new(std::env::current_exe().ok()?).args(["--verif", "result"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    c.stdin.take()?.write_all(t.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    u64::from_str_radix(String::from_utf8_lossy(&o.stdout).trim(), 16).ok()
}
/// a text of the same length that differs in one or two characters of a kind
fn sibling(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let spots: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric() || " +-*<>()[]{}".contains(c[*i])).collect();
    if spots.is_empty() { return t.to_string() + "a" }
    for _ in 0..1 + r.n(2) {
        let i = *r.pick(&spots);
        c[i] = match c[i] { '0'..='9' => *r.pick(&['1', '2', '7']), 'a'..='z' | 'A'..='Z' => *r.pick(&['q', 'w', 'c', 'K']), ' ' => *r.pick(&['\t', ' ']), '+' | '-' | '*' => *r.pick(&['+', '-', '*']), '<' | '>' => *r.pick(&['<', '>']), '(' | '[' | '{' => *r.pick(&['(', '[', '{']), x => x };
    }
    c.into_iter().collect()
}
fn pool_texts(seed: u64, n: u64) -> Vec<String> {
    (0..n).map(|i| { let mut r = Rng::new(seed, 0x706f6f6c, i); match i % 9 { 0 => { let f = &FORMS[(i / 9) as usize % FORMS.len()]; f.text([0, 1, 2, 3, 7, 20][r.n(6)]) } 1 => string_literal(&mut r) + &number(&mut r), 2 => compound_text(&mut r, 5), 3 | 4 => { let t = noise(&mut r, true); stretched(&t, &mut r) } _ => noise(&mut r, true) } }).collect()
}
fn p20(cx: &mut Ctx) {
    let n = if cx.thorough { 3000 } else { 700 };
    let texts = pool(cx.seed, n);
    // each process meets the texts in an order of its own
    let mut order: Vec<usize> = (0..texts.len()).collect();
    let mut r = Rng::new(cx.seed, 77, cx.shard);
    for i in (1..order.len()).rev() { let j = r.n(i + 1); order.swap(i, j) }
    let mut base = vec![0u64; texts.len()];
    if !cx.replaying() || cx.shards == 1 { for i in order { PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); base[i] = result(&texts[i]) } }
    cx.base = base.clone();
    let texts = &texts; let base = &base;
    let pick = |r: &mut Rng| r.n(texts.len());
    cx.stream("history", 10_000, 300_000, |cx, i| {
        let mut r = cx.rng(i);
        let seq: Vec<usize> = (0..1 + r.n(4)).map(|_| pick(&mut r)).collect();
        let last = *seq.last().unwrap();
        cx.case(&texts[last], || {
            for k in &seq {
                match r.n(4) {
                    // a lexer or parser given up half way
                    0 => { let mut l = sut::lexer(&texts[*k]); for _ in 0..r.n(20) { use crate::parser::tokenizer::Tokenizer; let _ = caught(|| l.get_symbol().map(|_| ()).map_err(|_| ())); } }
                    1 => { let _ = caught(|| sut::run_rule(&texts[*k], r.pick(sut::RULES).1).map(|_| ())); }
                    _ => {}
                }
                let h = result(&texts[*k]);
                if h != base[*k] { return Err(format!("the result of a text differs from its first result, after parsing others: {:?}", clip(&texts[*k], 400))) }
            }
            judge::tally("results compared with the first one");
            Ok(Obs { sig: hash_str(3, &texts[last]), weight: 9, known: None })
        });
    });
    // a text and its siblings one after the other, each against the reference, which has no memory
    cx.stream("siblings", 6_000, 200_000, |cx, i| {
        let (p, mut r) = program([None, Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Ops)][(i % 5) as usize], cx.rng(i), 60);
        let mut t = text_of(&p.items, &mut r);
        t = stretched(&t, &mut r);
        if r.p(20) { let n = r.n(60); t += &format!("'{}' # {}\n", "ab ".repeat(n), "cd ".repeat(n)); }
        let mut all = vec![t.clone()];
        for _ in 0..3 { let s = sibling(all.last().unwrap(), &mut r); all.push(s) }
        all.push(t);
        for _ in 0..2 { let s = sibling(&all[r.n(all.len())], &mut r); all.push(s) }
        let shown = all.join("\u{1}");
        cx.case(&shown, || {
            let mut o = None;
            for t in &all {
                let one = || -> V { judge::lex(t, Focus::Words)?; let x = judge::tree(t, p.entry, Cmp::Shape, Mode::Tree)?; if sut::parse(t, p.entry).is_ok() { judge::conservation(t, p.entry)?; } Ok(x) };
                match one() {
                    Ok(x) => o = Some(x),
                    // wrong whatever came before, or only here: a new process has read nothing else
                    Err(m) => { let here = result(t); if afresh(t).map_or(false, |h| h != here) { return Err(format!("after {:?} the result of {:?} differs from the result in a new process ({})", clip(&all[0], 200), clip(t, 200), m)) } judge::tally("texts that are wrong in a new process too") }
                }
            }
            judge::tally("sibling texts compared with the reference");
            Ok(Obs { sig: hash_str(3, &shown), weight: 9, known: o.and_then(|x| x.known) })
        });
    });
    cx.stream("interleaved lexers", 8_000, 300_000, |cx, i| {
        let mut r = cx.rng(i);
        let k = 2 + r.n(5); let set: Vec<usize> = (0..k).map(|_| pick(&mut r)).collect();
        let shown = set.iter().map(|j| texts[*j].clone()).collect::<Vec<_>>().join("\u{1}");
        cx.case(&shown, || {
            use crate::parser::tokenizer::Tokenizer;
            let alone: Vec<u64> = set.iter().map(|j| lex_result(&sut::tokens(&texts[*j]))).collect();
            let mut ls: Vec<_> = set.iter().map(|j| (sut::lexer(&texts[*j]), sut::SutLex { toks: vec![], err: None, runaway: false }, false)).collect();
            let mut trace = 1u64;
            let mut steps = 0;
            while ls.iter().any(|l| !l.2) {
                let live: Vec<usize> = (0..k).filter(|j| !ls[*j].2).collect();
                let j = *r.pick(&live);
                trace = mix(trace, j as u64);
                for _ in 0..1 + r.count(0, 3) {
                    let l = &mut ls[j]; if l.2 { break }
                    let n = texts[set[j]].chars().count();
                    match l.0.get_symbol() { Ok(t) => { let t = tok_of(&t); l.2 = t.kind == "EOF" || l.1.toks.len() > 3 * n + 16; l.1.toks.push(t) } Err(e) => { l.1.err = Some(e); l.2 = true } }
                    steps += 1;
                }
                if steps > 1_000_000 { return Err("lexers do not end".into()) }
            }
            for j in 0..k { if lex_result(&ls[j].1) != alone[j] { return Err(format!("interleaved with others, the tokens of {:?} differ", clip(&texts[set[j]], 300))) } }
            judge::tally("interleaved lexer runs");
            Ok(Obs { sig: trace, weight: 9, known: None })
        });
    });
    cx.stream("interleaved parsers", 8_000, 300_000, |cx, i| {
        let mut r = cx.rng(i);
        let k = 2 + r.n(4);
        let progs: Vec<String> = (0..k).map(|_| { let (p, r2) = program([None, Some(Area::Compound), Some(Area::Simple)][r.n(3)], r.clone(), 60); r = r2; if r.p(80) { text_of(&p.items, &mut r) } else { let m = mutate(&p.items, &mut r); text_of(&m, &mut r) } }).collect();
        cx.case(&progs.join("\u{1}"), || {
            let alone: Vec<u64> = progs.iter().map(|t| { let mut s = sut::Steps::new(t); while s.step() {} s.hash(full_hash) }).collect();
            let mut ps: Vec<_> = progs.iter().map(|t| sut::Steps::new(t)).collect();
            let mut live: Vec<usize> = (0..k).collect(); let mut trace = 1;
            while !live.is_empty() { let j = r.n(live.len()); trace = mix(trace, live[j] as u64); if !ps[live[j]].step() { live.remove(j); } }
            for j in 0..k { if ps[j].hash(full_hash) != alone[j] { return Err(format!("interleaved with others, the statements of {:?} differ", clip(&progs[j], 300))) } }
            judge::tally("interleaved parser runs");
            Ok(Obs { sig: trace, weight: 9, known: None })
        });
    });
    // many parses of one kind, then the same texts again
    let watch: Vec<String> = [32usize, 60, 5].iter().flat_map(|n| ["(", "[", "{", "f("].iter().map(move |o| format!("{}a{}\n", o.repeat(*n), match *o { "[" => "]", "{" => "}", _ => ")" }.repeat(*n)))).chain((0..8).map(|k| nested_blocks(k, 20))).chain(["x\n", "", "'", "if a:\n  b\n", "0x_1f + 'a' 'b'\n", "try: a\nexcept* b: c\n", "[a for b in c if d]\n", "# type: x\n", "a\\\nb\n", "$", "(", "lambda a, /, *b, c=d, **e: f\n", "with (a as b): c\n", "@a\ndef b(): c\n"].iter().map(|x| x.to_string())).collect();
    let first: Vec<u64> = watch.iter().map(|t| result(t)).collect();
    let times = if cx.thorough { 70_000u64 } else { 4_000 };
    const FAULTS: [&str; 10] = ["", " $", ")", " =", "\u{1}cut", "\u{1}half", " 0_", " '", "\n  x", "\u{1}in"];
    cx.all("wear", (FORMS.len() * FAULTS.len()) as u64, |cx, i| {
        let f = &FORMS[i as usize / FAULTS.len()]; let k = FAULTS[i as usize % FAULTS.len()];
        let t = f.text(1);
        let t = match k { "\u{1}cut" => { let c: Vec<char> = t.chars().collect(); c[..c.len().saturating_sub(f.post.chars().count() + f.mid.chars().count().min(2).max(1))].iter().collect() } "\u{1}half" => t.chars().take(t.chars().count() * 2 / 3).collect(), "\u{1}in" => format!("if z:\n  ({}", t), "" => t, _ => format!("{}{}", t.trim_end(), k) };
        if !cx.thorough && (i + cx.seed) % 3 != 0 { return }
        cx.case(&t, || {
            let e = ENTRIES[i as usize % 4];
            let one = sut::raw(&t, f.entry).is_ok();
            for n in 0..times / 2 { if sut::raw(&t, f.entry).is_ok() != one { return Err(format!("parse {} of the same text ends otherwise than the first", n)) } if n % 4 == 0 { let _ = sut::raw(&t, e); } }
            for (w, h) in watch.iter().zip(&first) { if result(w) != *h { return Err(format!("after {} parses of another text, the result of {:?} differs from its first result", times / 2, clip(w, 300))) } }
            judge::tally("texts parsed thousands of times");
            Ok(Obs { sig: i, weight: 9, known: None })
        });
    });
    cx.all("many instances", 8, |cx, i| {
        let t = ["a", "(", "", "'", "if a:\n b", "$", "[a", "a\n"][i as usize];
        cx.case(t, || {
            for _ in 0..70_000u32 { use crate::parser::tokenizer::Tokenizer; let mut l = sut::lexer(t); let _ = l.get_symbol(); }
            for _ in 0..if times > 4_000 { 70_000u32 } else { 17_000 } { let _ = sut::raw(t, Entry::File); }
            for (w, h) in watch.iter().zip(&first) { if result(w) != *h { return Err(format!("after 70000 lexers, the result of {:?} differs from its first result", clip(w, 300))) } }
            judge::tally("texts read by 70000 lexers");
            Ok(Obs { sig: 90_000 + i, weight: 9, known: None })
        });
    });
    cx.stream("threads switching at allocations", 1_500, 40_000, |cx, i| {
        let mut r = cx.rng(i);
        let k = 2 + r.n(3); let set: Vec<usize> = (0..k).map(|_| pick(&mut r)).collect();
        let gap = [1, 2, 5, 20, 100][r.n(5)]; let seed = r.u64();
        let shown = set.iter().map(|j| texts[*j].clone()).collect::<Vec<_>>().join("\u{1}");
        cx.case(&shown, || {
            let before = alloc::SWITCHES.load(std::sync::atomic::Ordering::Relaxed);
            let jobs: Vec<Box<dyn FnOnce() -> u64 + Send>> = set.iter().map(|j| { let t = &texts[*j]; Box::new(move || result(t)) as Box<dyn FnOnce() -> u64 + Send> }).collect();
            let got = alloc::interleave(seed, gap, jobs);
            let sw = alloc::SWITCHES.load(std::sync::atomic::Ordering::Relaxed) - before;
            SWITCHED.with(|s| s.set(s.get() + sw));
            for (j, g) in got.iter().enumerate() { if *g != Some(base[set[j]]) { return Err(format!("on a thread among others, the result of {:?} differs from its first result", clip(&texts[set[j]], 300))) } }
            judge::tally("controlled interleavings");
            Ok(Obs { sig: mix(alloc::TRACE.load(std::sync::atomic::Ordering::Relaxed), i), weight: if sw > 2 { 9 } else { 0 }, known: None })
        });
    });
    let sw = SWITCHED.with(|s| s.get()); cx.count("thread switches at allocations", sw);
    cx.stream("free threads", 48, 1_500, |cx, i| {
        let mut r = cx.rng(i);
        let sets: Vec<Vec<usize>> = (0..4).map(|_| (0..80).map(|_| pick(&mut r)).collect()).collect();
        cx.case(&format!("4 threads, 80 texts each, round {}", i), || {
            let bad: Vec<Option<usize>> = std::thread::scope(|s| {
                let hs: Vec<_> = sets.iter().map(|set| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || set.iter().cloned().find(|j| result(&texts[*j]) != base[*j])).unwrap()).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Some(usize::MAX))).collect()
            });
            match bad.iter().flatten().next() { Some(j) => Err(format!("while other threads parse, the result of {:?} differs from its first result", texts.get(*j).map(|t| clip(t, 300)))), None => { judge::tally("rounds of free threads"); Ok(Obs { sig: i, weight: 9, known: None }) } }
        });
    });
}
thread_local! { static SWITCHED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

// ---- P23, P24 -------------------------------------------------------------------------------------------

/// bytes requested by one lexer run and one parse
fn requested(t: &str, e: Entry) -> (u64, u64) {
    let a = alloc::now(); { let mut l = sut::lexer(t); use crate::parser::tokenizer::Tokenizer; for _ in 0..3 * t.len() + 16 { match l.get_symbol() { Ok(t) => if matches!(*t, crate::parser::tokens::Token::EOF(..)) { break }, Err(_) => break } } }
    let b = alloc::now(); { let _ = sut::raw(t, e); }
    let c = alloc::now();
    (b.req - a.req, c.req - b.req)
}
fn p23(cx: &mut Ctx) {
    let (small, large) = if cx.thorough { (400, 25_600) } else { (250, 8_000) };
    let k = (large / small) as f64;
    let cuts = 5u64;
    cx.all("flat texts", FORMS.len() as u64 * cuts, |cx, i| {
        let f = &FORMS[(i / cuts) as usize]; if f.deep { return }
        let make = |n: usize| -> String { let t = f.text(n); match i % cuts { 0 => t, 1 => t.trim_end().to_string() + " $", 2 => { let c = f.text(n); let cut = f.mid.len() + f.post.len(); c[..c.len() - cut].to_string() } 3 => format!("{}) =", t.trim_end()), _ => format!("if z:\n  {}\n  z\n", f.text(n).trim_end().replace('\n', "\n  ").replace('\r', "\r  ")) } };
        let e = if i % cuts == 4 { Entry::File } else { f.entry };
        let name = format!("{} ({})", f.name, ["as is", "lexical error at the end", "cut off", "syntax error at the end", "in a block"][(i % cuts) as usize]);
        cx.case(&name, || {
            let (a, b) = (make(small), make(large));
            let (x, y) = (requested(&a, e), requested(&b, e));
            let k = b.len() as f64 / a.len() as f64 * k / k;
            judge::tally("flat growth ratios measured");
            for (what, p, q) in [("tokenizing", x.0, y.0), ("parsing", x.1, y.1)] {
                // requests grow in powers of two, hence the allowance of 2
                if q as f64 > 2.2 * k * (p as f64 + 512.0) + 65536.0 { return Err(format!("{}: {} a text {:.0} times as long requests {:.0} times the memory ({} and {} bytes for {} and {} characters)", name, what, k, q as f64 / p as f64, p, q, a.len(), b.len())) }
            }
            Ok(Obs { sig: i, weight: 9, known: None })
        });
    });
    cx.all("nested texts", FORMS.len() as u64, |cx, i| {
        let f = &FORMS[i as usize]; if !f.deep { return }
        cx.case(f.name, || {
            let (n, m) = (24usize, 192usize);
            let (a, b) = (f.text(n), f.text(m));
            let (x, y) = (requested(&a, f.entry).1 as f64, requested(&b, f.entry).1 as f64);
            let k = m as f64 / n as f64;
            judge::tally("nested growth ratios measured");
            if y > 1.6 * k * k * x { return Err(format!("{}: nesting {} times as deep requests {:.0} times the memory ({} and {} bytes)", f.name, k, y / x, x, y)) }
            Ok(Obs { sig: 1000 + i, weight: 9, known: None })
        });
    });
    // a long text inside d levels
    const NEST: [(&str, &str); 16] = [("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("x[", "]"), ("(a, ", ")"), ("-(", ")"), ("not (", ")"), ("a + (", ")"), ("a ** (", ")"), ("lambda: (", ")"), ("a if b else (", ")"), ("f(a=", ")"), ("{a: ", "}"), ("[a for b in (", ")]"), ("a < (", ")")];
    cx.all("long text at a depth", NEST.len() as u64 * 6, |cx, i| {
        let w = NEST[(i / 6) as usize]; let body = ["a", " + b", ", b", ".c", " | d()", "[0]"][(i % 6) as usize];
        let list = match i % 6 { 0 => "a".to_string(), _ => format!("a{}", body.repeat(1500)) };
        let name = format!("'{}' x 1500 inside d times '{}'", body, w.0);
        cx.case(&name, || {
            let make = |d: usize| { let mut s = String::new(); for _ in 0..d { s += w.0 } s += &list; for _ in 0..d { s += w.1 } s + "\n" };
            let (x, y) = (requested(&make(2), Entry::File).1 as f64, requested(&make(16), Entry::File).1 as f64);
            judge::tally("depth growth ratios measured");
            if y > 8.0 * 1.6 * x + 65536.0 { return Err(format!("{}: 16 levels request {:.0} times the memory of 2 levels ({} and {} bytes)", name, y / x, x, y)) }
            Ok(Obs { sig: 2000 + i, weight: 9, known: None })
        });
    });
    cx.all("nested blocks", 10 * 2, |cx, i| {
        cx.case(&format!("nested blocks {}", i % 10), || {
            let (n, m) = if i < 10 { (8, 32) } else { (40, 160) };
            let (a, b) = (nested_blocks((i % 10) as usize, n), nested_blocks((i % 10) as usize, m));
            let (x, y) = (requested(&a, Entry::File).1 as f64, requested(&b, Entry::File).1 as f64);
            let bound = (b.len() * m) as f64 / (a.len() * n) as f64;
            judge::tally("nested growth ratios measured");
            if y > 2.0 * bound * x { return Err(format!("blocks {} deep request {:.0} times the memory of blocks {} deep", m, y / x, n)) }
            Ok(Obs { sig: 3000 + i, weight: 9, known: None })
        });
    });
    // long bodies at block depth
    cx.all("long bodies in nested blocks", 8 * 3, |cx, i| {
        cx.case(&format!("long bodies {}", i), || {
            let line = ["a\n", "a = b + c * d\n", "f(a, b, c)\n"][(i / 8) as usize];
            let make = |d: usize, n: usize| { let mut s = String::new(); let heads = ["if a:\n", "while a:\n", "for a in b:\n", "class a:\n", "def a():\n", "with a:\n", "try:\n", "async def a():\n"]; for k in 0..d { s += &" ".repeat(k); s += heads[(i % 8) as usize] } for _ in 0..n { s += &" ".repeat(d); s += line } if i % 8 == 6 { for k in (0..d).rev() { s += &" ".repeat(k); s += "finally: z\n" } } s };
            let (x, y, z) = (requested(&make(1, 300), Entry::File).1 as f64, requested(&make(1, 4800), Entry::File).1 as f64, requested(&make(12, 300), Entry::File).1 as f64);
            judge::tally("depth growth ratios measured");
            if y > 2.2 * 16.0 * x { return Err(format!("16 times as many lines request {:.0} times the memory", y / x)) }
            if z > 2.0 * 12.0 * x { return Err(format!("12 levels request {:.0} times the memory of one", z / x)) }
            Ok(Obs { sig: 4000 + i, weight: 9, known: None })
        });
    });
    // random programs: no text may need more than a fixed amount per character and level
    cx.stream("random programs", 8_000, 200_000, |cx, i| {
        let (p, mut r) = program([None, Some(Area::Prim), Some(Area::Ops), Some(Area::Compound), Some(Area::Simple)][(i % 5) as usize], cx.rng(i), 120);
        let items = if r.p(30) { mutate(&p.items, &mut r) } else { p.items };
        let t = text_of(&items, &mut r);
        cx.text(&t, &|t| {
            let x = requested(t, p.entry);
            let c = judge::chars(t); let n = c.len() as u64;
            let (mut d, mut depth) = (0i64, 0i64);
            for ch in &c { match ch { '(' | '[' | '{' => { d += 1; depth = depth.max(d) } ')' | ']' | '}' => d -= 1, _ => {} } }
            let words = t.split(|c: char| !c.is_alphanumeric()).filter(|w| ["lambda", "if", "else", "not", "for", "while", "with", "try", "def", "class"].contains(w)).count() as u64 + t.matches(&['-', '+', '~', '*'][..]).count() as u64;
            let levels = 2 + depth as u64 + words;
            judge::tally("programs within the bound");
            if x.0 > 4000 * (n + 8) { return Err(format!("tokenizing {} characters requests {} bytes", n, x.0)) }
            if x.1 > 6000 * (n + 8) * levels { return Err(format!("parsing {} characters, nested at most {} deep, requests {} bytes", n, levels, x.1)) }
            let l = reflex::lex(&c, false); Ok(obs(&l.toks, l.err))
        });
    });
}

/// used under callgrind: one dump of the instruction count per measurement
pub fn instruct(shard: u64, shards: u64, deep: bool) {
    let mut rows: Vec<String> = Vec::with_capacity(4096);
    alloc::arena(4 << 30);
    for (i, f) in FORMS.iter().enumerate() {
        if i as u64 % shards != shard || f.deep { continue }
        for bad in [false, true] {
            for n in if deep { [400usize, 25_600] } else { [200, 6400] } {
                let mut t = f.text(n); if bad { t = t.trim_end().to_string() + " $" }
                let mark = alloc::arena_mark();
                callgrind(1);
                { let _ = sut::raw(&t, f.entry); }
                callgrind(0);
                alloc::arena_reset(mark);
                rows.push(format!("{}\t{}\t{}\t{}", f.name, bad as u8, n, t.len()));
            }
        }
    }
    println!("{}", rows.join("\n"));
}
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn callgrind(req: u64) {
    // valgrind client request: tool base 'C','T'; 0 dump statistics, 1 zero statistics
    let args: [u64; 6] = [0x4354_0000 + req, 0, 0, 0, 0, 0];
    unsafe { std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", inout("rdx") 0u64 => _, in("rax") args.as_ptr(), options(nostack)); }
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn callgrind(_: u64) {}

fn balance(t: &str) -> (i64, i64) {
    let a = alloc::now();
    { let mut l = sut::lexer(t); let mut v = vec![]; use crate::parser::tokenizer::Tokenizer; for _ in 0..t.len() + 16 { match l.get_symbol() { Ok(t) => { let end = matches!(*t, crate::parser::tokens::Token::EOF(..)); v.push(t); if end { break } } Err(_) => break } } }
    for e in ENTRIES { let _ = sut::raw(t, e); }
    let b = alloc::now();
    (b.live - a.live, b.blocks - a.blocks)
}
fn leaks(t: &str) -> V {
    let mut d = balance(t);
    let mut grown = false;
    if d != (0, 0) {
        grown = true;
        // something set up once is no leak; a leak comes again
        for _ in 0..3 { d = balance(t); if d == (0, 0) { break } }
        if d != (0, 0) { return Err(format!("{} bytes in {} blocks are not returned, every time the text is parsed", d.0, d.1)) }
    }
    judge::tally(if grown { "texts after which memory had grown once" } else { "texts after which all memory was returned" });
    let l = reflex::lex(&judge::chars(t), true);
    Ok(obs(&l.toks, l.err))
}
fn p24(cx: &mut Ctx) {
    cx.stream("noise", 25_000, 800_000, |cx, i| { let mut r = cx.rng(i); let t = noise(&mut r, true); cx.text(&t, &leaks); });
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        cx.stream(n, 6_000, 200_000, |cx, i| { let (p, mut r) = program(a, cx.rng(i), 90); let items = if r.p(30) { mutate(&p.items, &mut r) } else { p.items }; let t = text_of(&items, &mut r); cx.text(&t, &leaks); });
    }
    cx.all("short strings", work::words(&CHARS, 2), |cx, i| { let t = spell(&CHARS, 2, i, ""); cx.text(&t, &leaks); });
    cx.all("token sequences", work::words(&WORDS, 3), |cx, i| { if !cx.thorough && i > 4000 && i % 4 != cx.seed % 4 { return } let t = spell(&WORDS, 3, i, " ") + "\n"; cx.text(&t, &leaks); });
    forms(cx, "sizes", &[], 513, 16385, &|cx, t, _| { cx.text(t, &leaks); });
    let np = PRIMS.len() as u64;
    cx.all("primaries in places", np * PLACES.len() as u64, |cx, i| { let p = PLACES[(i % PLACES.len() as u64) as usize]; let t = format!("{}{}{}", p.0, PRIMS[(i / PLACES.len() as u64) as usize], p.1); cx.text(&t, &leaks); });
    // growth that is different for every text is a leak as well
    let grown = judge::TALLY.with(|t| t.borrow().get("texts after which memory had grown once").cloned().unwrap_or(0));
    if grown > 200 && !cx.replaying() { cx.bad.push(Bad { stream: "growth".into(), i: 0, text: None, small: None, msg: format!("memory grew after {} different texts: a process that parses many texts grows", grown) }) }
}
/// a small workload for the sanitizers and the interpreter
pub fn sanitize(n: u64, seed: u64, shard: u64, shards: u64, size: i32) {
    let mut done = 0;
    let mut i = shard;
    let mut hash = 0;
    while i < n {
        let mut r = Rng::new(seed, 4242, i);
        let area = [None, Some(Area::Ops), Some(Area::Prim), Some(Area::Simple), Some(Area::Compound), Some(Area::Types)][(i % 6) as usize];
        let (p, r2) = program(area, r.clone(), size); r = r2;
        let t = match i % 5 { 0 => { let m = mutate(&p.items, &mut r); text_of(&m, &mut r) } 1 => { let t = text_of(&p.items, &mut r); chars_mutate(&t, &mut r) } _ => text_of(&p.items, &mut r) };
        let t = match i % 11 { 7 => soup(&mut r, 8), 9 => FORMS[(i as usize / 11 * 7 + i as usize) % FORMS.len()].text(1 + r.n(if size > 60 { 400 } else { 4 })), 10 => NUMBERS[i as usize % NUMBERS.len()].to_string() + &string_literal(&mut r), _ => t };
        let h = caught(|| {
            let s = sut::tokens(&t);
            let mut h = lex_result(&s);
            for e in ENTRIES { if size > 60 || e == p.entry || i % 4 == 0 { h = mix(h, sut::raw(&t, e).is_ok() as u64) } }
            after_end(&t, 6).ok();
            h
        });
        hash = mix(hash, h.unwrap_or(1));
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        done += 1; i += shards;
    }
    println!("SANITIZED {} {}", done, hash);
}

// ---- P25, P27 ---------------------------------------------------------------------------------------------

fn after_end(t: &str, extra: usize) -> V {
    use crate::parser::tokenizer::Tokenizer;
    let n = t.chars().count();
    let mut l = sut::lexer(t);
    let (mut errs, mut oks) = (0usize, 0usize);
    let mut end: Option<Tk> = None;
    let mut kinds: Vec<Tk> = vec![];
    // after an error the lexer may be asked on
    for _ in 0..3 * n + 32 {
        match l.get_symbol() { Ok(t) => { let t = tok_of(&t); if t.kind == "EOF" { end = Some(t); break } oks += 1; kinds.push(t) } Err(_) => { errs += 1; if errs > n + 16 { break } } }
    }
    match &end {
        Some(e) => for k in 0..extra { match l.get_symbol() { Ok(t) => { let t = tok_of(&t); if t.kind != "EOF" || t.pos != e.pos { return Err(format!("call {} after end of file gives {} instead of {}", k + 1, t.short(), e.short())) } } Err(m) => return Err(format!("call {} after end of file gives an error: {}", k + 1, m)) } },
        None => { if errs == 0 { return Err(format!("{} tokens for {} characters and no end of file", oks, n)) }
            // keeps failing: it must not produce tokens for ever
            if oks > 3 * n + 16 { return Err(format!("{} tokens for {} characters after an error", oks, n)) }
            let mut tail = 0; for _ in 0..64 { if l.get_symbol().is_ok() { tail += 1 } } 
            if tail == 64 { return Err("after an error the lexer produces tokens for ever".into()) } }
    }
    judge::see_toks(&kinds);
    judge::tally(if errs > 0 { "lexers asked on after an error" } else { "lexers asked on after end of file" });
    Ok(obs(&kinds, errs > 0))
}
fn after_parse(t: &str) -> V {
    use crate::parser::blocks::Blocks;
    use crate::parser::expressions::Expressions;
    use crate::parser::statements::Statements;
    use crate::parser::parser::Parser;
    use crate::parser::tokenizer::Tokenizer;
    let mut out = vec![];
    let n = t.chars().count() as u32;
    let l = reflex::lex(&judge::chars(t), true);
    for first in 0..4 {
        let mut p = sut::parser(t);
        let mut go = |p: &mut crate::parser::parser::PythonCoreParser, k: usize| match k % 8 { 0 => p.parse_blocks_file_input().is_ok(), 1 => p.parse_blocks_eval_input().is_ok(), 2 => p.parse_blocks_single_input().is_ok(), 3 => p.parse_blocks_func_type_input().is_ok(), 4 => p.parse_statements_stmt().is_ok(), 5 => p.parse_expressions_test().is_ok(), 6 => { p.advance(); p.parse_expressions_testlist().is_ok() } _ => p.parse_statements_simple_stmt().is_ok() };
        let ok = go(&mut p, first);
        // the lexer of a parser that accepted the whole text stands at its end
        if ok && first != 2 { for _ in 0..3 { match p.lexer.get_symbol() { Ok(t) => { let t = tok_of(&t); if t.kind != "EOF" || (t.pos != Some((n, n)) && !l.crlf) { return Err(format!("after a complete parse the lexer gives {} for a text of {} characters", t.short(), n)) } } Err(m) => return Err(format!("after a complete parse the lexer gives an error: {}", m)) } } }
        for k in 0..8 { out.push(go(&mut p, k + first) as u8) }
        judge::tally(if ok { "parsers used again after success" } else { "parsers used again after an error" });
    }
    Ok(obs(&l.toks, l.err))
}
fn p25(cx: &mut Ctx) {
    let j = |t: &str| { after_end(t, 40)?; after_parse(t) };
    let max = if cx.thorough { 4 } else { 3 };
    cx.all("short strings", work::words(&CHARS, max), |cx, i| { let t = spell(&CHARS, max, i, ""); cx.text(&t, &|t| after_end(t, 12)); });
    cx.stream("noise", 30_000, 1_000_000, |cx, i| { let mut r = cx.rng(i); let t = noise(&mut r, true); cx.text(&t, &j); });
    const TAILS: [&str; 26] = ["", "\n", "\r", "\r\n", " ", "  \n", "\t", "#c", "#c\n", "\\\n", "\\", "(", "'", "'''", "$", "a", ":", "1_", "\n  ", "\n\n#", "\n\t\n", "# type: x", "\\\r\n", "\0", "]", "\n )"];
    const FRONT: [&str; 14] = ["", "a", "if a:\n  b", "if a:\n  if b:\n\tc", "(", "a\n", "  a", "if a:\n  b\n c", "[(", "'''", "a = \\\n", "#c\n", "if a:\n b\n\n", "class a: b"];
    cx.all("ends", (TAILS.len() * TAILS.len() * FRONT.len()) as u64, |cx, i| { let i = i as usize; let t = format!("{}{}{}", FRONT[i % 14], TAILS[i / 14 % TAILS.len()], TAILS[i / 14 / TAILS.len()]); cx.text(&t, &j); });
    cx.stream("errors in programs", 20_000, 600_000, |cx, i| {
        let (p, mut r) = program(None, cx.rng(i), 50);
        let mut m = p.items.clone();
        for _ in 0..1 + r.n(3) { let at = r.n(m.len() + 1); m.insert(at, G::T(r.pick(&["$", "?", "'", "\\ ", "0x", "1_", ")", "}", "\0", "\"\"\"", "09", "!"]).to_string())) }
        let t = text_of(&m, &mut r); cx.text(&t, &j);
    });
    cx.stream("indentation errors", 10_000, 300_000, |cx, i| { let mut r = cx.rng(i); let mut t = String::new(); for _ in 0..2 + r.n(8) { let k = r.n(9); t += &" ".repeat(k); t += *r.pick(&["a", "if a:", "(", ")", "#c", "", "'''"]); t += "\n" } cx.text(&t, &j); });
    cx.stream("cut off", 10_000, 300_000, |cx, i| { let (p, mut r) = program(None, cx.rng(i), 60); let t: Vec<char> = text_of(&p.items, &mut r).chars().collect(); let k = r.n(t.len() + 1); let s: String = t[..k].iter().collect(); cx.text(&s, &j); });
    forms(cx, "sizes", &[], 129, 2049, &|cx, t, _| { cx.text(t, &j); });
    cx.all("many calls at the end", 40, |cx, i| { let t = ["", "a", "a\n", "if a:\n b", "(", "  ", "#", "a\\\n", "if a:\n  b\n\n", "'''", "$", "a\r"][(i % 12) as usize]; cx.case(&format!("{:?}", t), || after_end(t, 70_000)); });
}

fn p27(cx: &mut Ctx) {
    use crate::parser::source_buffer::{SourceBuffer, SourceBufferFunctionality};
    fn walk(t: &str, ops: &[u8]) -> V {
        let c = judge::chars(t);
        let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
        let mut b = SourceBuffer::new(t.to_string());
        let mut i = 0usize;
        let mut h = 5;
        for o in ops {
            h = mix(h, *o as u64);
            match o {
                0 => { b.advance(); i += 1 }
                1 => { let g = b.get_char(); if g != at(i) { return Err(format!("character at {} is {:?} instead of {:?}", i, g, at(i))) } }
                2 => { let g = b.peek_three_chars(); let w = (at(i), at(i + 1), at(i + 2)); if g != w { return Err(format!("lookahead at {} is {:?} instead of {:?}", i, g, w)) } }
                3 => { let g = b.get_position(); if g as usize != i { return Err(format!("position {} after {} advances", g, i)) } }
                _ => { let g = b.count(); if g as usize != c.len() { return Err(format!("count {} for {} characters", g, c.len())) } }
            }
        }
        judge::tally("buffer walks");
        Ok(Obs { sig: hash_str(h, &clip(t, 64)), weight: 3 + ops.len(), known: None })
    }
    let all: Vec<u8> = vec![4, 3, 1, 2];
    let scan = |n: usize| -> Vec<u8> { let mut v = all.clone(); for _ in 0..n + 6 { v.push(0); v.extend([1, 2, 3, 4]) } v };
    cx.all("short strings", work::words(&CHARS, 3), |cx, i| { let t = spell(&CHARS, 3, i, ""); cx.text(&t, &|t| walk(t, &scan(t.chars().count()))); });
    cx.stream("any text, any calls", 60_000, 2_000_000, |cx, i| {
        let mut r = cx.rng(i);
        let n = r.count(0, 60);
        let t: String = (0..n).map(|_| loop { let m = [128, 128, 0x800, 0x10000, 0x110000][r.n(5)]; if let Some(c) = char::from_u32((r.u64() % m) as u32) { break c } }).collect();
        let adv = 10 + r.u64() % 80;
        let k = r.n(200);
        let ops: Vec<u8> = (0..k).map(|_| if r.p(adv) { 0 } else { 1 + r.n(4) as u8 }).collect();
        cx.text(&t, &|t| walk(t, &ops)); cx.text(&t, &|t| walk(t, &scan(t.chars().count())));
    });
    cx.all("unusual characters", ODD.len() as u64 * 12, |cx, i| { let c = ODD[(i / 12) as usize]; let t = match i % 12 { 0 => format!("{}", c), 1 => format!("{}ab", c), 2 => format!("ab{}", c), 3 => format!("a{}b", c), 4 => format!("{}{}x", c, c), 5 => format!("{}\n", c), 6 => format!("\n{}", c), 7 => format!("\r\n{}\r\n", c), 8 => format!("{}\u{feff}", c), 9 => format!("\u{feff}{}", c), 10 => format!("a{}\u{301}", c), _ => format!(" {} ", c) }; cx.text(&t, &|t| walk(t, &scan(t.chars().count()))); });
    cx.stream("programs", 6_000, 200_000, |cx, i| { let mut r = cx.rng(i); let t = noise(&mut r, true); cx.text(&t, &|t| walk(t, &scan(t.chars().count()))); });
    let sz = sizes(if cx.thorough { 1_048_577 } else { 131_073 });
    cx.all("lengths", sz.len() as u64 * 3, |cx, i| { let n = sz[(i / 3) as usize]; let t = ["a", "é\u{1F600}", "ab\ncé"][(i % 3) as usize].chars().cycle().take(n).collect::<String>(); cx.text(&t, &|t| walk(t, &scan(t.chars().count()))); });
    cx.all("far past the end", 30, |cx, i| { let t = "aé".repeat((i % 5) as usize); let mut ops = vec![0u8; if i % 2 == 0 { 300 } else { 70_000 }]; ops.extend([1, 2, 3, 4, 0, 1, 2, 3, 4]); cx.text(&t, &|t| walk(t, &ops)); });
}

// ---- P29 -------------------------------------------------------------------------------------------

/// Every rule on token i: the tree the grammar gives there, and the parser on the token behind it
fn rules_at(t: &str, i: usize) -> V {
    let c = judge::chars(t);
    let l = reflex::lex(&c, false);
    if l.crlf || i >= l.toks.len() { return Ok(Obs { sig: 0, weight: 0, known: None }) }
    let mut weight = 0; let mut sig = 3u64;
    for (name, f) in sut::RULES {
        let mut p = super::refparse::P::at(&l.toks, l.err, i);
        let want = match p.rule(name) { Some(w) => w, None => continue };
        if let Err(super::refparse::Pe::Gap(_)) = want { judge::tally("no verdict: unsupported construct"); continue }
        // what may follow a trailing comma depends on what the list is for
        let at = p.index();
        if at > i && l.toks[at - 1].kind == "PyComa" && !(want.is_ok() && ["Newline", "PySemiColon", "PyAssign"].contains(&p.k())) { judge::tally("no verdict: trailing comma"); continue }
        // a lexical error, or the end of the text in a bracket, behind the construct: a rule that looks ahead may take either for its own
        if at >= l.toks.len() || at > 0 && l.toks[at].kind == "EOF" && l.toks[at - 1].kind != "Newline" && l.toks[at - 1].kind != "Dedent" { judge::tally("no verdict: the text ends behind the construct"); continue }
        let (got, next) = caught(|| sut::rule_at(t, *f, i)).map_err(|e| format!("rule {}: {}", name, e))?;
        match (got, want) {
            (Ok(a), Ok(b)) => {
                if let Some(d) = diff(&a, &b, Cmp::Full, "") { return Err(format!("rule {} on token {} ({}): {}", name, i, l.toks[i].short(), d)) }
                match (&next, l.toks.get(at)) {
                    (Ok(x), Some(y)) if x.same(y) => {}
                    _ => return Err(format!("rule {} on token {} ({}) stops at {} instead of {}", name, i, l.toks[i].short(), next.map(|x| x.short()).unwrap_or_else(|e| e), l.toks.get(at).map(|x| x.short()).unwrap_or("the error".into()))),
                }
                judge::tally("constructs parsed alone"); judge::tally(name);
                weight += 1; sig = hash_str(sig, name);
            }
            (Err(_), Err(_)) => judge::tally("rules that reject"),
            (Ok(a), Err(_)) => return Err(format!("rule {} on token {} ({}) accepts what is not its construct: {}", name, i, l.toks[i].short(), clip(&a.show(false), 400))),
            (Err(e), Ok(b)) => return Err(format!("rule {} on token {} ({}) rejects its construct ({}); expected {}", name, i, l.toks[i].short(), e, clip(&b.show(false), 400))),
        }
    }
    Ok(Obs { sig, weight, known: None })
}

/// Rules chosen at random one after the other on the same parser, from the first token to the last
fn rule_history(t: &str, seed: u64) -> V {
    let l = reflex::lex(&judge::chars(t), false);
    if l.crlf { return Ok(Obs { sig: 0, weight: 0, known: None }) }
    let mut r = Rng::new(seed, 77, 0);
    let mut p = sut::parser(t);
    p.advance();
    let (mut i, mut weight, mut sig) = (0, 0, 9u64);
    let mut said: Vec<&str> = vec![];
    while i < l.toks.len() {
        let mut done = false;
        for _ in 0..8 {
            let (name, f) = *r.pick(sut::RULES);
            if name.starts_with("except_") { continue }         // belongs to the try statement around it
            let mut q = super::refparse::P::at(&l.toks, l.err, i);
            let want = match q.rule(name) { Some(Ok(w)) => w, _ => continue };
            let at = q.index();
            if at == i || at >= l.toks.len() || l.toks[at].kind == "EOF" || l.toks[at - 1].kind == "PyComa" { continue }
            let got = caught(|| f(&mut p).map(|t| t.dump())).map_err(|e| format!("rule {} after {:?}: {}", name, said, e))?;
            said.push(name); if said.len() > 12 { said.remove(0); }
            match got {
                Ok(a) => if let Some(d) = diff(&a, &want, Cmp::Full, "") { return Err(format!("token {}, the last of the rules {:?} called one after the other: {}", i, said, d)) },
                Err(e) => return Err(format!("token {}, the last of the rules {:?} called one after the other rejects its construct ({}); expected {}", i, said, e, clip(&want.show(false), 400))),
            }
            judge::tally("constructs parsed after others");
            sig = hash_str(sig, name); weight += 1; i = at; done = true;
            break
        }
        if !done { p.advance(); i += 1 }
        match (&p.symbol, l.toks.get(i)) {
            (Ok(x), Some(y)) if tok_of(x).same(y) => {}
            (Err(_), None) if l.err => {}
            (Ok(_), None) if i == l.toks.len() => {}
            (x, y) => return Err(format!("after the rules {:?} the parser is at {} instead of {}", said, x.as_ref().map(|x| tok_of(x).short()).unwrap_or_else(|e| e.clone()), y.map(|x| x.short()).unwrap_or("the end".into()))),
        }
    }
    Ok(Obs { sig, weight, known: None })
}
/// One token of the text, half of the time a word of the language
fn rule_token(t: &str, r: &mut Rng) -> usize {
    let l = reflex::lex(&judge::chars(t), false);
    let w: Vec<usize> = l.toks.iter().enumerate().filter(|x| x.1.kind.starts_with("Py") && x.1.text.is_none() && x.1.pos.is_some_and(|p| p.1 - p.0 > 1 || x.1.kind == "PyMatrice")).map(|x| x.0).collect();
    if r.p(50) && !w.is_empty() { *r.pick(&w) } else { r.n(l.toks.len().max(1)) }
}

fn p29(cx: &mut Ctx) {
    for (n, a) in [("operators", Some(Area::Ops)), ("primaries", Some(Area::Prim)), ("simple statements", Some(Area::Simple)), ("compound statements", Some(Area::Compound)), ("entry points", Some(Area::Types)), ("programs", None)] {
        cx.stream(n, 6_000, 200_000, |cx, i| {
            let (p, mut r) = program(a, cx.rng(i), 40);
            let t = text_of(&p.items, &mut r);
            let k = rule_token(&t, &mut r);
            cx.text(&t, &|t| rules_at(t, k));
        });
    }
    cx.stream("damaged programs", 12_000, 400_000, |cx, i| {
        let (p, mut r) = program(None, cx.rng(i), 30);
        let m = mutate(&p.items, &mut r);
        let t = text_of(&m, &mut r);
        let k = rule_token(&t, &mut r);
        cx.text(&t, &|t| rules_at(t, k));
    });
    for (n, a) in [("rules in turn: statements", None), ("rules in turn: compound statements", Some(Area::Compound)), ("rules in turn: simple statements", Some(Area::Simple))] {
        cx.stream(n, 5_000, 200_000, |cx, i| {
            let (p, mut r) = program(a, cx.rng(i), 60);
            let t = text_of(&p.items, &mut r);
            let s = r.u64();
            cx.text(&t, &|t| rule_history(t, s));
        });
    }
    cx.stream("long texts", 1_500, 40_000, |cx, i| {
        let (p, mut r) = program(None, cx.rng(i), 300);
        let t = text_of(&p.items, &mut r);
        let t = if p.entry == Entry::File && r.p(40) { padded(&mut r, &t) } else { t };
        let k = rule_token(&t, &mut r);
        cx.text(&t, &|t| rules_at(t, k));
    });
    forms(cx, "sizes", &[], 257, 4097, &|cx, t, _| { cx.text(t, &|t| rules_at(t, 0)); });
    token_edits(cx, 6, &|t, _, a| { let l = reflex::lex(&judge::chars(t), false); let k = l.toks.iter().filter(|x| x.pos.is_some_and(|p| (p.0 as usize) < a)).count(); rules_at(t, k.saturating_sub(hash_str(1, t) as usize % 3)) });
    let texts = canon();
    cx.all("every token of small texts", texts.len() as u64 * 64, |cx, i| { let (t, k) = (&texts[i as usize / 64].0, i as usize % 64); if k < t.len() { cx.text(t, &|t| rules_at(t, k)); } });
}
