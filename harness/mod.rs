pub mod tree { include!(concat!(env!("PCR_VERIF_DIR"), "/tree.rs")); }
pub mod reflex { include!(concat!(env!("PCR_VERIF_DIR"), "/reflex.rs")); }
pub mod refparse { include!(concat!(env!("PCR_VERIF_DIR"), "/refparse.rs")); }
pub mod gen { include!(concat!(env!("PCR_VERIF_DIR"), "/gen.rs")); }
pub mod sut { include!(concat!(env!("PCR_VERIF_DIR"), "/sut.rs")); }
pub mod alloc { include!(concat!(env!("PCR_VERIF_DIR"), "/alloc.rs")); }
pub mod engine { include!(concat!(env!("PCR_VERIF_DIR"), "/engine.rs")); }
pub mod judge { include!(concat!(env!("PCR_VERIF_DIR"), "/judge.rs")); }
pub mod work { include!(concat!(env!("PCR_VERIF_DIR"), "/work.rs")); }
pub mod checks { include!(concat!(env!("PCR_VERIF_DIR"), "/checks.rs")); }
/// changes with every change of the sources, so that they are always compiled again
pub const SOURCES: Option<&str> = option_env!("PCR_VERIF_HASH");
#[global_allocator] static GLOBAL: alloc::Counting = alloc::Counting;
use refparse::Entry;

pub fn run() -> bool {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 || a[1] != "--verif" { return false }
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (shard, shards, seed) = (num("--shard", 0), num("--shards", 1), num("--seed", 1));
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let mode = a[2].clone();
    let pos: Vec<String> = a[3..].to_vec();
    if mode == "probe-deep" { let t = format!("{}a{}\n", "(".repeat(200_000), ")".repeat(200_000)); let r = sut::raw(&t, Entry::File); println!("PROBE {}", r.is_ok()); std::process::exit(0) }
    if mode == "check" || mode == "sanitize" { engine::quiet_panics(); engine::watchdog(num("--hang", 25)); }
    let only = arg("--only").map(|s| { let (x, y) = s.rsplit_once(':').unwrap(); (x.to_string(), y.parse().unwrap()) });
    let (journal, dump, out, scale, secs, n, size) = (arg("--journal"), arg("--dump"), arg("--out"), arg("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0), num("--secs", 100_000), num("--n", 100), num("--size", 100));
    let stack = if cfg!(miri) { 8 << 20 } else if mode == "check" { 4usize << 30 } else { 1 << 30 };
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        match mode.as_str() {
            "show" => show(&std::fs::read_to_string(&pos[0]).unwrap()),
            "result" => { use std::io::Read; let mut t = String::new(); std::io::stdin().read_to_string(&mut t).unwrap(); println!("{:016x}", checks::result(&t)) }
            "batch" => batch(&std::fs::read_to_string(&pos[0]).unwrap()),
            "gentest" => gentest(pos[0].parse().unwrap(), pos[1].parse().unwrap()),
            "instruct" => checks::instruct(shard, shards, thorough),
            "sanitize" => checks::sanitize(n, seed, shard, shards, size as i32),
            "check" => {
                let mut cx = engine::Ctx::new(shard, shards, seed, thorough, scale, only, journal, dump, secs);
                if !checks::run(&mut cx, &pos[0]) { std::process::exit(2) }
                judge::TOKS.with(|m| cx.toks = m.borrow().clone()); judge::NODES.with(|m| cx.nodes = m.borrow().clone());
                judge::TALLY.with(|m| for (k, v) in m.borrow().iter() { *cx.counts.entry(k.to_string()).or_insert(0) += v });
                let j = cx.json();
                match out {
                    Some(o) => {
                        let bytes = |v: Vec<u64>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
                        std::fs::write(format!("{}.hashes", o), bytes(cx.hashes.iter().cloned().collect())).unwrap();
                        std::fs::write(format!("{}.base", o), bytes(cx.base.clone())).unwrap();
                        std::fs::write(&o, j).unwrap();
                    }
                    None => println!("{}", j),
                }
            }
            _ => std::process::exit(2),
        }
        // what is left is not worth tidying up
        if !cfg!(miri) && mode == "check" { std::process::exit(0) }
    }).unwrap();
    if h.join().is_err() { std::process::exit(3) }
    true
}

fn show(t: &str) {
    let s = sut::tokens(t);
    let chars: Vec<char> = t.chars().collect();
    let r = reflex::lex(&chars, true);
    println!("SUT  {} err={:?}", s.toks.iter().map(|x| x.short()).collect::<Vec<_>>().join(" "), s.err);
    println!("REF  {} err={}", r.toks.iter().map(|x| x.short()).collect::<Vec<_>>().join(" "), r.err);
    println!("lex same: {}", s.toks == r.toks && s.err.is_some() == r.err);
    for e in [Entry::File, Entry::Eval, Entry::Single, Entry::Func] {
        let a = sut::parse(t, e);
        let b = refparse::expect(&r.toks, r.err, e);
        match (&a, &b) {
            (Ok(x), Ok(y)) => { println!("{:?}: both accept, diff {:?}", e, tree::diff(x, y, tree::Cmp::Full, "")); if e == Entry::File { println!("{}", x.show(true)) } }
            (Err(x), Ok(y)) => println!("{:?}: SUT rejects {}, REF {}", e, x, y.show(false)),
            (Ok(x), Err(y)) => println!("{:?}: REF {:?}, SUT {}", e, y, x.show(false)),
            (Err(x), Err(y)) => println!("{:?}: both reject: {} {:?}", e, x, y),
        }
    }
}

fn batch(all: &str) {
    for t in all.split('\u{1}') {
        let chars: Vec<char> = t.chars().collect();
        let r = reflex::lex(&chars, true);
        let s = sut::tokens(t);
        let mut o = String::new();
        if s.toks != r.toks || s.err.is_some() != r.err { o += "LEXDIFF " }
        for e in [Entry::File, Entry::Eval] {
            let a = sut::parse(t, e);
            let b = refparse::expect(&r.toks, r.err, e);
            o += &match (&a, &b) {
                (Ok(x), Ok(y)) => match tree::diff(x, y, tree::Cmp::Full, "") { None => "ok/ok".to_string(), Some(d) => format!("ok/ok DIFF {}", d) },
                (Err(x), Ok(_)) => format!("rej/ok DIFF {}", x),
                (Ok(_), Err(y)) => format!("ok/{:?} DIFF", y),
                (Err(_), Err(y)) => format!("rej/{:?}", y),
            };
            o += " | ";
        }
        println!("{}", o.replace('\n', "\\n"));
    }
}

fn gentest(seed: u64, n: u64) {
    use gen::*;
    let mut bad = 0;
    let mut stats = std::collections::BTreeMap::new();
    for i in 0..n {
        let mut g = Gen::new(Rng::new(seed, 1, i), 20 + (i % 13) as i32 * 20);
        let e = match i % 8 { 0 => Entry::Eval, 1 => Entry::Func, 2 => Entry::Single, _ => Entry::File };
        match e { Entry::Eval => { g.testlist(); g.out.push(G::Nl) } Entry::Func => { g.functype(); g.out.push(G::Nl) } Entry::Single => g.stmt(3), Entry::File => { let k = g.r.n(6); g.file(k) } }
        let items = g.out.clone();
        let mut r = g.r.clone();
        for k in 0..4 {
            let st = match k { 0 => Style::plain(), 1 => Style::pretty(), _ => Style::random(&mut r, true) };
            let its = if k == 3 { mutate(&items, &mut r) } else { items.clone() };
            let mut t = layout(&its, &st, &mut r);
            if k == 3 && r.p(30) { t = chars_mutate(&t, &mut r) }
            if k == 3 && r.p(5) { t = soup(&mut r, 12) }
            let ch: Vec<char> = t.chars().collect();
            let s = sut::tokens(&t);
            let l = reflex::lex(&ch, true);
            let mut msg = vec![];
            if s.toks != l.toks || s.err.is_some() != l.err { msg.push("LEX".to_string()) }
            let a = sut::parse(&t, e); let b = refparse::expect(&l.toks, l.err, e);
            let key = match (&a, &b) {
                (Ok(x), Ok(y)) => { if let Some(d) = tree::diff(x, y, tree::Cmp::Full, "") { msg.push(d) } "ok/ok" }
                (Err(_), Ok(_)) => { msg.push("SUT rejects".into()); "rej/ok" }
                (Ok(_), Err(refparse::Pe::Gap(_))) => "ok/gap",
                (Err(_), Err(refparse::Pe::Gap(_))) => "rej/gap",
                (Ok(_), Err(_)) => { msg.push("SUT accepts".into()); "ok/rej" }
                (Err(_), Err(_)) => "rej/rej",
            };
            *stats.entry((k, key)).or_insert(0) += 1;
            if k < 3 && b.is_err() && !(l.crlf) { msg.push(format!("generator: {:?}", b.as_ref().err())) }
            if !msg.is_empty() { bad += 1; if bad <= 15 { println!("--- case {} style {} {:?}: {}\n{:?}", i, k, e, msg.join(" ; "), t) } }
        }
    }
    println!("{:?} bad={}", stats, bad);
}
