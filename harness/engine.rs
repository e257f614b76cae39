// Runs the cases of a check: counts what was observed, turns panics into verdicts, shrinks failing texts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};
use super::tree::*;

/// What a monitor saw of one case
pub struct Obs { pub sig: u64, pub weight: usize, pub known: Option<&'static str> }
pub type V = Result<Obs, String>;

pub struct Bad { pub stream: String, pub i: u64, pub text: Option<String>, pub small: Option<String>, pub msg: String }

pub struct Ctx {
    pub shard: u64, pub shards: u64, pub seed: u64, pub thorough: bool, pub scale: f64,
    only: Option<(String, u64)>,
    journal: Option<std::fs::File>, dump: Option<String>,
    pub base: Vec<u64>, pub evals: u64, pub weighty: u64, pub hashes: HashSet<u64>, pub samples: BTreeMap<String, Vec<String>>, pub streams: Vec<(String, u64, u64, bool)>,
    pub counts: BTreeMap<String, u64>, pub toks: BTreeMap<&'static str, u64>, pub nodes: BTreeMap<&'static str, u64>,
    pub bad: Vec<Bad>, pub known: BTreeMap<&'static str, (u64, String)>, pub errors: Vec<String>,
    stream: String, idx: u64, start: Instant, pub deadline: Duration,
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

extern "C" { fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32; }
pub fn cpu_ns(process: bool) -> u64 { let mut t = [0i64; 2]; unsafe { clock_gettime(if process { 2 } else { 3 }, &mut t); } t[0] as u64 * 1_000_000_000 + t[1] as u64 }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panic '{}' at {}", clip(&m, 200), at));
    }));
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Ends the process when one case has used this much processor time: the supervisor examines the case again.
pub const HANG_EXIT: i32 = 77;
pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let (mut seen, mut cpu) = (PROGRESS.load(Relaxed), cpu_ns(true));
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Relaxed); let c = cpu_ns(true);
            if p != seen { seen = p; cpu = c } else if c - cpu > limit_s * 1_000_000_000 { std::process::exit(HANG_EXIT) }
        }
    });
}

impl Ctx {
    pub fn new(shard: u64, shards: u64, seed: u64, thorough: bool, scale: f64, only: Option<(String, u64)>, journal: Option<String>, dump: Option<String>, secs: u64) -> Ctx {
        Ctx { shard, shards, seed, thorough, scale, only, journal: journal.map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap()), dump,
            base: vec![], evals: 0, weighty: 0, hashes: HashSet::new(), samples: BTreeMap::new(), streams: vec![], counts: BTreeMap::new(), toks: BTreeMap::new(), nodes: BTreeMap::new(), bad: vec![], known: BTreeMap::new(), errors: vec![],
            stream: String::new(), idx: 0, start: Instant::now(), deadline: Duration::from_secs(secs) }
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n }
    pub fn stop(&self) -> bool { self.bad.len() >= 3 }
    pub fn replaying(&self) -> bool { self.only.is_some() }
    pub fn rng(&self, i: u64) -> super::gen::Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.stream.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        super::gen::Rng::new(self.seed, h, i)
    }
    /// Cases 0..n of a stream, this shard's part of them
    pub fn stream(&mut self, name: &str, quick: u64, thorough: u64, mut f: impl FnMut(&mut Ctx, u64)) {
        let n = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        self.enumerate(name, n, &mut f)
    }
    /// A finite space, all of it
    pub fn all(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Ctx, u64)) { self.enumerate(name, n, &mut f) }
    fn enumerate(&mut self, name: &str, n: u64, f: &mut dyn FnMut(&mut Ctx, u64)) {
        if self.stop() { return }
        self.stream = name.to_string();
        if let Some((s, i)) = self.only.clone() {
            if s == name { self.idx = i; f(self, i) }
            return
        }
        let mut done = 0; let mut whole = true;
        let before = self.evals; let t0 = Instant::now();
        let mut i = self.shard;
        while i < n {
            if self.stop() { whole = false; break }
            if done % 16 == 0 && self.start.elapsed() > self.deadline { whole = false; break }
            self.at(i);
            f(self, i);
            done += 1; i += self.shards;
        }
        let e = self.evals - before;
        if std::env::var("PCR_TIMES").is_ok() { eprintln!("{:8.2} s {:8} {}", t0.elapsed().as_secs_f64(), e, name) }
        self.streams.push((name.to_string(), n, e, whole));
    }
    fn at(&mut self, i: u64) {
        self.idx = i;
        if let Some(j) = &self.journal {
            let mut b = [b' '; 64];
            let s = format!("{}:{}", self.stream, i);
            b[..s.len().min(64)].copy_from_slice(&s.as_bytes()[..s.len().min(64)]);
            let _ = j.write_at(&b, 0);
        }
        PROGRESS.fetch_add(1, Relaxed);
    }
    pub fn observe(&mut self, text: Option<&str>, o: &Obs) {
        self.evals += 1;
        if o.weight >= 3 { self.weighty += 1; if self.hashes.len() < 400_000 { self.hashes.insert(o.sig); } }
        if let Some(t) = text { let v = self.samples.entry(self.stream.clone()).or_default(); if v.len() < 2 && o.weight >= 3 && t.len() < 600 && self.idx > 40 { v.push(t.to_string()) } }
        if let Some(k) = o.known { let e = self.known.entry(k).or_insert((0, text.unwrap_or("").to_string())); e.0 += 1; if let Some(t) = text { if t.len() < e.1.len() { e.1 = t.to_string() } } }
    }
    fn before(&self, text: &str) {
        PROGRESS.fetch_add(1, Relaxed);
        if let Some(d) = &self.dump { let mut f = std::fs::File::create(d).unwrap(); f.write_all(text.as_bytes()).unwrap(); }
    }
    /// Judges one text; a failing text is made smaller with the same judge
    pub fn text(&mut self, text: &str, judge: &dyn Fn(&str) -> V) -> bool {
        self.before(text);
        match caught(|| judge(text)).unwrap_or_else(Err) {
            Ok(o) => { self.observe(Some(text), &o); true }
            Err(msg) => {
                self.evals += 1;
                let (small, m2) = shrink(text, judge);
                let msg = if small == text { msg } else { m2 };
                self.bad.push(Bad { stream: self.stream.clone(), i: self.idx, text: Some(text.to_string()), small: Some(small), msg });
                false
            }
        }
    }
    /// Judges a case that is more than one text
    pub fn case(&mut self, shown: &str, judge: impl FnOnce() -> V) -> bool {
        self.before(shown);
        match caught(judge).unwrap_or_else(Err) {
            Ok(o) => { self.observe(Some(shown), &o); true }
            Err(msg) => { self.evals += 1; self.bad.push(Bad { stream: self.stream.clone(), i: self.idx, text: Some(shown.to_string()), small: None, msg }); false }
        }
    }
}

fn shrink(text: &str, judge: &dyn Fn(&str) -> V) -> (String, String) {
    let mut cur: Vec<char> = text.chars().collect();
    let mut msg = String::new();
    let t0 = Instant::now();
    let mut tries = 0;
    let mut size = cur.len() / 2;
    let mut first = true;
    while size >= 1 {
        let mut at = 0; let mut any = false;
        while at < cur.len() {
            if tries > 4000 || t0.elapsed() > Duration::from_secs(5) { return (cur.into_iter().collect(), msg) }
            tries += 1;
            let mut c = cur.clone();
            c.drain(at..(at + size).min(c.len()));
            let s: String = c.iter().collect();
            PROGRESS.fetch_add(1, Relaxed);
            match caught(|| judge(&s)).unwrap_or_else(Err) { Err(m) => { cur = c; msg = m; any = true; first = false } Ok(_) => at += size }
        }
        if size == 1 && !any { break }
        if size > 1 { size = (size / 2).max(1) }
    }
    if first { return (text.to_string(), msg) }
    (cur.into_iter().collect(), msg)
}

// ---- signatures --------------------------------------------------------------------------------
pub fn mix(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23) }
pub fn hash_str(h: u64, s: &str) -> u64 { s.bytes().fold(mix(h, 0xff), |h, b| mix(h, b as u64)) }
pub fn obs(toks: &[Tk], err: bool) -> Obs {
    let mut h = 0xcbf29ce484222325u64;
    for t in toks { h = hash_str(h, t.kind); for v in &t.triv { h = mix(h, v.kind.as_bytes()[0] as u64) } }
    Obs { sig: mix(h, err as u64), weight: toks.iter().filter(|t| t.kind != "EOF").count() + err as usize, known: None }
}

// ---- output --------------------------------------------------------------------------------------
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"'); o
}
impl Ctx {
    pub fn json(&self) -> String {
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let smap = |m: &BTreeMap<&'static str, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let opt = |s: &Option<String>| match s { Some(x) => js(&clip(x, 200_000)), None => "null".into() };
        format!("{{\"evals\":{},\"weighty\":{},\"counts\":{},\"toks\":{},\"nodes\":{},\"streams\":[{}],\"samples\":{{{}}},\"known\":{{{}}},\"bad\":[{}],\"errors\":[{}]}}",
            self.evals, self.weighty, map(&self.counts), smap(&self.toks), smap(&self.nodes),
            self.streams.iter().map(|s| format!("[{},{},{},{}]", js(&s.0), s.1, s.2, s.3)).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
            self.known.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&clip(&v.1, 500)))).collect::<Vec<_>>().join(","),
            self.bad.iter().map(|b| format!("{{\"stream\":{},\"i\":{},\"text\":{},\"small\":{},\"msg\":{}}}", js(&b.stream), b.i, opt(&b.text), opt(&b.small), js(&clip(&b.msg, 3000)))).collect::<Vec<_>>().join(","),
            self.errors.iter().map(|e| js(&clip(e, 800))).collect::<Vec<_>>().join(","))
    }
}
