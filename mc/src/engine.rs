//! The explorer: enumerates every case of every world of a check, on all cores, runs the real
//! formatter on it, and hands the result to the property's oracle.
//!
//! The transition system explored is: states are (configuration, document) pairs, a transition is
//! one `format` call on the real code.  Initial states are the documents of the worlds; the states
//! reached by a transition are explored in turn as far as the oracle asks for.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::json::{self, J};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Cfg {
    pub w: Option<usize>,
    pub reflow: bool,
}

impl Cfg {
    pub const fn none() -> Cfg {
        Cfg { w: None, reflow: false }
    }
    pub const fn wrap(w: usize) -> Cfg {
        Cfg { w: Some(w), reflow: false }
    }
    pub const fn reflow(w: usize) -> Cfg {
        Cfg { w: Some(w), reflow: true }
    }
    pub fn text(&self) -> String {
        match self.w {
            None => format!("none{}", if self.reflow { "+reflow" } else { "" }),
            Some(w) => format!("{w}{}", if self.reflow { "+reflow" } else { "" }),
        }
    }
    pub fn parse(s: &str) -> Cfg {
        let (a, reflow) = match s.strip_suffix("+reflow") {
            Some(a) => (a, true),
            None => (s, false),
        };
        Cfg { w: a.parse().ok(), reflow }
    }
    pub fn builder(&self) -> markdown_fmt::FormatBuilder {
        let mut b = markdown_fmt::FormatBuilder::default();
        b.max_width(self.w).reflow_text(self.reflow);
        b
    }
}

/// A container that a document is put into: a prefix for the first line, for the other lines, and
/// for blank lines.
#[derive(Clone, Debug, PartialEq)]
pub struct Wrap {
    pub first: String,
    pub rest: String,
    pub blank: String,
    /// text before the container
    pub before: String,
    pub after: String,
}

impl Wrap {
    pub fn top() -> Wrap {
        Wrap::new("", "")
    }
    pub fn new(first: &str, rest: &str) -> Wrap {
        Wrap {
            first: first.into(),
            rest: rest.into(),
            blank: rest.trim_end().into(),
            before: String::new(),
            after: String::new(),
        }
    }
    pub fn around(before: &str, first: &str, rest: &str, after: &str) -> Wrap {
        Wrap { before: before.into(), after: after.into(), ..Wrap::new(first, rest) }
    }
    pub fn apply(&self, doc: &str) -> String {
        if self.first.is_empty() && self.rest.is_empty() && self.before.is_empty() && self.after.is_empty() {
            return doc.to_string();
        }
        let mut o = String::with_capacity(doc.len() * 2 + self.before.len() + self.after.len());
        o.push_str(&self.before);
        for (i, l) in doc.split('\n').enumerate() {
            if i > 0 {
                o.push('\n');
            }
            if i == 0 {
                o.push_str(&self.first);
            } else if l.is_empty() {
                o.push_str(&self.blank);
            } else {
                o.push_str(&self.rest);
            }
            o.push_str(l);
        }
        o.push_str(&self.after);
        o
    }
    /// This container inside of another.
    pub fn inside(&self, outer: &Wrap) -> Wrap {
        Wrap {
            first: format!("{}{}", outer.first, self.first.replace('\n', &format!("\n{}", outer.rest))),
            rest: format!("{}{}", outer.rest, self.rest),
            blank: {
                let b = format!("{}{}", outer.rest, self.blank);
                if self.blank.is_empty() { outer.blank.clone() } else { b }
            },
            before: outer.before.clone(),
            after: outer.after.clone(),
        }
    }
}

type GenFn = Box<dyn Fn(u64) -> Option<String> + Sync + Send>;

pub enum Gen {
    /// every sequence of tokens of length min..=max
    Seq { toks: Vec<String>, min: u32, max: u32, pre: String, post: String },
    /// one token of each slot
    Product(Vec<Vec<String>>),
    /// sequences whose tokens are joined by a separator
    Lines { toks: Vec<String>, min: u32, max: u32 },
    List(Vec<String>),
    Fn(u64, GenFn),
    /// all but those that the function is true for
    Without(Box<Gen>, fn(&str) -> bool),
}

fn pow_sum(k: u64, min: u32, max: u32) -> u64 {
    (min..=max).map(|l| k.pow(l)).sum()
}

impl Gen {
    pub fn size(&self) -> u64 {
        match self {
            Gen::Seq { toks, min, max, .. } | Gen::Lines { toks, min, max } => pow_sum(toks.len() as u64, *min, *max),
            Gen::Product(s) => s.iter().map(|x| x.len() as u64).product(),
            Gen::List(v) => v.len() as u64,
            Gen::Fn(n, _) => *n,
            Gen::Without(g, _) => g.size(),
        }
    }
    pub fn get(&self, mut i: u64) -> Option<String> {
        match self {
            Gen::Seq { toks, min, max, pre, post } => {
                let k = toks.len() as u64;
                for l in *min..=*max {
                    let n = k.pow(l);
                    if i < n {
                        let mut o = pre.clone();
                        for _ in 0..l {
                            o.push_str(&toks[(i % k) as usize]);
                            i /= k;
                        }
                        o.push_str(post);
                        return Some(o);
                    }
                    i -= n;
                }
                None
            }
            Gen::Lines { toks, min, max } => {
                let k = toks.len() as u64;
                for l in *min..=*max {
                    let n = k.pow(l);
                    if i < n {
                        let mut o = String::new();
                        for j in 0..l {
                            if j > 0 {
                                o.push('\n');
                            }
                            o.push_str(&toks[(i % k) as usize]);
                            i /= k;
                        }
                        return Some(o);
                    }
                    i -= n;
                }
                None
            }
            Gen::Product(s) => {
                let mut o = String::new();
                for slot in s {
                    let k = slot.len() as u64;
                    o.push_str(&slot[(i % k) as usize]);
                    i /= k;
                }
                Some(o)
            }
            Gen::List(v) => v.get(i as usize).cloned(),
            Gen::Fn(_, f) => f(i),
            Gen::Without(g, out) => g.get(i).filter(|d| !out(d)),
        }
    }
    /// The same alphabet, with sequences that are up to `by` elements shorter; `None` for other kinds.
    pub fn shorter(&self, by: u32) -> Option<Gen> {
        Some(match self {
            Gen::Seq { toks, min, max, pre, post } => Gen::Seq { toks: toks.clone(), min: *min, max: max.saturating_sub(by).max(*min), pre: pre.clone(), post: post.clone() },
            Gen::Lines { toks, min, max } => Gen::Lines { toks: toks.clone(), min: *min, max: max.saturating_sub(by).max(*min) },
            Gen::Without(g, out) => Gen::Without(Box::new(g.shorter(by)?), *out),
            _ => return None,
        })
    }
}

pub struct World {
    pub name: String,
    pub gen: Gen,
    pub wraps: Vec<Wrap>,
    pub cfgs: Vec<Cfg>,
}

impl World {
    pub fn new(name: &str, gen: Gen) -> World {
        World { name: name.into(), gen, wraps: vec![Wrap::top()], cfgs: vec![Cfg::none()] }
    }
    pub fn wraps(mut self, w: Vec<Wrap>) -> World {
        self.wraps = w;
        self
    }
    /// Leave out some documents (before they are put into containers).
    pub fn without(mut self, out: fn(&str) -> bool) -> World {
        let gen = std::mem::replace(&mut self.gen, Gen::List(vec![]));
        self.gen = Gen::Without(Box::new(gen), out);
        self
    }
    pub fn cfgs(mut self, c: &[Cfg]) -> World {
        self.cfgs = c.to_vec();
        self
    }
    pub fn size(&self) -> u64 {
        self.gen.size() * self.wraps.len() as u64 * self.cfgs.len() as u64
    }
    pub fn get(&self, i: u64) -> Option<(String, Cfg)> {
        let c = self.cfgs.len() as u64;
        let w = self.wraps.len() as u64;
        let cfg = self.cfgs[(i % c) as usize];
        let wrap = &self.wraps[(i / c % w) as usize];
        Some((wrap.apply(&self.gen.get(i / c / w)?), cfg))
    }
}

/// What the oracle says about one case.
pub enum Verdict {
    Holds,
    /// the property says nothing about this case
    Vacuous,
    Fails { kind: &'static str, detail: String },
}

pub fn fails(kind: &'static str, detail: String) -> Verdict {
    Verdict::Fails { kind, detail }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CALLS: RefCell<u64> = const { RefCell::new(0) };
    static NEW_STATES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static IN_CODE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if IN_CODE.with(|c| *c.borrow()) {
            let s = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = s);
        } else {
            eprintln!("harness: {info}");
        }
    }));
}

/// Run code of the crate under test; a panic becomes an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = IN_CODE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CODE.with(|c| *c.borrow_mut() = before);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn note_call() {
    CALLS.with(|c| *c.borrow_mut() += 1);
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    // FNV-1a over the std hasher's byte stream: fixed, unlike RandomState
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
            }
        }
    }
    let mut h = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

/// One transition: format `doc` with a fresh formatter. Panics and errors come back as `Err`.
pub fn fmt(cfg: Cfg, doc: &str) -> Result<String, String> {
    note_call();
    let r = guarded(|| cfg.builder().build().format(doc));
    match r {
        Ok(Ok(s)) => {
            NEW_STATES.with(|v| v.borrow_mut().push(hash64(&(cfg, s.as_str()))));
            Ok(s)
        }
        Ok(Err(e)) => Err(format!("format returned an error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub type Oracle = Box<dyn Fn(&str, Cfg) -> Verdict + Sync + Send>;

pub struct Finding {
    pub kind: String,
    pub cfg: Cfg,
    pub input: String,
    /// the kind names the history that fails; the input is one example of it
    pub any_input: bool,
    pub what: String,
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub held: u64,
    pub vacuous: u64,
    pub known_hit: u64,
    pub outcomes: u64,
    pub worlds: Vec<(String, u64, u64)>,
    pub samples: Vec<J>,
    pub capped: Vec<String>,
    pub failure: Option<Failure>,
    pub more_failures: u64,
    pub extra: Vec<(String, J)>,
    pub assumptions: Vec<String>,
}

pub struct Failure {
    pub world: String,
    pub kind: String,
    pub cfg: Cfg,
    pub input: String,
    pub detail: String,
}

pub struct Explorer {
    pub property: String,
    pub tier: String,
    pub known: Vec<Finding>,
    pub deadline: Instant,
    pub start: Instant,
    shards: Vec<Mutex<HashSet<u64>>>,
    outs: Vec<Mutex<HashSet<u64>>>,
    inputs: Vec<Mutex<HashSet<u64>>>,
    /// development: go on after a failure and print them all
    pub show_all: bool,
    pub threads: usize,
}

const SHARDS: usize = 256;

struct Slot {
    since: AtomicU64,
    idx: AtomicU64,
}

impl Explorer {
    pub fn new(property: &str, tier: &str, known: Vec<Finding>, cap: Duration) -> Explorer {
        Explorer {
            property: property.into(),
            tier: tier.into(),
            known,
            start: Instant::now(),
            deadline: Instant::now() + cap,
            shards: (0..SHARDS).map(|_| Mutex::default()).collect(),
            inputs: (0..SHARDS).map(|_| Mutex::default()).collect(),
            outs: (0..SHARDS).map(|_| Mutex::default()).collect(),
            show_all: std::env::var_os("MC_ALL").is_some(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier != "thorough"
    }

    fn visit(&self, h: u64) -> bool {
        self.shards[(h % SHARDS as u64) as usize].lock().unwrap().insert(h)
    }

    pub fn state(&self, h: u64) -> bool {
        self.visit(h)
    }

    pub fn outcome(&self, h: u64) {
        self.outs[(h % SHARDS as u64) as usize].lock().unwrap().insert(h);
    }

    pub fn finish_counts(&self, rep: &mut Report) {
        rep.states = self.shards.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        rep.outcomes = self.outs.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    }

    pub fn is_known(&self, kind: &str, cfg: Cfg, input: &str) -> bool {
        self.known.iter().any(|k| k.kind == kind && k.cfg == cfg && (k.any_input || k.input == input))
    }

    /// Explore every case of every world.
    pub fn explore(&self, worlds: &[World], oracle: &Oracle, rep: &mut Report) {
        // another oracle judges the same cases anew
        for s in &self.inputs {
            s.lock().unwrap().clear();
        }
        for (wi, world) in worlds.iter().enumerate() {
            let total = world.size();
            let next = AtomicU64::new(0);
            let done = AtomicBool::new(false);
            let capped = AtomicBool::new(false);
            let fails: Mutex<Vec<(u64, String, Cfg, String, String)>> = Mutex::new(vec![]);
            let nfails = AtomicU64::new(0);
            let tot = Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64)); // transitions, traces, held, vacuous, known
            let slots: Vec<Slot> =
                (0..self.threads).map(|_| Slot { since: AtomicU64::new(0), idx: AtomicU64::new(0) }).collect();
            let chunk = (total / (self.threads as u64 * 8)).clamp(1, 512);
            std::thread::scope(|sc| {
                let mut handles = vec![];
                for slot in &slots {
                    let (next, fails, nfails, tot, capped) = (&next, &fails, &nfails, &tot, &capped);
                    let h = std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            let mut t = (0u64, 0u64, 0u64, 0u64, 0u64);
                            'outer: loop {
                                let st = next.fetch_add(chunk, Relaxed);
                                if st >= total {
                                    break;
                                }
                                if Instant::now() > self.deadline {
                                    capped.store(true, Relaxed);
                                    break;
                                }
                                for i in st..(st + chunk).min(total) {
                                    let Some((doc, cfg)) = world.get(i) else { continue };
                                    let h = hash64(&(cfg, doc.as_str()));
                                    if !self.inputs[(h % SHARDS as u64) as usize].lock().unwrap().insert(h) {
                                        continue; // already run in an earlier world
                                    }
                                    self.visit(h);
                                    slot.idx.store(i, Relaxed);
                                    slot.since.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
                                    CALLS.with(|c| *c.borrow_mut() = 0);
                                    NEW_STATES.with(|v| v.borrow_mut().clear());
                                    let v = oracle(&doc, cfg);
                                    slot.since.store(0, Relaxed);
                                    t.0 += CALLS.with(|c| *c.borrow());
                                    NEW_STATES.with(|v| {
                                        for h in v.borrow().iter() {
                                            self.visit(*h);
                                            self.outcome(*h);
                                        }
                                    });
                                    t.1 += 1;
                                    match v {
                                        Verdict::Holds => t.2 += 1,
                                        Verdict::Vacuous => t.3 += 1,
                                        Verdict::Fails { kind, detail } => {
                                            if self.is_known(kind, cfg, &doc) {
                                                t.4 += 1;
                                            } else {
                                                let n = nfails.fetch_add(1, Relaxed);
                                                let mut f = fails.lock().unwrap();
                                                f.push((i, kind.to_string(), cfg, doc, detail));
                                                if f.len() > 4000 {
                                                    f.sort();
                                                    f.truncate(2000);
                                                }
                                                if n > 20_000 && !self.show_all {
                                                    break 'outer;
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            let mut g = tot.lock().unwrap();
                            g.0 += t.0;
                            g.1 += t.1;
                            g.2 += t.2;
                            g.3 += t.3;
                            g.4 += t.4;
                        })
                        .expect("spawn");
                    handles.push(h);
                }
                // watchdog: a call that does not come back
                let done = &done;
                let slots = &slots;
                sc.spawn(move || {
                    while !done.load(Relaxed) {
                        std::thread::sleep(Duration::from_millis(20));
                        let now = self.start.elapsed().as_millis() as u64 + 1;
                        for s in slots {
                            let since = s.since.load(Relaxed);
                            if since != 0 && now > since + 30_000 {
                                let (doc, cfg) = world.get(s.idx.load(Relaxed)).unwrap_or_default();
                                let f = Failure {
                                    world: world.name.clone(),
                                    kind: "hang".into(),
                                    cfg,
                                    input: doc,
                                    detail: "formatting did not finish within 30 s".into(),
                                };
                                let p = write_replay(&self.property, &f);
                                println!("VIOLATION property={} replay={}", self.property, p);
                                let _ = std::io::stdout().flush();
                                std::process::exit(1);
                            }
                        }
                    }
                });
                for h in handles {
                    if h.join().is_err() {
                        eprintln!("harness: a worker thread died");
                        std::process::exit(3);
                    }
                }
                done.store(true, Relaxed);
            });
            let t = tot.into_inner().unwrap();
            rep.transitions += t.0;
            rep.traces += t.1;
            rep.held += t.2;
            rep.vacuous += t.3;
            rep.known_hit += t.4;
            rep.worlds.push((world.name.clone(), total, t.1));
            if capped.load(Relaxed) {
                rep.capped.push(world.name.clone());
            }
            for i in [total / 3, total.saturating_sub(1)] {
                if rep.samples.len() < 12 {
                    if let Some((d, c)) = world.get(i) {
                        let d: String = d.chars().take(300).collect();
                        rep.samples.push(J::obj(vec![
                            ("world", J::s(&world.name)),
                            ("config", J::s(&c.text())),
                            ("document", J::s(&d)),
                        ]));
                    }
                }
            }
            let mut f = fails.into_inner().unwrap();
            f.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            if self.show_all {
                eprintln!(
                    "{:>3} {:<28} size {:>9} run {:>9} held {:>9} vac {:>8} fails {:>6} {:?}",
                    wi,
                    world.name,
                    total,
                    t.1,
                    t.2,
                    t.3,
                    nfails.load(Relaxed),
                    self.start.elapsed()
                );
                let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
                let mut kinds: Vec<String> = f.iter().map(|x| x.1.clone()).collect();
                kinds.sort();
                kinds.dedup();
                for k in kinds {
                    let of: Vec<_> = f.iter().filter(|x| x.1 == k).collect();
                    let step = (of.len() / show).max(1);
                    for x in of.iter().step_by(step).take(show) {
                        eprintln!("      {} cfg={} {}", x.1, x.2.text(), json::quote(&x.3));
                        for l in x.4.lines().take(6) {
                            eprintln!("          {}", l.chars().take(170).collect::<String>());
                        }
                    }
                }
            }
            if !f.is_empty() {
                let n = nfails.load(Relaxed);
                rep.more_failures += n - 1;
                let (_, kind, cfg, input, detail) = f.swap_remove(0);
                if rep.failure.is_none() {
                    rep.failure = Some(Failure { world: world.name.clone(), kind, cfg, input, detail });
                }
                if !self.show_all {
                    return;
                }
            }
        }
    }

}

pub fn write_replay(property: &str, f: &Failure) -> String {
    let dir = format!("{}/replays", crate::root());
    let _ = std::fs::create_dir_all(&dir);
    let j = J::obj(vec![
        ("property", J::s(property)),
        ("world", J::s(&f.world)),
        ("kind", J::s(&f.kind)),
        ("config", J::s(&f.cfg.text())),
        ("input", J::s(&f.input)),
        ("detail", J::s(&f.detail)),
    ]);
    let path = format!("{dir}/{property}-{:016x}.json", hash64(&(f.kind.as_str(), f.cfg, f.input.as_str())));
    let _ = std::fs::write(&path, j.render() + "\n");
    path
}
