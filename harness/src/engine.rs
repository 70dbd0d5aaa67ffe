//! Generated-input search: every choice a case makes is drawn from a recorded sequence, so a failing case can be
//! replayed exactly and shrunk by editing the sequence.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::engine::Fail(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)));
        }
    }};
}

/// Panic payload: the device operation budget of the case is used up (code under test makes no progress).
pub struct FuelExhausted;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u64]) -> u64 {
    let mut h = 0x243f6a8885a308d3u64;
    for d in data {
        h ^= *d;
        splitmix(&mut h);
        h = h.rotate_left(23).wrapping_mul(0x9e3779b97f4a7c15);
    }
    h ^ (h >> 29)
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

pub struct G {
    mode: Mode,
    pub choices: Vec<u64>,
    pub index: u64,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub thorough: bool,
}

#[allow(dead_code)]
impl G {
    fn new(mode: Mode, index: u64, thorough: bool) -> Self {
        G { mode, choices: vec![], index, nontrivial: false, classes: vec![], desc: None, want_desc: false, thorough }
    }
    pub fn random(seed: u64, index: u64, thorough: bool) -> Self {
        Self::new(Mode::Random(hash64(&[seed, index])), index, thorough)
    }
    pub fn replay(choices: Vec<u64>, thorough: bool) -> Self {
        Self::new(Mode::Replay(choices), 0, thorough)
    }
    pub fn from_bytes(b: Vec<u8>) -> Self {
        Self::new(Mode::Bytes(b, 0), 0, false)
    }
    /// Uniform in 0..=max.
    pub fn draw(&mut self, max: u64) -> u64 {
        self.draw_with(max, None)
    }
    fn draw_with(&mut self, max: u64, forced: Option<u64>) -> u64 {
        let pos = self.choices.len();
        let v = match &mut self.mode {
            Mode::Random(st) => {
                let r = splitmix(st);
                match forced {
                    Some(f) => f,
                    None if max == u64::MAX => r,
                    None => ((r as u128 * (max as u128 + 1)) >> 64) as u64,
                }
            }
            Mode::Replay(c) => c.get(pos).copied().unwrap_or(0).min(max),
            Mode::Bytes(b, p) => {
                let n = (64 - max.leading_zeros() as usize).div_ceil(8);
                let mut v = 0u64;
                for _ in 0..n {
                    v = v << 8 | b.get(*p).copied().unwrap_or(0) as u64;
                    *p += 1;
                }
                if max == u64::MAX { v } else { v % (max + 1) }
            }
        };
        self.choices.push(v);
        v
    }
    /// 0..n, stratified over the case index in random mode.
    pub fn strat(&mut self, n: u64) -> u64 {
        let i = self.index % n;
        self.draw_with(n - 1, Some(i))
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n - 1)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den (shrinks towards false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64 - 1) as usize]
    }
    /// Mostly small values, sometimes boundary values, sometimes anything up to max.
    pub fn sized(&mut self, max: u64) -> u64 {
        match self.draw(9) {
            0..=5 => self.draw(max.min(8)),
            6 | 7 => self.draw(max.min(300)),
            8 => {
                let bits = self.draw(63);
                let d = self.draw(2);
                ((1u64 << bits).wrapping_add(d).wrapping_sub(1)).min(max)
            }
            _ => self.draw(max),
        }
    }
    /// Any 32-bit value with boundaries favoured.
    pub fn u32b(&mut self) -> u32 {
        match self.draw(5) {
            0 => self.draw(20) as u32,
            1 => (1u32 << self.draw(31)).wrapping_sub(self.draw(1) as u32),
            2 => u32::MAX - self.draw(3) as u32,
            _ => self.draw(u32::MAX as u64) as u32,
        }
    }
    pub fn u64b(&mut self) -> u64 {
        match self.draw(5) {
            0 => self.draw(20),
            1 => (1u64 << self.draw(63)).wrapping_sub(self.draw(1)),
            2 => u64::MAX - self.draw(3),
            _ => self.draw(u64::MAX),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.draw(u64::MAX).to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// n pseudo-random bytes derived from one recorded choice.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let seed = self.draw(u32::MAX as u64);
        blob(seed, n)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // shrinks towards the identity
            let j = i - self.draw(i as u64) as usize;
            v.swap(i, j);
        }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

pub fn blob(seed: u64, n: usize) -> Vec<u8> {
    let mut st = hash64(&[seed, 0xb10b]);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&splitmix(&mut st).to_le_bytes());
    }
    v.truncate(n);
    v
}

pub type RunFn = fn(&mut G) -> R;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: RunFn,
    /// Fixed cases, run first; a known finding names one of them.
    pub pinned: &'static [(&'static str, fn() -> R)],
}

// ---- panic capture -------------------------------------------------------------------------------------------
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = payload_text(info.payload());
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            default(info)
        }
    }));
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if p.is::<FuelExhausted>() {
        "the device-operation budget of the case is used up: no progress".into()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn hard_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}

/// Runs one case; a panic raised by the code under test is a failure, one raised by the harness is an error (exit 2).
pub fn run_case(f: impl FnOnce() -> R) -> R {
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(false));
    crate::alloc::unguard();
    match r {
        Ok(r) => r,
        Err(p) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if !p.is::<FuelExhausted>() && (loc.starts_with("src/") || loc.contains("/harness/src/")) {
                eprintln!("HARNESS ERROR: panic at {loc}: {msg}");
                hard_exit(2);
            }
            let loc = loc.rsplit("/repo/").next().unwrap_or(&loc).to_string();
            Err(Fail(format!("panic: {msg} (at {loc})")))
        }
    }
}

// ---- search --------------------------------------------------------------------------------------------------
#[derive(Default)]
struct Totals {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub verif_dir: String,
    pub slots: Option<fs::File>,
    pub cases: Option<u64>,
    pub from: u64,
    pub threads: u64,
}

pub fn prop_seed(p: &Prop, seed: u64) -> u64 {
    let mut h = vec![seed];
    h.extend(p.id.bytes().map(u64::from));
    hash64(&h)
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn failing(p: &Prop, choices: Vec<u64>, thorough: bool) -> Option<(Vec<u64>, String, Option<String>)> {
    let mut g = G::replay(choices, thorough);
    g.want_desc = true;
    match run_case(|| (p.run)(&mut g)) {
        Ok(()) => None,
        Err(Fail(m)) => Some((g.choices, m, g.desc)),
    }
}

/// Shrinks by deleting, zeroing and lowering choices while the case keeps failing.
pub fn shrink(
    start: (Vec<u64>, String, Option<String>),
    budget: usize,
    deadline: Instant,
    mut eval: impl FnMut(Vec<u64>) -> Option<(Vec<u64>, String, Option<String>)>,
) -> (Vec<u64>, String, Option<String>) {
    let mut best = start;
    let mut left = budget;
    let mut attempt = |best: &mut (Vec<u64>, String, Option<String>), cand: Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || Instant::now() > deadline || cand == best.0 {
            return false;
        }
        *left -= 1;
        if let Some(r) = eval(cand) {
            let key = |c: &Vec<u64>| (c.len(), c.iter().map(|x| *x as u128).sum::<u128>());
            if key(&r.0) < key(&best.0) || (r.0.len() == best.0.len() && r.0 < best.0) {
                *best = r;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.0.clone();
        let mut size = (best.0.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.0.len() {
                let mut c = best.0.clone();
                c.drain(i..(i + size).min(c.len()));
                if !attempt(&mut best, c, &mut left) {
                    let mut c = best.0.clone();
                    let end = (i + size).min(c.len());
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut best, c, &mut left);
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.0.len() {
            let mut lo = 0;
            while i < best.0.len() && lo < best.0[i] {
                let mid = lo + (best.0[i] - lo) / 2;
                let mut c = best.0.clone();
                c[i] = mid;
                if !attempt(&mut best, c, &mut left) {
                    lo = mid + 1;
                    if left == 0 || Instant::now() > deadline {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best.0 == before || left == 0 || Instant::now() > deadline {
            return best;
        }
    }
}

pub fn write_replay(o: &Options, p: &Prop, kind: &str, choices: &[u64], msg: &str, desc: Option<&str>) -> String {
    let dir = format!("{}/replays", o.verif_dir);
    let _ = fs::create_dir_all(&dir);
    let h = hash64(&[hash64(choices), hash64(&kind.bytes().map(u64::from).collect::<Vec<_>>())]);
    let path = format!("{dir}/{}-{h:016x}.json", p.id);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":\"{}\",\"kind\":\"{}\",\"tier\":\"{}\",\"message\":\"{}\",\n \"case\":\"{}\",\n \"choices\":[",
        p.id,
        esc(kind),
        if o.thorough { "thorough" } else { "quick" },
        esc(msg),
        esc(desc.unwrap_or(""))
    );
    for (i, c) in choices.iter().enumerate() {
        let _ = write!(s, "{}{c}", if i > 0 { "," } else { "" });
    }
    s.push_str("]}\n");
    fs::write(&path, s).expect("write replay");
    path
}

pub struct Known {
    pub property: String,
    pub case: String,
    pub text: String,
}

fn json_str(line: &str, key: &str) -> Option<String> {
    let i = line.find(&format!("\"{key}\""))?;
    let rest = &line[i + key.len() + 2..];
    let rest = &rest[rest.find('"')? + 1..];
    let mut out = String::new();
    let mut it = rest.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => out.push(it.next()?),
            '"' => return Some(out),
            c => out.push(c),
        }
    }
    None
}

/// Open entries of the committed known-findings file.
pub fn known_findings(dir: &str) -> Vec<Known> {
    fs::read_to_string(format!("{dir}/known_findings.jsonl"))
        .unwrap_or_default()
        .lines()
        .filter(|l| json_str(l, "status").as_deref() == Some("open"))
        .filter_map(|l| {
            Some(Known { property: json_str(l, "property")?, case: json_str(l, "case")?, text: json_str(l, "what")? })
        })
        .collect()
}

pub fn search(p: &Prop, o: &Options) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(&o.verif_dir);
    let mut violations = 0u64;
    let mut pinned_run = 0u64;
    // pinned cases first
    for (name, f) in p.pinned {
        pinned_run += 1;
        if let Err(Fail(m)) = run_case(f) {
            if let Some(k) = known.iter().find(|k| k.property == p.id && k.case == *name) {
                println!("KNOWN-FINDING: property={} {}", p.id, k.text);
            } else {
                let path = write_replay(o, p, &format!("pinned:{name}"), &[], &m, None);
                println!("pinned case {name}: {m}");
                println!("VIOLATION property={} replay={path}", p.id);
                violations += 1;
            }
        }
    }
    let n = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let seed = prop_seed(p, o.seed);
    let next = AtomicU64::new(o.from);
    let stop = AtomicBool::new(violations > 0);
    let totals = Mutex::new(Totals::default());
    let first_fail: Mutex<Option<(u64, Vec<u64>, String, Option<String>)>> = Mutex::new(None);
    let deadline = t0 + Duration::from_secs(if o.thorough { 3 * 3600 } else { 420 });
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, stop, totals, first_fail) = (&next, &stop, &totals, &first_fail);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Totals::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= o.from + n {
                            break;
                        }
                        if let Some(f) = &o.slots {
                            let _ = f.write_at(&(i + 1).to_le_bytes(), t * 8);
                        }
                        let mut g = G::random(seed, i, o.thorough);
                        g.want_desc = i < 4000 && local.samples.len() < 2;
                        let r = run_case(|| (p.run)(&mut g));
                        local.evals += 1;
                        for c in &g.classes {
                            *local.classes.entry(c.to_string()).or_default() += 1;
                        }
                        if g.nontrivial {
                            local.nontrivial.insert(hash64(&g.choices));
                            if let Some(d) = g.desc.take() {
                                if local.samples.len() < 2 {
                                    local.samples.push(d);
                                }
                            }
                        }
                        if let Err(Fail(m)) = r {
                            stop.store(true, Ordering::Relaxed);
                            let mut ff = first_fail.lock().unwrap();
                            if ff.as_ref().is_none_or(|f| i < f.0) {
                                *ff = Some((i, g.choices, m, None));
                            }
                            break;
                        }
                    }
                    if let Some(f) = &o.slots {
                        let _ = f.write_at(&0u64.to_le_bytes(), t * 8);
                    }
                    let mut tt = totals.lock().unwrap();
                    tt.evals += local.evals;
                    tt.nontrivial.extend(local.nontrivial);
                    for (k, v) in local.classes {
                        *tt.classes.entry(k).or_default() += v;
                    }
                    tt.samples.extend(local.samples);
                })
                .expect("spawn");
        }
    });
    if let Some((i, choices, m, d)) = first_fail.into_inner().unwrap() {
        println!("case {i}: {m}");
        if let Some(f) = &o.slots {
            // so that the supervisor can name the case if a shrunk variant of it hangs or crashes
            let _ = f.write_at(&(i + 1).to_le_bytes(), 0);
        }
        let best = shrink((choices, m, d), 1500, Instant::now() + Duration::from_secs(20), |c| {
            failing(p, c, o.thorough)
        });
        let path = write_replay(o, p, "choices", &best.0, &best.1, best.2.as_deref());
        println!("shrunk: {}{}", best.1, best.2.map(|d| format!(" [{d}]")).unwrap_or_default());
        println!("VIOLATION property={} replay={path}", p.id);
        violations += 1;
    }
    let mut tt = totals.into_inner().unwrap();
    tt.samples.sort();
    tt.samples.truncate(6);
    write_evidence(p, o, &tt, pinned_run, violations, t0.elapsed().as_secs_f64(), None);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
        p.id,
        tt.evals,
        tt.nontrivial.len(),
        violations,
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        1
    } else {
        0
    }
}

fn write_evidence(p: &Prop, o: &Options, t: &Totals, pinned: u64, violations: u64, wall: f64, extra: Option<&str>) {
    let _ = fs::create_dir_all(format!("{}/evidence", o.verif_dir));
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"pinned_cases\":{},\"rule\":\"{}\",\"classes\":{{",
        p.id,
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        t.evals + pinned,
        t.nontrivial.len(),
        pinned,
        esc(p.rule)
    );
    for (i, (k, v)) in t.classes.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    s.push_str("},\"samples\":[");
    for (i, x) in t.samples.iter().enumerate() {
        let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(x));
    }
    s.push(']');
    if let Some(e) = extra {
        s.push_str(e);
    }
    s.push_str("},\"assumptions\":[");
    for (i, x) in p.assumptions.iter().enumerate() {
        let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(x));
    }
    let _ = write!(s, "],\"wall_s\":{wall:.2},\"violations\":{violations}}}\n");
    fs::write(format!("{}/evidence/{}.json", o.verif_dir, p.id), s).expect("write evidence");
}

/// Evidence of a run that the supervisor had to end (crash or hang of the code under test).
pub fn write_crash_evidence(p: &Prop, o: &Options, evals: u64, wall: f64) {
    let t = Totals { evals, samples: vec!["see the replay file".into()], ..Default::default() };
    write_evidence(p, o, &t, 0, 1, wall, None);
}

pub fn parse_choices(s: &str) -> Option<(String, Vec<u64>)> {
    let kind = json_str(s, "kind")?;
    let i = s.rfind("\"choices\":[")? + 11;
    let j = s[i..].find(']')? + i;
    let v = s[i..j].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().ok()).collect::<Option<Vec<u64>>>()?;
    Some((kind, v))
}
