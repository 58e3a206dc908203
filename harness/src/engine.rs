//! Generated-input engine.
//!
//! A check draws its input from a `Src`: a tape of u64 choices. In generation mode the
//! choices come from a seeded generator (steered by boundaries and by literals mined
//! from the code under test) and are recorded; in replay mode they come from the tape.
//! Shrinking edits the tape, so every generator shrinks for free. The values themselves
//! are recorded (never dictionary indices), so a tape means the same on any tree.

use crate::dict;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.next();
        }
        lo + self.next() % (hi - lo + 1)
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.next() % n == 0
    }
}

pub fn fnv<T: Hash + ?Sized>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut r = Rng::new(self.0);
            r.next()
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut h = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- source of choices
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    dump: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, dump: None }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { rng: None, tape, pos: 0, dump: None }
    }
    /// The choices made so far.
    pub fn tape(&self) -> Vec<u64> {
        self.used()
    }
    fn used(&self) -> Vec<u64> {
        self.tape[..self.pos.min(self.tape.len())].to_vec()
    }
    /// One choice in lo..=hi; `f` picks it in generation mode.
    pub fn draw(&mut self, lo: u64, hi: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        assert!(lo <= hi, "harness: empty range");
        let v = match &mut self.rng {
            Some(r) => {
                let v = f(r).clamp(lo, hi);
                self.tape.push(v - lo);
                if let Some(d) = &mut self.dump {
                    let _ = writeln!(d, "{}", v - lo);
                }
                v
            }
            None => {
                let o = self.tape.get(self.pos).copied().unwrap_or(0);
                lo + o.min(hi - lo)
            }
        };
        self.pos += 1;
        v
    }
    /// Uniform choice.
    pub fn uni(&mut self, lo: u64, hi: u64) -> u64 {
        self.draw(lo, hi, |r| r.range(lo, hi))
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.uni(0, n as u64 - 1) as usize
    }
    /// True with probability 1/n (shrinks to false).
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(0, 1, |r| (r.next() % n == 0) as u64) == 1
    }
    pub fn coin(&mut self) -> bool {
        self.one_in(2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        self.draw(0, w.len() as u64 - 1, |r| {
            let mut x = r.next() % total;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    return i as u64;
                }
                x -= wi;
            }
            0
        }) as usize
    }
    /// Integer biased to boundaries, powers of two, literals of the code under test.
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        self.draw(lo, hi, |r| biased(r, lo, hi))
    }
    /// A length in 0..=max: mostly short, all values possible, boundaries favoured.
    pub fn len(&mut self, max: u64) -> usize {
        self.draw(0, max, |r| match r.next() % 10 {
            0..=3 => r.range(0, max.min(24)),
            4..=5 => r.range(0, max.min(300)),
            6 => r.range(0, max),
            _ => biased(r, 0, max),
        }) as usize
    }
    /// n bytes, described compactly on the tape.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.weighted(&[2, 1, 3, 2, 2]) {
            0 => vec![self.uni(0, 255) as u8; n],
            1 => {
                let b = self.uni(0, 255) as u8;
                (0..n).map(|i| b.wrapping_add(i as u8)).collect()
            }
            2 => {
                let mut r = Rng::new(self.uni(0, u64::MAX));
                (0..n).map(|_| r.next() as u8).collect()
            }
            3 => {
                // zero background with a few set bytes
                let mut v = vec![0u8; n];
                let k = self.uni(0, 4);
                for _ in 0..k {
                    if n > 0 {
                        let i = self.int(0, n as u64 - 1) as usize;
                        v[i] = self.int(0, 255) as u8;
                    }
                }
                v
            }
            _ => {
                let k = n.min(40);
                let mut v: Vec<u8> = (0..k).map(|_| self.int(0, 255) as u8).collect();
                let last = v.clone();
                while v.len() < n {
                    let i = v.len() % k.max(1);
                    v.push(last[i]);
                }
                v
            }
        }
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let b = self.bytes(32);
        let mut a = [0u8; 32];
        a.copy_from_slice(&b);
        a
    }
    /// Uniformly random 32 bytes (keys, seeds).
    pub fn key32(&mut self) -> [u8; 32] {
        // the position is mixed in so that keys stay distinct when their choices are shrunk to zero
        let at = (self.pos as u64).wrapping_mul(0xA24B_AED4_963E_E407);
        let mut r = Rng::new(self.uni(0, u64::MAX) ^ at);
        let mut a = [0u8; 32];
        for x in a.iter_mut() {
            *x = r.next() as u8;
        }
        a
    }
    /// A valid UTF-8 string of exactly n bytes.
    pub fn string(&mut self, n: usize) -> String {
        let mut s = String::new();
        let mode = self.weighted(&[5, 3, 3, 2, 2]);
        if mode == 4 {
            // a literal of the code under test (recorded as bytes), possibly repeated
            let lit = self.literal_str();
            while s.len() + lit.len() <= n && !lit.is_empty() {
                s.push_str(&lit);
            }
        }
        if mode == 3 {
            // one character repeated
            let c = self.chr(n.min(4).max(1));
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
        }
        while s.len() < n {
            let room = n - s.len();
            let c = match mode {
                0 | 3 | 4 => self.uni(0x61, 0x7a) as u8 as char,
                1 => self.chr(1),
                _ => self.chr(room.min(4)),
            };
            s.push(c);
        }
        s
    }
    fn chr(&mut self, max_len: usize) -> char {
        const ODD: &[u32] = &[
            0, 9, 10, 13, 32, 34, 39, 47, 48, 65, 90, 92, 97, 122, 127, 0x80, 0x85, 0xa0, 0xdf, 0xe9, 0x130, 0x131, 0x300, 0x3a3, 0x7ff, 0x800,
            0x200b, 0x2028, 0xd7ff, 0xe000, 0xfb01, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff,
        ];
        let hi = match max_len {
            1 => 0x7f,
            2 => 0x7ff,
            3 => 0xffff,
            _ => 0x10ffff,
        };
        let c = self.draw(0, hi, |r| {
            if r.one_in(2) {
                let v = ODD[(r.next() % ODD.len() as u64) as usize] as u64;
                if v <= hi { v } else { r.range(0, hi) }
            } else {
                match r.next() % 4 {
                    0 => r.range(32, 126),
                    1 => r.range(0, 0x7f),
                    2 => r.range(0, hi.min(0x7ff)),
                    _ => r.range(0, hi),
                }
            }
        });
        char::from_u32(c as u32).unwrap_or('a')
    }
    /// A string literal found in the code under test, possibly edited; "" if shrunk.
    pub fn literal_str(&mut self) -> String {
        let n = self.pos;
        let _ = n;
        let pre: Option<Vec<u8>> = self.rng.as_mut().map(|r| {
            let d = dict::get();
            if d.strs.is_empty() { vec![] } else { d.strs[(r.next() % d.strs.len() as u64) as usize].clone().into_bytes() }
        });
        let len = self.draw(0, 80, |_| pre.as_ref().map(|p| p.len()).unwrap_or(0) as u64) as usize;
        let mut out = Vec::new();
        for i in 0..len {
            out.push(self.draw(0, 255, |_| pre.as_ref().and_then(|p| p.get(i)).copied().unwrap_or(b'a') as u64) as u8);
        }
        String::from_utf8_lossy(&out).into_owned()
    }
}

pub fn biased(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let inr = |v: u64| v >= lo && v <= hi;
    for _ in 0..4 {
        let v = match r.next() % 8 {
            0 => lo.saturating_add(r.next() % 4),
            1 => hi.saturating_sub(r.next() % 4),
            2 => {
                // next to a power of two, at times a sum of two or three
                let k = [1, 1, 2, 3][(r.next() % 4) as usize];
                let p = (0..k).fold(0u64, |p, _| p | 1 << (r.next() % 64));
                p.wrapping_add(r.next() % 3).wrapping_sub(1)
            }
            3 => {
                let d = &dict::get().nums;
                if d.is_empty() { r.range(lo, hi) } else { d[(r.next() % d.len() as u64) as usize].wrapping_add(r.next() % 3).wrapping_sub(1) }
            }
            4 => {
                // log-uniform
                let bits = 64 - (hi - lo).leading_zeros() as u64;
                let b = r.next() % (bits + 1);
                let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                lo.saturating_add(r.next() & m)
            }
            5 => lo.saturating_add(r.next() % 32),
            _ => r.range(lo, hi),
        };
        if inr(v) {
            return v;
        }
    }
    r.range(lo, hi)
}

// ---------------------------------------------------------------- cases
pub enum Stop {
    Fail(String),
    Discard(&'static str),
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Fail(format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($a)*))) };
}

pub struct Case {
    pub s: Src,
    pub nontrivial: bool,
    labels: Vec<String>,
    want: bool,
    shown: Vec<String>,
    pub thorough: bool,
}
impl Case {
    fn new(s: Src, want: bool, thorough: bool) -> Case {
        Case { s, nontrivial: false, labels: vec![], want, shown: vec![], thorough }
    }
    pub fn replay(tape: Vec<u64>) -> Case {
        Case::new(Src::replay(tape), false, false)
    }
    pub fn hit(&mut self, l: &str) {
        self.labels.push(l.to_string());
    }
    pub fn interesting(&mut self) {
        self.nontrivial = true;
    }
    /// Describe the generated input (evaluated only for samples and failures).
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            let mut t = f();
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            self.shown.push(t);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(160) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 160 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub struct Sub {
    pub name: &'static str,
    /// cases in the quick and thorough tiers (ignored if exhaustive)
    pub quick: u64,
    pub thorough: u64,
    /// enumerate indices 0..n instead of random generation
    pub enumerate: Option<u64>,
    pub threads: usize,
    pub body: fn(&mut Case) -> Res,
}
pub fn sub(name: &'static str, quick: u64, thorough: u64, body: fn(&mut Case) -> Res) -> Sub {
    Sub { name, quick, thorough, enumerate: None, threads: 8, body }
}
pub fn all(name: &'static str, n: u64, body: fn(&mut Case) -> Res) -> Sub {
    Sub { name, quick: n, thorough: n, enumerate: Some(n), threads: 8, body }
}
impl Sub {
    pub fn threads(mut self, t: usize) -> Sub {
        self.threads = t;
        self
    }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- execution
thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", l, m)));
    }));
}

pub enum Out {
    Pass,
    Discard(&'static str),
    Fail(String),
}
pub fn exec(body: fn(&mut Case) -> Res, c: &mut Case) -> Out {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| body(c))) {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(Stop::Fail(m))) => Out::Fail(m),
        Ok(Err(Stop::Discard(w))) => Out::Discard(w),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into());
            // the generator itself could not build its input
            if m.contains(": harness: ") {
                Out::Discard("the input could not be built")
            } else {
                Out::Fail(m)
            }
        }
    }
}

fn run_tape(sub: &Sub, tape: &[u64], want: bool, th: bool) -> (Out, Case) {
    let mut c = Case::new(Src::replay(tape.to_vec()), want, th);
    let o = exec(sub.body, &mut c);
    (o, c)
}

/// Minimise a failing tape.
fn shrink(sub: &Sub, tape: Vec<u64>, th: bool, budget: Duration) -> Vec<u64> {
    shrink_with(tape, budget, |t| {
        let (o, c) = run_tape(sub, t, false, th);
        if matches!(o, Out::Fail(_)) { Some(c.s.used()) } else { None }
    })
}
pub fn shrink_with(tape: Vec<u64>, budget: Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = match fails(&tape) {
        Some(t) => t,
        None => return tape,
    };
    let mut runs = 0;
    loop {
        let before = best.clone();
        // delete blocks
        for k in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k {
                i -= 1;
                if i + k > best.len() || t0.elapsed() > budget {
                    continue;
                }
                let mut t = best.clone();
                t.drain(i..i + k);
                runs += 1;
                if let Some(u) = fails(&t) {
                    if u.len() < best.len() || (u.len() == best.len() && u < best) {
                        best = u;
                    }
                }
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 && t0.elapsed() < budget {
                let mut t = best.clone();
                t[i] = 0;
                runs += 1;
                if let Some(u) = fails(&t) {
                    if u.len() <= best.len() {
                        best = u;
                    }
                } else {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && t0.elapsed() < budget {
                        let m = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        t[i] = m;
                        runs += 1;
                        match fails(&t) {
                            Some(u) if u.len() <= best.len() && i < u.len() => {
                                hi = m;
                                best = u;
                                if i >= best.len() {
                                    break;
                                }
                            }
                            _ => lo = m,
                        }
                        if i >= best.len() {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget || runs > 20000 {
            return best;
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    pub journal: Option<String>,
}

pub struct SubStats {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub discards: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub exhaustive: bool,
    pub wall: f64,
}
pub struct Found {
    pub sub: &'static str,
    pub tape: Vec<u64>,
    pub message: String,
    pub shown: Vec<String>,
}

pub fn case_seed(ctx: &Ctx, prop: &str, sub: &str, i: u64) -> u64 {
    fnv(&(ctx.seed, prop, sub, i))
}

/// Make the source for case i of a sub-check.
fn source(ctx: &Ctx, prop: &str, sub: &Sub, i: u64) -> Src {
    if sub.enumerate.is_some() {
        Src::replay(vec![i])
    } else {
        Src::random(case_seed(ctx, prop, sub.name, i))
    }
}

/// Case counts of the quick tier are multiplied so that each property gets about twenty seconds.
fn boost(id: &str) -> f64 {
    2.5 * match id {
        "C02" | "C05" | "C06" | "C09" | "C13" | "C14" | "C15" | "C28" => 10.0,
        "C07" | "C10" => 20.0,
        "C32" => 4.0,
        "C03" | "C04" | "C08" | "C12" | "C22" | "C23" | "C31" => 6.0,
        "C01" | "C16" | "C18" | "C19" | "C21" | "C24" => 4.0,
        "C34" | "C17" | "C20" | "C30" => 3.0,
        "C27" | "C29" | "C33" => 2.0,
        "C35" => 0.7,
        _ => 1.0,
    }
}

pub const HANG_EXIT: i32 = 97;

pub fn run_sub(ctx: &Ctx, prop: &Prop, si: usize) -> (SubStats, Option<Found>) {
    let sub = &prop.subs[si];
    let n = if let Some(n) = sub.enumerate { n } else if ctx.thorough { sub.thorough } else { sub.quick };
    let boost = if ctx.thorough { 1.0 } else { boost(prop.id) };
    let scale: f64 = boost * std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = if sub.enumerate.is_none() { ((n as f64 * scale) as u64).max(1) } else { n };
    let threads = sub.threads.min(std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)).max(1);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Found)>> = Mutex::new(None);
    let stats = Mutex::new((0u64, HashSet::<u64>::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new(), Vec::<(u64, String)>::new()));
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let t0 = Instant::now();
    let cap = Duration::from_secs(if ctx.thorough { 1500 } else { 240 });
    let live = AtomicUsize::new(threads);
    let hang_s: u64 = std::env::var("PBT_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    let journal = ctx.journal.as_ref().map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap());
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (next, stop, found, stats, beat, live, journal) = (&next, &stop, &found, &stats, &beat, &live, &journal);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    use std::os::unix::fs::FileExt;
                    let (mut ev, mut seen, mut lab, mut dis, mut smp) = (0u64, HashSet::new(), BTreeMap::new(), BTreeMap::new(), Vec::new());
                    let mut last = 0u64;
                    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || t0.elapsed() > cap {
                            break;
                        }
                        beat[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if let Some(j) = journal {
                            let mut b = [0u8; 24];
                            b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            b[8..16].copy_from_slice(&i.to_le_bytes());
                            let _ = j.write_at(&b, w as u64 * 24);
                        }
                        let mut c = Case::new(source(ctx, prop.id, sub, i), false, ctx.thorough);
                        let o = exec(sub.body, &mut c);
                        ev += 1;
                        match o {
                            Out::Pass => {
                                if c.nontrivial {
                                    seen.insert(fnv(&c.s.used()));
                                }
                                for l in c.labels.drain(..) {
                                    *counts.entry(l).or_insert(0) += 1;
                                }
                                // samples: a few spread over the run
                                if c.nontrivial && (i < 3 || (last < n / 2 && i >= n / 2)) && smp.len() < 3 {
                                    last = i;
                                    let mut c2 = Case::new(source(ctx, prop.id, sub, i), true, ctx.thorough);
                                    let _ = exec(sub.body, &mut c2);
                                    smp.push((i, format!("{} #{}: {}", sub.name, i, c2.shown.join("; "))));
                                }
                            }
                            Out::Discard(d) => *dis.entry(d.to_string()).or_insert(0) += 1,
                            Out::Fail(m) => {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                    *f = Some((i, Found { sub: sub.name, tape: c.s.used(), message: m, shown: vec![] }));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        beat[w].store(0, Ordering::Relaxed);
                    }
                    lab.append(&mut counts);
                    let mut s = stats.lock().unwrap();
                    s.0 += ev;
                    s.1.extend(seen);
                    for (k, v) in lab {
                        *s.2.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in dis {
                        *s.3.entry(k).or_insert(0) += v;
                    }
                    s.4.extend(smp);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        let (live, beat) = (&live, &beat);
        sc.spawn(move || {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for b in beat {
                    let v = b.load(Ordering::Relaxed);
                    if v != 0 && now > v + hang_s * 1000 {
                        eprintln!("pbt: a case has been running for more than {} s", hang_s);
                        unsafe { libc::_exit(HANG_EXIT) }
                    }
                }
            }
        });
    });
    let (ev, seen, labels, discards, mut samples) = stats.into_inner().unwrap();
    samples.sort();
    let st = SubStats {
        name: sub.name,
        evaluations: ev,
        nontrivial: seen.len() as u64,
        discards,
        labels,
        samples: samples.into_iter().map(|x| x.1).take(3).collect(),
        exhaustive: sub.enumerate.is_some() && ev == n,
        wall: t0.elapsed().as_secs_f64(),
    };
    let f = found.into_inner().unwrap().map(|(_, mut f)| {
        // shrink only if the failure reproduces from its tape (schedules may not)
        let (o, _) = run_tape(sub, &f.tape, false, ctx.thorough);
        if matches!(o, Out::Fail(_)) {
            f.tape = shrink(sub, f.tape, ctx.thorough, Duration::from_secs(20));
        }
        let (o, c) = run_tape(sub, &f.tape, true, ctx.thorough);
        if let Out::Fail(m) = o {
            f.message = m;
        }
        f.shown = c.shown;
        f
    });
    (st, f)
}

/// Run one generated case, dumping its choices as they are made (crash and hang capture).
pub fn run_one(ctx: &Ctx, prop: &Prop, si: usize, i: u64, dump: &str) -> Out {
    let sub = &prop.subs[si];
    let mut src = source(ctx, prop.id, sub, i);
    let mut f = std::fs::File::create(dump).unwrap();
    if sub.enumerate.is_some() {
        let _ = writeln!(f, "{}", i);
    } else {
        src.dump = Some(f);
    }
    let mut c = Case::new(src, false, ctx.thorough);
    let body = sub.body;
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || exec(body, &mut c)).unwrap().join().unwrap_or(Out::Fail("worker died".into()))
}
pub fn run_given(prop: &Prop, sub: &str, tape: Vec<u64>, thorough: bool) -> Option<(Out, Vec<String>)> {
    let s = prop.subs.iter().find(|s| s.name == sub)?;
    let body = s.body;
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = Case::new(Src::replay(tape), true, thorough);
            let o = exec(body, &mut c);
            (o, c.shown)
        })
        .unwrap()
        .join();
    Some(r.unwrap_or((Out::Fail("worker died".into()), vec![])))
}
