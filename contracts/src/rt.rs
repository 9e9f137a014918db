//! Contract runtime.

#[derive(Debug, Clone)]
pub enum Stop {
    /// precondition not met by the drawn arguments
    Vacuous,
    Violated { obligation: String, detail: String },
}
pub type R = Result<(), Stop>;

/// Precondition.
#[macro_export]
macro_rules! requires {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::assume($c);
        #[cfg(not(kani))]
        if !($c) {
            return Err($crate::rt::Stop::Vacuous);
        }
    }};
}

/// Postcondition / invariant, with the obligation's name.
#[cfg(not(kani))]
#[macro_export]
macro_rules! ensures {
    ($c:expr, $name:literal) => {{
        if !($c) {
            return Err($crate::rt::Stop::Violated { obligation: $name.to_string(), detail: String::new() });
        }
    }};
    ($c:expr, $name:literal, $($fmt:tt)+) => {{
        if !($c) {
            return Err($crate::rt::Stop::Violated { obligation: $name.to_string(), detail: format!($($fmt)+) });
        }
    }};
}
#[cfg(kani)]
#[macro_export]
macro_rules! ensures {
    ($c:expr, $name:literal $(, $($fmt:tt)+)?) => {{
        let c: bool = $c;
        assert!(c, $name);
    }};
}

/// Deductive obligations of a property.  Each line:
///   name, tier (quick|thorough), unwind, "complete" or "bounded: ...", "functions under contract", contract;
/// Under Kani each becomes a proof harness over symbolic arguments; natively the same contract is
/// registered for replaying counterexamples and is also sampled.
#[macro_export]
macro_rules! obligations {
    ($($name:ident, $tier:ident, $unwind:literal, $label:literal, $covers:literal, $f:expr;)*) => {
        #[cfg(kani)]
        pub mod proofs {
            #[allow(unused_imports)]
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn $name() {
                    let _ = ($f)(&mut $crate::rt::KSrc);
                    kani::cover!(true, "postcondition reached");
                }
            )*
        }
        #[cfg(not(kani))]
        pub fn obligations(r: &mut $crate::rt::Runner) {
            $( r.obligation(stringify!($name), stringify!($tier), $label, $covers, |s: &mut $crate::rt::NSrc| ($f)(s)); )*
        }
    };
}

pub trait Src {
    /// A value below 2^bits, bits <= 128.
    fn word(&mut self, bits: u32) -> u128;
    /// A value below n.
    fn below(&mut self, n: usize) -> usize;
    /// Case number (for exhaustive contracts).
    fn index(&self) -> u64 {
        0
    }
    fn bool(&mut self) -> bool {
        self.word(1) == 1
    }
    fn u8(&mut self) -> u8 {
        self.word(8) as u8
    }
    fn u16(&mut self) -> u16 {
        self.word(16) as u16
    }
    fn u32(&mut self) -> u32 {
        self.word(32) as u32
    }
    fn u64(&mut self) -> u64 {
        self.word(64) as u64
    }
    fn u128(&mut self) -> u128 {
        self.word(128)
    }
    fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
}

#[cfg(kani)]
pub struct KSrc;
#[cfg(kani)]
impl Src for KSrc {
    fn word(&mut self, bits: u32) -> u128 {
        if bits <= 8 {
            let v: u8 = kani::any();
            if bits < 8 {
                kani::assume(v < (1u8 << bits));
            }
            v as u128
        } else if bits <= 16 {
            let v: u16 = kani::any();
            if bits < 16 {
                kani::assume(v < (1u16 << bits));
            }
            v as u128
        } else if bits <= 32 {
            let v: u32 = kani::any();
            if bits < 32 {
                kani::assume(v < (1u32 << bits));
            }
            v as u128
        } else if bits <= 64 {
            let v: u64 = kani::any();
            if bits < 64 {
                kani::assume(v < (1u64 << bits));
            }
            v as u128
        } else {
            let v: u128 = kani::any();
            if bits < 128 {
                kani::assume(v < (1u128 << bits));
            }
            v
        }
    }
    fn below(&mut self, n: usize) -> usize {
        let v: usize = kani::any();
        kani::assume(v < n);
        v
    }
}

#[cfg(not(kani))]
pub use native::*;

#[cfg(not(kani))]
mod native {
    use super::*;
    use std::cell::RefCell;
    use std::collections::{BTreeMap, HashSet};
    use std::panic::{AssertUnwindSafe, catch_unwind};
    use std::sync::Mutex;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
    use std::time::{Duration, Instant};

    #[derive(Clone)]
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn next128(&mut self) -> u128 {
            (self.next() as u128) << 64 | self.next() as u128
        }
        pub fn below(&mut self, n: u64) -> u64 {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }

    pub struct NSrc {
        rng: Rng,
        replay: Option<(Vec<u128>, usize)>,
        pub log: Vec<u128>,
        pub index: u64,
        style: u64,
        last: u128,
    }
    impl NSrc {
        pub fn random(seed: u64, index: u64) -> Self {
            let mut rng = Rng(seed ^ index.wrapping_mul(0xD1342543DE82EF95));
            rng.next();
            let style = rng.below(4);
            NSrc { rng, replay: None, log: vec![], index, style, last: 0 }
        }
        pub fn replay(words: Vec<u128>, index: u64) -> Self {
            NSrc { rng: Rng(1), replay: Some((words, 0)), log: vec![], index, style: 0, last: 0 }
        }
        fn raw(&mut self) -> Option<u128> {
            let (w, p) = self.replay.as_mut()?;
            let v = w.get(*p).copied().unwrap_or(0);
            *p += 1;
            Some(v)
        }
    }
    fn mask(bits: u32) -> u128 {
        if bits >= 128 { !0 } else { (1u128 << bits) - 1 }
    }
    impl Src for NSrc {
        fn index(&self) -> u64 {
            self.index
        }
        fn word(&mut self, bits: u32) -> u128 {
            if let Some(v) = self.raw() {
                let v = v & mask(bits);
                self.log.push(v);
                return v;
            }
            let r = self.rng.next();
            // style 0,1: uniform; 2: mixed; 3: heavily structured
            let structured = match self.style {
                0 | 1 => false,
                2 => r % 4 == 0,
                _ => r % 8 != 0,
            };
            let v = if !structured || bits <= 2 {
                self.rng.next128()
            } else {
                match (r >> 8) % 16 {
                    9 => {
                        // both halves equal (recursively at a random level)
                        let mut w = 1 + self.rng.below(bits as u64) as u32;
                        w = w.next_power_of_two().min(64);
                        let mut v = self.rng.next128() & mask(w);
                        while w < 128 {
                            v |= v << w;
                            w *= 2;
                        }
                        v
                    }
                    10 => self.last ^ 1,
                    11 => !self.last,
                    12 => self.last ^ (1u128 << (self.rng.below(bits as u64) as u32)),
                    13 => [0x5555_5555_5555_5555_5555_5555_5555_5555u128, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa, 0x0f0f_0f0f_0f0f_0f0f_0f0f_0f0f_0f0f_0f0f, 0x00ff_00ff_00ff_00ff_00ff_00ff_00ff_00ff][self.rng.below(4) as usize],
                    14 => {
                        // only one aligned power-of-two block non-zero
                        let l = self.rng.below(7) as u32;
                        let w = 1u32 << l;
                        let k = self.rng.below((128 / w) as u64) as u32;
                        let b = if self.rng.next() & 1 == 0 { mask(w) } else { self.rng.next128() & mask(w) };
                        b << (w * k) % bits.max(1)
                    }
                    15 => self.last.wrapping_add(1),
                    0 | 1 => 0,
                    2 => 1,
                    3 => !0,
                    4 => 1u128 << (self.rng.below(bits as u64) as u32),
                    5 => self.rng.below(16) as u128,
                    6 => {
                        let h = self.rng.below(bits as u64) as u32;
                        self.rng.next128() & mask(h)
                    }
                    7 => self.last,
                    _ => {
                        let h = self.rng.below(bits as u64) as u32;
                        self.rng.next128() << h
                    }
                }
            } & mask(bits);
            self.last = v;
            self.log.push(v);
            v
        }
        fn below(&mut self, n: usize) -> usize {
            assert!(n > 0);
            if let Some(v) = self.raw() {
                let v = v % n as u128;
                self.log.push(v);
                return v as usize;
            }
            let r = self.rng.next();
            let v = match r % 8 {
                0 => 0,
                1 => n as u64 - 1,
                _ => self.rng.below(n as u64),
            };
            self.log.push(v as u128);
            v as usize
        }
    }

    /// Deterministic rand-compatible generator seeded from the source.
    pub fn rng_of(s: &mut impl Src) -> rand::rngs::StdRng {
        use rand::SeedableRng;
        rand::rngs::StdRng::seed_from_u64(s.u64())
    }

    thread_local! {
        static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
        static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    static PANIC_ANY: Mutex<Option<String>> = Mutex::new(None);

    /// Runs code of the repository that may legitimately panic; None if it did.
    pub fn catches<T>(f: impl FnOnce() -> T) -> Option<T> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }

    /// Where and why the last call under `catches` panicked.
    pub fn last_panic() -> String {
        PANIC.with(|p| p.borrow_mut().take()).or_else(|| PANIC_ANY.lock().unwrap().take()).unwrap_or_default()
    }

    pub fn run_case(f: &(dyn Fn(&mut NSrc) -> R + Sync), s: &mut NSrc) -> R {
        PANIC.with(|p| *p.borrow_mut() = None);
        match catch_unwind(AssertUnwindSafe(|| f(s))) {
            Ok(r) => r,
            Err(_) => {
                let d = PANIC
                    .with(|p| p.borrow_mut().take())
                    .or_else(|| PANIC_ANY.lock().unwrap().take())
                    .unwrap_or_default();
                Err(Stop::Violated { obligation: "panic-free".into(), detail: d })
            }
        }
    }

    pub struct Contract {
        name: String,
        /// functions of /repo under this contract
        covers: String,
        bound: String,
        cases: u64,
        exhaustive: bool,
        f: Box<dyn Fn(&mut NSrc) -> R + Sync + Send>,
        /// always evaluated, whatever the time budget
        min_cases: u64,
    }
    #[derive(Default)]
    struct Stat {
        evals: AtomicU64,
        vacuous: AtomicU64,
        stop: AtomicBool,
        distinct: Mutex<HashSet<u64>>,
        sample: Mutex<Option<String>>,
        viol: Mutex<Option<(u64, Vec<u128>, String, String)>>,
        nanos: AtomicU64,
    }

    pub struct Runner {
        prop: String,
        pub thorough: bool,
        seed: u64,
        out: Option<String>,
        only: Option<String>,
        replay: Option<(String, u64, Vec<u128>)>,
        list: Vec<Contract>,
        budget: f64,
        obls: Vec<(String, String, String, String)>,
        list_only: bool,
        names_only: bool,
        exact: Option<String>,
    }

    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o
    }
    fn hash(words: &[u128], index: u64) -> u64 {
        let mut h = index ^ 0x1234567;
        for w in words {
            h = (h ^ (*w as u64) ^ ((*w >> 64) as u64).rotate_left(17)).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        h
    }

    impl Runner {
        pub fn from_args(prop: &str) -> Self {
            let mut r = Runner {
                prop: prop.into(),
                thorough: false,
                seed: 1,
                out: None,
                only: None,
                replay: None,
                list: vec![],
                budget: 25.0,
                obls: vec![],
                list_only: false,
                names_only: false,
                exact: None,
            };
            let mut a = std::env::args().skip(1);
            while let Some(x) = a.next() {
                match x.as_str() {
                    "--thorough" => r.thorough = true,
                    "--seed" => r.seed = a.next().unwrap().parse().unwrap_or(1),
                    "--budget" => r.budget = a.next().unwrap().parse().unwrap(),
                    "--out" => r.out = a.next(),
                    "--only" => r.only = a.next(),
                    "--list" => r.list_only = true,
                    "--names" => r.names_only = true,
                    "--exact" => r.exact = a.next(),
                    // --replay NAME INDEX hexword,hexword,...
                    "--replay" => {
                        let n = a.next().unwrap();
                        let i = a.next().unwrap().parse().unwrap();
                        let w = a.next().unwrap_or_default();
                        let w = w
                            .split(',')
                            .filter(|s| !s.is_empty())
                            .map(|s| u128::from_str_radix(s, 16).unwrap())
                            .collect();
                        r.replay = Some((n, i, w));
                    }
                    _ => panic!("unknown argument {x}"),
                }
            }
            r
        }
        fn push(&mut self, name: &str, covers: &str, bound: &str, cases: u64, exhaustive: bool, f: impl Fn(&mut NSrc) -> R + Sync + Send + 'static) {
            if let Some(o) = &self.only {
                if !name.contains(o.as_str()) {
                    return;
                }
            }
            if let Some(o) = &self.exact {
                if name != o {
                    return;
                }
            }
            assert!(self.list.iter().all(|c| c.name != name), "duplicate contract {name}");
            self.list.push(Contract { name: name.into(), covers: covers.into(), bound: bound.into(), cases, exhaustive, min_cases: if exhaustive { cases } else { cases.div_ceil(8) }, f: Box::new(f) });
        }
        /// Sampled (bounded) evaluation of a contract; `cases` in the quick tier, times 20 in the thorough one.
        pub fn sampled(&mut self, name: &str, covers: &str, cases: u64, f: impl Fn(&mut NSrc) -> R + Sync + Send + 'static) {
            let n = if self.thorough { cases * 4 } else { cases };
            self.push(name, covers, "sampled", n, false, f)
        }
        /// Native twin of a Kani obligation.
        pub fn obligation(&mut self, name: &str, tier: &str, label: &str, covers: &str, f: impl Fn(&mut NSrc) -> R + Sync + Send + 'static) {
            self.obls.push((name.into(), tier.into(), label.into(), covers.into()));
            self.push(name, covers, "native twin of a deductive obligation", 200, false, f)
        }
        /// Complete enumeration of a finite domain: the contract is evaluated at every index below n.
        pub fn exhaustive(&mut self, name: &str, covers: &str, domain: &str, n: u64, f: impl Fn(&mut NSrc) -> R + Sync + Send + 'static) {
            self.push(name, covers, domain, n, true, f)
        }
        pub fn finish(self) -> ! {
            if self.names_only {
                self.list.iter().for_each(|c| println!("{}", c.name));
                std::process::exit(0);
            }
            if self.list_only {
                let v: Vec<String> = self.obls.iter().map(|(a, b, c, d)| format!("{{\"name\":\"{a}\",\"tier\":\"{b}\",\"label\":\"{}\",\"covers\":\"{}\"}}", esc(c), esc(d))).collect();
                println!("[{}]", v.join(",\n"));
                std::process::exit(0);
            }
            std::panic::set_hook(Box::new(|info| {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let msg = info
                    .payload()
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let d = format!("panicked at {loc}: {msg}");
                PANIC.with(|p| *p.borrow_mut() = Some(d.clone()));
                if std::env::var_os("CONTRACTS_TRACE").is_some() {
                    eprintln!("{d}");
                }
                if let Ok(mut g) = PANIC_ANY.lock() {
                    *g = Some(d);
                }
            }));
            if let Some((n, i, w)) = &self.replay {
                let Some(c) = self.list.iter().find(|c| &c.name == n) else {
                    println!("no contract named {n}");
                    std::process::exit(2);
                };
                let mut s = NSrc::replay(w.clone(), *i);
                match run_case(&*c.f, &mut s) {
                    Ok(()) => {
                        println!("REPLAY {n}: contract holds");
                        std::process::exit(0);
                    }
                    Err(Stop::Vacuous) => {
                        println!("REPLAY {n}: precondition not met");
                        std::process::exit(3);
                    }
                    Err(Stop::Violated { obligation, detail }) => {
                        println!("REPLAY {n}: VIOLATED obligation '{obligation}': {detail}");
                        std::process::exit(1);
                    }
                }
            }
            let t0 = Instant::now();
            let deadline = t0 + Duration::from_secs_f64(self.budget);
            let stats: Vec<Stat> = self.list.iter().map(|_| Stat::default()).collect();
            // Work items: blocks of cases, round robin over the contracts so that every contract gets its share.
            let mut items: Vec<(usize, u64, u64)> = vec![];
            let blocks = 32u64;
            let passes = if self.thorough { 200u64 } else { 40 };
            let mut pass_items: Vec<(usize, u64, u64)> = vec![];
            for b in 0..blocks {
                for (k, c) in self.list.iter().enumerate() {
                    let lo = c.cases * b / blocks;
                    let hi = c.cases * (b + 1) / blocks;
                    if hi > lo {
                        items.push((k, lo, hi));
                        if !c.exhaustive {
                            pass_items.push((k, lo, hi));
                        }
                    }
                }
            }
            // further passes over the sampled contracts while the time budget lasts
            for p in 1..passes {
                for &(k, lo, hi) in &pass_items {
                    let n = self.list[k].cases;
                    items.push((k, p * n + lo, p * n + hi));
                }
            }
            let next = AtomicUsize::new(0);
            let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
            let names: BTreeMap<usize, u64> = self
                .list
                .iter()
                .enumerate()
                .map(|(k, c)| (k, c.name.bytes().fold(self.seed.wrapping_mul(0x9E37), |h, b| (h ^ b as u64).wrapping_mul(0x100000001B3))))
                .collect();
            std::thread::scope(|sc| {
                for _ in 0..nthreads {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, || {
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                let Some(&(k, lo, hi)) = items.get(i) else { break };
                                let (c, st) = (&self.list[k], &stats[k]);
                                let mut local = Vec::new();
                                let tb = Instant::now();
                                for idx in lo..hi {
                                    if st.stop.load(Ordering::Relaxed) || (Instant::now() > deadline && idx >= c.min_cases) {
                                        break;
                                    }
                                    let mut s = NSrc::random(names[&k], idx);
                                    let r = run_case(&*c.f, &mut s);
                                    st.evals.fetch_add(1, Ordering::Relaxed);
                                    if c.exhaustive || local.len() < 4096 {
                                        local.push(hash(&s.log, if c.exhaustive { idx } else { 0 }));
                                    }
                                    match r {
                                        Ok(()) => {
                                            if idx == lo && lo == 0 {
                                                let v: Vec<String> = s.log.iter().take(8).map(|w| format!("{w:x}")).collect();
                                                *st.sample.lock().unwrap() = Some(format!("{} index={} words={}", c.name, idx, v.join(",")));
                                            }
                                        }
                                        Err(Stop::Vacuous) => {
                                            st.vacuous.fetch_add(1, Ordering::Relaxed);
                                            local.pop();
                                        }
                                        Err(Stop::Violated { obligation, detail }) => {
                                            st.stop.store(true, Ordering::Relaxed);
                                            let mut best = (idx, s.log.clone(), obligation, detail);
                                            if !c.exhaustive {
                                                shrink(&*c.f, &mut best);
                                            }
                                            let mut g = st.viol.lock().unwrap();
                                            if g.is_none() {
                                                *g = Some(best);
                                            }
                                        }
                                    }
                                }
                                st.nanos.fetch_add(tb.elapsed().as_nanos() as u64, Ordering::Relaxed);
                                st.distinct.lock().unwrap().extend(local);
                            }
                        })
                        .unwrap();
                }
            });
            let mut js = String::new();
            js.push_str(&format!("{{\"property\":\"{}\",\"wall\":{:.3},\"contracts\":[", self.prop, t0.elapsed().as_secs_f64()));
            let mut bad = false;
            for (k, (c, st)) in self.list.iter().zip(&stats).enumerate() {
                let ev = st.evals.load(Ordering::Relaxed);
                let vac = st.vacuous.load(Ordering::Relaxed);
                let v = st.viol.lock().unwrap();
                if k > 0 {
                    js.push(',');
                }
                js.push_str(&format!(
                    "\n{{\"name\":\"{}\",\"covers\":\"{}\",\"bound\":\"{}\",\"exhaustive\":{},\"planned\":{},\"evaluations\":{},\"vacuous\":{},\"distinct\":{},\"cpu_s\":{:.2},\"sample\":\"{}\"",
                    esc(&c.name), esc(&c.covers), esc(&c.bound), c.exhaustive && ev == c.cases, c.cases, ev, vac,
                    st.distinct.lock().unwrap().len(), st.nanos.load(Ordering::Relaxed) as f64 / 1e9,
                    esc(st.sample.lock().unwrap().as_deref().unwrap_or(""))
                ));
                if let Some((idx, words, ob, det)) = &*v {
                    bad = true;
                    let w: Vec<String> = words.iter().map(|w| format!("{w:x}")).collect();
                    js.push_str(&format!(",\"violation\":{{\"obligation\":\"{}\",\"detail\":\"{}\",\"index\":{},\"words\":\"{}\"}}", esc(ob), esc(det), idx, w.join(",")));
                    println!("FAILED contract {} obligation '{}' {}", c.name, ob, det);
                }
                js.push('}');
            }
            js.push_str("]}\n");
            if let Some(o) = &self.out {
                std::fs::write(o, &js).unwrap();
            } else {
                print!("{js}");
            }
            std::process::exit(if bad { 1 } else { 0 });
        }
    }

    fn shrink(f: &(dyn Fn(&mut NSrc) -> R + Sync), best: &mut (u64, Vec<u128>, String, String)) {
        let t = Instant::now();
        let mut tries = 0;
        let mut progress = true;
        while progress && tries < 400 {
            progress = false;
            for k in 0..best.1.len().min(64) {
                let Some(&cur) = best.1.get(k) else { break };
                for cand in [0u128, 1, cur >> 64, cur >> 8, cur >> 1] {
                    if best.1.get(k).is_none_or(|v| cand >= *v) || tries >= 400 || t.elapsed().as_secs() > 5 {
                        continue;
                    }
                    tries += 1;
                    let mut w = best.1.clone();
                    w[k] = cand;
                    let mut s = NSrc::replay(w, best.0);
                    if let Err(Stop::Violated { obligation, detail }) = run_case(f, &mut s) {
                        if obligation == best.2 {
                            best.1 = s.log.clone();
                            best.3 = detail;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
}
