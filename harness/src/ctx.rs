//! Run context: counters, samples, verdicts, watchdog, parallel loops.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*},
        Arc, Mutex,
    },
};

use poker::{Card, Eval, EvalError, Evaluator};

pub struct Slot {
    ops: AtomicU64,
    ptr: AtomicUsize,
    len: AtomicUsize,
    // library calls under way, one inside the other
    busy: AtomicU32,
    // the watchdog's: calls so far and CPU time when it looked last
    mark: (AtomicU64, AtomicU64),
    stat: String,
}

impl Slot {
    // only ever called by the thread that owns the slot
    #[inline]
    fn enter(&self) { self.busy.store(self.busy.load(Relaxed) + 1, Relaxed) }
    #[inline]
    fn leave(&self) { self.busy.store(self.busy.load(Relaxed) - 1, Relaxed) }
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

fn new_slot() -> Arc<Slot> {
    let stat = if cfg!(miri) { String::new() } else { std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}/stat", p.display())).unwrap_or_default() };
    let s = Arc::new(Slot {
        ops: AtomicU64::new(0),
        ptr: AtomicUsize::new(0),
        len: AtomicUsize::new(0),
        busy: AtomicU32::new(0),
        mark: (AtomicU64::new(u64::MAX), AtomicU64::new(0)),
        stat,
    });
    if !cfg!(miri) {
        SLOTS.lock().unwrap().push(s.clone());
    }
    s
}

thread_local! {
    static SLOT: Arc<Slot> = new_slot();
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn cpu_ticks(stat: &str) -> Option<u64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

extern "C" {
    // Without handlers or destructors: a hung thread may hold anything.
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

/// Thread numbers with their CPU times, if every thread but `own` is asleep.
fn threads_asleep(own: &str) -> Option<Vec<(String, u64)>> {
    let mut v = vec![];
    for d in std::fs::read_dir("/proc/self/task").ok()? {
        let id = d.ok()?.file_name().to_str()?.to_string();
        if id == own { continue }
        let f = format!("/proc/self/task/{id}/stat");
        let s = std::fs::read_to_string(&f).ok()?;
        if s.rsplit_once(')')?.1.split_whitespace().next()? != "S" { return None }
        v.push((id, cpu_ticks(&f)?));
    }
    v.sort();
    Some(v)
}

/// Runs code under test; Err holds the panic message.
#[inline]
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    SLOT.with(|s| {
        s.ops.fetch_add(1, Relaxed);
        s.enter();
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    SLOT.with(|s| s.leave());
    r.map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

#[inline]
pub fn eval(ev: &Evaluator, cards: &[Card]) -> Result<Result<Eval, EvalError>, String> {
    SLOT.with(|s| {
        s.ops.fetch_add(1, Relaxed);
        s.ptr.store(cards.as_ptr() as usize, Relaxed);
        s.len.store(cards.len(), Relaxed);
        s.enter();
    });
    let r = catch_unwind(AssertUnwindSafe(|| ev.evaluate(cards)));
    SLOT.with(|s| {
        s.leave();
        s.len.store(0, Relaxed);
    });
    r.map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub sanitized: bool,
    pub threads: usize,
    pub scale: u8,
    counts: Mutex<BTreeMap<String, u64>>,
    mins: Mutex<Vec<(String, u64)>>,
    viols: AtomicUsize,
    samples: Mutex<BTreeMap<String, usize>>,
    bits: Vec<AtomicU64>,
    distinct: AtomicU64,
}

const BITS: usize = 1 << 27;

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        std::panic::set_hook(Box::new(|i| {
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let busy = SLOT.try_with(|s| s.busy.load(Relaxed) > 0).unwrap_or(false);
            if !busy {
                eprintln!("HARNESS PANIC {msg} at {at}");
            }
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
        }));
        let n = if cfg!(miri) { 1 << 12 } else { BITS };
        Ctx {
            seed,
            thorough,
            sanitized: std::env::var_os("VH_SAN").is_some() || !crate::ev::SHARED,
            threads: std::env::var("VH_THREADS")
                .ok()
                .and_then(|x| x.parse().ok())
                .or((!crate::ev::SHARED).then_some(1))
                .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get())),
            scale: std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            counts: Default::default(),
            mins: Default::default(),
            viols: AtomicUsize::new(0),
            samples: Default::default(),
            bits: (0..n / 64).map(|_| AtomicU64::new(0)).collect(),
            distinct: AtomicU64::new(0),
        }
    }

    /// Counts a case as distinct if its hash was not seen yet (a lower bound: collisions are not counted).
    #[inline]
    pub fn distinct(&self, h: u64) {
        let h = crate::rng::mix(h ^ 0x5bd1e995) as usize % (self.bits.len() * 64);
        let b = 1u64 << (h & 63);
        let w = &self.bits[h >> 6];
        if w.load(Relaxed) & b == 0 && w.fetch_or(b, Relaxed) & b == 0 {
            self.distinct.fetch_add(1, Relaxed);
        }
    }
    /// For enumerations that are distinct by construction.
    pub fn distinct_n(&self, n: u64) { self.distinct.fetch_add(n, Relaxed); }
    pub fn add(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn min(&self, k: &str, n: u64) { self.mins.lock().unwrap().push((k.into(), n)); }
    pub fn violations(&self) -> usize { self.viols.load(Relaxed) }
    pub fn stop(&self) -> bool { self.viols.load(Relaxed) >= 10 }
    pub fn viol(&self, msg: impl AsRef<str>) {
        if self.viols.fetch_add(1, SeqCst) < 10 {
            let mut o = std::io::stdout().lock();
            let _ = writeln!(o, "VIOL {}", msg.as_ref().replace('\n', "\\n"));
            let _ = o.flush();
        }
    }
    pub fn inconclusive(&self, msg: impl AsRef<str>) {
        println!("INCONCLUSIVE {}", msg.as_ref().replace('\n', "\\n"));
    }
    /// How much to do: in the thorough tier, in the quick one (times VH_SCALE); an eighth of it under a sanitizer.
    pub fn n<T: Copy + PartialOrd + std::ops::Div<Output = T> + std::ops::Mul<Output = T> + From<u8>>(&self, thorough: T, quick: T) -> T {
        let more = quick * T::from(self.scale);
        let n = if self.thorough || (self.scale > 1 && more > thorough) { thorough } else { more };
        if self.sanitized && n >= T::from(80u8) { n / T::from(8u8) } else { n }
    }
    /// Up to four samples per kind.
    pub fn sample(&self, kind: &str, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        let n = s.entry(kind.into()).or_insert(0);
        if *n < 3 {
            *n += 1;
            println!("SAMPLE {kind}: {}", f().replace('\n', "\\n"));
        }
    }
    pub fn finish(&self) {
        let c = self.counts.lock().unwrap();
        for (k, m) in self.mins.lock().unwrap().iter() {
            let got = c.get(k).copied().unwrap_or(0);
            if got < *m && self.violations() == 0 && !self.sanitized {
                self.inconclusive(format!("only {got} {k} observed, at least {m} needed"));
            }
        }
        for (k, v) in c.iter() {
            println!("STAT {k} {v}");
        }
        println!("STAT distinct {}", self.distinct.load(Relaxed));
        println!("STAT violations {}", self.violations());
        println!("DONE");
    }

    /// Starts the watchdog: calls that burn CPU time without end, and calls that wait for each other, or themselves, for ever.
    pub fn watchdog(self: &Arc<Self>, limit_s: u64) {
        let me = self.clone();
        std::thread::spawn(move || {
            let own = std::fs::read_link("/proc/thread-self").ok().and_then(|p| Some(p.file_name()?.to_str()?.to_string())).unwrap_or_default();
            let (mut still, mut state) = (0, vec![]);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let slots: Vec<_> = {
                    let mut s = SLOTS.lock().unwrap();
                    s.retain(|s| Arc::strong_count(s) > 1);
                    s.clone()
                };
                let mut busy = None;
                for s in &slots {
                    let ops = s.ops.load(Relaxed);
                    let Some(t) = cpu_ticks(&s.stat) else { continue };
                    if s.busy.load(Relaxed) == 0 || s.mark.0.load(Relaxed) != ops {
                        s.mark.0.store(ops, Relaxed);
                        s.mark.1.store(t, Relaxed);
                        continue;
                    }
                    busy = Some(s);
                    if t - s.mark.1.load(Relaxed) > limit_s * 100 {
                        me.hung(s, &format!("did not return within {limit_s} s of CPU time of its own thread"));
                    }
                }
                // Every other thread of the process sleeps and has not had any CPU time since the last look: nobody is left
                // to wake up the call that is under way. (A slow or loaded machine shows as threads that want to run.)
                let now = busy.and_then(|_| threads_asleep(&own));
                still = if now.is_some() && now.as_ref() == Some(&state) { still + 1 } else { 0 };
                state = now.unwrap_or_default();
                if let (true, Some(s)) = (still >= 30, busy) {
                    me.hung(s, "waits for ever: all threads of the process have been asleep for 30 s");
                }
            }
        });
    }
    fn hung(&self, s: &Slot, how: &str) {
        let len = s.len.load(Relaxed);
        let txt = if len > 0 && len < 1000 {
            // The call is still running, so the slice it was given is alive.
            let v = unsafe { std::slice::from_raw_parts(s.ptr.load(Relaxed) as *const Card, len) }.to_vec();
            format!("evaluating {}", crate::cards_txt(&v))
        } else {
            "a library call".into()
        };
        self.viol(format!("{txt} {how}"));
        println!("STAT violations {}", self.violations());
        println!("DONE");
        let _ = std::io::stdout().flush();
        unsafe { libc_exit(0) }
    }

    /// Work-stealing loop over 0..n; stops early once enough violations are known.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || self.stop() {
                        break;
                    }
                    f(i);
                });
            }
        });
    }
}

impl Ctx {
    /// A deviation with an exact signature that the list of known findings may name.
    pub fn finding(&self, sig: &str, msg: &str) {
        println!("FIND {sig}\t{}", msg.replace('\n', "\\n"));
    }
}
