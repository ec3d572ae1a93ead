//! The same facts, looked up in all the places of a program from which the library may be called: other threads, threads
//! with little stack, destructors while a panic unwinds, destructors at the end of a thread, in the middle of other work.

use std::{
    cell::RefCell,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{mpsc, Arc, Barrier},
};

use vh::ctx::{guard, Ctx};

/// Facts as numbers, in a fixed order.
pub type Facts = Arc<dyn Fn() -> Vec<u64> + Send + Sync>;
type Got = Result<Vec<u64>, String>;

struct Later<F: FnMut()>(F);
impl<F: FnMut()> Drop for Later<F> {
    fn drop(&mut self) { (self.0)() }
}

struct AtExit(RefCell<Vec<(Facts, mpsc::Sender<Got>)>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        // what guard keeps may be gone already
        for (f, tx) in self.0.take() { let _ = tx.send(catch_unwind(AssertUnwindSafe(|| f())).map_err(|_| "panic".into())); }
    }
}
thread_local! { static EXIT: AtExit = const { AtExit(RefCell::new(vec![])) }; }

/// What each fact is, for the report, comes from `name`.
pub fn everywhere(c: &Ctx, what: &str, f: Facts, name: impl Fn(usize) -> String) {
    let first = match guard(|| f()) { Ok(v) => v, Err(m) => return c.viol(format!("{what}: {m}")) };
    let judge = |place: &str, got: Got| -> bool {
        c.add("places", 1);
        c.add("facts_looked_up_again", first.len() as u64);
        match got {
            Ok(v) if v == first => true,
            Ok(v) => {
                let i = (0..first.len()).find(|&i| v.get(i) != Some(&first[i])).unwrap_or(0);
                c.viol(format!("{what} {place}: {} is not what it was elsewhere ({:x?} and {:x?})", name(i), v.get(i), first.get(i)));
                false
            }
            Err(m) => { c.viol(format!("{what} {place}: {m}")); false }
        }
    };
    // other threads, all at once and one after another, with names and little stack
    for round in 0..3 {
        let go = Arc::new(Barrier::new(8));
        let all: Vec<_> = (0..8).map(|t| {
            let (f, go) = (f.clone(), go.clone());
            let mut b = std::thread::Builder::new();
            if t % 2 == 1 { b = b.name(format!("worker {t}")) }
            if t % 4 == 2 { b = b.stack_size(256 << 10) }
            b.spawn(move || { go.wait(); (guard(|| f()), guard(|| f())) })
        }).collect();
        for h in all {
            let Ok(h) = h else { return c.inconclusive("no thread") };
            let Ok((a, b)) = h.join() else { return c.viol(format!("{what} in another thread: it died")) };
            if !judge("in another thread", a) || !judge("a second time in another thread", b) { return }
        }
        let one = { let f = f.clone(); std::thread::spawn(move || guard(|| f())).join() };
        if !judge(&format!("in a later thread ({round})"), one.unwrap_or_else(|_| Err("the thread died".into()))) { return }
    }
    // while a panic unwinds, here and in a thread that dies of it
    let out = RefCell::new(None);
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _d = Later(|| *out.borrow_mut() = Some(guard(|| f())));
        resume_unwind(Box::new("on purpose"))
    }));
    if !judge("while a panic unwinds", out.take().unwrap_or_else(|| Err("the destructor did not run".into()))) { return }
    let (tx, rx) = mpsc::channel();
    let g = f.clone();
    let _ = std::thread::spawn(move || {
        let _d = Later(|| { let _ = tx.send(guard(|| g())); });
        resume_unwind(Box::new("on purpose"))
    }).join();
    if !judge("in a thread that dies of a panic", rx.recv().unwrap_or_else(|_| Err("the destructor did not run".into()))) { return }
    if !judge("after panics", guard(|| f())) { return }
    // at the end of a thread, in either order with what the library may keep there, and with nothing used before
    for way in 0..3 {
        let (tx, rx) = mpsc::channel();
        let g = f.clone();
        let r = std::thread::spawn(move || {
            if way > 0 { EXIT.with(|e| e.0.borrow_mut().push((g.clone(), tx.clone()))) }
            let r = if way < 2 { guard(|| g()) } else { Ok(vec![]) };
            if way == 0 { EXIT.with(|e| e.0.borrow_mut().push((g, tx))) }
            r
        }).join();
        match r { Ok(Ok(_)) => {} x => return c.viol(format!("{what} in a thread: {x:?}")) }
        if !judge("at the end of a thread", rx.recv().unwrap_or_else(|_| Err("the destructor did not run".into()))) { return }
    }
    // again and again
    for i in 0..c.n(3000, 300) {
        if !judge(&format!("when looked up for the {}th time", i + 2), guard(|| f())) { return }
    }
    c.distinct_n(first.len() as u64);
    c.min("places", 100);
}

/// Equality of hashes by a hasher with fixed keys and by one that keeps all it is given.
pub fn hashes<T: std::hash::Hash>(x: &T) -> [u64; 2] {
    use std::hash::Hasher;
    struct Keeps(u64);
    impl Hasher for Keeps {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { for x in b { self.0 = vh::rng::mix(self.0 ^ *x as u64 ^ 0x100) } }
    }
    let (mut a, mut b) = (std::collections::hash_map::DefaultHasher::new(), Keeps(3));
    x.hash(&mut a);
    x.hash(&mut b);
    [a.finish(), b.finish()]
}

pub fn text(x: &impl std::fmt::Display) -> u64 { x.to_string().bytes().fold(11, |a, b| vh::rng::mix(a ^ (b as u64 + 1))) }
