//! C06/C28: calls made while other calls of the library are under way in the same thread, calls that the caller's own
//! code (containers, iterators, random sources, sinks, collections) interrupts by a panic, and calls in odd moments
//! of a thread's life.
use std::{
    cell::{Cell, RefCell},
    collections::HashSet,
    fmt::{self, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use poker::{box_cards, card, cards, deck, Card, Eval, EvalError};
use vh::{
    ctx::{guard, Ctx},
    hands::*,
    oracle::*,
    rng::{mix, Rng},
    *,
};

use super::{parse::{message, model, seen, Want}, text::bad_dup_message};
use crate::world;

/// What a run has seen; shared by all nested calls of one thread.
struct Seen {
    bad: RefCell<Option<String>>,
    calls: Cell<u64>,
    deepest: Cell<u64>,
    kinds: RefCell<HashSet<u64>>,
}
impl Seen {
    fn bad(&self, m: String) { let mut b = self.bad.borrow_mut(); if b.is_none() { *b = Some(m) } }
}

/// The marker of a panic of the caller's own.
struct Own;

struct At<'a> {
    w: &'a World,
    s: &'a Seen,
    rng: RefCell<Rng>,
    depth: u64,
    path: u64,
    /// panic at the caller's code when this comes down to 0
    fuse: &'a Cell<u64>,
}

impl<'a> At<'a> {
    fn below(&self, n: usize) -> usize { self.rng.borrow_mut().below(n) }
    fn chance(&self, a: u64, b: u64) -> bool { self.rng.borrow_mut().next() % b < a }
    /// One more level down, unless deep enough already.
    fn inside(&self) {
        let f = self.fuse.get();
        if f > 0 {
            self.fuse.set(f - 1);
            if f == 1 { std::panic::panic_any(Own) }
        }
        if self.depth >= 3 || !self.chance(2, 3) { return }
        let seed = self.rng.borrow_mut().next();
        let kind = self.below(KINDS);
        let at = At { w: self.w, s: self.s, rng: RefCell::new(Rng::new(seed)), depth: self.depth + 1, path: mix(self.path ^ (kind as u64 + 1)), fuse: self.fuse };
        at.call(kind);
    }
    fn call(&self, kind: usize) {
        self.s.calls.set(self.s.calls.get() + 1);
        self.s.deepest.set(self.s.deepest.get().max(self.depth));
        self.s.kinds.borrow_mut().insert(self.path);
        if let Some(m) = self.kind(kind) { self.s.bad(format!("{m} ({} calls deep)", self.depth + 1)) }
    }
    fn some(&self) -> Vec<u8> {
        let mut rng = self.rng.borrow_mut();
        match rng.below(6) {
            0 => { let n = rng.below(9); rng.deal(n) }
            1 => (0..rng.below(8)).map(|_| rng.below(13) as u8 * 4).collect(),
            2 => { let i = rng.below(7462); realise(&self.w.o.patterns[i], &mut rng).to_vec() }
            3 => { let n = 5 + rng.below(4); rng.deal(n) }
            4 => { let h = rng.below(7462); canonical(&self.w.o.patterns[h]).to_vec() }
            _ => rng.deal(5),
        }
    }
    fn kind(&self, kind: usize) -> Option<String> {
        match kind {
            // a container that evaluates other hands when it is asked for its cards
            0..=2 => {
                let ids = self.some();
                let own;
                let ev = match self.below(8) { 0 => { own = Evaluator::new(); &own } 1 => { own = self.w.ev.clone(); &own } _ => &self.w.ev };
                let r = ev.evaluate(Hand { at: self, cards: self.w.c(&ids), times: Cell::new(0) });
                self.judge(&ids, r)
            }
            // a source of texts that parses others, step by step or all at once
            3 | 4 => {
                let n = self.below(8);
                let txt: Vec<String> = (0..n).map(|_| if self.chance(9, 10) { card_str(self.below(52) as u8) } else { ["Zz", "é", "Aé", "", "10c", "K♠"][self.below(6)].into() }).collect();
                let want: Vec<Want> = txt.iter().map(|t| model(t)).collect();
                let src = txt.iter().map(|t| Text { at: self, t });
                if self.chance(1, 2) {
                    let mut got = vec![];
                    for r in Card::parse_to_iter(src) { self.inside(); got.push(seen(&r)) }
                    (got != want).then(|| format!("parsing {txt:?} gave {got:?}"))
                } else {
                    let r = Card::parse_to_iter(src).try_collect::<Bag>();
                    let ok = match (want.iter().find(|x| !matches!(x, Want::Card(_))), &r) {
                        (Some(e), Err(x)) => seen(&Err(x.clone())) == *e,
                        (None, Ok(b)) => b.0.iter().map(|&x| Want::Card(no(x))).collect::<Vec<_>>() == want,
                        _ => false,
                    };
                    (!ok).then(|| format!("collecting {txt:?} gave {:?}", r.map(|b| cards_txt(&b.0))))
                }
            }
            // printing into a sink that prints other things
            5 | 6 => {
                let x = self.below(52) as u8;
                let o = self.below(7462);
                let ids = { let k = self.below(7); (0..k).map(|_| self.below(52) as u8).collect::<Vec<u8>>() };
                let t = ["Zz", "é", "Aé", "", "10c", "K♠"][self.below(6)];
                let mut s = Sink { at: self, text: String::new(), room: usize::MAX };
                let limited = self.chance(1, 4);
                if limited { s.room = self.below(40) }
                let (r, want): (fmt::Result, Result<String, &[u8]>) = match self.below(7) {
                    0 => (write!(s, "{}", self.w.cards[x as usize]), Ok(format!("[ {}{} ]", RANK_CHARS[rank_of(x) as usize], SUIT_SYMBOLS[suit_of(x) as usize]))),
                    1 => (write!(s, "{}", self.w.reps[o]), Ok(key_name(self.w.o.keys[o]))),
                    2 => (write!(s, "{}", self.w.reps[o].class()), Ok(key_name(self.w.o.keys[o]))),
                    3 => (write!(s, "{}", EvalError::CardsNotUnique(self.w.c(&ids))), Err(&ids)),
                    4 => (write!(s, "{}", t.parse::<Card>().unwrap_err()), Ok(message(&model(t)))),
                    5 => (write!(s, "{}{}", RANKS[rank_of(x) as usize], SUITS[suit_of(x) as usize]), Ok(format!("{}{}", RANK_CHARS[rank_of(x) as usize], SUIT_SYMBOLS[suit_of(x) as usize]))),
                    _ => (write!(s, "{}", EvalError::InvalidHandSize(o)), Ok(EvalError::InvalidHandSize(o).to_string())),
                };
                let text = s.text;
                match (&want, limited) {
                    (Ok(want), false) => (r.is_err() || text != *want).then(|| format!("printing gave {r:?} {text:?}, expected {want:?}")),
                    (Err(ids), false) => if r.is_err() { Some(format!("printing gave {r:?} {text:?}")) } else { bad_dup_message(ids, &text).map(|m| format!("the error for {} prints {text:?}: {m}", cards_str(ids))) },
                    // a sink that refuses: what arrived is the beginning, and refusal is passed on
                    (Ok(want), true) => (!want.starts_with(&text) || (r.is_ok() && text != *want)).then(|| format!("printing into a full sink gave {r:?} {text:?}, the whole text is {want:?}")),
                    (Err(ids), true) => (r.is_ok() && bad_dup_message(ids, &text).is_some()).then(|| format!("printing into a full sink gave {r:?} {text:?}")),
                }
            }
            // shuffling by a source that itself shuffles and evaluates
            #[cfg(feature = "shuffle")]
            7 => {
                use vh::rngs::{Kind, Source};
                let seed = self.rng.borrow_mut().next();
                let plain = deck::shuffled_with(&mut Source::new(Kind::SplitMix(seed), 1 << 40, 3));
                let mut d = Busy { at: self, src: Source::new(Kind::SplitMix(seed), 1 << 40, 3), n: 0 };
                let got = deck::shuffled_with(&mut d);
                (got != plain).then(|| format!("a shuffle interrupted by other calls gave {}, the same source alone {}", cards_txt(&got), cards_txt(&plain)))
            }
            #[cfg(feature = "shuffle")]
            8 => { let mut n: Vec<u8> = deck::shuffled().iter().map(|&x| no(x)).collect(); n.sort(); (!n.iter().copied().eq(0..52)).then(|| format!("a shuffled deck has {n:?}")) }
            // a deck, with other things done between its cards
            9 => {
                let mut v = vec![];
                let it = deck::generate();
                for x in it { if v.len() % 13 == 5 { self.inside() } v.push(no(x)) }
                v.sort();
                (!v.iter().copied().eq(0..52)).then(|| format!("a deck has {v:?}"))
            }
            // sorting by a comparison that evaluates
            10 => {
                let mut v: Vec<(Eval, usize)> = (0..6).map(|_| { let o = self.below(7462); (self.w.reps[o], o) }).collect();
                v.sort_by(|a, b| { self.inside(); b.0.cmp(&a.0) });
                v.windows(2).any(|p| p[0].1 < p[1].1).then(|| format!("sorted evaluations: {v:?}"))
            }
            // macros over computed pieces
            _ => {
                let (a, b) = (self.below(52) as u8, self.below(52) as u8);
                let j = box_cards!({ self.inside(); [self.w.cards[a as usize]] }, { self.inside(); [self.w.cards[b as usize]] });
                let t = format!("{} {}", card_str(a), card_str(b));
                let v = cards!({ self.inside(); t.as_str() }).try_collect::<Vec<Card>>();
                let k = card!({ self.inside(); card_str(a) });
                (j.iter().map(|&x| no(x)).ne([a, b]) || v.as_deref() != Ok(&j[..]) || k != Ok(j[0])).then(|| format!("{t} joined, listed and alone: {} {v:?} {k:?}", cards_txt(&j)))
            }
        }
    }
    fn judge(&self, ids: &[u8], r: Result<Eval, EvalError>) -> Option<String> {
        let mut m = 0u64;
        let dup = ids.iter().any(|&x| { let d = m >> x & 1 == 1; m |= 1 << x; d });
        match r {
            Ok(_) if !dup && ids.len() >= 5 => self.w.judge(ids, &Ok(r)),
            Err(EvalError::CardsNotUnique(ref v)) if dup && v.iter().map(|&x| no(x)).eq(ids.iter().copied()) => None,
            Err(EvalError::InvalidHandSize(n)) if !dup && n == ids.len() && n < 5 => None,
            r => Some(format!("evaluate({}) gave {r:?}", cards_str(ids))),
        }
    }
}
const KINDS: usize = 12;

struct Hand<'a, 'b> { at: &'b At<'a>, cards: Vec<Card>, times: Cell<u32> }
impl AsRef<[Card]> for Hand<'_, '_> {
    fn as_ref(&self) -> &[Card] {
        if self.times.get() < 2 { self.times.set(self.times.get() + 1); self.at.inside() }
        &self.cards
    }
}
struct Text<'a, 'b> { at: &'b At<'a>, t: &'b str }
impl AsRef<str> for Text<'_, '_> {
    fn as_ref(&self) -> &str { self.at.inside(); self.t }
}
/// A collection that parses and evaluates while it is being filled.
struct Bag(Vec<Card>);
impl FromIterator<Card> for Bag {
    fn from_iter<I: IntoIterator<Item = Card>>(i: I) -> Self {
        let mut v = vec![];
        for x in i {
            if v.len() == 2 { let k: Result<Vec<Card>, _> = cards!("2c 3d xx").try_collect(); assert!(k.is_err()) }
            v.push(x)
        }
        Bag(v)
    }
}
struct Sink<'a, 'b> { at: &'b At<'a>, text: String, room: usize }
impl Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.at.inside();
        if s.len() > self.room { return Err(fmt::Error) }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
#[cfg(feature = "shuffle")]
struct Busy<'a, 'b> { at: &'b At<'a>, src: vh::rngs::Source, n: u32 }
#[cfg(feature = "shuffle")]
impl rand::RngCore for Busy<'_, '_> {
    fn next_u32(&mut self) -> u32 { self.n += 1; if self.n % 17 == 3 { self.at.inside() } self.src.next_u32() }
    fn next_u64(&mut self) -> u64 { self.n += 1; if self.n % 17 == 3 { self.at.inside() } self.src.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.src.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.src.fill_bytes(d); Ok(()) }
}

/// Everything once, judged: nothing that happened before may show.
fn all_well(w: &World, rng: &mut Rng, shuffles: bool) -> Option<String> {
    let s = Seen { bad: Default::default(), calls: Cell::new(0), deepest: Cell::new(0), kinds: Default::default() };
    let fuse = Cell::new(0);
    for kind in 0..KINDS {
        if kind == 8 && !shuffles { continue }
        let at = At { w, s: &s, rng: RefCell::new(Rng::new(rng.next())), depth: 3, path: 0, fuse: &fuse };
        at.call(kind);
    }
    // every operation of the public interface, in some order, at least once
    let mut st = super::api::State::default();
    let mut ops: Vec<usize> = (0..super::api::OPS).chain(0..super::api::OPS).collect();
    rng.shuffle(&mut ops);
    let made: [usize; 8] = [0, 1, 12, 20, 31, 33, 39, 40];
    for op in made.into_iter().chain(ops) {
        // (the last operation shuffles)
        if op + 1 == super::api::OPS && !shuffles { continue }
        if let Err(m) = super::api::step(w, &mut st, op, rng) { s.bad(m) }
    }
    s.bad.into_inner()
}

struct OnDrop<'a> { w: &'a World, seed: u64, out: &'a RefCell<Option<String>>, ran: &'a Cell<u64> }
impl Drop for OnDrop<'_> {
    fn drop(&mut self) {
        self.ran.set(self.ran.get() + 1);
        let m = catch_unwind(AssertUnwindSafe(|| all_well(self.w, &mut Rng::new(self.seed), true))).unwrap_or_else(|_| Some("a call panicked".into()));
        if m.is_some() { *self.out.borrow_mut() = m }
    }
}

/// Uses the library when its thread is over and thread-local values are destroyed.
struct AtExit(RefCell<Option<(&'static World, u64, std::sync::mpsc::Sender<Option<String>>)>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some((w, seed, tx)) = self.0.take() {
            // the default random source of the rand crate is itself a thread-local value: no shuffling by it here
            let m = catch_unwind(AssertUnwindSafe(|| all_well(w, &mut Rng::new(seed), false))).unwrap_or_else(|_| Some("a call panicked".into()));
            let _ = tx.send(m);
        }
    }
}
thread_local! { static EXIT: AtExit = const { AtExit(RefCell::new(None)) }; }

pub fn nested(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    // threads outlive scopes here
    static HELD: std::sync::atomic::AtomicPtr<World> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
    let w: &'static World = Box::leak(Box::new(w));
    HELD.store(w as *const World as *mut World, std::sync::atomic::Ordering::SeqCst); // no leak
    std::hint::black_box(&HELD);
    let prev = std::panic::take_hook();
    // the caller's own panics are not reported
    std::panic::set_hook(Box::new(move |i| if !i.payload().is::<Own>() { prev(i) }));
    let tasks = c.n(2000, 160);
    let kinds: std::sync::Mutex<HashSet<u64>> = Default::default();
    c.par(tasks, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        let s = Seen { bad: Default::default(), calls: Cell::new(0), deepest: Cell::new(0), kinds: Default::default() };
        let (mut broken, mut unwound) = (0u64, 0u64);
        for i in 0..400u64 {
            let fuse = Cell::new(if i % 3 == 0 { 1 + rng.below(12) as u64 } else { 0 });
            let kind = rng.below(KINDS);
            let at = At { w, s: &s, rng: RefCell::new(Rng::new(rng.next())), depth: 0, path: kind as u64 + 1, fuse: &fuse };
            let r = guard(|| match catch_unwind(AssertUnwindSafe(|| at.call(kind))) {
                Ok(()) => false,
                Err(p) if p.is::<Own>() => true,
                Err(p) => std::panic::resume_unwind(p),
            });
            match r {
                Ok(b) => broken += b as u64,
                Err(ref m) => s.bad(format!("in a call made from within another call (task {t}, round {i}): {m}")),
            }
            if r == Ok(true) {
                // a panic in the caller's code leaves nothing behind
                match guard(|| all_well(w, &mut rng, true)) {
                    Ok(None) => {}
                    x => s.bad(format!("after the caller's own code panicked inside a call: {x:?}")),
                }
            }
            if i % 40 == 0 {
                // during unwinding
                let (out, ran) = (RefCell::new(None), Cell::new(0));
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _d = OnDrop { w, seed: rng.next(), out: &out, ran: &ran };
                    std::panic::panic_any(Own)
                }));
                unwound += ran.get();
                if let Some(m) = out.into_inner() { s.bad(format!("while the thread unwinds from another panic: {m}")) }
            }
            if let Some(m) = s.bad.borrow().as_ref() { return c.viol(m) }
        }
        // at the end of a thread's life, in threads with little stack, and in the same order as other thread-locals
        let (tx, rx) = std::sync::mpsc::channel();
        let seed = rng.next();
        let early = t % 2 == 0;
        let small = [128usize << 10, 256 << 10, 1 << 20][t % 3];
        let th = std::thread::Builder::new().stack_size(small).spawn(move || {
            if early { EXIT.with(|e| *e.0.borrow_mut() = Some((w, seed, tx.clone()))) }
            let m = guard(|| {
                let mut r = Rng::new(seed ^ 1);
                let e = Evaluator::new();
                let all: Vec<u8> = r.deal(30);
                if let Some(m) = w.judge(&all, &Ok(e.evaluate(w.c(&all)))) { return Some(m) }
                all_well(w, &mut r, true)
            });
            if !early { EXIT.with(|e| *e.0.borrow_mut() = Some((w, seed, tx.clone()))) }
            m
        });
        let r = match th { Ok(h) => h.join(), Err(e) => return c.inconclusive(format!("no thread: {e}")) };
        match r { Ok(Ok(None)) => {} x => return c.viol(format!("in a thread with {} KiB of stack: {x:?}", small >> 10)) }
        match rx.recv() { Ok(None) => {} x => return c.viol(format!("at the end of a thread: {x:?}")) }
        c.add("evaluations", s.calls.get());
        c.add("nested_calls", s.calls.get());
        c.add("calls_broken_off_by_the_caller", broken);
        c.add("during_unwinding", unwound);
        c.add("at_thread_end", 1);
        kinds.lock().unwrap().extend(s.kinds.borrow().iter());
        if s.deepest.get() >= 3 { c.add("tasks_at_full_depth", 1) }
    });
    // very long lists on an ordinary stack: nothing may use stack in proportion
    for n in [5_000usize, 70_000, 1_000_000] {
        let ids: Vec<u8> = (0..n).map(|i| (mix(i as u64) % 52) as u8).collect();
        let v = w.c(&ids);
        let j = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            let e = Evaluator::new();
            let r = e.evaluate(&v);
            let text = r.as_ref().err().map(|x| x.to_string()).unwrap_or_default();
            let same = matches!(&r, Err(EvalError::CardsNotUnique(x)) if *x == v);
            (same, text)
        }).map(|h| h.join());
        match j {
            Ok(Ok((true, t))) if bad_dup_message(&ids, &t).is_none() => c.add("long_lists", 1),
            x => c.viol(format!("a list of {n} cards in a thread with 512 KiB of stack: {x:?}")),
        }
    }
    // what a single thread may share without locks
    let rc = Rc::new(Evaluator::new());
    let again = rc.clone();
    if guard(|| rc.evaluate(w.c(&[0, 4, 8, 12, 16])) == again.evaluate(w.c(&[16, 12, 8, 4, 0]))) != Ok(true) { c.viol("an evaluator in an Rc gave two results") }
    let n = kinds.lock().unwrap().len() as u64;
    c.add("distinct_nestings", n);
    c.distinct_n(n);
    c.min("nested_calls", 50_000);
    c.min("calls_broken_off_by_the_caller", 1000);
    c.min("distinct_nestings", 500);
    c.sample("nesting", || "printing into a sink that evaluates a container that parses a list whose source shuffles".into());
}
