//! C25: what the library holds on to, measured by a counting allocator. One thread does the work, everything the
//! harness itself needs is allocated beforehand.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    hint::black_box,
    sync::atomic::{AtomicI64, AtomicU64, Ordering::*},
};

use poker::{box_cards, cards, deck, Card, Eval, EvalError, ParseCardError};
use vh::{rng::Rng, *};

struct Count;
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            let b = BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            PEAK.fetch_max(b, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
            CALLS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
    }
}
#[global_allocator]
static A: Count = Count;

/// What is live when everything has come to rest.
fn settled() -> (i64, i64) {
    let mut least = live();
    for _ in 0..20 {
        std::thread::sleep(std::time::Duration::from_millis(2));
        least = least.min(live());
    }
    least
}
fn live() -> (i64, i64) { (BYTES.load(Relaxed), BLOCKS.load(Relaxed)) }

struct Env {
    ev: Evaluator,
    cards: Vec<Card>,
    texts: Vec<String>,
}

type Op = fn(&Env, &mut Rng);

fn hand(e: &Env, rng: &mut Rng, n: usize, buf: &mut [Card; 64]) {
    let d = rng.deal(n);
    for (i, x) in d.iter().enumerate() { buf[i] = e.cards[*x as usize] }
}

/// Goes down with every use and panics at the last one.
fn fuse(k: &std::cell::Cell<u32>) {
    let n = k.get();
    if n > 0 {
        k.set(n - 1);
        if n == 1 { std::panic::resume_unwind(Box::new(())) }
    }
}
fn stopped(f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        if e.downcast_ref::<()>().is_none() { std::panic::resume_unwind(e) }
        STOPPED.fetch_add(1, Relaxed);
    }
}
static STOPPED: AtomicU64 = AtomicU64::new(0);

struct Fused<'a>(&'a std::cell::Cell<u32>, &'a [Card]);
impl AsRef<[Card]> for Fused<'_> {
    fn as_ref(&self) -> &[Card] { fuse(self.0); self.1 }
}
impl std::ops::Deref for Fused<'_> {
    type Target = [Card];
    fn deref(&self) -> &[Card] { fuse(self.0); self.1 }
}

/// A collection that takes so many cards and no more.
struct Stops(#[allow(dead_code)] Vec<Card>);
impl FromIterator<Card> for Stops {
    fn from_iter<I: IntoIterator<Item = Card>>(i: I) -> Self {
        let mut v = vec![];
        for x in i {
            v.push(x);
            if v.len() == 31 { std::panic::resume_unwind(Box::new(())) }
        }
        Stops(v)
    }
}

/// Takes so many pieces of text, then refuses or panics.
struct Sink(u32, bool);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.0 > 1 { self.0 -= 1; return Ok(()) }
        if self.1 { std::panic::resume_unwind(Box::new(())) }
        Err(std::fmt::Error)
    }
}

/// A random source that runs dry.
#[cfg(feature = "shuffle")]
struct Gives(u32, u64);
#[cfg(feature = "shuffle")]
impl rand::RngCore for Gives {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        if self.0 == 0 { std::panic::resume_unwind(Box::new(())) }
        self.0 -= 1;
        self.1 = self.1.wrapping_add(0x9e3779b97f4a7c15);
        rng::mix(self.1)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

fn ops() -> Vec<(&'static str, u32, Op)> {
    // name, relative number of operations, one operation
    vec![
        ("evaluate five cards", 100, |e, rng| { let mut b = [e.cards[0]; 64]; hand(e, rng, 5, &mut b); let _ = black_box(e.ev.evaluate(&b[..5])); }),
        ("evaluate one hand again and again", 100, |e, _| { let _ = black_box(e.ev.evaluate(&e.cards[3..8])); }),
        ("evaluate six cards", 40, |e, rng| { let mut b = [e.cards[0]; 64]; hand(e, rng, 6, &mut b); let _ = black_box(e.ev.evaluate(&b[..6])); }),
        ("evaluate seven cards", 30, |e, rng| { let mut b = [e.cards[0]; 64]; hand(e, rng, 7, &mut b); let _ = black_box(e.ev.evaluate(&b[..7])); }),
        ("evaluate eight to twelve cards", 2, |e, rng| { let mut b = [e.cards[0]; 64]; let n = 8 + rng.below(5); hand(e, rng, n, &mut b); let _ = black_box(e.ev.evaluate(&b[..n])); }),
        ("evaluate 13 to 52 cards", 1, |e, rng| { let mut b = [e.cards[0]; 64]; let n = if rng.below(40) == 0 { 20 + rng.below(33) } else { 13 + rng.below(7) }; hand(e, rng, n, &mut b); let _ = black_box(e.ev.evaluate(&b[..n])); }),
        ("repeated cards in long lists refused and printed", 4, |e, rng| { let n = 50 + rng.below(3000); let b: Vec<Card> = (0..n).map(|_| e.cards[rng.below(52)]).collect(); if let Err(x) = e.ev.evaluate(&b[..]) { black_box(x.to_string()); } }),
        ("parse very long texts", 1, |_, rng| { let t = ["é", "As", "x"][rng.below(3)].repeat(rng.below(300_000)); if let Err(x) = t.parse::<Card>() { black_box(x.to_string()); } }),
        ("evaluate flushes", 50, |e, rng| { let s = rng.below(4); let mut r = [0usize; 13]; for (i, x) in r.iter_mut().enumerate() { *x = i } rng.shuffle(&mut r); let b = [0, 1, 2, 3, 4].map(|i| e.cards[r[i] * 4 + s]); let _ = black_box(e.ev.evaluate(b)); }),
        ("evaluate from vectors and boxes", 40, |e, rng| { let d = rng.deal(5); let v: Vec<Card> = d.iter().map(|&x| e.cards[x as usize]).collect(); let _ = black_box(e.ev.evaluate(v.clone())); let _ = black_box(e.ev.evaluate(v.into_boxed_slice())); }),
        ("repeated cards refused", 60, |e, rng| { let mut b = [e.cards[0]; 64]; let n = 2 + rng.below(50); hand(e, rng, n, &mut b); let (i, j) = (rng.below(n), rng.below(n)); b[i] = b[j]; let _ = black_box(e.ev.evaluate(&b[..n.min(9)])); }),
        ("repeated cards refused and printed", 30, |e, rng| { let n = 2 + rng.below(60); let b: Vec<Card> = (0..n).map(|_| e.cards[rng.below(20)]).collect(); if let Err(x) = e.ev.evaluate(&b[..n.min(8)]) { black_box(x.to_string()); black_box(format!("{x:?}")); let y = x.clone(); black_box(y == x); } }),
        ("too few cards refused and printed", 60, |e, rng| { let mut b = [e.cards[0]; 64]; let n = rng.below(5); hand(e, rng, n, &mut b); if let Err(x) = e.ev.evaluate(&b[..n]) { black_box(x.to_string()); } }),
        ("errors made by hand", 30, |e, rng| { let n = rng.below(40); let x = EvalError::CardsNotUnique((0..n).map(|_| e.cards[rng.below(52)]).collect()); black_box(x.to_string()); let b: Box<dyn std::error::Error> = Box::new(x); black_box(b.to_string()); }),
        ("parse good texts", 60, |e, rng| { let t = &e.texts[rng.below(52)]; let _ = black_box(t.parse::<Card>()); }),
        ("parse bad texts", 60, |e, rng| { let t = &e.texts[52 + rng.below(e.texts.len() - 52)]; let _ = black_box(t.parse::<Card>()); }),
        ("parse bad texts never seen before, with messages", 40, |_, rng| { let t: String = (0..rng.below(6)).map(|_| char::from_u32(rng.next() as u32 % 0xd000).unwrap()).collect(); if let Err(x) = t.parse::<Card>() { black_box(x.to_string()); black_box(x.clone() == x); } }),
        ("parse long texts", 10, |_, rng| { let t = "As".repeat(rng.below(2000)); if let Err(x) = t.parse::<Card>() { black_box(x.to_string()); } }),
        ("cards from characters", 60, |_, rng| { let _: Result<Card, ParseCardError> = black_box(Card::try_from_chars(char::from(32 + rng.below(96) as u8), char::from(32 + rng.below(96) as u8))); }),
        ("parse many, all", 20, |e, rng| { let v: Result<Vec<Card>, _> = Card::parse_to_iter(&e.texts[..52]).try_collect(); black_box(v.is_ok()); let v: Result<Box<[Card]>, _> = Card::parse_to_iter(&e.texts[rng.below(100)..]).try_collect(); black_box(v.is_err()); }),
        ("parse many, dropped half way", 40, |e, rng| { let mut it = Card::parse_to_iter(&e.texts); for _ in 0..rng.below(80) { let _ = black_box(it.next()); } }),
        ("cards of one text", 30, |e, rng| { let t = format!("{} {} {}", e.texts[rng.below(52)], e.texts[rng.below(52)], e.texts[rng.below(e.texts.len())]); let v: Result<Vec<Card>, _> = cards!(t).try_collect(); let _ = black_box(v); }),
        ("print cards, ranks, suits", 40, |e, rng| { let x = e.cards[rng.below(52)]; black_box(format!("{x} {x:?} {} {} {}", x.rank(), x.suit(), x.rank_suit_string())); }),
        ("print evaluations and classes", 40, |e, rng| { let mut b = [e.cards[0]; 64]; hand(e, rng, 5, &mut b); if let Ok(x) = e.ev.evaluate(&b[..5]) { black_box(format!("{x} {x:?} {}", x.class())); black_box(x.max(Eval::WORST).is_better_than(Eval::BEST)); } }),
        ("join slices", 40, |e, rng| { let (i, j) = (rng.below(52), rng.below(52)); let x = box_cards!(&e.cards[..i], &e.cards[j..], [e.cards[3]]); black_box(x.len()); }),
        ("decks taken whole and in part", 30, |_, rng| { black_box(deck::generate().count()); black_box(deck::generate().take(rng.below(60)).collect::<Vec<_>>()); black_box(deck::generate().nth(rng.below(60))); }),
        #[cfg(feature = "shuffle")]
        ("decks shuffled from the default source", 20, |_, _| { black_box(deck::shuffled()); }),
        #[cfg(feature = "shuffle")]
        ("decks shuffled from a given source", 20, |_, rng| { let mut s = vh::rngs::Source::new(vh::rngs::Kind::SplitMix(rng.next()), 1 << 40, 1); black_box(deck::shuffled_with(&mut s)); }),
        ("sort and hash", 10, |e, rng| { let mut v = e.cards.clone(); rng.shuffle(&mut v); v.sort(); let s: std::collections::HashSet<Card> = v.into_iter().collect(); black_box(s.len()); }),
        ("one new evaluator used and dropped", 1, |e, rng| { let x = Evaluator::new(); let mut b = [e.cards[0]; 64]; for n in [5, 7, 3] { hand(e, rng, n, &mut b); let _ = black_box(x.evaluate(&b[..n])); } }),
        ("one default evaluator used and dropped", 1, |e, _| { let x = Evaluator::default(); let _ = black_box(x.evaluate(&e.cards[..6])); }),
        ("an evaluator cloned, compared and dropped", 1, |e, rng| { let x = e.ev.clone(); let mut b = [e.cards[0]; 64]; hand(e, rng, 7, &mut b); let _ = black_box(x.evaluate(&b[..7])); black_box(x == e.ev); }),
        ("an evaluator taken and put back", 1, |e, _| { let mut x = e.ev.clone(); let y = std::mem::take(&mut x); let _ = black_box(x.evaluate(&e.cards[..5])); x.clone_from(&y); }),
        // the caller's own code gives up in the middle of a call
        ("evaluations interrupted by the caller's container", 40, |e, rng| { let k = std::cell::Cell::new(1 + rng.below(8) as u32); let n = rng.below(9); let mut b = [e.cards[0]; 64]; hand(e, rng, n, &mut b); if rng.below(3) == 0 { b[0] = b[1] } stopped(|| { let _ = black_box(e.ev.evaluate(Fused(&k, &b[..n]))); }); }),
        ("joins interrupted by the caller's container", 40, |e, rng| { let k = std::cell::Cell::new(1 + rng.below(8) as u32); let (i, j) = (rng.below(52), rng.below(52)); stopped(|| { black_box(box_cards!(&e.cards[..i], Fused(&k, &e.cards[j..]), Fused(&k, &e.cards[i..]), [e.cards[3]]).len()); }); }),
        ("parses interrupted by the caller's texts", 40, |e, rng| { let k = std::cell::Cell::new(1 + rng.below(60) as u32); let from = rng.below(e.texts.len()); stopped(|| { let v: Result<Vec<Card>, _> = Card::parse_to_iter(e.texts[from..].iter().map(|t| { fuse(&k); t })).try_collect(); let _ = black_box(v); }); stopped(|| { for x in Card::parse_to_iter(e.texts.iter().map(|t| { fuse(&k); t })) { if x.is_err() && k.get() % 7 == 3 { break } } }); }),
        ("parses interrupted by the caller's collection", 40, |e, rng| { let k = std::cell::Cell::new(1 + rng.below(60) as u32); stopped(|| { let v: Result<Stops, _> = Card::parse_to_iter(e.texts[..52].iter().map(|t| { if k.get() < 20 { fuse(&k) } t })).try_collect(); black_box(v.is_ok()); }); }),
        ("messages interrupted by the caller's sink", 40, |e, rng| {
            use std::fmt::Write;
            let n = 2 + rng.below(40);
            let many = EvalError::CardsNotUnique((0..n).map(|_| e.cards[rng.below(20)]).collect());
            let few = EvalError::InvalidHandSize(n);
            let text = &e.texts[52 + rng.below(e.texts.len() - 52)];
            let bad = text.parse::<Card>();
            let best = Eval::BEST;
            for panics in [false, true] {
                let mut sink = Sink(1 + rng.below(12) as u32, panics);
                stopped(|| { let _ = write!(sink, "{many} {few} {best} {best:?}"); });
                let mut sink = Sink(1 + rng.below(6) as u32, panics);
                stopped(|| { let _ = match &bad { Ok(x) => write!(sink, "{x} {x:?}"), Err(x) => write!(sink, "{x} {x:?}") }; });
                let mut sink = Sink(1 + rng.below(6) as u32, panics);
                stopped(|| { let x = e.cards[rng.below(52)]; let _ = write!(sink, "{x}{x:?}{}{}", x.rank(), x.suit()); });
            }
        }),
        ("decks interrupted by the caller", 40, |_, rng| { let k = std::cell::Cell::new(1 + rng.below(60) as u32); stopped(|| { deck::generate().for_each(|x| { black_box(x); fuse(&k) }); }); stopped(|| { black_box(deck::generate().map(|x| { fuse(&k); x }).collect::<Vec<_>>()); }); }),
        #[cfg(feature = "shuffle")]
        ("shuffles interrupted by the random source", 40, |_, rng| { let mut s = Gives(1 + rng.below(70) as u32, rng.next()); stopped(|| { black_box(deck::shuffled_with(&mut s)); }); }),
        ("everything once in a new thread", 1, |e, rng| {
            let seed = rng.next();
            // joined, so that all the thread's own memory is back
            std::thread::scope(|s| s.spawn(|| {
                let mut r = Rng::new(seed);
                for (name, _, f) in ops() { if !name.contains("thread") && !name.contains("evaluator") && !name.contains("13 to 52") { for _ in 0..if name.contains("long") { 1 } else { 10 } { f(e, &mut r) } } }
            }).join()).unwrap();
        }),
    ]
}

fn main() {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale: u64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 400 } else { 40 });
    let mut bad = 0;
    let mut total = 0u64;
    let mut checks = 0u64;
    // the evaluator's own memory comes back
    let before = live();
    let ev = Evaluator::new();
    let held = live();
    let size = (held.0 - before.0, held.1 - before.1);
    println!("SAMPLE memory: an evaluator holds {} bytes in {} blocks", size.0, size.1);
    let mut texts: Vec<String> = (0..52).map(oracle::card_str).collect();
    texts.extend(["", "A", "1s", "As ", "aS", "é♠", "💥💥", "Kx", "xK", "10h", "A♠", "日本", "\u{301}s"].map(String::from));
    let mut rng = Rng::new(seed);
    for i in 0..100 { texts.push(format!("{}{}", char::from(33 + i as u8 % 90), rng.below(1000))) }
    let env = Env { ev, cards: (0..52).map(mk).collect(), texts };
    let ops = ops();
    println!("SAMPLE operations: {}", ops.iter().map(|o| o.0).collect::<Vec<_>>().join("; "));
    for (i, (name, weight, f)) in ops.iter().enumerate() {
        let mut rng = Rng::fork(seed, i as u64);
        let n = *weight as u64 * scale;
        for _ in 0..n / 2 { f(&env, &mut rng) } // one-time memory
        // Equal windows of fresh inputs: holding on to anything shows as growth in every one of them.
        let mut marks = [live(); 5];
        let calls = CALLS.load(Relaxed);
        for k in 1..5 {
            for _ in 0..n { f(&env, &mut rng) }
            marks[k] = live();
        }
        total += 4 * n + n / 2;
        checks += 4;
        let d: Vec<i64> = marks.windows(2).map(|w| w[1].0 - w[0].0).collect();
        let b: Vec<i64> = marks.windows(2).map(|w| w[1].1 - w[0].1).collect();
        let grown = d.iter().sum::<i64>();
        println!("INFO {name}: {} allocations, growth per window {d:?} bytes, {b:?} blocks", CALLS.load(Relaxed) - calls);
        println!("STAT windows_{} 4", if grown == 0 { "without_any_growth" } else { "with_growth" });
        if grown > 0 {
            // Does it go on? Windows of doubling length: what is bounded dies away, what is held on to does not.
            let mut g = vec![];
            let mut last = settled();
            for k in 0..7 {
                for _ in 0..n << k { f(&env, &mut rng) }
                total += n << k;
                let now = settled();
                g.push(now.0 - last.0);
                last = now;
                if g.iter().sum::<i64>() > 256 << 20 { break }
            }
            let m = g.len();
            let (late, early) = (g[m - 1] + g[m - 2], g[m - 3] + g[m - 4]);
            println!("INFO {name}: growth in windows of doubling length: {g:?} bytes");
            // what is held on to never comes back
            let back = g.iter().map(|&x| (-x).max(0)).max().unwrap();
            if late > 256 + 4 * back && late * 5 >= early * 4 {
                println!("VIOL {name}: memory held grows with use: {d:?} bytes in four equal windows of {n} operations after a warm-up of {}, then {g:?} bytes in windows doubling from {n}", n / 2);
                bad += 1;
            }
        }
    }
    // evaluators give back what they took, however they are made and wherever they are dropped
    let rounds = if thorough { 400 } else { 60 };
    let ways: [(&str, fn(&Env)); 8] = [
        ("new", |_| drop(Evaluator::new())),
        ("default", |_| drop(Evaluator::default())),
        ("clone", |e| drop(e.ev.clone())),
        ("clone of a clone", |e| { let a = e.ev.clone(); let b = a.clone(); drop(a); drop(b) }),
        ("made here, dropped in another thread", |_| { let x = Evaluator::new(); std::thread::spawn(move || drop(x)).join().unwrap() }),
        ("made in another thread, dropped here", |_| { let x = std::thread::spawn(Evaluator::new).join().unwrap(); drop(x) }),
        ("shared and dropped last elsewhere", |_| if vh::ev::SHARED { let a = std::sync::Arc::new(Evaluator::new()); let b = a.clone(); let h = std::thread::spawn(move || { let _ = black_box(b.evaluate(&[mk(1), mk(2), mk(3)])); }); drop(a); h.join().unwrap() }),
        ("dropped by unwinding", |_| { let r = std::panic::catch_unwind(|| { let _x = Evaluator::new(); std::panic::resume_unwind(Box::new(1u8)) }); drop(r) }),
    ];
    for (name, f) in &ways {
        for _ in 0..10 { f(&env) }
        let mut left = vec![];
        for _ in 0..6 {
            let a = live();
            for _ in 0..rounds { f(&env) }
            left.push(live().0 - a.0);
        }
        total += 6 * rounds + 10;
        checks += 6;
        println!("INFO evaluators {name}: left behind per {rounds}: {left:?}");
        println!("STAT evaluator_lifetimes {}", 6 * rounds);
        if left.iter().all(|&x| x > 0) || left.iter().sum::<i64>() > size.0.max(8192) * rounds as i64 / 2 {
            println!("VIOL evaluators ({name}): {left:?} bytes left behind after making and dropping {rounds} each time");
            bad += 1;
        }
    }
    // a much used evaluator is not much bigger than one used a little (tables may be built on first use)
    let (a, x, b) = { let a = live(); let x = env.ev.clone(); let b = live(); (a, x, b) };
    drop(x);
    let used = b.0 - a.0;
    let c = live();
    let fresh = Evaluator::new();
    let mut rng = Rng::fork(77, 1);
    for i in 0..300_000 { let h = mks(&rng.deal(5 + i % 4)); let _ = black_box(fresh.evaluate(&h)); }
    let fresh_clone_at = live();
    let y = fresh.clone();
    let fresh_size = live().0 - fresh_clone_at.0;
    drop(y);
    drop(fresh);
    checks += 1;
    if used > 2 * fresh_size + 65536 {
        println!("VIOL a much used evaluator copies to {used} bytes, a little used one to {fresh_size}");
        bad += 1;
    }
    if live().0 != c.0 { println!("INFO after dropping: {} bytes more", live().0 - c.0) }
    drop(env);
    println!("STAT evaluations {total}");
    println!("STAT measurements {checks}");
    println!("STAT interrupted_calls {}", STOPPED.load(Relaxed));
    println!("STAT allocations {}", CALLS.load(Relaxed));
    println!("STAT peak_bytes {}", PEAK.load(Relaxed));
    println!("STAT distinct {checks}");
    println!("STAT violations {bad}");
    println!("DONE");
}
