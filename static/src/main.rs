//! C23: the static-table evaluator next to the ordinary one and the rules.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*},
        Arc,
    },
};

use poker::{evaluate::static_lookup, Card, Eval, EvalError};
use vh::{
    ctx::{eval, guard, Ctx},
    hands::*,
    oracle::*,
    rng::{mix, Rng},
    *,
};

struct Count;
static COUNTING: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNTING.load(Relaxed) {
            BYTES.fetch_add(l.size() as i64, Relaxed);
            CALLS.fetch_add(1, Relaxed);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNTING.load(Relaxed) { BYTES.fetch_sub(l.size() as i64, Relaxed); }
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Count = Count;

type R = Result<Result<Eval, EvalError>, String>;
fn st(cards: &[Card]) -> R { guard(|| static_lookup::evaluate(cards)) }

/// Everything visible of two results is the same.
fn same(a: &R, b: &R) -> bool {
    match (a, b) {
        (Ok(Ok(x)), Ok(Ok(y))) => x == y && x.cmp(y).is_eq() && class_code(x.class()) == class_code(y.class()),
        (Ok(Err(EvalError::CardsNotUnique(x))), Ok(Err(EvalError::CardsNotUnique(y)))) => x == y,
        (Ok(Err(EvalError::InvalidHandSize(x))), Ok(Err(EvalError::InvalidHandSize(y)))) => x == y,
        _ => false,
    }
}

fn check(c: &Ctx, w: &World, h: &[u8], buf: &mut Vec<Card>, text: bool) -> bool {
    buf.clear();
    buf.extend(h.iter().map(|&x| w.cards[x as usize]));
    let (s, d) = (st(buf), eval(&w.ev, buf));
    let mut seen = 0u64;
    let dup = h.iter().any(|&x| { let b = seen >> x & 1 == 1; seen |= 1 << x; b });
    let right = match &s {
        Ok(Ok(e)) if !dup && h.len() >= 5 => {
            let k = w.o.best(h);
            *e == w.rep(w.o.ord(k)) && class_code(e.class()) == key_code(k)
        }
        Ok(Err(EvalError::CardsNotUnique(v))) => dup && v[..] == buf[..],
        Ok(Err(EvalError::InvalidHandSize(n))) => !dup && h.len() < 5 && *n == h.len(),
        _ => false,
    };
    let same_text = !text || match (&s, &d) {
        (Ok(Ok(a)), Ok(Ok(b))) => a.to_string() == b.to_string() && a.is_royal_flush() == b.is_royal_flush(),
        (Ok(Err(a)), Ok(Err(b))) => a.to_string() == b.to_string(),
        _ => false,
    };
    if right && same_text && same(&s, &d) { return true }
    c.viol(format!("{} cards {}: the static table gives {s:?}, the ordinary evaluator {d:?}{}", h.len(), cards_str(&h[..h.len().min(60)]),
        if !dup && h.len() >= 5 { format!(", the rules {}", key_name(w.o.best(h))) } else { String::new() }));
    false
}

fn fold(h: &[u8]) -> u64 { h.iter().fold(1, |a, &b| mix(a ^ (b as u64 + 1))) }

fn run(c: &Ctx) {
    let w = match World::new(false) {
        Ok((w, _)) => w,
        Err((true, m)) => return c.viol(m),
        Err((false, m)) => return c.inconclusive(m),
    };
    let w = &w;
    // every five-card hand
    c.par(48, |a| {
        let mut rng = Rng::fork(c.seed, a as u64);
        let mut buf = vec![];
        let a = a as u8;
        let mut n = 0;
        for b in a + 1..49 { for x in b + 1..50 { for y in x + 1..51 { for z in y + 1..52 {
            let mut h = [a, b, x, y, z];
            rng.shuffle(&mut h);
            if !check(c, w, &h, &mut buf, n % 512 == 0) && c.stop() { return }
            n += 1;
        }}}}
        c.add("five_card_hands", n);
        c.add("evaluations", n);
        c.distinct_n(n);
    });
    c.min("five_card_hands", 2_598_960);
    // other sizes, errors, containers
    let rounds: u64 = if c.thorough { 20_000_000 } else { 600_000 };
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 100 + t as u64);
        let mut buf = vec![];
        let (mut bad, mut big) = (0, 0);
        for i in 0..rounds / 64 {
            let n = match i % 16 { 0 => rng.below(5), 1..=6 => 6, 7..=12 => 7, 13 => 8 + rng.below(5), 14 => 5 + rng.below(5), _ => if i % 512 == 15 { 13 + rng.below(40) } else { 5 } };
            let mut h = if i % 3 == 0 && n > 5 { grow(&w.o, rng.below(9) as u32, n, &mut rng) } else { rng.deal(n) };
            if h.len() > 1 && rng.chance(1, 8) { let (i, j) = (rng.below(h.len()), rng.below(h.len())); h[i] = h[j]; bad += 1 }
            if i % 2048 == 1 { h = (0..52 + rng.below(100)).map(|_| rng.below(52) as u8).collect() }
            if h.len() > 7 { big += 1 }
            if !check(c, w, &h, &mut buf, true) { return }
            c.distinct(fold(&h));
        }
        c.add("mixed_lists", rounds / 64);
        c.add("with_repeats", bad);
        c.add("of_more_than_seven", big);
        c.add("evaluations", rounds / 64);
    });
    // containers, orders
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 9000 + t as u64);
        for _ in 0..500 {
            let n = [5, 6, 7, 4, 9][rng.below(5)];
            let h = rng.deal(n);
            let v = w.c(&h);
            let base = st(&v);
            let mut p = v.clone();
            rng.shuffle(&mut p);
            let a5: Option<[Card; 5]> = v.clone().try_into().ok();
            let got = [
                guard(|| static_lookup::evaluate(v.clone())), guard(|| static_lookup::evaluate(&v)), guard(|| static_lookup::evaluate(Box::<[Card]>::from(&v[..]))),
                guard(|| static_lookup::evaluate(&p)), guard(|| static_lookup::evaluate(Arc::<[Card]>::from(&v[..]))),
                guard(|| match a5 { Some(a) => static_lookup::evaluate(a), None => static_lookup::evaluate(&v) }),
            ];
            if got.iter().any(|g| !same(g, &base)) { return c.viol(format!("{}: the static table gives {got:?} in different containers and orders", cards_str(&h))) }
            c.add("containers", got.len() as u64);
        }
    });
    // the same from several threads, before and after failures: same answers as alone
    let jobs: Vec<(Vec<u8>, R)> = {
        let mut rng = Rng::fork(c.seed, 31);
        (0..256).map(|i| { let mut h = rng.deal(i % 9); if i % 5 == 0 && h.len() > 1 { h[0] = h[1] } let r = st(&w.c(&h)); (h, r) }).collect()
    };
    c.par(16, |t| {
        let mut rng = Rng::fork(c.seed, 700 + t as u64);
        for _ in 0..if c.thorough { 400_000 } else { 20_000 } {
            let (h, r) = rng.pick(&jobs);
            let g = st(&w.c(h));
            if !same(&g, r) { return c.viol(format!("{}: the static table gives {g:?} with other threads around, {r:?} before", cards_str(h))) }
        }
        c.add("calls_from_threads", 20_000);
    });
    // heap: a successful evaluation takes none, and nothing is kept in any case
    let mut rng = Rng::fork(c.seed, 5);
    let hands: Vec<Vec<Card>> = (0..3000).map(|i| { let n = i % 13; w.c(&rng.deal(n)) }).collect();
    let dups: Vec<Vec<Card>> = (0..500).map(|i| { let n = 2 + i % 13; let mut h = rng.deal(n); h[0] = h[1]; w.c(&h) }).collect();
    let measure = |what: &str, set: &[Vec<Card>]| {
        for h in set { let _ = std::hint::black_box(static_lookup::evaluate(h)); }
        BYTES.store(0, Relaxed);
        CALLS.store(0, Relaxed);
        COUNTING.store(true, Relaxed);
        for _ in 0..4 { for h in set { let _ = std::hint::black_box(static_lookup::evaluate(h)); } }
        COUNTING.store(false, Relaxed);
        let (b, n) = (BYTES.load(Relaxed), CALLS.load(Relaxed));
        c.add(&format!("allocations_{what}"), n);
        c.add("heap_measurements", 1);
        // (the watchdog thread is not running here)
        if b > 0 { c.viol(format!("evaluating {what} through the static table keeps {b} bytes")) }
    };
    let r = guard(|| { measure("different_cards", &hands); measure("repeated_cards", &dups) });
    if let Err(m) = r { c.viol(format!("measuring: {m}")) }
    c.sample("hand", || "As Ks Qs Js Ts and 2 598 959 others through both evaluators".into());
}

fn main() {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let c = Ctx::new(seed, thorough);
    run(&c);
    c.finish();
}
