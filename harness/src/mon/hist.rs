//! C06 history, C07 construct, C08 threads + coldstart, and the small workload for the interpreter.
use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Arc, Barrier, Mutex, OnceLock, RwLock,
    },
};

use poker::{cards, Card, Eval, EvalError};
use vh::{
    ctx::{eval, guard, Ctx},
    hands::*,
    oracle::*,
    rng::{mix, Rng},
    *,
};

use crate::world;

/// What the rules say about any list of cards at all.
fn judge_any(w: &World, h: &[u8], r: &Result<Result<Eval, EvalError>, String>) -> Option<String> {
    let mut m = 0u64;
    let mut dup = false;
    for &x in h {
        dup |= m >> x & 1 == 1;
        m |= 1 << x;
    }
    let want = if dup {
        match r {
            Ok(Err(EvalError::CardsNotUnique(v))) if v.iter().map(|&x| no(x)).eq(h.iter().copied()) => return None,
            _ => "the not-unique error with the same cards".to_string(),
        }
    } else if h.len() < 5 {
        match r {
            Ok(Err(EvalError::InvalidHandSize(n))) if *n == h.len() => return None,
            _ => format!("the hand-size error for {}", h.len()),
        }
    } else {
        return w.judge(h, r);
    };
    Some(format!("evaluate({}) gave {r:?}, expected {want}", cards_str(h)))
}

/// A hand related to h in one of the ways that could confuse a cache or a scratch buffer.
fn related(w: &World, h: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut v = h.to_vec();
    let fresh = |v: &[u8], rng: &mut Rng| loop {
        let q = rng.below(52) as u8;
        if !v.contains(&q) { break q }
    };
    match rng.below(16) {
        // same cards, other order
        0 => rng.shuffle(&mut v),
        1 => v.reverse(),
        // same ranks, all of one suit or not
        2 => {
            let s = rng.below(4) as u8;
            for x in v.iter_mut() { *x = rank_of(*x) * 4 + s }
            v.sort();
            v.dedup();
        }
        3 => {
            let mut seen = HashSet::new();
            for x in v.iter_mut() {
                let y = rank_of(*x) * 4 + rng.below(4) as u8;
                if seen.insert(y) { *x = y } else { seen.insert(*x); }
            }
        }
        // same suits, other ranks
        4 => {
            let d = 1 + rng.below(12) as u8;
            for x in v.iter_mut() { *x = (rank_of(*x) + d) % 13 * 4 + suit_of(*x) }
        }
        // one card other: first, last, middle
        5 if !v.is_empty() && v.len() < 52 => { let q = fresh(&v, rng); v[0] = q }
        6 if !v.is_empty() && v.len() < 52 => { let q = fresh(&v, rng); let n = v.len(); v[n - 1] = q }
        7 if !v.is_empty() && v.len() < 52 => { let q = fresh(&v, rng); let i = rng.below(v.len()); v[i] = q }
        // subset, superset
        8 if v.len() > 1 => { let n = 1 + rng.below(v.len()); v.truncate(n) }
        9 if v.len() < 12 => { for _ in 0..1 + rng.below(3) { if v.len() < 52 { let q = fresh(&v, rng); v.push(q) } } }
        // repeated card
        10 if v.len() > 1 => { let (i, j) = (rng.below(v.len()), rng.below(v.len())); v[i] = v[j] }
        11 if !v.is_empty() => { let q = v[rng.below(v.len())]; v.push(q) }
        // equal xor / sum of the encodings: exchange suits between two ranks
        k @ (12 | 13) if v.len() > 1 => {
            // in one kind so that a card comes to be there twice
            let clean = k == 12;
            for _ in 0..if clean { 20 } else { 60 } {
                let (i, j) = (rng.below(v.len()), rng.below(v.len()));
                let (a, b) = (v[i], v[j]);
                let (a2, b2) = (rank_of(a) * 4 + suit_of(b), rank_of(b) * 4 + suit_of(a));
                if a != b && a2 != a && a2 != b && clean == (!v.contains(&a2) && !v.contains(&b2)) {
                    v[i] = a2;
                    v[j] = b2;
                    break;
                }
            }
        }
        // rotation by one place
        14 if v.len() > 1 => v.rotate_left(1),
        // a hand of the neighbouring strength
        _ => {
            let o = if v.len() >= 5 && v.iter().collect::<HashSet<_>>().len() == v.len() { w.ord(&v) as usize } else { 1 + rng.below(7462) };
            let o = (o + rng.below(3)).saturating_sub(1).clamp(1, 7462);
            return realise(&w.o.patterns[o - 1], rng).to_vec();
        }
    }
    v
}

fn other_ops(rng: &mut Rng) -> Result<(), String> {
    guard(|| match rng.below(7) {
        0 => { let _ = poker::deck::generate().take(rng.below(60)).count(); }
        1 => { let _ = "Zz".parse::<Card>(); let _ = "As".parse::<Card>(); }
        2 => { let _ = cards!("As Kd xx").try_collect::<Vec<_>>(); }
        3 => { let _ = Eval::BEST.to_string(); let _ = Eval::WORST.class().to_string(); }
        4 => { let mut v: Vec<Card> = poker::deck::generate().collect(); v.sort(); }
        #[cfg(feature = "shuffle")]
        5 => { let _ = poker::deck::shuffled(); }
        _ => { let _ = Eval::BEST.is_better_than(Eval::WORST); }
    })
}

pub fn history(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let snapshot = w.ev.clone();
    let rounds = c.n(4_000, 500);
    let steps = 2500;
    let twin = AtomicU64::new(0);
    c.par(rounds, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        // several evaluators, one of them shared by the whole run, one new, the rest copies
        let made = guard(|| vec![Evaluator::new(), w.ev.clone(), Evaluator::default()]);
        let Ok(mut own) = made else { return c.viol(format!("making evaluators: {made:?}")) };
        let mut h: Vec<u8> = rng.deal(7);
        // one buffer reused in place, as a user would
        let mut buf: Vec<Card> = Vec::with_capacity(128);
        let mut log: Vec<Vec<u8>> = vec![];
        let mut remembered: Vec<(Vec<u8>, Result<Eval, EvalError>)> = vec![];
        for s in 0..steps {
            h = match rng.below(12) {
                0 => { let n = [0, 1, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9][rng.below(12)]; rng.deal(n) }
                1 => realise(&w.o.patterns[rng.below(7462)], &mut rng).to_vec(),
                2 if !log.is_empty() => log[rng.below(log.len())].clone(),
                3 if s % 50 == 0 => { let n = 10 + rng.below(6); rng.deal(n) }
                _ => related(&w, &h, &mut rng),
            };
            if h.len() > 16 { h.truncate(7) }
            let which = rng.below(own.len() + 1);
            let ev = if which == own.len() { &w.ev } else { &own[which] };
            let fresh_copy;
            let cards: &[Card] = if rng.chance(1, 4) {
                fresh_copy = w.c(&h);
                &fresh_copy
            } else {
                buf.clear();
                buf.extend(h.iter().map(|&x| w.cards[x as usize]));
                &buf
            };
            let r = eval(ev, cards);
            if let Some(m) = judge_any(&w, &h, &r) {
                let last: Vec<String> = log.iter().rev().take(4).map(|x| cards_str(x)).collect();
                return c.viol(format!("{m}; step {s} of history {t} on evaluator {which}; evaluated just before (latest first): {}", last.join(" / ")));
            }
            if !cards.iter().map(|&x| no(x)).eq(h.iter().copied()) {
                return c.viol(format!("evaluating {} changed the caller's cards to {}", cards_str(&h), cards_txt(cards)));
            }
            if let Ok(r) = r {
                if remembered.len() < 200 { remembered.push((h.clone(), r)) }
            }
            c.distinct(h.iter().chain(log.last().unwrap_or(&vec![])).fold(h.len() as u64, |a, &b| mix(a ^ (b as u64 + 1))));
            log.push(h.clone());
            if log.len() > 64 { log.remove(0); }
            match rng.below(60) {
                0 => if let Err(m) = other_ops(&mut rng) { return c.viol(m) },
                1 => { let i = rng.below(own.len()); if s % 2 == 0 { own[i] = own[(i + 1) % own.len()].clone() } else { let o = own[(i + 1) % own.len()].clone(); own[i].clone_from(&o) } }
                2 => if own.len() < 5 { if let Ok(e) = guard(Evaluator::new) { own.push(e) } },
                3 => if own.len() > 2 { let i = rng.below(own.len()); own.swap_remove(i); },
                4 => { let mut b = Box::new(own.pop().unwrap()); std::mem::swap(&mut *b, &mut own[0]); own.push(*b); }
                _ => {}
            }
        }
        // what was remembered is still true, and the evaluators are unchanged
        for (h, r) in &remembered {
            let again = eval(&own[0], &w.c(h));
            if again.as_ref() != Ok(r) {
                return c.viol(format!("evaluate({}) gave {r:?} early in history {t} and {again:?} at its end", cards_str(h)));
            }
            twin.fetch_add(1, Relaxed);
        }
        for (i, e) in own.iter().enumerate() {
            if *e != snapshot {
                return c.viol(format!("evaluator {i} of history {t} changed by being used"));
            }
        }
        c.add("histories", 1);
        c.add("steps", steps);
        c.add("evaluations", steps + remembered.len() as u64);
        if t < 3 { c.sample("history", || log.iter().rev().take(6).map(|x| cards_str(x)).collect::<Vec<_>>().join(" / ")) }
    });
    c.add("repeated_at_the_end", twin.into_inner());
    if c.stop() { return }
    if w.ev != snapshot || w.ev != Evaluator::new() { return c.viol("the shared evaluator changed by being used") }
    // Every ordered pair of strengths in sequence would be 55 million; every pair with the same ranks or neighbouring strength:
    let n = w.o.patterns.len();
    c.par(n, |i| {
        let mut rng = Rng::fork(c.seed, 50_000 + i as u64);
        let k = if c.thorough { 7462 } else { 250 };
        let a = w.c(&realise(&w.o.patterns[i], &mut rng));
        for j in 0..k {
            let o = if c.thorough { j } else { rng.below(7462) };
            let h = realise(&w.o.patterns[o], &mut rng);
            let b = w.c(&h);
            let (x, y, z) = (eval(&w.ev, &a), eval(&w.ev, &b), eval(&w.ev, &a));
            if x != Ok(Ok(w.reps[i])) || y != Ok(Ok(w.reps[o])) || z != x {
                return c.viol(format!("{} then {} then the first again: {x:?} {y:?} {z:?}", cards_txt(&a), cards_txt(&b)));
            }
        }
        c.add("successions", k as u64);
        c.add("evaluations", 3 * k as u64);
    });
    // one evaluator, a very long run of calls of one kind after a failure of every kind
    let calls = c.n(400_000_000u64, 40_000_000u64);
    c.par(8, |t| {
        let mut rng = Rng::fork(c.seed, 60_000 + t as u64);
        let e = match guard(Evaluator::new) { Ok(e) => e, Err(m) => return c.viol(m) };
        let hands: Vec<(Vec<Card>, u16)> = (0..64).map(|i| { let n = if i % 16 == 7 { 6 } else { 5 }; let h = rng.deal(n); (w.c(&h), w.ord(&h)) }).collect();
        let pair = w.c(&[1, 1, 2, 3, 4]);
        for i in 0..calls / 8 {
            let (h, o) = &hands[(mix(i) & 63) as usize];
            if t % 2 == 1 && i % 16 == 0 { let _ = eval(&e, &pair); let _ = eval(&e, &pair[..1]); }
            let r = eval(&e, h);
            if r != Ok(Ok(w.rep(*o))) {
                return c.viol(format!("call {i} on one evaluator: evaluate({}) gave {r:?}, the first time {:?}", cards_txt(h), w.rep(*o)));
            }
        }
        c.add("long_run_calls", calls / 8);
        c.add("evaluations", calls / 8);
    });
    recurrence(c, &w);
    if c.stop() { return }
    // past the end of any 32-bit count: by one thread on its own evaluator, and by seven on a shared one
    if c.thorough && !cfg!(debug_assertions) {
        c.par(8, |t| {
            let mut rng = Rng::fork(c.seed, 70_000 + t as u64);
            let made = guard(Evaluator::new);
            let own = match &made { Ok(e) => e, Err(m) => return c.viol(m.clone()) };
            let ev = if t == 0 || !vh::ev::SHARED { own } else { &w.ev };
            let hands: Vec<(Vec<Card>, u16)> = (0..64).map(|_| { let h = rng.deal(5); (w.c(&h), w.ord(&h)) }).collect();
            let calls = if t == 0 { (1u64 << 32) + 4096 } else { (1u64 << 32) / 7 + 4096 };
            for i in 0..calls {
                let (h, o) = &hands[(mix(i) & 63) as usize];
                let r = eval(ev, h);
                if r != Ok(Ok(w.rep(*o))) {
                    return c.viol(format!("call {i} of thread {t}: evaluate({}) gave {r:?}, the first time {:?}", cards_txt(h), w.rep(*o)));
                }
            }
            c.add("calls_past_32_bits", calls);
            c.add("evaluations", calls);
        });
    }
    c.min("steps", 500_000);
}

/// Hands that come up again after a certain number of calls which have nothing to do with them: marks that are numbered
/// instead of cleared are taken for new ones when their numbers come round again.
fn recurrence(c: &Ctx, w: &World) {
    let made = guard(Evaluator::new);
    let own = match &made { Ok(e) => e, Err(m) => return c.viol(m.clone()) };
    // eight hands, and what stands between: no card is in two of them
    let gap = |rng: &mut Rng, gap: u64, which: usize| -> Result<u64, String> {
        let deal = rng.deal(52);
        let ev = if which == 0 { &w.ev } else { own };
        let mut hands: Vec<Vec<u8>> = (0..8).map(|j| deal[j * 5..j * 5 + 5].to_vec()).collect();
        // one of the hands is refused for a repeat, one for its size
        hands[1][4] = hands[1][0];
        hands[2].truncate(4);
        let between: Vec<u8> = match which {
            2 => vec![deal[40], deal[41], deal[40]],
            3 => deal[40..43].to_vec(),
            _ => deal[40..45].to_vec(),
        };
        let (cards, other): (Vec<Vec<Card>>, Vec<Card>) = (hands.iter().map(|h| w.c(h)).collect(), w.c(&between));
        let want = eval(ev, &other);
        if let Some(m) = judge_any(w, &between, &want) { return Err(m) }
        let mut calls = 0u64;
        let put = |j: usize, again: bool, calls: u64| -> Result<(), String> {
            match judge_any(w, &hands[j], &eval(ev, &cards[j])) {
                Some(m) => Err(format!("{m}; call {calls} of a run{}, between: {} over and over", if again { format!(", after {gap} calls or a few less or more without its cards") } else { String::new() }, cards_str(&between))),
                None => Ok(()),
            }
        };
        for j in 0..8 { put(j, false, calls)?; calls += 1 }
        // the j-th hand was evaluated at call j, and comes again at call 2j - 4 + gap, so gap - 4 .. gap + 3 later
        for j in 0..8u64 {
            while calls < 2 * j + gap - 4 {
                let r = eval(ev, &other);
                if r != want { return Err(format!("evaluate({}) gave {r:?} at call {calls} of a run, {want:?} at first", cards_str(&between))) }
                calls += 1;
            }
            put(j as usize, true, calls)?;
            calls += 1;
        }
        Ok(calls)
    };
    let mut rng = Rng::fork(c.seed, 81_000);
    let top = if c.sanitized { 14 } else if !c.thorough { 21 } else if cfg!(debug_assertions) { 26 } else { 32 };
    let mut gaps: Vec<u64> = (1..60).map(|k| 8 * k + 4).collect();
    gaps.extend((9..=top).map(|b| 1u64 << b));
    for g in gaps {
        for which in 0..4 {
            if g > 1 << 29 && which > 0 { continue }
            match guard(|| gap(&mut rng, g, which)) {
                Ok(Ok(n)) => { c.add("recurrences", 8); c.add("evaluations", n); c.distinct(g * 8 + which as u64); }
                Ok(Err(m)) | Err(m) => return c.viol(m),
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
struct Holder {
    ev: Evaluator,
    n: u32,
}

pub fn construct(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let w = &w;
    let mut rng = Rng::fork(c.seed, 1);
    let some: Vec<Vec<u8>> = (0..400).map(|i| { let n = 5 + i % 6; rng.deal(n) }).collect();
    let use_it = |e: &Evaluator| {
        for h in some.iter().take(50) { let _ = eval(e, &w.c(h)); }
        let _ = eval(e, &w.c(&[1, 1, 2]));
        let _ = eval(e, &w.c(&[1]));
    };
    let ways: Vec<(&str, Box<dyn Fn() -> Evaluator + Sync>)> = vec![
        ("Evaluator::new()", Box::new(Evaluator::new)),
        ("Evaluator::default()", Box::new(Evaluator::default)),
        ("Default::default() of a holder", Box::new(|| Holder::default().ev)),
        ("mem::take of a new one", Box::new(|| { let mut e = Evaluator::new(); std::mem::take(&mut e) })),
        ("what mem::take leaves behind", Box::new(|| { let mut e = Evaluator::new(); drop(std::mem::take(&mut e)); e })),
        ("what taking twice leaves behind", Box::new(|| { let mut e = Evaluator::new(); let _ = std::mem::take(&mut e); let _ = std::mem::take(&mut e); e })),
        ("mem::replace", Box::new(|| { let mut e = Evaluator::default(); std::mem::replace(&mut e, Evaluator::new()) })),
        ("clone of a new one", Box::new(|| { let e = Evaluator::new(); let f = e.clone(); drop(e); f })),
        ("clone of a default one", Box::new(|| Evaluator::default().clone())),
        ("clone after use", Box::new(|| { let e = Evaluator::new(); use_it(&e); e.clone() })),
        ("original after being cloned", Box::new(|| { let e = Evaluator::new(); let f = e.clone(); drop(f); e })),
        ("clone of a clone", Box::new(|| Evaluator::new().clone().clone().clone())),
        ("clone_from into a new one", Box::new(|| { let mut e = Evaluator::new(); e.clone_from(&Evaluator::default()); e })),
        ("clone_from into a default one", Box::new(|| { let mut e = Evaluator::default(); e.clone_from(&Evaluator::new()); e })),
        ("unwrap_or_default", Box::new(|| None::<Evaluator>.unwrap_or_default())),
        ("Option::take and default", Box::new(|| { let mut o = Some(Evaluator::new()); let _ = o.take(); o.take().unwrap_or_default() })),
        ("out of a box", Box::new(|| *Box::<Evaluator>::default())),
        ("Arc unwrapped", Box::new(|| Arc::try_unwrap(Arc::new(Evaluator::new())).unwrap())),
        ("Arc made mutable", Box::new(|| { let a = Arc::new(Evaluator::new()); let mut b = a.clone(); let _ = Arc::make_mut(&mut b); drop(a); Arc::try_unwrap(b).unwrap() })),
        ("made in another thread", Box::new(|| std::thread::spawn(Evaluator::new).join().unwrap())),
        ("default in another thread", Box::new(|| std::thread::spawn(Evaluator::default).join().unwrap())),
        ("cloned in another thread", Box::new(|| { let e = Arc::new(Evaluator::new()); let f = e.clone(); std::thread::spawn(move || (*f).clone()).join().unwrap() })),
        ("once cell", Box::new(|| { static CELL: OnceLock<Evaluator> = OnceLock::new(); CELL.get_or_init(Evaluator::default).clone() })),
        ("thread local", Box::new(|| { thread_local!(static E: Evaluator = Evaluator::default()); E.with(|e| e.clone()) })),
        ("element of a vector", Box::new(|| { let mut v = vec![Evaluator::new(); 3]; v.remove(1) })),
        ("resized vector", Box::new(|| { let mut v: Vec<Evaluator> = vec![]; v.resize_with(2, Default::default); v.pop().unwrap() })),
        ("array of defaults", Box::new(|| { let [_, b]: [Evaluator; 2] = Default::default(); b })),
        ("clone of a holder", Box::new(|| { let h = Holder { ev: Evaluator::new(), n: 3 }; let k = h.clone(); drop(h); let _ = k.n; k.ev })),
    ];
    let reference = w.ev.clone();
    let rounds = c.n(200, 8);
    c.par(ways.len() * rounds, |i| {
        let (name, f) = &ways[i % ways.len()];
        let made = guard(|| f());
        let e = match made { Ok(e) => e, Err(m) => return c.viol(format!("{name}: {m}")) };
        // every strength, in other suits and orders each time
        let mut rng = Rng::fork(c.seed, 100 + i as u64);
        for (o, p) in w.o.patterns.iter().enumerate() {
            let h = realise(p, &mut rng);
            let r = eval(&e, &w.c(&h));
            if r != Ok(Ok(w.reps[o])) {
                return c.viol(format!("evaluator by {name}: evaluate({}) gave {r:?}, the constructor's gives {:?} ({})", cards_str(&h), w.reps[o], key_name(w.o.keys[o])));
            }
        }
        for k in 0..600 {
            let h = if k % 3 == 0 { rng.deal(7) } else { some[rng.below(some.len())].clone() };
            let r = eval(&e, &w.c(&h));
            if let Some(m) = judge_any(w, &h, &r) { return c.viol(format!("evaluator by {name}: {m}")) }
        }
        for h in [&[3u8, 3][..], &[1], &[], &[1, 2, 3, 4, 4], &[0, 1, 2, 3]] {
            let r = eval(&e, &w.c(h));
            if let Some(m) = judge_any(w, h, &r) { return c.viol(format!("evaluator by {name}: {m}")) }
        }
        let same = guard(|| (e == reference, reference == e, e == Evaluator::new(), e == e.clone(), !format!("{e:?}").is_empty()));
        if same != Ok((true, true, true, true, true)) {
            return c.viol(format!("evaluator by {name} compared with the constructor's: {same:?}"));
        }
        let (h, g) = (w.c(&some[i % some.len()]), w.c(&[51, 47, 43, 39, 35]));
        // dropping the original or a copy must not touch the other
        let k = e.clone();
        drop(e);
        if eval(&k, &h) != eval(&reference, &h) || eval(&k, &g) != Ok(Ok(w.rep(7462))) {
            return c.viol(format!("a copy of the evaluator by {name} changed when the original was dropped"));
        }
        c.add("evaluators", 1);
        c.add("evaluations", 7462 + 607);
        c.add(&format!("way: {name}"), 1);
    });
    if c.stop() { return }
    c.distinct_n(ways.len() as u64 * 7462);
    // all ways agree with each other: pairwise equality of live objects
    let all: Vec<(usize, Evaluator)> = (0..ways.len()).filter_map(|i| guard(|| (ways[i].1)()).ok().map(|e| (i, e))).collect();
    for (i, a) in &all {
        for (j, b) in &all {
            if guard(|| a == b && !(a != b)) != Ok(true) {
                return c.viol(format!("evaluators by {} and by {} are not equal", ways[*i].0, ways[*j].0));
            }
            c.add("pairs_compared", 1);
        }
    }
    drop(all);
    // many at the same time, made and dropped in any order
    let alive = if c.sanitized { 40 } else { c.n(3000, 700) };
    let made: Vec<Result<Evaluator, String>> = (0..alive).map(|i| guard(|| match i % 4 { 0 => Evaluator::new(), 1 => Evaluator::default(), 2 => reference.clone(), _ => { let mut e = Evaluator::new(); std::mem::take(&mut e) } })).collect();
    let slots: Vec<std::sync::Mutex<Option<Evaluator>>> = made.into_iter().filter_map(|e| match e { Ok(e) => Some(std::sync::Mutex::new(Some(e))), Err(m) => { c.viol(m); None } }).collect();
    for round in 0..3 {
        c.par(slots.len(), |i| {
            let mut rng = Rng::fork(c.seed, 6_000_000 + (round * 100_000 + i) as u64);
            let mut slot = slots[i].lock().unwrap();
            let Some(e) = slot.as_ref() else { return };
            for k in 0..40 {
                let h = if k % 2 == 0 { rng.deal(5) } else { realise(&w.o.patterns[rng.below(7462)], &mut rng).to_vec() };
                if let Some(m) = w.judge(&h, &eval(e, &w.c(&h))) { return c.viol(format!("evaluator {i} of {alive} at the same time: {m}")) }
            }
            if i % 16 == 0 && *e != reference { return c.viol(format!("evaluator {i} of {alive} at the same time differs from the first")) }
            // a part of them goes, and comes again
            match rng.below(6) { 0 => *slot = None, 1 => *slot = guard(Evaluator::new).ok(), _ => {} }
            c.add("alive_at_once", 1);
            c.add("evaluations", 40);
        });
    }
    drop(slots);
    if c.stop() { return }
    // one after another, many: the n-th one is as good as the first
    let many = c.n(100_000, 5_000);
    c.par(many, |i| {
        let e = guard(|| match i % 3 { 0 => Evaluator::new(), 1 => Evaluator::default(), _ => reference.clone() });
        let e = match e { Ok(e) => e, Err(m) => return c.viol(format!("evaluator number {i}: {m}")) };
        if e != reference { return c.viol(format!("evaluator number {i} differs from the first")) }
        let mut rng = Rng::fork(c.seed, 7_000_000 + i as u64);
        for _ in 0..20 {
            let h = rng.deal(5);
            let r = eval(&e, &w.c(&h));
            if let Some(m) = w.judge(&h, &r) { return c.viol(format!("evaluator number {i}: {m}")) }
        }
        c.add("in_a_row", 1);
        c.add("evaluations", 20);
    });
    c.sample("ways", || ways.iter().map(|x| x.0).collect::<Vec<_>>().join(", "));
    c.min("evaluators", ways.len() as u64);
    c.min("in_a_row", 1000);
}

// ---- threads

static CLOCK: AtomicUsize = AtomicUsize::new(0);

struct Job {
    hand: Vec<Card>,
    ids: Vec<u8>,
    want: Want,
}
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Eval(Eval, u32),
    Dup,
    Short(usize),
}
fn job(w: &World, ids: Vec<u8>) -> Job {
    let d: HashSet<u8> = ids.iter().copied().collect();
    let want = if d.len() < ids.len() {
        Want::Dup
    } else if ids.len() < 5 {
        Want::Short(ids.len())
    } else {
        let k = w.o.best(&ids);
        Want::Eval(w.rep(w.o.ord(k)), key_code(k))
    };
    Job { hand: w.c(&ids), ids, want }
}
fn wrong(j: &Job, r: &Result<Result<Eval, EvalError>, String>) -> bool {
    !match (r, &j.want) {
        (Ok(Ok(e)), Want::Eval(x, code)) => e == x && class_code(e.class()) == *code,
        (Ok(Err(EvalError::CardsNotUnique(v))), Want::Dup) => v[..] == j.hand[..],
        (Ok(Err(EvalError::InvalidHandSize(n))), Want::Short(m)) => n == m,
        _ => false,
    }
}

/// Some threads work all the time while tens of thousands of others come and go, and then very many are there at once:
/// whatever is kept per thread (slots, numbers) is used by two threads at the same time if it can be.
fn comings_and_goings(c: &Ctx, w: &World, shared: &Evaluator, tsan: bool) {
    let mut rng = Rng::fork(c.seed, 0xc0de);
    let jobs: Vec<Vec<Job>> = (0..16).map(|t| {
        (0..64).map(|k| {
            let ids = match (t + k) % 4 {
                0 => { let n = rng.below(9); rng.deal(n) }
                1 => rng.deal(6),
                _ => realise(&w.o.patterns[rng.below(7462)], &mut rng).to_vec(),
            };
            job(w, ids)
        }).collect()
    }).collect();
    let bad = AtomicBool::new(false);
    let work = |who: &str, t: usize, calls: usize| {
        for k in 0..calls {
            let j = &jobs[t & 15][(k + t / 16) & 63];
            let r = eval(shared, &j.hand);
            if wrong(j, &r) {
                if !bad.swap(true, Relaxed) { c.viol(format!("{who} (number {t}): evaluate({}) gave {r:?}, alone {:?}", cards_str(&j.ids), j.want)) }
                return;
            }
        }
    };
    let total: usize = if tsan { 600 } else if c.thorough { 1_000_000 } else { 140_000 };
    let stop = AtomicBool::new(false);
    let (next, calls) = (std::sync::atomic::AtomicUsize::new(0), std::sync::atomic::AtomicU64::new(0));
    let work = &work;
    std::thread::scope(|s| {
        for t in 0..4 {
            let (bad, stop, calls) = (&bad, &stop, &calls);
            s.spawn(move || while !bad.load(Relaxed) && !stop.load(Relaxed) {
                work("a thread that works while others come and go", t, 256);
                calls.fetch_add(256, Relaxed);
            });
        }
        let hs: Vec<_> = (0..4).map(|_| { let (bad, next) = (&bad, &next); s.spawn(move || {
            let t0 = std::time::Instant::now();
            while !bad.load(Relaxed) && (c.thorough || t0.elapsed().as_secs() < 20) {
                let t = next.fetch_add(1, Relaxed);
                if t >= total { break }
                std::thread::scope(|s| { s.spawn(move || work("one of many short-lived threads", t, if tsan { 8 } else { 48 })); });
                c.add("short_lived_threads", 1);
            }
        })}).collect();
        for h in hs { let _ = h.join(); }
        stop.store(true, Relaxed);
    });
    c.add("calls_while_threads_come_and_go", calls.load(Relaxed));
    c.add("evaluations", calls.load(Relaxed));
    for n in if tsan { vec![100] } else if c.thorough { vec![300, 600, 1200, 2400, 4800] } else { vec![300, 1100] } {
        if bad.load(Relaxed) { return }
        let go = AtomicBool::new(false);
        let mut made = 0;
        std::thread::scope(|s| {
            for t in 0..n {
                let go = &go;
                let h = std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, move || {
                    while !go.load(SeqCst) { std::thread::sleep(std::time::Duration::from_millis(1)) }
                    work(&format!("one of {n} threads at once"), t, if tsan { 20 } else { 300 });
                });
                if h.is_err() { break } // the system has no more
                made += 1;
            }
            go.store(true, SeqCst);
        });
        c.add("threads_at_once", made);
    }
}

pub fn threads(c: &Ctx) {
    if !vh::ev::SHARED { return c.viol("an evaluator can no longer be shared between threads, or sent to one (it is not Send and Sync)") }
    let Some(w) = world(c, false) else { return };
    let tsan = std::env::var_os("VH_SAN").is_some();
    let per: usize = std::env::var("VH_OPS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tsan { 6000 } else if c.thorough { 400_000 } else { 40_000 });
    let shared = Arc::new(Evaluator::new());
    // kind, threads, logged
    let mut phases = vec![];
    for kind in 0..7 {
        for n in [2usize, 3, 8, 16, 48] {
            phases.push((kind, n, n <= 8));
        }
    }
    let orders: Mutex<HashSet<u64>> = Default::default();
    for rep in 0..if c.thorough { 4 } else { 1 } {
        for (pi, &(kind, n, logged)) in phases.iter().enumerate() {
            if c.stop() { return }
            let per = per / n.max(4) * if kind == 4 { 1 } else { 4 };
            let mut rng = Rng::fork(c.seed, (rep * 1000 + pi) as u64);
            // the jobs of each thread
            let hot: Vec<Vec<u8>> = {
                // hands that look alike: same ranks, one of them suited; same suits; equal sums
                let p = &w.o.patterns.iter().filter(|p| p.1).nth(rng.below(1287)).unwrap().0;
                let suited = canonical(&(*p, true)).to_vec();
                let plain = canonical(&(*p, false)).to_vec();
                vec![suited, plain, rng.deal(5), rng.deal(7)]
            };
            let sets: Vec<Vec<Job>> = (0..n)
                .map(|t| {
                    let mut rng = Rng::fork(c.seed, (rep * 77_000 + pi * 100 + t) as u64);
                    (0..64)
                        .map(|k| {
                            let ids = match kind {
                                0 | 4 | 5 => hot[(t + k) % hot.len()].clone(),
                                1 => { // own strength per thread
                                    realise(&w.o.patterns[(t * 997 + k * 31) % 7462], &mut rng).to_vec()
                                }
                                2 => { let n = rng.below(9); rng.deal(n) }
                                3 => { let mut h = rng.deal(6); if k % 3 == 0 { h[0] = h[5] } if k % 5 == 0 { h.truncate(3) } h }
                                _ => { let n = 5 + rng.below(3); rng.deal(n) }
                            };
                            job(&w, ids)
                        })
                        .collect()
                })
                .collect();
            let go = Barrier::new(n);
            let done = AtomicBool::new(false);
            let lock: RwLock<Evaluator> = RwLock::new(Evaluator::new());
            let logs: Mutex<Vec<(u32, u32, u8)>> = Default::default();
            std::thread::scope(|s| {
                for (t, jobs) in sets.iter().enumerate() {
                    let (go, done, shared, logs, lock) = (&go, &done, &shared, &logs, &lock);
                    s.spawn(move || {
                        let mut rng = Rng::fork(c.seed, (rep * 9000 + pi * 64 + t) as u64);
                        let mut local = vec![];
                        let mut mine: Option<Evaluator> = None;
                        go.wait();
                        let t0 = std::time::Instant::now();
                        for k in 0..per {
                            let j = &jobs[k & 63];
                            let r = match kind {
                                4 => {
                                    // copies made and dropped while others evaluate
                                    if k % 16 == 0 {
                                        drop(mine.take());
                                        mine = guard(|| if k % 32 == 0 { (**shared).clone() } else if k % 48 == 0 { Evaluator::new() } else { Evaluator::default() }).ok();
                                    }
                                    let e: &Evaluator = if k & 1 == 0 { mine.as_ref().unwrap_or(shared) } else { shared };
                                    eval(e, &j.hand)
                                }
                                5 if k % 64 == 63 => {
                                    // replaced under a lock, others wait
                                    let mut l = lock.write().unwrap_or_else(|e| e.into_inner());
                                    *l = (**shared).clone();
                                    eval(&l, &j.hand)
                                }
                                5 => {
                                    let l = lock.read().unwrap_or_else(|e| e.into_inner());
                                    eval(&l, &j.hand)
                                }
                                6 => {
                                    if k % 8 == 0 { if let Err(m) = other_ops(&mut rng) { c.viol(m); return } }
                                    eval(shared, &j.hand)
                                }
                                _ if logged => {
                                    let a = CLOCK.fetch_add(1, SeqCst);
                                    let r = eval(shared, &j.hand);
                                    let b = CLOCK.fetch_add(1, SeqCst);
                                    local.push((a as u32, b as u32, t as u8));
                                    r
                                }
                                _ => eval(shared, &j.hand),
                            };
                            if wrong(j, &r) {
                                c.viol(format!("{n} threads (workload {kind}), thread {t}, call {k}: evaluate({}) gave {r:?}, alone {:?}", cards_str(&j.ids), j.want));
                                done.store(true, Relaxed);
                            }
                            if done.load(Relaxed) { return }
                            if k & 1023 == 1023 {
                                if rng.chance(1, 3) { std::thread::yield_now() }
                                if t0.elapsed().as_secs() > 20 && !c.thorough { break }
                            }
                            if rng.next() & 63 == 0 { for _ in 0..rng.below(200) { std::hint::spin_loop() } }
                        }
                        c.add("concurrent_calls", per as u64);
                        c.add("evaluations", per as u64);
                        c.add(&format!("calls_with_{n:02}_threads"), per as u64);
                        logs.lock().unwrap().extend(local);
                    });
                }
            });
            // what interleavings were seen: overlaps, and the order of calls and returns in windows
            let log = logs.into_inner().unwrap();
            if !log.is_empty() {
                let mut evs: Vec<(u32, u8, bool)> = log.iter().flat_map(|&(a, b, t)| [(a, t, true), (b, t, false)]).collect();
                evs.sort();
                let mut overlap = 0;
                for &(a, b, _) in &log { if b > a + 1 { overlap += 1 } }
                c.add("calls_overlapped_by_another", overlap);
                let mut o = orders.lock().unwrap();
                for win in evs.windows(8) {
                    o.insert(win.iter().fold(n as u64, |h, e| mix(h ^ (1 + e.1 as u64 * 2 + e.2 as u64))));
                }
            }
            c.add("phases", 1);
            c.distinct(mix((rep * 1000 + pi) as u64));
        }
    }
    if !c.stop() { comings_and_goings(c, &w, &shared, tsan) }
    let d = orders.lock().unwrap().len() as u64;
    c.add("distinct_interleaving_windows", d);
    c.distinct_n(d);
    if *shared != Evaluator::new() { c.viol("the shared evaluator changed by being used by many threads") }
    c.sample("workload", || "16 threads on one evaluator, alternating a flush and the same ranks unsuited".into());
    if !tsan { c.min("calls_overlapped_by_another", 1000); c.min("distinct_interleaving_windows", 100); }
}

/// The first uses of the library in this process race with each other.
pub fn coldstart(c: &Ctx) {
    if !vh::ev::SHARED { return c.viol("an evaluator can no longer be shared between threads, or sent to one (it is not Send and Sync)") }
    let n = 4 + (mix(c.seed) % 13) as usize;
    let mut rng = Rng::new(c.seed);
    let hands: Vec<Vec<u8>> = (0..n).map(|t| { let k = 5 + t % 3; rng.deal(k) }).collect();
    let go = Barrier::new(n);
    let cell: OnceLock<Evaluator> = OnceLock::new();
    let mode = mix(c.seed ^ 5) % 4;
    let first = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, usize, Result<Result<Eval, EvalError>, String>, Result<Evaluator, String>, Result<String, String>)>> = Default::default();
    std::thread::scope(|s| {
        for t in 0..n {
            let (hands, go, cell, results, first) = (&hands, &go, &cell, &results, &first);
            s.spawn(move || {
                let hand: Vec<Card> = if mode == 2 { vec![] } else { mks(&hands[t]) };
                go.wait();
                let order = first.fetch_add(1, SeqCst);
                let parsed = guard(|| match (mode as usize + t) % 3 {
                    0 => "As".parse::<Card>().map(|x| x.rank_suit_string()).unwrap_or_default(),
                    1 => cards!("Kd Qh").try_collect::<Vec<_>>().map(|v| v.len().to_string()).unwrap_or_default(),
                    _ => poker::deck::generate().count().to_string(),
                });
                let hand = if hand.is_empty() { mks(&hands[t]) } else { hand };
                let ev = guard(|| match mode {
                    0 => Evaluator::new(),
                    1 => if t % 2 == 0 { Evaluator::new() } else { Evaluator::default() },
                    2 => cell.get_or_init(Evaluator::new).clone(),
                    _ => cell.get_or_init(Evaluator::default).clone(),
                });
                let r = match (&ev, mode) {
                    (Ok(_), 2 | 3) => eval(cell.get().unwrap(), &hand),
                    (Ok(e), _) => eval(e, &hand),
                    (Err(m), _) => Err(m.clone()),
                };
                results.lock().unwrap().push((t, order, r, ev, parsed));
            });
        }
    });
    let res = results.into_inner().unwrap();
    let reference = match guard(Evaluator::new) { Ok(e) => e, Err(m) => return c.viol(m) };
    for (t, _, r, ev, p) in &res {
        let h = &hands[*t];
        let k = best_slow(h);
        let ok = matches!(r, Ok(Ok(e)) if class_code(e.class()) == key_code(k)) && eval(&reference, &mks(h)) == *r;
        if !ok { c.viol(format!("first use in {n} threads (mode {mode}), thread {t}: evaluate({}) gave {r:?}, the rules say {}", cards_str(h), key_name(k))) }
        match ev {
            Ok(e) if *e == reference => {}
            _ => c.viol(format!("first use in {n} threads (mode {mode}): the evaluator of thread {t} differs from a later one")),
        }
        let want = ["As", "2", "52"][(mode as usize + t) % 3];
        if p.as_deref() != Ok(want) { c.viol(format!("first use in {n} threads, thread {t}: parsing or deck gave {p:?} instead of {want}")) }
    }
    // later uses in this process
    let ev = match cell.get() { Some(e) => e, None => &reference };
    let o = Oracle::new();
    for (i, p) in o.patterns.iter().enumerate() {
        if i % 7 != (c.seed % 7) as usize && i > 20 && i < 7440 { continue }
        let h = canonical(p);
        match eval(ev, &mks(&h)) {
            Ok(Ok(e)) if class_code(e.class()) == key_code(o.keys[i]) && (e.is_better_than(Eval::WORST) || i == 0) => {}
            r => { c.viol(format!("after the first uses raced: evaluate({}) gave {r:?}", cards_str(&h))); break }
        }
        c.add("evaluations", 1);
    }
    let order: Vec<usize> = { let mut v: Vec<_> = res.iter().map(|x| (x.1, x.0)).collect(); v.sort(); v.iter().map(|x| x.1).collect() };
    println!("ORDER {mode} {order:?}");
    c.add("processes", 1);
    c.add("threads_at_first_use", n as u64);
    c.distinct_n(1);
}

pub fn best_slow(h: &[u8]) -> u32 {
    let mut best = 0;
    combos5(h.len(), |ix| best = best.max(five(&[h[ix[0]], h[ix[1]], h[ix[2]], h[ix[3]], h[ix[4]]])));
    best
}

/// A small workload over the whole public interface, for interpreters (Miri) and sanitizers: real threads, few hands.
/// A random source that runs dry.
#[cfg(feature = "shuffle")]
struct Dry(u32);
#[cfg(feature = "shuffle")]
impl rand::RngCore for Dry {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        if self.0 == 0 { std::panic::resume_unwind(Box::new(())) }
        self.0 -= 1;
        mix(self.0 as u64)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

pub fn miri_small(c: &Ctx) {
    let mut rng = Rng::new(c.seed);
    let n_threads = if vh::ev::SHARED { 3 } else { 1 };
    let ev = match guard(Evaluator::new) { Ok(e) => e, Err(m) => return c.viol(m) };
    let samples: Vec<[u8; 5]> = {
        // one hand of each category, and random ones
        let mut v = vec![
            [48, 44, 40, 36, 32], [0, 4, 8, 12, 48], [0, 1, 2, 3, 51], [4, 5, 6, 48, 49], [0, 8, 16, 24, 36], [0, 5, 8, 13, 16], [0, 4, 8, 13, 48],
            [20, 21, 22, 30, 40], [20, 21, 30, 31, 2], [50, 51, 3, 7, 11], [0, 4, 8, 12, 21], [1, 7, 20, 33, 50],
        ];
        for _ in 0..12 { let d = rng.deal(5); v.push([d[0], d[1], d[2], d[3], d[4]]) }
        v
    };
    let total = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..n_threads {
            let (ev, samples, total) = (&ev, &samples, &total);
            s.spawn(move || {
                let mut rng = Rng::fork(c.seed, t as u64 + 1);
                for k in 0..14 {
                    let mut h = samples[(k * 5 + t * 3) % samples.len()];
                    rng.shuffle(&mut h);
                    let r = eval(ev, &mks(&h));
                    let want = five(&h);
                    match &r {
                        Ok(Ok(e)) if class_code(e.class()) == key_code(want) && e.to_string() == key_name(want) => {}
                        _ => return c.viol(format!("evaluate({}) gave {r:?}, the rules say {}", cards_str(&h), key_name(want))),
                    }
                    total.fetch_add(1, Relaxed);
                }
                // six and seven cards, errors
                for size in [6usize, 7] {
                    let h = rng.deal(size);
                    let r = eval(ev, &mks(&h));
                    let want = best_slow(&h);
                    match &r {
                        Ok(Ok(e)) if class_code(e.class()) == key_code(want) => {}
                        _ => return c.viol(format!("evaluate({}) gave {r:?}, the rules say {}", cards_str(&h), key_name(want))),
                    }
                    total.fetch_add(1, Relaxed);
                }
                let mut h = rng.deal(5);
                h[4] = h[0];
                match eval(ev, &mks(&h)) {
                    Ok(Err(e @ EvalError::CardsNotUnique(_))) if super::text::bad_dup_message(&h, &e.to_string()).is_none() => {}
                    r => return c.viol(format!("evaluate({}) gave {r:?}", cards_str(&h))),
                }
                match eval(ev, &mks(&h[..t])) {
                    Ok(Err(EvalError::InvalidHandSize(n))) if n == t => {}
                    r => return c.viol(format!("evaluate of {t} cards gave {r:?}")),
                }
                // parsing, printing, decks
                let g = guard(|| {
                    let all: Vec<Card> = poker::deck::generate().collect();
                    assert_eq!(all.len(), 52);
                    let x = all[rng.below(52)];
                    assert_eq!(x.rank_suit_string().parse::<Card>().unwrap(), x);
                    assert!("é♠".parse::<Card>().unwrap_err().to_string().contains("é♠"));
                    assert!("💥".parse::<Card>().is_err());
                    assert_eq!(cards!("As 2c xx").count(), 3);
                    let j = poker::box_cards!(&all[..2], &all[2..3]);
                    assert_eq!(&j[..], &all[..3]);
                    let mut v = all.clone();
                    v.sort();
                    let text = format!("{x} {x:?}");
                    assert!(!text.is_empty());
                    #[cfg(feature = "shuffle")]
                    {
                        let mut d = poker::deck::shuffled();
                        d.sort_by_key(|&x| no(x));
                        assert!(d.iter().map(|&x| no(x)).eq(0..52));
                        // a random source that gives up half way through
                        let mut dry = Dry(10 + rng.below(40) as u32);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| poker::deck::shuffled_with(&mut dry)));
                        assert!(r.is_err() || dry.0 > 0);
                    }
                });
                if let Err(m) = g { c.viol(m) }
            });
        }
    });
    let same = guard(|| { let k = ev.clone(); let ok = k == ev; drop(k); ok });
    if same != Ok(true) { c.viol(format!("a copy of the evaluator: {same:?}")) }
    c.add("evaluations", total.into_inner());
    c.add("threads", n_threads as u64);
    c.distinct_n(n_threads as u64);
}
