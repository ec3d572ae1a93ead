//! C01 class5, C02 showdown, C03 bestof, C04 invariance, C05 reject.
use std::{cmp::Ordering, rc::Rc, sync::Arc};

use poker::{Card, Eval, EvalError};
use vh::{
    ctx::{eval, guard, Ctx},
    hands::*,
    oracle::*,
    rng::Rng,
    *,
};

use crate::world;

fn pairs52() -> Vec<(u8, u8)> {
    (0..51u8).flat_map(|a| (a + 1..52).map(move |b| (a, b))).collect()
}

/// Runs f on every five-card hand a<b<c<d<e, in parallel over (a, b).
fn all_five(c: &Ctx, f: impl Fn(&mut Rng, [u8; 5]) + Sync) {
    let p = pairs52();
    c.par(p.len(), |i| {
        let (a, b) = p[i];
        let mut rng = Rng::fork(c.seed, i as u64);
        for x in b + 1..52 {
            for y in x + 1..52 {
                for z in y + 1..52 {
                    f(&mut rng, [a, b, x, y, z]);
                }
            }
            if c.stop() {
                return;
            }
        }
    });
}

pub fn class5(c: &Ctx) {
    // no World here: this monitor judges the class alone, even when the ordering is broken
    let o = Oracle::new();
    match o.self_check(true) {
        Ok(n) => c.add("oracle_self_check_hands", n),
        Err(e) => return c.inconclusive(format!("oracle self-check failed: {e}")),
    }
    let cards: Vec<Card> = (0..52).map(mk).collect();
    let ev = match guard(Evaluator::new) {
        Ok(e) => e,
        Err(e) => return c.viol(format!("Evaluator::new(): {e}")),
    };
    let perms = perms5();
    let all_orders = cfg!(not(debug_assertions)) || c.thorough;
    let per_cat: Vec<std::sync::atomic::AtomicU64> = (0..9).map(|_| Default::default()).collect();
    all_five(c, |rng, h| {
        let k = five(&h);
        let code = key_code(k);
        per_cat[category(k) as usize].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let n = if all_orders { 120 } else { 4 };
        for i in 0..n {
            let p = &perms[if all_orders { i } else { rng.below(120) }];
            let hc = p.map(|j| cards[h[j] as usize]);
            let r = eval(&ev, &hc);
            match &r {
                Ok(Ok(e)) if class_code(e.class()) == code => {}
                _ => {
                    c.viol(format!("evaluate({}) gave {r:?}, the rules say {}", cards_txt(&hc), key_name(k)));
                    return;
                }
            }
        }
        if rng.below(400_000) == 0 {
            c.sample("hand", || format!("{} -> {}", cards_str(&h), key_name(k)));
        }
    });
    let mut total = 0;
    for (i, n) in per_cat.iter().enumerate() {
        let n = n.load(std::sync::atomic::Ordering::Relaxed);
        total += n;
        c.add(&format!("hands_{}", CAT_NAMES[i]), n);
    }
    c.add("evaluations", total * if all_orders { 120 } else { 4 });
    c.add("hands", total);
    c.distinct_n(total);
    c.min("hands", 2_598_960);
}

fn cmp_story(a: Eval, b: Eval) -> Ordering {
    // the operators a user would write
    if a > b {
        Ordering::Greater
    } else if a < b {
        Ordering::Less
    } else {
        Ordering::Equal
    }
}

/// Some hand of n cards whose value is of any category, biased so that every category is frequent.
fn some_hand(w: &World, rng: &mut Rng) -> Vec<u8> {
    match rng.below(4) {
        0 => rng.deal(5),
        1 => realise(&w.o.patterns[rng.below(7462)], rng).to_vec(),
        2 => {
            let n = 6 + rng.below(5);
            let h = grow(&w.o, rng.below(9) as u32, n, rng);
            if h.len() < 5 {
                rng.deal(7)
            } else {
                h
            }
        }
        _ => {
            let n = 6 + rng.below(2);
            rng.deal(n)
        }
    }
}

pub fn showdown(c: &Ctx) {
    let Some(w) = world(c, true) else { return };
    let n = w.reps.len();
    // several representatives per strength, with random suits and order
    let reps_per = 3;
    let mut reps: Vec<Vec<(Eval, [u8; 5])>> = vec![];
    let mut rng = Rng::fork(c.seed, 77);
    for p in &w.o.patterns {
        let mut v = vec![];
        for _ in 0..reps_per {
            let h = realise(p, &mut rng);
            match eval(&w.ev, &w.c(&h)) {
                Ok(Ok(e)) => v.push((e, h)),
                x => return c.viol(format!("evaluate({}) gave {x:?}", cards_str(&h))),
            }
        }
        reps.push(v);
    }
    // every pair of strengths
    c.par(n, |i| {
        let mut rng = Rng::fork(c.seed, i as u64);
        let mut cnt = 0u64;
        for j in 0..n {
            let (a, ha) = reps[i][rng.below(reps_per)];
            let (b, hb) = reps[j][rng.below(reps_per)];
            cnt += 1;
            let want = i.cmp(&j);
            let got = guard(|| (cmp_story(a, b), a.cmp(&b), a == b, a.is_better_than(b), a.is_worse_than(b), a.is_equal_to(b)));
            let ok = (want, want, want.is_eq(), want.is_gt(), want.is_lt(), want.is_eq());
            if got.as_ref() != Ok(&ok) {
                c.viol(format!(
                    "{} against {}: (operators, cmp, ==, better, worse, equal) gave {got:?}, the rules say {want:?}",
                    cards_str(&ha),
                    cards_str(&hb)
                ));
                return;
            }
        }
        c.add("strength_pairs", cnt);
        c.add("evaluations", cnt);
    });
    if c.stop() {
        return;
    }
    c.distinct_n((n * n) as u64);
    // every five-card hand against its own strength and its neighbours
    let hands = std::sync::atomic::AtomicU64::new(0);
    all_five(c, |rng, mut h| {
        rng.shuffle(&mut h);
        let k = five(&h);
        let o = w.o.ord(k) as usize;
        let r = eval(&w.ev, &w.c(&h));
        let Ok(Ok(e)) = r else { return c.viol(format!("evaluate({}) gave {r:?}", cards_str(&h))) };
        let far = rng.below(n) + 1;
        for other in [o, o.saturating_sub(1).max(1), (o + 1).min(n), far] {
            let b = w.reps[other - 1];
            let want = o.cmp(&other);
            if cmp_story(e, b) != want || e.cmp(&b) != want || b.cmp(&e) != want.reverse() {
                c.viol(format!(
                    "{} against {}: compared {:?}, the rules say {want:?}",
                    cards_str(&h),
                    cards_str(&w.rep_hands[other - 1]),
                    cmp_story(e, b)
                ));
            }
        }
        hands.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    let hands = hands.into_inner();
    c.add("hands", hands);
    c.add("evaluations", hands);
    c.distinct_n(hands);
    // random showdowns between hands of different sizes
    let rounds = c.n(80_000_000, 4_000_000);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 1000 + t as u64);
        let mut ties = 0;
        for _ in 0..rounds / 64 {
            let x = some_hand(&w, &mut rng);
            let y = if rng.chance(1, 3) {
                // a near miss: same cards but one, or the same ranks in other suits
                let mut y = x.clone();
                if rng.chance(1, 2) {
                    let p: Vec<u8> = { let mut s = vec![0, 1, 2, 3]; rng.shuffle(&mut s); s };
                    for q in y.iter_mut() { *q = rank_of(*q) * 4 + p[suit_of(*q) as usize]; }
                } else {
                    let i = rng.below(y.len());
                    let mut q = rng.below(52) as u8;
                    while y.contains(&q) { q = rng.below(52) as u8; }
                    y[i] = q;
                }
                y
            } else {
                some_hand(&w, &mut rng)
            };
            let want = w.ord(&x).cmp(&w.ord(&y));
            let (rx, ry) = (eval(&w.ev, &w.c(&x)), eval(&w.ev, &w.c(&y)));
            match (&rx, &ry) {
                (Ok(Ok(a)), Ok(Ok(b))) if cmp_story(*a, *b) == want && (a == b) == want.is_eq() => {}
                _ => {
                    c.viol(format!("{} against {}: {rx:?} and {ry:?}, the rules say {want:?}", cards_str(&x), cards_str(&y)));
                    if c.stop() { return }
                }
            }
            ties += want.is_eq() as u64;
            c.distinct(x.iter().chain(&y).fold(0u64, |a, &b| rng::mix(a ^ (b as u64 + 1))));
            if rng.below(500_000) == 0 {
                c.sample("showdown", || format!("{} vs {} -> {want:?}", cards_str(&x), cards_str(&y)));
            }
        }
        c.add("random_showdowns", rounds / 64);
        c.add("evaluations", rounds / 32);
        c.add("ties", ties);
    });
    c.min("strength_pairs", 7462 * 7462);
    c.min("ties", 1000);
}

fn check_hand(c: &Ctx, w: &World, h: &[u8], buf: &mut Vec<Card>) -> bool {
    buf.clear();
    buf.extend(h.iter().map(|&x| w.cards[x as usize]));
    let r = eval(&w.ev, buf);
    if let Ok(Ok(e)) = &r {
        let k = w.o.best(h);
        if *e == w.reps[w.o.ord(k) as usize - 1] && class_code(e.class()) == key_code(k) {
            return true;
        }
    }
    c.viol(w.judge(h, &r).unwrap_or_else(|| format!("evaluate({}) gave two different results, one {r:?}", cards_str(h))));
    false
}

pub fn bestof(c: &Ctx) {
    let Some(w) = world(c, true) else { return };
    let w = &w;
    let fast = cfg!(not(debug_assertions));
    let pairs = pairs52();
    // all six-card hands, all seven-card hands (the checked build: a part of the latter)
    c.par(pairs.len(), |i| {
        let (a, b) = pairs[i];
        let mut rng = Rng::fork(c.seed, i as u64);
        let mut buf = vec![];
        let (mut n6, mut n7) = (0u64, 0u64);
        for x in b + 1..52 {
            for y in x + 1..52 {
                for z in y + 1..52 {
                    for v in z + 1..52 {
                        let mut h = [a, b, x, y, z, v];
                        rng.shuffle(&mut h);
                        if !check_hand(c, w, &h, &mut buf) {
                            return;
                        }
                        n6 += 1;
                        for u in v + 1..52 {
                            if !fast && !c.thorough && rng.next() & 31 != 0 {
                                continue;
                            }
                            let mut h = [a, b, x, y, z, v, u];
                            rng.shuffle(&mut h);
                            if !check_hand(c, w, &h, &mut buf) {
                                return;
                            }
                            n7 += 1;
                        }
                    }
                }
                if c.stop() {
                    return;
                }
            }
        }
        c.add("hands_of_6", n6);
        c.add("hands_of_7", n7);
        c.add("evaluations", n6 + n7);
        c.distinct_n(n6 + n7);
    });
    c.min("hands_of_6", 20_358_520);
    c.min("hands_of_7", if fast || c.thorough { 133_784_560 } else { 3_000_000 });
    // 8 .. 52 cards: random, grown to a bounded category, and growing chains
    let rounds = c.n(3_000, 80);
    c.par(rounds, |t| {
        let mut rng = Rng::fork(c.seed, 5000 + t as u64);
        let mut buf = vec![];
        let mut n = 0u64;
        let mut cats = [0u64; 9];
        for size in 8..=52usize {
            let reps = if size <= 12 { 200 } else if size <= 20 { 20 } else { 1 };
            for _ in 0..reps {
                let h = rng.deal(size);
                if !check_hand(c, w, &h, &mut buf) { return }
                cats[category(w.o.best(&h)) as usize] += 1;
                c.distinct(h.iter().fold(1, |a, &b| rng::mix(a ^ (b as u64 + 1))));
                n += 1;
            }
            c.add(&format!("hands_of_{size}"), reps as u64);
        }
        for cat in 0..9u32 {
            for _ in 0..60 {
                let max = 5 + rng.below(20);
                let h = grow(&w.o, cat, max, &mut rng);
                if h.len() < 6 { continue }
                if !check_hand(c, w, &h, &mut buf) { return }
                cats[category(w.o.best(&h)) as usize] += 1;
                c.distinct(h.iter().fold(1, |a, &b| rng::mix(a ^ (b as u64 + 1))));
                c.add(&format!("bounded_hands_of_{}", h.len()), 1);
                n += 1;
            }
        }
        // a chain of growing hands: never worse
        let deck = rng.deal(52);
        let top = if t % 10 == 0 { 52 } else { 24 };
        let mut prev: Option<Eval> = None;
        for size in 5..=top {
            buf.clear();
            buf.extend(deck[..size].iter().map(|&x| w.cards[x as usize]));
            let Ok(Ok(e)) = eval(&w.ev, &buf) else {
                return c.viol(format!("evaluate({}) failed", cards_str(&deck[..size])));
            };
            if prev.is_some_and(|p| e < p) {
                return c.viol(format!("adding the last card of {} made the hand worse ({e})", cards_str(&deck[..size])));
            }
            prev = Some(e);
            n += 1;
        }
        c.add("growing_chains", 1);
        c.add("evaluations", n);
        for (i, k) in cats.iter().enumerate() {
            c.add(&format!("big_hands_{}", CAT_NAMES[i]), *k);
        }
        if t < 3 {
            let h = rng.deal(12);
            c.sample("hand", || format!("{} -> {}", cards_str(&h), key_name(w.o.best(&h))));
        }
    });
    // needles: the best five at every choice of positions
    let top = if c.thorough { 18 } else if fast { 14 } else { 12 };
    for n in 6..=top {
        let mut subsets = vec![];
        combos5(n, |ix| subsets.push(ix));
        let chunks = subsets.chunks(64).collect::<Vec<_>>();
        c.par(chunks.len(), |i| {
            let mut rng = Rng::fork(c.seed, 9000 + (n * 100_000 + i) as u64);
            let mut buf = vec![];
            for ix in chunks[i] {
                for kind in 0..3 {
                    let h = needle(w, kind, n, *ix, &mut rng);
                    if !check_hand(c, w, &h, &mut buf) { return }
                }
            }
            c.add("needle_hands", 3 * chunks[i].len() as u64);
            c.add("evaluations", 3 * chunks[i].len() as u64);
        });
    }
    // ... and at random or extreme positions of long hands
    let sizes: Vec<usize> = (15..=52).collect();
    let per = if c.thorough { 60 } else { 3 };
    c.par(sizes.len(), |i| {
        let n = sizes[i];
        let mut rng = Rng::fork(c.seed, 70_000 + n as u64);
        let mut buf = vec![];
        let mut places = vec![
            [0, 1, 2, 3, 4],
            [n - 5, n - 4, n - 3, n - 2, n - 1],
            [0, 1, 2, 3, n - 1],
            [0, n - 4, n - 3, n - 2, n - 1],
        ];
        for _ in 0..per {
            let mut p: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut p);
            let mut q = [p[0], p[1], p[2], p[3], p[4]];
            q.sort();
            places.push(q);
        }
        for ix in &places {
            let h = needle(w, 0, n, *ix, &mut rng);
            if !check_hand(c, w, &h, &mut buf) { return }
        }
        c.add("needle_hands_long", places.len() as u64);
        c.add("evaluations", places.len() as u64);
    });
    // the library against itself: evaluation = maximum over its own five-card evaluations
    let rounds = c.n(400_000, 40_000);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 80_000 + t as u64);
        for _ in 0..rounds / 32 {
            let n = 6 + rng.below(5);
            let h = w.c(&rng.deal(n));
            let mut best: Option<Eval> = None;
            combos5(n, |x| {
                if let Ok(Ok(e)) = eval(&w.ev, &x.map(|i| h[i])) {
                    best = best.max(Some(e));
                }
            });
            let r = eval(&w.ev, &h);
            match (&r, best) {
                (Ok(Ok(e)), Some(b)) if *e == b && e.class() == b.class() => {}
                _ => return c.viol(format!("evaluate({}) gave {r:?}, its best five cards {best:?}", cards_txt(&h))),
            }
        }
        c.add("self_comparisons", rounds / 32);
    });
}

/// n cards whose best five stand exactly at positions ix (kind 0: nothing else comes near).
fn needle(w: &World, kind: usize, n: usize, ix: [usize; 5], rng: &mut Rng) -> Vec<u8> {
    loop {
        let s = rng.below(4) as u8;
        let five: [u8; 5] = match kind {
            0 => [8, 9, 10, 11, 12].map(|r| r * 4 + s),
            1 => {
                // quads and the highest kicker
                let q = rng.below(12) as u8;
                [q * 4, q * 4 + 1, q * 4 + 2, q * 4 + 3, 48 + s]
            }
            _ => {
                let st = rng.below(9) as u8;
                [st, st + 1, st + 2, st + 3, st + 4].map(|r| r * 4 + s)
            }
        };
        let mut rest: Vec<u8> = (0..52).filter(|x| !five.contains(x)).collect();
        rng.shuffle(&mut rest);
        let mut h = vec![0xffu8; n];
        let mut f = five;
        rng.shuffle(&mut f);
        for (i, &p) in ix.iter().enumerate() {
            h[p] = f[i];
        }
        let mut it = rest.into_iter();
        for x in h.iter_mut() {
            if *x == 0xff {
                *x = it.next().unwrap();
            }
        }
        let _ = w;
        return h;
    }
}

struct Owner(Vec<Card>);
impl AsRef<[Card]> for Owner {
    fn as_ref(&self) -> &[Card] { &self.0 }
}

pub fn invariance(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let w = &w;
    let fast = cfg!(not(debug_assertions));
    let perms = perms5();
    // every five-card hand in all 120 orders (checked build: 12 random ones): equal evaluations, same class
    let n = std::sync::atomic::AtomicU64::new(0);
    all_five(c, |rng, h| {
        let base = eval(&w.ev, &h.map(|x| w.cards[x as usize]));
        let Ok(Ok(b)) = base else { return c.viol(format!("evaluate({}) gave {base:?}", cards_str(&h))) };
        let code = class_code(b.class());
        let all = fast || c.thorough;
        for i in 0..if all { 120 } else { 12 } {
            let p = perms[if all { i } else { rng.below(120) }];
            let hc = p.map(|j| w.cards[h[j] as usize]);
            let r = eval(&w.ev, &hc);
            match &r {
                Ok(Ok(e)) if *e == b && class_code(e.class()) == code => {}
                _ => return c.viol(format!("{} evaluates to {r:?}, but reordered as {} to {base:?}", cards_txt(&hc), cards_str(&h))),
            }
        }
        // every renaming of the suits
        for q in SUIT_PERMS {
            if !all && rng.below(4) != 0 { continue }
            let g = h.map(|x| w.cards[(rank_of(x) * 4 + q[suit_of(x) as usize]) as usize]);
            let r = eval(&w.ev, &g);
            match &r {
                Ok(Ok(e)) if *e == b && class_code(e.class()) == code => {}
                _ => return c.viol(format!("{} gives {base:?}, but with renamed suits {} gives {r:?}", cards_str(&h), cards_txt(&g))),
            }
        }
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    let n = n.into_inner();
    c.add("five_card_hands", n);
    c.add("evaluations", n * if fast || c.thorough { 145 } else { 19 });
    c.distinct_n(n);
    c.min("five_card_hands", 2_598_960);
    // larger hands: all 720 orders of six, many of more
    let rounds = c.n(60_000, 6_000);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 300 + t as u64);
        let mut cnt = 0;
        for i in 0..rounds / 64 {
            let n = if i % 4 == 0 { 6 } else if i % 4 == 1 { 7 } else { 8 + rng.below(8) };
            let n = if i % 61 == 0 { 16 + rng.below(37) } else { n };
            let h = rng.deal(n);
            let mut hc = w.c(&h);
            let base = eval(&w.ev, &hc);
            let Ok(Ok(b)) = base else { return c.viol(format!("evaluate({}) gave {base:?}", cards_str(&h))) };
            let txt = b.to_string();
            let tries = if n <= 7 { 720 } else if n < 16 { 60 } else { 3 };
            let mut p: Vec<usize> = (0..n).collect();
            for k in 0..tries {
                if n == 6 { next_permutation(&mut p); } else { rng.shuffle(&mut p); }
                let q = SUIT_PERMS[if k % 2 == 0 { 0 } else { rng.below(24) }];
                for (d, &s) in hc.iter_mut().zip(&p) {
                    let x = h[s];
                    *d = w.cards[(rank_of(x) * 4 + q[suit_of(x) as usize]) as usize];
                }
                let r = eval(&w.ev, &hc);
                match &r {
                    Ok(Ok(e)) if *e == b && e.class() == b.class() && (k > 5 || e.to_string() == txt) => {}
                    _ => return c.viol(format!("{} gives {r:?}, but {} gives {base:?}", cards_txt(&hc), cards_str(&h))),
                }
                cnt += 1;
            }
            c.distinct(h.iter().fold(1, |a, &b| rng::mix(a ^ (b as u64 + 1))));
        }
        c.add("reordered_larger", cnt);
        c.add("evaluations", cnt);
    });
    // hands in the orders that people and programs put them in: sorted by rank or suit, up or down, rotated, in halves
    let rounds = c.n(3_000_000u64, 100_000);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 7300 + t as u64);
        let mut cnt = 0;
        for i in 0..rounds / 64 {
            let n = [6, 7, 7, 8, 9, 10][rng.below(6)];
            // from one or two suits, from neighbouring ranks, from few ranks, or from all cards
            let (a, b, lo, span) = (rng.below(4), rng.below(4), rng.below(13), 3 + rng.below(5));
            let mut pool: Vec<u8> = (0..52u8).filter(|&x| match i % 4 {
                0 => suit_of(x) as usize == a || suit_of(x) as usize == b && rank_of(x) as usize % 2 == lo % 2,
                1 => (rank_of(x) as usize + 13 - lo) % 13 < span,
                2 => suit_of(x) as usize == a && (rank_of(x) as usize + 13 - lo) % 13 < 10 || rank_of(x) as usize == lo,
                _ => true,
            }).collect();
            rng.shuffle(&mut pool);
            pool.truncate(n);
            if pool.len() < 5 { continue }
            let n = pool.len();
            let want = w.ord(&pool);
            let mut h = pool.clone();
            for k in 0..12 {
                match k {
                    0 => h.sort(),
                    1 => h.sort_by_key(|&x| (rank_of(x), 3 - suit_of(x))),
                    2 => h.sort_by_key(|&x| (suit_of(x), rank_of(x))),
                    3 => h.sort_by_key(|&x| (suit_of(x), 12 - rank_of(x))),
                    4 | 5 => h.rotate_left(1 + rng.below(n - 1)),
                    // equal ranks together, the most frequent first
                    6 => { let g = h.clone(); h.sort_by_key(|&x| (9 - g.iter().filter(|&&y| rank_of(y) == rank_of(x)).count(), 12 - rank_of(x))) }
                    // the most frequent suit first
                    7 => { let g = h.clone(); h.sort_by_key(|&x| (20 - g.iter().filter(|&&y| suit_of(y) == suit_of(x)).count(), suit_of(x), 12 - rank_of(x))) }
                    8 => h.sort_by_key(|&x| ((rank_of(x) + 1) % 13, suit_of(x))),
                    9 => { h.sort(); let x = h.pop().unwrap(); h.insert(0, x) }
                    10 => { h.sort(); let x = h.remove(0); h.push(x) }
                    _ => { h.sort(); let m = n / 2; for j in 0..m { if j % 2 == 0 { h.swap(j, n - 1 - j) } } }
                }
                for _ in 0..2 {
                    h.reverse();
                    let r = eval(&w.ev, &w.c(&h));
                    match &r {
                        Ok(Ok(e)) if *e == w.rep(want) && class_code(e.class()) == class_code(w.rep(want).class()) => {}
                        _ => return c.viol(format!("{} gives {r:?}, the same cards in other orders {}", cards_str(&h), w.rep(want))),
                    }
                    cnt += 1;
                }
            }
        }
        c.add("in_usual_orders", cnt);
        c.add("evaluations", cnt);
    });
    // containers
    let rounds = c.n(2_000_000, 200_000);
    let kinds = 16u64;
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 900 + t as u64);
        for _ in 0..rounds / 32 {
            let n = [0, 1, 3, 4, 5, 5, 5, 6, 7, 7, 9][rng.below(11)];
            let mut h = rng.deal(n);
            if n > 1 && rng.chance(1, 6) {
                let (i, j) = (rng.below(n), rng.below(n));
                h[i] = h[j];
            }
            let v = w.c(&h);
            let base = eval(&w.ev, &v);
            let e = &w.ev;
            let bx: Box<[Card]> = v.clone().into();
            let rc: Rc<[Card]> = v.clone().into();
            let ar: Arc<[Card]> = v.clone().into();
            let mut padded = w.c(&rng.deal(52));
            let at = rng.below(52 - n + 1);
            padded[at..at + n].copy_from_slice(&v);
            let cow: std::borrow::Cow<[Card]> = (&v).into();
            let mut spare = Vec::with_capacity(100);
            spare.extend_from_slice(&v);
            let mut mv = v.clone();
            let mut got = vec![
                guard(|| e.evaluate(v.clone())),
                guard(|| e.evaluate(&v)),
                guard(|| e.evaluate(v.as_slice())),
                guard(|| e.evaluate(&bx)),
                guard(|| e.evaluate(bx.clone())),
                guard(|| e.evaluate(&rc)),
                guard(|| e.evaluate(rc.clone())),
                guard(|| e.evaluate(ar.clone())),
                guard(|| e.evaluate(&padded[at..at + n])),
                guard(|| e.evaluate(&cow)),
                guard(|| e.evaluate(spare)),
                guard(|| e.evaluate(&mut mv)),
                guard(|| e.evaluate(Owner(v.clone()))),
                guard(|| e.evaluate(&&&v)),
            ];
            match n {
                5 => {
                    let a: [Card; 5] = v.clone().try_into().unwrap();
                    got.push(guard(|| e.evaluate(a)));
                    got.push(guard(|| e.evaluate(&a)));
                }
                6 => got.push(guard(|| e.evaluate(<[Card; 6]>::try_from(v.clone()).unwrap()))),
                7 => got.push(guard(|| e.evaluate(<[Card; 7]>::try_from(v.clone()).unwrap()))),
                9 => got.push(guard(|| e.evaluate(<[Card; 9]>::try_from(v.clone()).unwrap()))),
                4 => got.push(guard(|| e.evaluate(<[Card; 4]>::try_from(v.clone()).unwrap()))),
                0 => got.push(guard(|| e.evaluate([]))),
                _ => {}
            }
            for (i, g) in got.iter().enumerate() {
                let same = g == &base
                    && match (g, &base) {
                        (Ok(Ok(a)), Ok(Ok(b))) => a.class() == b.class() && a.to_string() == b.to_string(),
                        _ => true,
                    };
                if !same {
                    return c.viol(format!("{} as container kind {i} gives {g:?}, as a slice {base:?}", cards_str(&h)));
                }
            }
            if v != w.c(&h) || mv != v {
                return c.viol(format!("evaluating {} changed the caller's cards", cards_str(&h)));
            }
            c.add("container_evaluations", got.len() as u64);
            c.add("evaluations", got.len() as u64);
        }
    });
    c.add("container_kinds", kinds);
    c.sample("hand", || "As Ks Qs Js Ts in 120 orders and 24 suit renamings".into());
}

const SUIT_PERMS: [[u8; 4]; 24] = [
    [0, 1, 2, 3], [0, 1, 3, 2], [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 1, 2], [0, 3, 2, 1],
    [1, 0, 2, 3], [1, 0, 3, 2], [1, 2, 0, 3], [1, 2, 3, 0], [1, 3, 0, 2], [1, 3, 2, 0],
    [2, 0, 1, 3], [2, 0, 3, 1], [2, 1, 0, 3], [2, 1, 3, 0], [2, 3, 0, 1], [2, 3, 1, 0],
    [3, 0, 1, 2], [3, 0, 2, 1], [3, 1, 0, 2], [3, 1, 2, 0], [3, 2, 0, 1], [3, 2, 1, 0],
];

pub fn reject(c: &Ctx) {
    let cards: Vec<Card> = (0..52).map(mk).collect();
    let ev = match guard(Evaluator::new) {
        Ok(e) => e,
        Err(e) => return c.viol(format!("Evaluator::new(): {e}")),
    };
    let ev = &ev;
    let cards = &cards;
    let judge = |h: &[u8], buf: &mut Vec<Card>| -> bool {
        let mut seen = 0u64;
        let mut dup = false;
        for &x in h {
            dup |= seen >> x & 1 == 1;
            seen |= 1 << x;
        }
        buf.clear();
        buf.extend(h.iter().map(|&x| cards[x as usize]));
        let r = eval(ev, buf);
        let ok = match &r {
            Ok(Err(EvalError::CardsNotUnique(v))) => {
                dup && v.len() == h.len() && v.iter().zip(buf.iter()).all(|(a, b)| a.unique_integer() == b.unique_integer())
            }
            Ok(Err(EvalError::InvalidHandSize(n))) => !dup && h.len() < 5 && *n == h.len(),
            Ok(Ok(_)) => !dup && h.len() >= 5,
            Err(_) => false,
        };
        if !ok {
            let short = h.len() < 200;
            c.viol(format!(
                "evaluate of {} cards ({}), {}: got {}",
                h.len(),
                if short { cards_str(h) } else { cards_str(&h[..50]) + " ..." },
                if dup { "not all different" } else { "all different" },
                if short { format!("{r:?}") } else { format!("{r:?}").chars().take(300).collect() }
            ));
        }
        ok
    };
    // all lists of up to four cards
    let mut buf = vec![];
    judge(&[], &mut buf);
    c.add("evaluations", 1);
    c.par(52, |a| {
        let a = a as u8;
        let mut buf = vec![];
        let mut n = 1u64;
        if !judge(&[a], &mut buf) { return }
        for b in 0..52 {
            if !judge(&[a, b], &mut buf) { return }
            n += 1;
            for x in 0..52 {
                if !judge(&[a, b, x], &mut buf) { return }
                n += 1;
                for y in 0..52 {
                    if !judge(&[a, b, x, y], &mut buf) { return }
                    n += 1;
                }
            }
        }
        c.add("short_lists", n);
        c.add("evaluations", n);
        c.distinct_n(n);
    });
    c.min("short_lists", 7_454_980);
    // five cards: every multiset, with all repeats, in one random order (all orders of repeats: thorough)
    c.par(52, |a| {
        let mut rng = Rng::fork(c.seed, a as u64);
        let a = a as u8;
        let mut buf = vec![];
        let mut n = 0u64;
        for b in a..52 {
            for x in b..52 {
                for y in x..52 {
                    for z in y..52 {
                        let dup = a == b || b == x || x == y || y == z;
                        if !dup && !c.thorough && rng.next() & 7 != 0 { continue }
                        let mut h = [a, b, x, y, z];
                        for _ in 0..if c.thorough { 8 } else { 1 } {
                            rng.shuffle(&mut h);
                            if !judge(&h, &mut buf) { return }
                            n += 1;
                        }
                    }
                }
            }
        }
        c.add("five_lists", n);
        c.add("evaluations", n);
        c.distinct_n(n);
    });
    // every length to 60 (and some long ones), the only repeat at every pair of positions
    let lens: Vec<usize> = (5..=52).collect();
    c.par(lens.len(), |k| {
        let n = lens[k];
        let mut rng = Rng::fork(c.seed, 4000 + n as u64);
        let mut buf = vec![];
        let mut cnt = 0u64;
        for i in 0..n {
            for j in i + 1..n {
                for _ in 0..c.n(600, 40) {
                    let mut h = rng.deal(n);
                    h[j] = h[i];
                    if !judge(&h, &mut buf) { return }
                    cnt += 1;
                    c.distinct(h.iter().fold(7, |a, &b| rng::mix(a ^ (b as u64 + 1))));
                }
                // every card as the repeated one
                if n <= 9 {
                    for d in 0..52u8 {
                        let mut h = rng.deal(n);
                        let other = h.iter().position(|&x| x == d);
                        if let Some(p) = other { h[p] = h[i]; }
                        h[i] = d;
                        h[j] = d;
                        if !judge(&h, &mut buf) { return }
                        cnt += 1;
                    }
                }
            }
        }
        c.add("one_repeat_lists", cnt);
        c.add("evaluations", cnt);
    });
    c.min("one_repeat_lists", 100_000);
    // several repeats, wide lists
    let rounds = c.n(20_000_000, 1_000_000);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 6000 + t as u64);
        let mut buf = vec![];
        for i in 0..rounds / 32 {
            let len = match i % 8 {
                0 => rng.below(5),
                1..=4 => 5 + rng.below(8),
                5 => 13 + rng.below(40),
                6 => 53 + rng.below(60),
                _ => if i % 1024 == 7 { 1000 + rng.below(100_000) } else { 100 + rng.below(300) },
            };
            // draw from a small pool so that repeats are common but not certain
            let pool = 1 + rng.below(52);
            let pool = rng.deal(pool);
            let mut h: Vec<u8> = (0..len).map(|_| *rng.pick(&pool)).collect();
            if rng.chance(1, 3) && len <= 12 {
                h = rng.deal(len);
            }
            if !judge(&h, &mut buf) { return }
            c.distinct(h.iter().fold(9, |a, &b| rng::mix(a ^ (b as u64 + 1))));
        }
        c.add("mixed_lists", rounds / 32);
        c.add("evaluations", rounds / 32);
    });
    // lists of distinct cards of every length are accepted
    let per = c.n(60, 6);
    c.par(48, |k| {
        let n = 5 + k;
        let mut rng = Rng::fork(c.seed, 8000 + n as u64);
        let mut buf = vec![];
        for _ in 0..if n < 12 { 2000 } else { per } {
            if !judge(&rng.deal(n), &mut buf) { return }
            c.add("valid_lists", 1);
        }
    });
    c.min("valid_lists", 1000);
    c.sample("list", || "Th Qd Th 2c 9s -> CardsNotUnique of the same list".into());
}
