//! C17 compare, C18 predicates.
use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap, HashSet},
    hash::{BuildHasher, Hash, Hasher},
};

use poker::{Eval, EvalClass};
use vh::{
    ctx::{eval, guard, Ctx},
    hands::*,
    oracle::*,
    rng::Rng,
    *,
};

use super::places;
use crate::world;

#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3) } }
    fn finish(&self) -> u64 { self.0 }
}
fn hashes(e: &Eval) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    e.hash(&mut a);
    let mut b = Fnv(0xcbf29ce484222325);
    e.hash(&mut b);
    (a.finish(), b.finish())
}

/// Everything the interface says about one pair.
#[derive(Debug, PartialEq, Clone, Copy)]
struct Story {
    better: bool,
    worse: bool,
    equal: bool,
    ops: [bool; 6],
    cmp: Ordering,
    partial: Option<Ordering>,
}
fn story(a: Eval, b: Eval) -> Story {
    Story {
        better: a.is_better_than(b),
        worse: a.is_worse_than(b),
        equal: a.is_equal_to(b),
        ops: [a < b, a <= b, a > b, a >= b, a == b, a != b],
        cmp: a.cmp(&b),
        partial: a.partial_cmp(&b),
    }
}
fn expected(o: Ordering) -> Story {
    Story {
        better: o.is_gt(),
        worse: o.is_lt(),
        equal: o.is_eq(),
        ops: [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()],
        cmp: o,
        partial: Some(o),
    }
}

/// The same evaluation reached in several ways: five cards twice over, six, seven and nine cards, and the constants.
fn evals_of(w: &World, seed: u64, per: usize) -> Result<Vec<Vec<(Eval, Vec<u8>)>>, String> {
    let mut rng = Rng::fork(seed, 4242);
    let mut v = vec![];
    for (i, p) in w.o.patterns.iter().enumerate() {
        let mut x = vec![(w.reps[i], w.rep_hands[i].to_vec())];
        for k in 0..per {
            let mut h = realise(p, &mut rng).to_vec();
            if k % 2 == 1 {
                // add cards that do not change the value
                let want = 6 + rng.below(2);
                let mut tries = 0;
                while h.len() < want && tries < 60 {
                    let q = rng.below(52) as u8;
                    tries += 1;
                    if h.contains(&q) { continue }
                    h.push(q);
                    if w.ord(&h) as usize != i + 1 { h.pop(); }
                }
                rng.shuffle(&mut h);
            }
            match eval(&w.ev, &w.c(&h)) {
                Ok(Ok(e)) => x.push((e, h)),
                r => return Err(format!("evaluate({}) gave {r:?}", cards_str(&h))),
            }
        }
        v.push(x);
    }
    Ok(v)
}

pub fn compare(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let per = if c.thorough { 9 } else { 5 };
    let evs = match evals_of(&w, c.seed, per) {
        Ok(v) => v,
        Err(m) => return c.viol(m),
    };
    c.add("hands", (evs.len() * (per + 1)) as u64);
    let n = evs.len();
    // every pair of strengths, each through every interface, with arbitrary representatives
    c.par(n, |i| {
        let mut rng = Rng::fork(c.seed, i as u64);
        for j in 0..n {
            let reps = if i == j { (per + 1) * (per + 1) } else if c.thorough { 4 } else { 1 };
            for r in 0..reps {
                let (x, y) = if i == j { (r / (per + 1), r % (per + 1)) } else { (rng.below(per + 1), rng.below(per + 1)) };
                let ((a, ha), (b, hb)) = (&evs[i][x], &evs[j][y]);
                let (a, b) = (*a, *b);
                let got = guard(|| (story(a, b), story(b, a)));
                let o = i.cmp(&j);
                if got != Ok((expected(o), expected(o.reverse()))) {
                    c.viol(format!("{} and {}: {got:?}, expected {o:?} everywhere", cards_str(ha), cards_str(hb)));
                    return;
                }
                // max and min pick one of the two, of the right value; clamp too
                let (mx, mn) = (a.max(b), a.min(b));
                let (wx, wn) = if o.is_ge() { (a, b) } else { (b, a) };
                if mx != wx || mn != wn || mx < mn || (mx == a) != o.is_ge() {
                    c.viol(format!("{} and {}: max {mx:?} min {mn:?}", cards_str(ha), cards_str(hb)));
                    return;
                }
                if i == j {
                    if hashes(&a) != hashes(&b) || class_code(a.class()) != class_code(b.class()) || a.to_string() != b.to_string() {
                        c.viol(format!("{} and {} are equal, but hash {:?} {:?}, class {:?} {:?}, text {a} {b}", cards_str(ha), cards_str(hb), hashes(&a), hashes(&b), a.class(), b.class()));
                        return;
                    }
                    c.add("equal_pairs", 1);
                }
            }
        }
        c.add("pairs", n as u64);
        c.add("evaluations", n as u64);
    });
    if c.stop() { return }
    c.distinct_n((n * n) as u64);
    // bounds and identity of the constants
    let roy = w.o.ord(five(&[48, 44, 40, 36, 32])) as usize - 1;
    let low = w.o.ord(five(&[0, 4, 8, 12, 21])) as usize - 1;
    if roy != 7461 || low != 0 { return c.inconclusive("oracle: royal flush or seven-high are not the extremes"); }
    for (i, v) in evs.iter().enumerate() {
        for (e, h) in v {
            for (k, at, name) in [(Eval::BEST, 7461usize, "BEST"), (Eval::WORST, 0, "WORST")] {
                let o = i.cmp(&at);
                if story(*e, k) != expected(o) || story(k, *e) != expected(o.reverse()) {
                    return c.viol(format!("{} against {name}: {:?} and {:?}, expected {o:?}", cards_str(h), story(*e, k), story(k, *e)));
                }
                if o.is_eq() && (hashes(e) != hashes(&k) || class_code(e.class()) != class_code(k.class()) || e.to_string() != k.to_string()) {
                    return c.viol(format!("{} equals {name} but hash, class or text differ: {e:?} {k:?}", cards_str(h)));
                }
                if e.max(&k) < e.min(&k) || *e.max(&Eval::WORST) != *e || *e.min(&Eval::BEST) != *e || (*e).clamp(Eval::WORST, Eval::BEST) != *e {
                    return c.viol(format!("{} is not within the constants", cards_str(h)));
                }
                c.add("bounds", 1);
            }
        }
    }
    if story(Eval::BEST, Eval::WORST) != expected(Ordering::Greater) { return c.viol("BEST does not beat WORST"); }
    const CT: (bool, bool, bool) = (Eval::BEST.is_better_than(Eval::WORST), Eval::BEST.is_worse_than(Eval::WORST), Eval::BEST.is_equal_to(Eval::WORST));
    if CT != (true, false, false) { return c.viol(format!("in constant context BEST against WORST is {CT:?}")); }
    // transitivity on triples, biased to neighbours
    let triples = c.n(200_000_000u64, 10_000_000u64);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 900 + t as u64);
        for _ in 0..triples / 32 {
            let i = rng.below(n);
            let near = |rng: &mut Rng| if rng.chance(1, 2) { (i + rng.below(7)).saturating_sub(3).min(n - 1) } else { rng.below(n) };
            let (j, k) = (near(&mut rng), near(&mut rng));
            let (a, b, d) = (evs[i][rng.below(per + 1)].0, evs[j][rng.below(per + 1)].0, evs[k][rng.below(per + 1)].0);
            if (a <= b && b <= d && a > d) || (a.is_better_than(b) && b.is_better_than(d) && !a.is_better_than(d)) || (a.is_equal_to(b) && a.cmp(&d) != b.cmp(&d)) {
                return c.viol(format!("order is not transitive on {a:?}, {b:?}, {d:?}"));
            }
        }
        c.add("triples", triples / 32);
    });
    // collections keyed by evaluations
    let rounds = c.n(200_000, 10_000);
    c.par(rounds, |t| {
        let mut rng = Rng::fork(c.seed, 3000 + t as u64);
        let len = rng.below(300);
        let centre = rng.below(n);
        let v: Vec<(usize, Eval)> = (0..len)
            .map(|_| {
                let i = if rng.chance(1, 2) { (centre + rng.below(20)).min(n - 1) } else { rng.below(n) };
                (i, evs[i][rng.below(per + 1)].0)
            })
            .collect();
        let r = guard(|| {
            let mut s: Vec<Eval> = v.iter().map(|x| x.1).collect();
            let mut u = s.clone();
            s.sort();
            u.sort_unstable_by(|a, b| b.cmp(a));
            u.reverse();
            let set: HashSet<Eval> = s.iter().copied().collect();
            let map: HashMap<Eval, usize, std::hash::BuildHasherDefault<Fnv>> = v.iter().map(|x| (x.1, x.0)).collect();
            let tree: BTreeMap<Eval, usize> = v.iter().map(|x| (x.1, x.0)).collect();
            (s, u, set.len(), map.len(), v.iter().all(|x| map.get(&x.1) == Some(&x.0) && tree.get(&x.1) == Some(&x.0)), tree.values().copied().collect::<Vec<_>>(), v.iter().map(|x| x.1).max(), v.iter().map(|x| x.1).min())
        });
        let mut want: Vec<usize> = v.iter().map(|x| x.0).collect();
        want.sort();
        let sorted: Vec<Eval> = want.iter().map(|&i| w.reps[i]).collect();
        let mut d = want.clone();
        d.dedup();
        let exp = (sorted.clone(), sorted.clone(), d.len(), d.len(), true, d, sorted.last().copied(), sorted.first().copied());
        if r != Ok(exp) {
            return c.viol(format!("sorting or keying by {len} evaluations of strengths {want:?} gives {r:?}"));
        }
        c.add("collections", 1);
        c.add("evaluations", 1);
        c.distinct(want.iter().fold(3, |a, &b| rng::mix(a ^ (b as u64 + 1))));
    });
    let s = std::collections::hash_map::RandomState::new();
    if s.hash_one(Eval::BEST) != s.hash_one(w.rep(7462)) { c.viol("BEST and a royal flush hash differently"); }
    c.sample("pair", || format!("{} > {} through every interface", w.rep(7462), w.rep(7461)));
    c.min("pairs", 7462 * 7462);
    c.min("bounds", 60_000);
    let mut some: Vec<(Eval, String)> = (0..n).map(|i| (evs[i][i % (per + 1)].0, cards_str(&evs[i][i % (per + 1)].1))).collect();
    some.extend([(Eval::BEST, "BEST".into()), (Eval::WORST, "WORST".into())]);
    let names: Vec<String> = some.iter().map(|x| x.1.clone()).collect();
    let f: places::Facts = std::sync::Arc::new(move || (0..some.len()).flat_map(|i| {
        let (x, y) = (some[i].0, some[(i * 31 + 7) % some.len()].0);
        let z = some[(i + 1) % some.len()].0;
        let (a, b) = hashes(&x);
        let t = |y: Eval| { let s = story(x, y); s.cmp as i8 as u64 & 3 | (s.partial.map_or(9, |o| o as i8 as u64) & 15) << 2 | s.ops.iter().chain(&[s.better, s.worse, s.equal]).fold(0, |a, &b| a << 1 | b as u64) << 8 };
        [a, b, t(y), t(z), class_code(x.class()) as u64]
    }).collect());
    places::everywhere(c, "evaluations", f, |i| format!("{} of {}", ["hash", "hash", "comparison with another", "comparison with the next", "class"][i % 5], names[i / 5]));
}

pub fn all_classes() -> Vec<(u32, EvalClass)> {
    let mut v = vec![];
    for cat in 0..9 {
        for a in 0..13u8 {
            for b in 0..if cat == TWO_PAIR || cat == FULL { 13u8 } else { 1 } {
                v.push((cat << 8 | (a as u32) << 4 | b as u32, class_of(cat, a, b)));
            }
        }
    }
    v
}

fn tests(e: Eval) -> [bool; 9] {
    [
        e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(), e.is_flush(), e.is_full_house(),
        e.is_four_of_a_kind(), e.is_straight_flush(),
    ]
}

pub fn predicates(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let per = c.n(60, 12);
    let evs = match evals_of(&w, c.seed ^ 99, per) {
        Ok(v) => v,
        Err(m) => return c.viol(m),
    };
    c.add("evaluations", (evs.len() * (per + 1)) as u64);
    let check = |e: Eval, h: &str, k: u32| {
        let got = guard(|| (tests(e), e.is_royal_flush(), class_code(e.class())));
        let mut t = [false; 9];
        t[category(k) as usize] = true;
        let roy = category(k) == STRAIGHT_FLUSH && tie(k, 0) == 12;
        if got != Ok((t, roy, key_code(k))) {
            c.viol(format!("{h} ({}): (nine tests, royal, class) = {got:?}, expected only {} and royal {roy}", key_name(k), CAT_NAMES[category(k) as usize]));
        }
    };
    for (i, v) in evs.iter().enumerate() {
        for (e, h) in v {
            check(*e, &cards_str(h), w.o.keys[i]);
            c.add("tested", 1);
            if h.len() > 5 { c.add("tested_6_or_more", 1) }
        }
        c.add(&format!("strengths_{}", CAT_NAMES[category(w.o.keys[i]) as usize]), 1);
    }
    c.distinct_n(evs.len() as u64);
    check(Eval::BEST, "BEST", w.o.keys[7461]);
    check(Eval::WORST, "WORST", w.o.keys[0]);
    const CT: (bool, bool, bool) = (Eval::BEST.is_royal_flush(), Eval::WORST.is_high_card(), Eval::WORST.is_royal_flush());
    if CT != (true, true, false) { c.viol(format!("tests of the constants in constant context: {CT:?}")) }
    // every five-card hand
    let hands = std::sync::atomic::AtomicU64::new(0);
    c.par(48, |a| {
        let mut n = 0;
        let mut rng = Rng::fork(c.seed, a as u64);
        combos5(51 - a, |ix| {
            if ix[0] != 0 || c.stop() { return }
            let mut h = [a as u8; 5];
            for i in 1..5 { h[i] = (a + ix[i]) as u8 }
            if !c.thorough && rng.below(4) > 0 { return }
            n += 1;
            let k = five(&h);
            match eval(&w.ev, &w.c(&h)) {
                Ok(Ok(e)) => check(e, &cards_str(&h), k),
                r => c.viol(format!("evaluate({}) gave {r:?}", cards_str(&h))),
            }
        });
        hands.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    });
    c.add("tested_hands", hands.load(std::sync::atomic::Ordering::Relaxed));
    c.add("evaluations", hands.into_inner());
    // class order over everything a user can build
    let cl = all_classes();
    for (i, (x, a)) in cl.iter().enumerate() {
        for (y, b) in &cl {
            let o = x.cmp(y);
            let got = guard(|| (a.cmp(b), a.partial_cmp(b), [a < b, a <= b, a > b, a >= b, a == b, a != b], class_code(*a.max(b)), class_code(*a.min(b))));
            if got != Ok((o, Some(o), [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()], *x.max(y), *x.min(y))) {
                c.viol(format!("classes {a:?} and {b:?}: (cmp, partial_cmp, operators, max, min) = {got:?}, expected {o:?}"));
                break;
            }
            c.add("class_pairs", 1);
        }
        if i % 50 == 0 { c.sample("class", || format!("{a:?}")) }
    }
    // class order against evaluation order
    c.par(7462, |i| {
        let mut rng = Rng::fork(c.seed, 80_000 + i as u64);
        for j in 0..i {
            let (a, b) = (evs[i][rng.below(per + 1)].0, evs[j][rng.below(per + 1)].0);
            let (x, y) = (a.class(), b.class());
            if x < y || (x > y && !a.is_better_than(b)) || (x > y && !(a > b)) {
                c.viol(format!("{a:?} is stronger than {b:?} by the rules, classes compare {:?}, evaluations {:?}", x.cmp(&y), a.cmp(&b)));
                return;
            }
        }
        c.add("eval_class_pairs", i as u64);
    });
    let some: Vec<Eval> = (0..7462).map(|i| evs[i][i % (per + 1)].0).chain([Eval::BEST, Eval::WORST]).collect();
    let names: Vec<String> = some.iter().map(|x| format!("{x:?}")).collect();
    let f: places::Facts = std::sync::Arc::new(move || some.iter().map(|e| tests(*e).iter().fold(e.is_royal_flush() as u64, |a, &b| a << 1 | b as u64) << 32 | class_code(e.class()) as u64)
        .chain((0..cl.len()).map(|i| cl.iter().fold(i as u64, |a, x| rng::mix(a ^ cl[i].1.cmp(&x.1) as i8 as u64)))).collect());
    places::everywhere(c, "evaluations", f, |i| names.get(i).map_or("the order of classes".into(), |n| format!("the tests and the class of {n}")));
    c.min("class_pairs", 429 * 429);
    c.min("tested_6_or_more", 7462);
    c.min("eval_class_pairs", 7462 * 7461 / 2);
}
