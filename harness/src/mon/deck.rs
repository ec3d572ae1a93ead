//! C14 deck, C15 shuffle, C16 uniform.
use std::{
    collections::HashSet,
    sync::{Barrier, Mutex},
};

use poker::{deck, Card};
use rand::{rngs::StdRng, RngCore, SeedableRng};
use vh::{
    ctx::{guard, Ctx},
    oracle::*,
    rng::{mix, Rng},
    rngs::*,
    *,
};

fn ids(v: &[Card]) -> Vec<u8> { v.iter().map(|&x| no(x)).collect() }

pub fn deck(c: &Ctx) {
    let first = guard(|| deck::generate().collect::<Vec<Card>>());
    let Ok(first) = first else { return c.viol(format!("generate(): {first:?}")) };
    let order = ids(&first);
    let mut s = order.clone();
    s.sort();
    if s != (0..52).collect::<Vec<u8>>() {
        return c.viol(format!("a generated deck is {}", cards_txt(&first)));
    }
    c.sample("deck", || cards_txt(&first));
    let rounds = c.n(30_000_000u64, 1_000_000u64);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        // several decks alive at once, each consumed by its own mix of operations, against a model
        for round in 0..rounds / 64 {
            let n = 1 + rng.below(3);
            let mut trail = String::new();
            let r = guard(|| -> Result<(), String> {
                let mut decks: Vec<_> = (0..n).map(|_| (deck::generate(), 0usize)).collect();
                for _ in 0..1 + rng.below(40) {
                    if decks.is_empty() { break }
                    let i = rng.below(decks.len());
                    let op = rng.below(24);
                    let k = match rng.below(14) { 0 | 1 => 0, 2..=7 => rng.below(6), 8 | 9 => rng.below(60), 10 | 11 => 100, 12 => (1usize << rng.below(usize::BITS as usize)).wrapping_sub(rng.below(54)), _ => usize::MAX - rng.below(54) };
                    trail = format!("{trail} {i}:{op}/{k}");
                    let pos = decks[i].1;
                    let rest = &order[pos..];
                    let (lo, hi) = decks[i].0.size_hint();
                    if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
                        return Err(format!("size hint ({lo}, {hi:?}) with {} cards left", rest.len()));
                    }
                    let bad = |what: &str, got: String, want: String| Err(format!("{what} with {} cards left gave {got}, expected {want}", rest.len()));
                    let d = &mut decks[i].0;
                    match op {
                        0..=5 => {
                            let g = d.next().map(no);
                            let w = rest.first().copied();
                            if g != w { return bad("next", format!("{g:?}"), format!("{w:?}")) }
                            decks[i].1 = (pos + 1).min(52);
                        }
                        6 | 7 => {
                            let g = d.nth(k).map(no);
                            let w = rest.get(k).copied();
                            if g != w { return bad(&format!("nth({k})"), format!("{g:?}"), format!("{w:?}")) }
                            decks[i].1 = pos.saturating_add(k).saturating_add(1).min(52);
                        }
                        8 => {
                            let g: Vec<u8> = d.by_ref().take(k).map(no).collect();
                            let w = &rest[..k.min(rest.len())];
                            if g != w { return bad(&format!("take({k})"), cards_str(&g), cards_str(w)) }
                            decks[i].1 = pos.saturating_add(k).min(52);
                        }
                        9 => {
                            let g: Vec<u8> = d.by_ref().skip(k).step_by(3).map(no).collect();
                            let w: Vec<u8> = rest.iter().skip(k).step_by(3).copied().collect();
                            if g != w { return bad(&format!("skip({k}).step_by(3)"), cards_str(&g), cards_str(&w)) }
                            decks[i].1 = 52;
                        }
                        10 => {
                            let x = rng.below(52) as u8;
                            let g = d.position(|y| no(y) == x);
                            let w = rest.iter().position(|&y| y == x);
                            if g != w { return bad("position", format!("{g:?}"), format!("{w:?}")) }
                            decks[i].1 = w.map_or(52, |w| pos + w + 1);
                        }
                        11 => {
                            let x = rng.below(13) as u8;
                            let g = d.find(|y| rank_no(y.rank()) == x).map(no);
                            let w = rest.iter().position(|&y| rank_of(y) == x);
                            if g != w.map(|i| rest[i]) { return bad("find", format!("{g:?}"), format!("{w:?}")) }
                            decks[i].1 = w.map_or(52, |w| pos + w + 1);
                        }
                        12 => {
                            let g = d.by_ref().take_while(|y| suit_no(y.suit()) != 2).count();
                            let w = rest.iter().take_while(|&&y| suit_of(y) != 2).count();
                            if g != w { return bad("take_while", format!("{g}"), format!("{w}")) }
                            decks[i].1 = (pos + w + 1).min(52);
                        }
                        13 => {
                            let x = rest.get(k).copied();
                            let g = d.try_fold(0usize, |n, y| if n == k { Err(no(y)) } else { Ok(n + 1) });
                            let w = match x { Some(x) => Err(x), None => Ok(rest.len()) };
                            if g != w { return bad("try_fold", format!("{g:?}"), format!("{w:?}")) }
                            decks[i].1 = pos.saturating_add(k).saturating_add(1).min(52);
                        }
                        _ => {
                            let (d, _) = decks.swap_remove(i);
                            let (g, w): (Vec<u8>, Vec<u8>) = match op {
                                14 => (d.map(no).collect(), rest.to_vec()),
                                15 => (vec![d.count() as u8], vec![rest.len() as u8]),
                                16 => (d.last().map(no).into_iter().collect(), rest.last().copied().into_iter().collect()),
                                17 => (d.fold(vec![], |mut v, x| { v.push(no(x)); v }), rest.to_vec()),
                                18 => { let mut v = vec![]; d.for_each(|x| v.push(no(x))); (v, rest.to_vec()) }
                                19 => (d.skip(k).map(no).collect(), rest.iter().skip(k).copied().collect()),
                                20 => { let k = k.saturating_add(1); (d.step_by(k).map(no).collect(), rest.iter().step_by(k).copied().collect()) }
                                21 => { let (mut a, b): (Vec<Card>, Vec<Card>) = d.partition(|x| no(*x) % 2 == 0); a.extend(b); let (mut x, y): (Vec<u8>, Vec<u8>) = rest.iter().partition(|x| **x % 2 == 0); x.extend(y); (ids(&a), x) }
                                22 => { let mut v = vec![]; v.extend(d); (ids(&v), rest.to_vec()) }
                                _ => {
                                    // ends, and stays at its end
                                    let mut d = d;
                                    let mut v = vec![];
                                    while let Some(x) = d.next() { v.push(no(x)); if v.len() > 60 { break } }
                                    let extra: Vec<u8> = (0..3).filter_map(|_| d.next()).map(no).collect();
                                    v.extend(extra);
                                    (v, rest.to_vec())
                                }
                            };
                            if g != w { return bad(&format!("consuming operation {op}"), format!("{g:?}"), format!("{w:?}")) }
                        }
                    }
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return c.viol(format!("{m} (operations deck:op/arg:{trail}; round {round} of task {t})")),
                Err(m) => return c.viol(format!("{m} (operations{trail})")),
            }
            c.distinct(trail.bytes().fold(n as u64, |a, b| mix(a ^ (b as u64 + 1))));
            if round == 5 && t < 2 { c.sample("operations deck:op/arg", || trail.clone()) }
        }
        c.add("consumptions", rounds / 64);
        c.add("evaluations", rounds / 64);
    });
    // an ended deck stays ended, however often it is asked
    let polls = if c.thorough && !cfg!(debug_assertions) { (1u64 << 32) + 1000 } else { c.n(20_000_000, 2_000_000) };
    c.par(4, |t| {
        let r = guard(|| {
            let mut d = deck::generate();
            if t == 3 { let _ = d.nth(1000); } else { while d.next().is_some() {} }
            (0..polls).find_map(|i| match t { 0 | 3 => d.next(), 1 => d.nth((i & 63) as usize), _ => d.find(|_| true) }.map(|x| (i, x)))
        });
        if r != Ok(None) { return c.viol(format!("a deck that had ended, asked again and again (way {t}): {r:?} (times asked, card)")) }
        c.add("asked_after_the_end", polls);
    });
    // other threads at once
    let go = Barrier::new(16);
    std::thread::scope(|s| {
        for _ in 0..16 {
            s.spawn(|| {
                go.wait();
                for _ in 0..500 {
                    let g = guard(|| ids(&deck::generate().collect::<Vec<_>>()));
                    if g.as_ref() != Ok(&order) { return c.viol(format!("a deck generated in another thread: {g:?}")) }
                }
                c.add("decks_in_threads", 500);
            });
        }
    });
    // shuffling in between does not matter
    for _ in 0..2000 {
        let g = guard(|| { let _ = deck::shuffled(); let _ = deck::generate().take(7).count(); ids(&deck::generate().collect::<Vec<_>>()) });
        if g.as_ref() != Ok(&order) { return c.viol(format!("a deck generated after shuffling: {g:?}")) }
        c.add("decks_after_shuffles", 1);
    }
    c.min("consumptions", 100_000);
}

fn full(v: &[Card]) -> bool {
    let mut m = 0u64;
    for &x in v { m |= 1 << no(x) }
    v.len() == 52 && m == (1 << 52) - 1
}

fn any_source(rng: &mut Rng) -> (Source, &'static str) {
    let ext = |rng: &mut Rng| match rng.below(9) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => u32::MAX as u64,
        4 => 1 << 63,
        5 => 1 << 31,
        6 => (rng.below(60) as u64) << 32 | rng.below(60) as u64,
        7 => rng.next() & 0xFF,
        _ => rng.next(),
    };
    let (kind, name) = match rng.below(10) {
        0 => (Kind::Const(ext(rng)), "const"),
        1 => (Kind::Counter(ext(rng), ext(rng)), "counter"),
        2 => (Kind::Alternate(ext(rng), ext(rng)), "alternate"),
        3 => (Kind::Period((0..1 + rng.below(60)).map(|_| ext(rng)).collect()), "period"),
        4 => (Kind::XorShift(ext(rng)), "xorshift"),
        5 => (Kind::Lcg(ext(rng)), "lcg"),
        6 => (Kind::Masked(rng.next(), ext(rng)), "masked"),
        7 => (Kind::Bit(rng.next()), "bit"),
        _ => (Kind::SplitMix(rng.next()), "uniform"),
    };
    let hostile = [0, 1, 5, 20, 50, 51, 52, 60, 200, 1000][rng.below(10)];
    (Source::new(kind, hostile, rng.next()), name)
}

pub fn shuffle(c: &Ctx) {
    let rounds = c.n(40_000_000u64, 2_000_000u64);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        for round in 0..rounds / 64 {
            let (src, name) = any_source(&mut rng);
            let between = rng.below(3);
            let r = guard(|| {
                let (mut a, mut b) = (src.clone(), src.clone());
                let x = deck::shuffled_with(&mut a);
                for _ in 0..between { let _ = deck::shuffled(); let _ = deck::shuffled_with(&mut Source::new(Kind::SplitMix(round), 9, round)); }
                let y = {
                    let dynamic: &mut dyn RngCore = &mut b;
                    deck::shuffled_with(dynamic)
                };
                let same_state = a == b && a.next_u64() == b.next_u64() && a.next_u32() == b.next_u32();
                // going on with the same source is decided by its state, too
                let (p, q) = (deck::shuffled_with(&mut a), deck::shuffled_with(&mut b));
                (x, y, same_state, p, q, a.drawn)
            });
            let (x, y, st, p, q, drawn) = match r { Ok(r) => r, Err(m) => return c.viol(format!("shuffled_with({src:?}): {m}")) };
            for d in [&x, &y, &p, &q] {
                if !full(d) { return c.viol(format!("shuffled_with({src:?}) gave {} cards: {}", d.len(), cards_txt(d))) }
            }
            if x != y || p != q || !st {
                return c.viol(format!("two equal sources {src:?} gave {} and {}, then {} and {}; left in the same state: {st}", cards_txt(&x), cards_txt(&y), cards_txt(&p), cards_txt(&q)));
            }
            let h = ids(&x).iter().fold(9, |a, &b| mix(a ^ (b as u64 + 1)));
            c.distinct(h);
            c.add(&format!("source_{name}"), 1);
            c.add("numbers_drawn", drawn);
            if round < 1 && t < 3 { c.sample("shuffle", || format!("{:?} after {} hostile draws -> {} ...", src.kind, src.hostile, cards_txt(&x[..5]))) }
        }
        c.add("evaluations", 4 * (rounds / 64));
        // the generators of the rand crate
        for i in 0..rounds / 6400 {
            let s = mix(c.seed ^ (t as u64) << 32 ^ i);
            let r = guard(|| {
                let (mut a, mut b) = (StdRng::seed_from_u64(s), StdRng::seed_from_u64(s));
                let x = deck::shuffled_with(&mut a);
                let y = deck::shuffled_with(&mut b);
                (x == y && a == b && full(&x), x)
            });
            match r { Ok((true, _)) => {} r => return c.viol(format!("StdRng seeded with {s} twice: {r:?}")) }
            c.add("source_stdrng", 1);
        }
    });
    if c.stop() { return }
    // the default source: full decks, no repeats, in many threads (also brand-new ones)
    let seen: Mutex<HashSet<u128>> = Default::default();
    let note = |v: &[Card]| -> bool {
        let (mut a, mut b) = (1u64, 2u64);
        for &x in v { a = mix(a ^ no(x) as u64); b = mix(b.wrapping_add(no(x) as u64)).rotate_left(7); }
        seen.lock().unwrap().insert((a as u128) << 64 | b as u128)
    };
    let per = if c.thorough { 100_000 } else { 8_000 };
    let check = |what: &str| -> bool {
        match guard(deck::shuffled) {
            Ok(d) if full(&d) => {
                if !note(&d) { c.viol(format!("{what}: the default source gave the same deck twice: {}", cards_txt(&d))); return false }
                true
            }
            d => { c.viol(format!("{what}: shuffled() gave {d:?}")); false }
        }
    };
    std::thread::scope(|s| {
        for _ in 0..16 { s.spawn(|| { for _ in 0..per { if !check("in one of 16 threads") { return } } c.add("default_source_decks", per); }); }
    });
    for _ in 0..c.n(40_000, 6_000) {
        if c.stop() { return }
        std::thread::scope(|s| { s.spawn(|| check("first deck of a new thread")); s.spawn(|| check("first deck of a new thread")); });
        c.add("decks_of_new_threads", 2);
    }
    c.add("evaluations", 16 * per);
    // equal decks could still come from other processes: let the driver compare
    c.min("source_const", 5000);
    c.min("source_period", 5000);
    c.min("default_source_decks", 100_000);
}

// ---- statistics

struct Stats {
    n: u64,
    pos: Vec<u32>,     // card x position
    before: Vec<u32>,  // a < b : a before b
    adj: Vec<u32>,     // a directly before b
    next: Vec<u32>,    // position of a card in the deck before x in this one
    same_rank: Vec<u32>, // pair of positions
    same_suit: Vec<u32>,
    cats: [u64; 9],
    parity: [u64; 2],
    fixed: [u64; 12], // cards at their generated place
    cycles: [u64; 30],
    rise: [u64; 53],   // rising sequences
    pair0: Vec<u32>,   // cards at the first two places (and last two)
    hashes: Vec<u64>,
}
impl Stats {
    fn new() -> Self {
        Stats {
            n: 0, pos: vec![0; 2704], before: vec![0; 2704], adj: vec![0; 2704], next: vec![0; 2704], same_rank: vec![0; 2704], same_suit: vec![0; 2704],
            cats: [0; 9], parity: [0; 2], fixed: [0; 12], cycles: [0; 30], rise: [0; 53], pair0: vec![0; 5408], hashes: vec![],
        }
    }
    fn take(&mut self, d: &[u8; 52], prev: Option<&[u8; 52]>, home: &[u8; 52]) {
        self.n += 1;
        let mut at = [0u8; 52];
        let mut h = 3u64;
        for (p, &x) in d.iter().enumerate() {
            at[x as usize] = p as u8;
            self.pos[x as usize * 52 + p] += 1;
            h = mix(h ^ x as u64);
        }
        self.hashes.push(h);
        for a in 0..52 {
            for b in a + 1..52 {
                self.before[a * 52 + b] += (at[a] < at[b]) as u32;
            }
        }
        for w in d.windows(2) { self.adj[w[0] as usize * 52 + w[1] as usize] += 1 }
        if let Some(q) = prev {
            for (p, &x) in q.iter().enumerate() { self.next[p * 52 + at[x as usize] as usize] += 1 }
        }
        for p in 0..52 {
            for q in p + 1..52 {
                self.same_rank[p * 52 + q] += (d[p] / 4 == d[q] / 4) as u32;
                self.same_suit[p * 52 + q] += (d[p] % 4 == d[q] % 4) as u32;
            }
        }
        self.cats[category(five(&[d[0], d[1], d[2], d[3], d[4]])) as usize] += 1;
        self.pair0[d[0] as usize * 52 + d[1] as usize] += 1;
        self.pair0[2704 + d[50] as usize * 52 + d[51] as usize] += 1;
        // as a permutation of the generated order
        let mut hat = [0u8; 52];
        for (p, &x) in home.iter().enumerate() { hat[x as usize] = p as u8 }
        let perm: [u8; 52] = std::array::from_fn(|p| hat[d[p] as usize]);
        let mut seen = 0u64;
        let mut cyc = 0;
        for i in 0..52 {
            if seen >> i & 1 == 0 {
                cyc += 1;
                let mut j = i;
                while seen >> j & 1 == 0 { seen |= 1 << j; j = perm[j] as usize }
            }
        }
        self.parity[(52 - cyc) % 2] += 1;
        self.cycles[cyc.min(29)] += 1;
        self.fixed[(0..52).filter(|&i| perm[i] as usize == i).count().min(11)] += 1;
        let mut inv = [0u8; 52];
        for p in 0..52 { inv[perm[p] as usize] = p as u8 }
        self.rise[inv.windows(2).filter(|w| w[1] < w[0]).count() + 1] += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.n += o.n;
        for (a, b) in [(&mut self.pos, o.pos), (&mut self.before, o.before), (&mut self.adj, o.adj), (&mut self.next, o.next), (&mut self.same_rank, o.same_rank), (&mut self.same_suit, o.same_suit), (&mut self.pair0, o.pair0)] {
            for (x, y) in a.iter_mut().zip(b) { *x += y }
        }
        for (a, b) in [(&mut self.cats[..], &o.cats[..]), (&mut self.parity[..], &o.parity[..]), (&mut self.fixed[..], &o.fixed[..]), (&mut self.cycles[..], &o.cycles[..]), (&mut self.rise[..], &o.rise[..])] {
            for (x, y) in a.iter_mut().zip(b) { *x += y }
        }
        self.hashes.extend(o.hashes);
    }
}

/// Pearson's statistic as a standard normal deviate (Wilson-Hilferty); cells expecting fewer than 20 are pooled.
fn chi(obs: &[f64], exp: &[f64], constraints: f64) -> f64 {
    let (mut x, mut df, mut po, mut pe) = (0.0, 0.0, 0.0, 0.0);
    for (o, e) in obs.iter().zip(exp) {
        if *e < 20.0 { po += o; pe += e; continue }
        x += (o - e) * (o - e) / e;
        df += 1.0;
    }
    if pe >= 20.0 { x += (po - pe) * (po - pe) / pe; df += 1.0 }
    let df: f64 = df - constraints;
    if df < 1.0 { return 0.0 }
    ((x / df).cbrt() - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}

/// Worst single cell, in binomial standard deviations.
fn worst(obs: &[u32], n: f64, p: f64, keep: impl Fn(usize) -> bool) -> (f64, usize) {
    let mut w = (0.0f64, 0);
    for (i, &o) in obs.iter().enumerate() {
        if !keep(i) { continue }
        let z = (o as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
        if z.abs() > w.0.abs() { w = (z, i) }
    }
    w
}

fn judge(c: &Ctx, what: &str, s: &mut Stats) {
    let n = s.n as f64;
    let f = |v: &[u32]| v.iter().map(|&x| x as f64).collect::<Vec<_>>();
    // One statistic beyond LIMIT standard deviations happens by chance less than once in 10^13 runs of this monitor
    // for the normal ones, once in 10^10 for the others.
    let mut out: Vec<(String, f64, f64)> = vec![];
    out.push(("card at position, all cells".into(), chi(&f(&s.pos), &vec![n / 52.0; 2704], 52.0), 9.0));
    // successive decks: every deck but the first of each task has a predecessor
    let m: f64 = s.next.iter().map(|&x| x as f64).sum::<f64>() / 52.0;
    out.push(("position of a card in the deck before and now, all cells".into(), chi(&f(&s.next), &vec![m / 52.0; 2704], 52.0), 9.0));
    let off: Vec<f64> = (0..2704).filter(|i| i / 52 != i % 52).map(|i| s.adj[i] as f64).collect();
    out.push(("one card directly before another, all cells".into(), chi(&off, &vec![n * 51.0 / 2652.0; 2652], 51.0), 9.0));
    for k in 0..2 {
        let off: Vec<f64> = (0..2704).filter(|i| i / 52 != i % 52).map(|i| s.pair0[k * 2704 + i] as f64).collect();
        out.push((format!("both cards at the {} of the deck, all cells", ["top", "bottom"][k]), chi(&off, &vec![n / 2652.0; 2652], 1.0), 9.0));
    }
    let upper = |i: usize| i / 52 < i % 52;
    let mut cell = |name: &str, (z, i): (f64, usize)| out.push((format!("{name} ({},{})", i / 52, i % 52), z, 9.0));
    cell("worst card and position", worst(&s.pos, n, 1.0 / 52.0, |_| true));
    cell("worst pair of cards in order", worst(&s.before, n, 0.5, upper));
    cell("worst pair of cards adjacent", worst(&s.adj, n, 1.0 / 52.0, |i| i / 52 != i % 52));
    cell("worst pair of positions of one rank", worst(&s.same_rank, n, 3.0 / 51.0, upper));
    cell("worst pair of positions of one suit", worst(&s.same_suit, n, 12.0 / 51.0, upper));
    let z = |k: u64, p: f64| (k as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
    out.push(("parity".into(), z(s.parity[0], 0.5), 9.0));
    let freq = [1302540.0, 1098240.0, 123552.0, 54912.0, 10200.0, 5108.0, 3744.0, 624.0, 40.0].map(|x: f64| x / 2598960.0);
    out.push(("category of the first five cards".into(), chi(&s.cats.map(|x| x as f64), &freq.map(|p| p * n), 1.0), 9.0));
    // fixed points: Poisson(1) to many digits for 52
    let mut pf = [0.0; 12];
    let mut t = (-1.0f64).exp();
    for (k, p) in pf.iter_mut().enumerate().take(11) { *p = t; t /= (k + 1) as f64; }
    pf[11] = 1.0 - pf[..11].iter().sum::<f64>();
    out.push(("number of unmoved cards".into(), chi(&s.fixed.map(|x| x as f64), &pf.map(|p| p * n), 1.0), 9.0));
    // cycles: Stirling numbers of the first kind; rising sequences: Eulerian numbers
    let mut cy = vec![0.0f64; 60];
    cy[0] = 1.0;
    for m in 0..52 { // multiply by (x + m) / (m + 1)
        for k in (0..59).rev() { cy[k] = (cy[k] * m as f64 + if k > 0 { cy[k - 1] } else { 0.0 }) / (m + 1) as f64 }
    }
    let mut e = vec![0.0; 30];
    for (k, p) in cy.iter().enumerate() { e[k.min(29)] += p * n }
    out.push(("number of cycles".into(), chi(&s.cycles.map(|x| x as f64), &e, 1.0), 9.0));
    let mut eu = vec![0.0f64; 54];
    eu[1] = 1.0; // one card: one rising sequence
    for m in 2..=52usize {
        for k in (1..=m).rev() { eu[k] = (eu[k] * k as f64 + eu[k - 1] * (m - k + 1) as f64) / m as f64 }
    }
    out.push(("number of rising sequences".into(), chi(&s.rise.map(|x| x as f64), &(0..53).map(|k| eu[k] * n).collect::<Vec<_>>(), 1.0), 9.0));
    // repeats of whole decks
    s.hashes.sort();
    let reps = s.hashes.windows(2).filter(|w| w[0] == w[1]).count();
    out.push(("repeated decks (count)".into(), reps as f64, 2.5));
    for (name, z, limit) in &out {
        c.add("statistics", 1);
        println!("INFO {what}: {name}: {z:.2}");
        if z.abs() > *limit || z.is_nan() {
            c.viol(format!("{what}: {name}: {z:.2} standard deviations from an unbiased shuffle over {} decks (limit {limit})", s.n));
        }
    }
}

pub fn uniform(c: &Ctx) {
    let Ok(home) = guard(|| ids(&deck::generate().collect::<Vec<_>>())) else { return c.viol("generate() panics") };
    let Ok(home): Result<[u8; 52], _> = home.try_into() else { return c.viol("a generated deck has not 52 cards") };
    let mut sorted = home;
    sorted.sort();
    if !sorted.iter().copied().eq(0..52) { return c.viol("a generated deck has not every card") }
    // How many bits each shuffle took from its source. If every ordering is equally likely, the bits that lead to one ordering
    // are at least log2(52!) = 225.58 many, on every path: a shorter one would have a probability above 1/52!.
    let rounds = c.n(4_000_000u64, 400_000u64);
    let least = std::sync::atomic::AtomicU64::new(u64::MAX);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 900 + t as u64);
        for _ in 0..rounds / 64 {
            let (mut src, name) = any_source(&mut rng);
            let before = src.clone();
            for k in 0..2 {
                let had = src.bits;
                let r = guard(|| deck::shuffled_with(&mut src));
                let took = src.bits - had;
                least.fetch_min(took, std::sync::atomic::Ordering::Relaxed);
                match r {
                    Ok(d) if took < 226 => return c.viol(format!("shuffle number {} from {before:?} took {took} random bits and gave {}: not every one of the 52! orderings can be equally likely, that takes 226 bits", k + 1, cards_txt(&d))),
                    Ok(_) => {}
                    Err(m) => return c.viol(format!("shuffled_with({before:?}): {m}")),
                }
            }
            c.add(&format!("bits counted, source {name}"), 2);
        }
        c.add("evaluations", 2 * (rounds / 64));
    });
    if c.stop() { return }
    println!("INFO fewest random bits taken by a shuffle: {}", least.into_inner());
    let tasks = 64;
    let per = c.n(2_000_000u64, 40_000u64);
    for (what, kind) in [("default source", 0), ("supplied uniform source", 1), ("supplied StdRng", 2), ("supplied source, fresh for each deck", 3), ("default source, fresh thread for each pair of decks", 4)] {
        if c.stop() { return }
        let all = Mutex::new(Stats::new());
        let per = if kind == 4 { per / 100 } else { per };
        c.par(tasks, |t| {
            let mut st = Stats::new();
            let mut own = Source::new(Kind::SplitMix(mix(c.seed ^ t as u64)), u64::MAX, 1);
            let mut std = StdRng::seed_from_u64(mix(c.seed.wrapping_mul(31) ^ t as u64));
            let mut seeds = Rng::fork(c.seed, 123 + t as u64);
            let mut prev: Option<[u8; 52]> = None;
            let mut i = 0;
            while i < per {
                let r = guard(|| match kind {
                    0 => vec![deck::shuffled()],
                    1 => vec![deck::shuffled_with(&mut own)],
                    2 => vec![deck::shuffled_with(&mut std)],
                    3 => vec![deck::shuffled_with(&mut StdRng::seed_from_u64(seeds.next()))],
                    _ => std::thread::spawn(|| vec![deck::shuffled(), deck::shuffled()]).join().unwrap(),
                });
                let Ok(ds) = r else { return c.viol(format!("{what}: {r:?}")) };
                for d in ds {
                    if !full(&d) { return c.viol(format!("{what}: not a full deck: {}", cards_txt(&d))) }
                    let d: [u8; 52] = ids(&d).try_into().unwrap();
                    st.take(&d, prev.as_ref(), &home);
                    prev = Some(d);
                    i += 1;
                }
            }
            all.lock().unwrap().merge(st);
        });
        let mut s = all.into_inner().unwrap();
        if c.stop() || s.n == 0 { return }
        c.add("evaluations", s.n);
        c.add(&format!("decks: {what}"), s.n);
        c.distinct_n({ let mut h = s.hashes.clone(); h.sort(); h.dedup(); h.len() as u64 });
        judge(c, what, &mut s);
        c.sample("statistics", || format!("{what}: {} decks, even permutations {}, unmoved cards {:?}", s.n, s.parity[0], &s.fixed[..5]));
    }
    c.min("statistics", 15);
}

/// Far more decks, far fewer statistics: small biases.
pub fn uniform_many(c: &Ctx) {
    let Ok(home) = guard(|| ids(&deck::generate().collect::<Vec<_>>())) else { return c.viol("generate() panics") };
    let mut hat = [0u8; 52];
    for (p, &x) in home.iter().enumerate() { if (x as usize) < 52 { hat[x as usize] = p as u8 } }
    let per = c.n(40_000_000u64, 1_200_000u64);
    let mut sum = Many::new();
    for (what, kind) in [("default source", 0), ("supplied uniform source", 1), ("supplied StdRng", 2)] {
        let all = Mutex::new(Many::new());
        c.par(64, |t| {
            let mut own = Source::new(Kind::SplitMix(mix(c.seed ^ 77 ^ (t as u64) << 8)), u64::MAX, 1);
            let mut std = StdRng::seed_from_u64(mix(c.seed.wrapping_mul(37) ^ t as u64));
            let mut m = Many::new();
            for _ in 0..per {
                let r = guard(|| match kind { 0 => deck::shuffled(), 1 => deck::shuffled_with(&mut own), _ => deck::shuffled_with(&mut std) });
                let Ok(d) = r else { return c.viol(format!("{what}: {r:?}")) };
                if !full(&d) { return c.viol(format!("{what}: not a full deck: {}", cards_txt(&d))) }
                if let Some(odd) = m.take(&d.iter().map(|&x| hat[no(x) as usize]).collect::<Vec<u8>>().try_into().unwrap()) {
                    return c.viol(format!("{what}: {odd}, which no fair shuffle shows once in 10^21 decks: {}", cards_txt(&d)));
                }
            }
            all.lock().unwrap().merge(&m);
        });
        if c.stop() { return }
        let m = all.into_inner().unwrap();
        c.add("evaluations", m.n);
        c.add(&format!("decks: {what}"), m.n);
        c.distinct_n(m.n);
        m.judge(c, what);
        sum.merge(&m);
    }
    sum.judge(c, "all sources together");
    c.min("statistics", 48);
}

/// Statistics that are quick to take. Besides those of the deck itself, the numbers that three usual ways of shuffling must
/// have drawn to get it: exactly one sequence each, and each number even over its range if the deck is.
struct Many {
    n: u64,
    pos: Vec<u64>,
    k: [u64; 5],
    steps: Vec<u64>, // 3 ways, number of choices, choice
    last: [u8; 52],
}
const WAYS: [&str; 3] = ["swapping downwards", "swapping upwards", "inserting"];

impl Many {
    fn new() -> Self { Many { n: 0, pos: vec![0; 2704], k: [0; 5], steps: vec![0; 3 * 53 * 53], last: [99; 52] } }
    fn merge(&mut self, o: &Many) {
        self.n += o.n;
        for (a, b) in [(&mut self.pos[..], &o.pos[..]), (&mut self.k[..], &o.k[..]), (&mut self.steps[..], &o.steps[..])] {
            for (x, y) in a.iter_mut().zip(b) { *x += y }
        }
    }
    /// p: which card of the generated order is at each place.
    fn take(&mut self, p: &[u8; 52]) -> Option<String> {
        self.n += 1;
        let mut inv = [0u8; 52];
        for i in 0..52 {
            inv[p[i] as usize] = i as u8;
            self.pos[p[i] as usize * 52 + i] += 1;
        }
        let k = &mut self.k;
        let before = (k[2], k[3]);
        for i in 0..51 {
            k[0] += (p[i] > p[i + 1]) as u64;
            k[1] += (inv[i] > inv[i + 1]) as u64;
            k[2] += (p[i] + 1 == p[i + 1]) as u64;
            k[3] += (p[i + 1] + 1 == p[i]) as u64;
        }
        // Each of these counts is all but Poisson distributed with mean 1.
        let alike = |q: &dyn Fn(usize) -> u8| (0..52).filter(|&i| p[i] == q(i)).count() as u64;
        let last = std::mem::replace(&mut self.last, *p);
        let odd = [
            (k[2] - before.0, "cards are followed by the card that follows them in a fresh deck"),
            (k[3] - before.1, "cards follow the card that follows them in a fresh deck"),
            (alike(&|i| i as u8), "cards are where they are in a fresh deck"),
            (alike(&|i| 51 - i as u8), "cards are where they are in a fresh deck turned round"),
            (alike(&|i| last[i]), "cards are where they were in the deck before"),
        ];
        if let Some((n, txt)) = odd.iter().find(|x| x.0 >= 22) { return Some(format!("{n} {txt}")) }
        let (mut w, mut at): ([u8; 52], [u8; 52]) = (std::array::from_fn(|i| i as u8), std::array::from_fn(|i| i as u8));
        let mut moved = 0;
        for i in (1..52).rev() {
            let j = at[p[i] as usize] as usize;
            self.steps[(i + 1) * 53 + j] += 1;
            moved += (i != j) as u64;
            w[j] = w[i];
            at[w[j] as usize] = j as u8;
        }
        k[4] += moved & 1;
        (w, at) = (std::array::from_fn(|i| i as u8), std::array::from_fn(|i| i as u8));
        for i in 0..51 {
            let j = at[p[i] as usize] as usize;
            self.steps[2809 + (52 - i) * 53 + (j - i)] += 1;
            w[j] = w[i];
            at[w[j] as usize] = j as u8;
        }
        (w, at) = (*p, inv);
        for i in (1..52).rev() {
            let j = at[i] as usize;
            self.steps[5618 + (i + 1) * 53 + j] += 1;
            w[j] = w[i];
            at[w[j] as usize] = j as u8;
        }
        None
    }
    fn judge(&self, c: &Ctx, what: &str) {
        let n = self.n as f64;
        let k = &self.k;
        let f = |v: &[u64]| v.iter().map(|&x| x as f64).collect::<Vec<f64>>();
        let z = |k: u64, mean: f64, var: f64| (k as f64 - n * mean) / (n * var).sqrt();
        // descents have mean 51/2 and variance 53/12; successions mean 51/52 and very nearly that variance, plus a little
        let mut out = vec![
            ("card at position, all cells".to_string(), chi(&f(&self.pos), &vec![n / 52.0; 2704], 52.0)),
            ("neighbours out of their first order".into(), z(k[0], 25.5, 53.0 / 12.0)),
            ("first neighbours out of order".into(), z(k[1], 25.5, 53.0 / 12.0)),
            ("neighbours that were neighbours in this order".into(), z(k[2], 51.0 / 52.0, 1.0)),
            ("neighbours that were neighbours in the other order".into(), z(k[3], 51.0 / 52.0, 1.0)),
            ("parity".into(), z(k[4], 0.5, 0.25)),
        ];
        for (way, name) in WAYS.iter().enumerate() {
            let (mut obs, mut exp, mut low) = (vec![], vec![], 0.0);
            for m in 2..=52usize {
                let cells = f(&self.steps[way * 2809 + m * 53..][..m]);
                let mean = (m - 1) as f64 / 2.0;
                let sd = ((m * m - 1) as f64 / 12.0).sqrt();
                low += cells.iter().enumerate().map(|(j, x)| x * (j as f64 - mean)).sum::<f64>() / sd;
                obs.extend(cells);
                exp.extend(vec![n / m as f64; m]);
            }
            out.push((format!("numbers drawn if shuffled by {name}"), chi(&obs, &exp, 51.0)));
            out.push((format!("sum of the numbers drawn if shuffled by {name}"), low / (n * 51.0).sqrt()));
        }
        for (name, z) in out {
            c.add("statistics", 1);
            println!("INFO {what}: {name}: {z:.2}");
            if z.abs() > 9.0 || z.is_nan() {
                c.viol(format!("{what}: {name}: {z:.2} standard deviations from an unbiased shuffle over {n} decks (limit 9)"));
            }
        }
    }
}

/// Not a monitor: very many decks of the default source, of which the driver compares those of several processes.
pub fn manydecks(c: &Ctx, file: &str) {
    let n = if c.thorough { 2_000_000 } else { 300_000 };
    let mut out: Vec<u8> = Vec::with_capacity(n * 8);
    for _ in 0..n {
        match guard(deck::shuffled) {
            Ok(d) if full(&d) => out.extend(d.iter().fold(5u64, |a, &x| mix(a ^ no(x) as u64)).to_le_bytes()),
            d => return c.viol(format!("shuffled() gave {d:?}")),
        }
    }
    if let Err(e) = std::fs::write(file, out) { return c.inconclusive(format!("{file}: {e}")) }
    c.add("evaluations", n as u64);
    c.add("processes", 1);
}

/// Not a monitor: one deck of the default source (or none), for the count of random bytes taken from the system.
pub fn onedeck(c: &Ctx, none: bool) {
    if !none {
        match guard(deck::shuffled) {
            Ok(d) => println!("UNIQ firstdeck {}", cards_txt(&d)),
            Err(m) => return c.viol(m),
        }
    }
    c.add("evaluations", 1);
    c.add("processes", 1);
}

/// Not a monitor: looks for states of the system's random numbers (see native/fixedrandom.c) from which the first five
/// cards of a shuffled deck are a hand of each category, if the default source is what it is today. Only used to steer
/// the card game to rare hands; what is dealt is then judged as it is seen.
pub fn seeds(c: &Ctx) {
    use rand::{rngs::StdRng, SeedableRng};
    use std::sync::Mutex;
    let found: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![vec![]; 10]);
    let want = [1, 1, 2, 2, 3, 3, 3, 3, 3, 6];
    let limit = 12_000_000u64;
    c.par(1200, |chunk| {
        for i in 0..limit / 1200 {
            let s = rng::mix(c.seed.wrapping_mul(0x1_0000_0001).wrapping_add(chunk as u64 * (limit / 1200) + i)) >> 1;
            let mut seed = [0u8; 32];
            let mut k = s;
            for w in seed.chunks_mut(8) {
                k = k.wrapping_add(0x9e3779b97f4a7c15);
                w.copy_from_slice(&rng::mix(k).to_le_bytes());
            }
            let mut r = StdRng::from_seed(seed);
            let Ok(d) = guard(|| deck::shuffled_with(&mut r)) else { return };
            if d.len() < 5 { return }
            let k = five(&[no(d[0]), no(d[1]), no(d[2]), no(d[3]), no(d[4])]);
            let cat = if category(k) == STRAIGHT_FLUSH && tie(k, 0) == 12 { 9 } else { category(k) as usize };
            if cat < 4 && i > 50 { continue }
            let mut f = found.lock().unwrap();
            if f[cat].len() < want[cat] { f[cat].push(s) }
        }
    });
    for (cat, v) in found.into_inner().unwrap().iter().enumerate() {
        for s in v { println!("INFO seed {cat} {s}") }
        c.add(&format!("seeds_{cat}"), v.len() as u64);
    }
    c.add("evaluations", limit);
}
