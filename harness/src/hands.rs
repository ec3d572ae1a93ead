//! Hand generation helpers.
use crate::{oracle::*, rng::Rng};

pub fn combos5(n: usize, mut f: impl FnMut([usize; 5])) {
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                for d in c + 1..n {
                    for e in d + 1..n {
                        f([a, b, c, d, e]);
                    }
                }
            }
        }
    }
}

/// A random hand with these ranks, of one suit or not, in random order.
pub fn realise(pattern: &([u8; 5], bool), rng: &mut Rng) -> [u8; 5] {
    let (r, one) = *pattern;
    loop {
        let mut h = [0u8; 5];
        if one {
            let s = rng.below(4) as u8;
            for i in 0..5 {
                h[i] = r[i] * 4 + s;
            }
        } else {
            let mut used = 0u64;
            for i in 0..5 {
                loop {
                    let c = r[i] * 4 + rng.below(4) as u8;
                    if used >> c & 1 == 0 {
                        used |= 1 << c;
                        h[i] = c;
                        break;
                    }
                }
            }
            if h.iter().all(|&x| suit_of(x) == suit_of(h[0])) {
                continue;
            }
        }
        rng.shuffle(&mut h);
        return h;
    }
}

/// The same pattern with fixed suits (deterministic representative).
pub fn canonical(pattern: &([u8; 5], bool)) -> [u8; 5] {
    let (r, one) = *pattern;
    let mut h = [0u8; 5];
    for i in 0..5 {
        let same_before = (0..i).filter(|&j| r[j] == r[i]).count() as u8;
        h[i] = r[i] * 4 + if one { 0 } else { same_before };
    }
    if !one && h.iter().all(|&x| suit_of(x) == 0) {
        h[4] += 1;
    }
    h
}

/// A maximal random set of at most `max` cards whose best five are of a category no higher than `cat`.
pub fn grow(o: &Oracle, cat: u32, max: usize, rng: &mut Rng) -> Vec<u8> {
    let deck = rng.deal(52);
    let mut v: Vec<u8> = vec![];
    let mut m = [0u32; 4];
    for c in deck {
        if v.len() == max {
            break;
        }
        let mut m2 = m;
        m2[suit_of(c) as usize] |= 1 << rank_of(c);
        let ok = if v.len() < 4 {
            // fewer than five cards: only multiplicities can be judged, by a key without a full hand
            let r = rank_of(c);
            let mult = m2.iter().filter(|x| **x >> r & 1 == 1).count() as u32;
            match cat {
                HIGH | STRAIGHT | FLUSH => mult == 1,
                PAIR | TWO_PAIR => mult <= 2,
                TRIPS | FULL => mult <= 3,
                _ => true,
            }
        } else {
            category(o.best_masks(m2)) <= cat
        };
        if ok {
            m = m2;
            v.push(c);
        }
    }
    rng.shuffle(&mut v);
    v
}

pub fn next_permutation(p: &mut [usize]) -> bool {
    let n = p.len();
    if n < 2 {
        return false;
    }
    let mut i = n - 1;
    while i > 0 && p[i - 1] >= p[i] {
        i -= 1;
    }
    if i == 0 {
        return false;
    }
    let mut j = n - 1;
    while p[j] <= p[i - 1] {
        j -= 1;
    }
    p.swap(i - 1, j);
    p[i..].reverse();
    true
}

pub fn perms5() -> Vec<[usize; 5]> {
    let mut p = [0, 1, 2, 3, 4];
    let mut v = vec![p];
    while next_permutation(&mut p) {
        v.push(p);
    }
    v
}
