//! C09 encoding, C13 forms (run-time part), C21 rankcard, C22 sorted.
use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet, HashSet},
    hash::{BuildHasher, Hash, Hasher, RandomState},
};

use poker::{box_cards, card, cards, deck, Card, Rank, Suit};
use super::places;
use vh::{
    ctx::{guard, Ctx},
    oracle::*,
    rng::Rng,
    *,
};

fn h<T: Hash>(t: T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Every way to come by card i: (how, card)
fn origins(i: u8) -> Vec<(&'static str, Card)> {
    let s = card_str(i);
    let (r, u) = (RANK_CHARS[rank_of(i) as usize], SUIT_CHARS[suit_of(i) as usize]);
    let mut v = vec![
        ("Card::new", mk(i)),
        ("parse", s.parse().unwrap_or_else(|e| panic!("{s} does not parse: {e}"))),
        ("card!(text)", card!(s.as_str()).unwrap_or_else(|e| panic!("card!({s:?}) fails: {e}"))),
        ("try_from_chars", Card::try_from_chars(r, u).unwrap_or_else(|e| panic!("{s} as characters fails: {e}"))),
        ("cards!(texts)", cards!(s.as_str(), "2c").next().unwrap().unwrap()),
        ("cards!(text)", cards!(s).next().unwrap().unwrap()),
        ("parse_to_iter", Card::parse_to_iter([s.clone()]).next().unwrap().unwrap()),
        ("name of card", mk(i).rank_suit_string().parse().unwrap()),
        ("TryFrom<char>", Card::new(Rank::try_from(r).unwrap(), Suit::try_from(u).unwrap())),
        ("copy", { let c = mk(i); #[allow(clippy::clone_on_copy)] c.clone() }),
        ("rank and suit", Card::new(mk(i).rank(), mk(i).suit())),
    ];
    v.extend(deck::generate().filter(|&c| no(c) == i).map(|c| ("deck", c)));
    #[cfg(feature = "shuffle")]
    v.extend(deck::shuffled().into_iter().filter(|&c| no(c) == i).map(|c| ("shuffled deck", c)));
    v
}

fn all_origins(c: &Ctx) -> Option<Vec<Vec<(&'static str, Card)>>> {
    let r = guard(|| (0..52u8).map(origins).collect::<Vec<_>>());
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            c.viol(format!("obtaining the 52 cards: {e}"));
            None
        }
    }
}

pub fn encoding(c: &Ctx) {
    let Some(all) = all_origins(c) else { return };
    for (i, v) in all.iter().enumerate() {
        let (r, s) = (rank_of(i as u8) as i32, suit_of(i as u8) as usize);
        let flag = [0x8000, 0x4000, 0x2000, 0x1000][s];
        let want = (1 << (16 + r)) | flag | (r << 8) | PRIMES[r as usize];
        if v.len() < 12 {
            c.viol(format!("{} is missing from a deck", card_str(i as u8)));
        }
        for (how, card) in v {
            let got = card.unique_integer();
            if got != want {
                c.viol(format!("{} by {how}: integer {got:#034b}, documented {want:#034b}", card_str(i as u8)));
            }
            if rank_no(card.rank()) as i32 != r || suit_no(card.suit()) as usize != s {
                c.viol(format!("{} by {how}: reads back as {:?} of {:?}", card_str(i as u8), card.rank(), card.suit()));
            }
            c.add("evaluations", 1);
        }
        c.distinct_n(v.len() as u64);
        c.sample("card", || format!("{} = {want:#x} obtained in {} ways", card_str(i as u8), v.len()));
    }
    let mut ints = HashSet::new();
    for (i, v) in all.iter().enumerate() {
        ints.insert(v[0].1.unique_integer());
        for (j, u) in all.iter().enumerate() {
            for (how, x) in v {
                for (how2, y) in u {
                    let same = i == j;
                    if (x == y) != same || (x != y) == same || (same && h(x) != h(y)) {
                        c.viol(format!(
                            "{} by {how} and {} by {how2}: == is {}, != is {}, hashes equal {}",
                            card_str(i as u8), card_str(j as u8), x == y, x != y, h(x) == h(y)
                        ));
                    }
                    c.add("pairs", 1);
                }
            }
        }
    }
    // in hash sets with random hashing: exactly the distinct cards stay
    let rounds = c.n(3_000_000, 150_000);
    let mut rng = Rng::fork(c.seed, 3);
    for _ in 0..rounds {
        let n = rng.below(120);
        let ids: Vec<u8> = (0..n).map(|_| rng.below(52) as u8).collect();
        let set: HashSet<Card, RandomState> = ids.iter().map(|&i| all[i as usize][rng.below(12)].1).collect();
        let want: HashSet<u8> = ids.iter().copied().collect();
        if set.len() != want.len() || want.iter().any(|&i| !set.contains(&mk(i))) {
            c.viol(format!("a hash set of {} keeps {} cards", cards_str(&ids), set.len()));
        }
        let st = RandomState::new();
        if st.hash_one(mk(ids.first().copied().unwrap_or(0))) != st.hash_one(all[ids.first().copied().unwrap_or(0) as usize][4].1) {
            c.viol("equal cards hash differently".to_string());
        }
        c.distinct(ids.iter().fold(11, |a, &b| rng::mix(a ^ (b as u64 + 1))));
        c.add("hash_sets", 1);
        c.add("evaluations", 1);
    }
    if ints.len() != 52 {
        c.viol(format!("only {} different integers", ints.len()));
    }
    c.min("pairs", 52 * 52 * 144);
    let f: places::Facts = std::sync::Arc::new(|| (0..52u8).flat_map(|i| {
        let x = mk(i);
        let [a, b] = places::hashes(&x);
        let [d, e] = places::hashes(&(x.rank(), x.suit()));
        let alike = (0..52u8).filter(|&j| mk(j) == x).count() as u64;
        [x.unique_integer() as u64, a, b, d, e, (rank_no(x.rank()) as u64) << 8 | suit_no(x.suit()) as u64, alike]
    }).collect());
    places::everywhere(c, "cards", f, |i| format!("{} of {}", ["integer", "hash", "hash", "hash of rank and suit", "hash of rank and suit", "rank and suit", "number of equal cards"][i % 7], card_str((i / 7) as u8)));
}

pub fn rankcard(c: &Ctx) {
    let ops = |a: Ordering| (a.is_lt(), a.is_le(), a.is_gt(), a.is_ge());
    for i in 0..13 {
        for j in 0..13 {
            let (a, b) = (RANKS[i], RANKS[j]);
            let w = i.cmp(&j);
            let got = (a.cmp(&b), a.partial_cmp(&b), (a < b, a <= b, a > b, a >= b), a == b, a.max(b), a.min(b));
            if got != (w, Some(w), ops(w), i == j, RANKS[i.max(j)], RANKS[i.min(j)]) || (i == j && h(a) != h(b)) {
                c.viol(format!("ranks {a:?} and {b:?}: {got:?}"));
            }
            c.add("rank_pairs", 1);
            c.add("evaluations", 1);
        }
    }
    let Some(all) = all_origins(c) else { return };
    for i in 0..52u8 {
        for j in 0..52u8 {
            let w = rank_of(i).cmp(&rank_of(j));
            for (how, a) in &all[i as usize] {
                let (_, b) = all[j as usize][(i as usize + 3) % all[j as usize].len()];
                let a = *a;
                let got = guard(|| (a.cmp(&b), a.partial_cmp(&b), (a < b, a <= b, a > b, a >= b), rank_of(no(a.max(b))), rank_of(no(a.min(b)))));
                // between different cards of one rank the order is free here, as long as it is told consistently (see C22)
                let w = match &got { Ok(g) if w.is_eq() && i != j => g.0, _ => w };
                if got != Ok((w, Some(w), ops(w), rank_of(i.max(j)), rank_of(i.min(j)))) {
                    c.viol(format!("cards {} (by {how}) and {}: (cmp, partial_cmp, (<,<=,>,>=), rank of max, of min) = {got:?}", card_str(i), card_str(j)));
                }
                c.add("card_pairs", 1);
                c.add("evaluations", 1);
            }
        }
    }
    c.distinct_n(52 * 52 + 169);
    for (i, v) in all.iter().enumerate() {
        let i = i as u8;
        let (rc, ss) = (RANK_CHARS[rank_of(i) as usize], SUIT_SYMBOLS[suit_of(i) as usize]);
        for (how, card) in v {
            let got = guard(|| (card.to_string(), card.rank().to_string(), card.suit().to_string(), card.rank().as_char(), card.suit().as_pretty_char(), card.suit().as_char(), card.rank_suit_string()));
            let want = (format!("[ {rc}{ss} ]"), rc.to_string(), ss.to_string(), rc, ss, SUIT_CHARS[suit_of(i) as usize], card_str(i));
            if got.as_ref() != Ok(&want) {
                c.viol(format!("{} (by {how}) prints as {got:?}, expected {want:?}", card_str(i)));
            }
            let dbg = guard(|| format!("{card:?} {:?} {:?}", card.rank(), card.suit()));
            if dbg.is_err() {
                c.viol(format!("debug output of {}: {dbg:?}", card_str(i)));
            }
            c.add("texts", 1);
        }
        c.sample("card", || v[0].1.to_string());
    }
    // sorting and maximum of random lists
    let rounds = c.n(10_000_000, 400_000);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        for _ in 0..rounds / 32 {
            let n = 1 + rng.below(60);
            let ids: Vec<u8> = (0..n).map(|_| rng.below(52) as u8).collect();
            let mut v = mks(&ids);
            let r = guard(|| {
                v.sort();
                (v.clone(), *v.iter().max().unwrap(), *v.iter().min().unwrap(), v.is_sorted())
            });
            let Ok((v, mx, mn, sorted)) = r else { return c.viol(format!("sorting {}: {r:?}", cards_str(&ids))) };
            let mut want = ids.clone();
            want.sort_by_key(|&x| rank_of(x));
            let ranks: Vec<u8> = want.iter().map(|&x| rank_of(x)).collect();
            let mut got: Vec<u8> = v.iter().map(|&x| no(x)).collect();
            let by_rank = got.iter().map(|&x| rank_of(x)).eq(ranks.iter().copied());
            got.sort();
            let mut same = ids.clone();
            same.sort();
            if !by_rank || got != same || !sorted || rank_no(mx.rank()) != ranks[n - 1] || rank_no(mn.rank()) != ranks[0] {
                return c.viol(format!("sorting {} gives {}, by rank {}", cards_str(&ids), cards_txt(&v), cards_str(&want)));
            }
            c.distinct(ids.iter().fold(13, |a, &b| rng::mix(a ^ (b as u64 + 1))));
        }
        c.add("sorted_lists", rounds / 32);
        c.add("evaluations", rounds / 32);
    });
    c.min("card_pairs", 52 * 52 * 12);
    let f: places::Facts = std::sync::Arc::new(|| (0..52u8).flat_map(|i| {
        let x = mk(i);
        let order = (0..52u8).fold(0u64, |a, j| {
            let y = mk(j);
            rng::mix(a ^ if rank_of(i) == rank_of(j) { 7 } else { x.cmp(&y) as i8 as u64 ^ (x.max(y) == x) as u64 } ^ ((x.rank().cmp(&y.rank()) as i8 as u64) << 8))
        });
        [order, places::text(&x), places::text(&x.rank()), places::text(&x.suit()), x.rank_suit_string().bytes().fold(0, |a, b| a << 8 | b as u64), x.rank().as_char() as u64, x.suit().as_char() as u64, x.suit().as_pretty_char() as u64]
    }).collect());
    places::everywhere(c, "cards", f, |i| format!("{} of {}", ["order", "text", "text of the rank", "text of the suit", "two-character name", "rank letter", "suit letter", "suit symbol"][i % 8], card_str((i / 8) as u8)));
}

pub fn sorted(c: &Ctx) {
    let all: Vec<Card> = (0..52).map(mk).collect();
    let mut confused = 0;
    // order against equality, for all pairs
    for i in 0..52usize {
        for j in 0..52usize {
            let (a, b) = (all[i], all[j]);
            let r = guard(|| (a.cmp(&b), b.cmp(&a), a.partial_cmp(&b), a < b, a <= b, a > b, a >= b));
            let Ok((o, back, p, lt, le, gt, ge)) = r else { c.viol(format!("comparing {} and {}: {r:?}", card_str(i as u8), card_str(j as u8))); continue };
            if back != o.reverse() || p != Some(o) || (lt, le, gt, ge) != (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()) {
                c.viol(format!("{} and {}: comparisons disagree: {r:?}", card_str(i as u8), card_str(j as u8)));
            }
            if o.is_eq() && i != j {
                confused += 1;
                if i < j {
                    c.finding(
                        &format!("order-equal {}={}", card_str(i as u8), card_str(j as u8)),
                        &format!("{} and {} compare Equal in order but are different cards", card_str(i as u8), card_str(j as u8)),
                    );
                }
            }
            if i == j && !o.is_eq() {
                c.viol(format!("{} is not Equal to itself in order", card_str(i as u8)));
            }
            c.add("pairs", 1);
            c.add("evaluations", 1);
        }
    }
    c.distinct_n(52 * 52);
    // transitivity over all triples
    for i in 0..52 {
        for j in 0..52 {
            for k in 0..52 {
                let (a, b, d) = (all[i], all[j], all[k]);
                if (a <= b && b <= d && a > d) || (a < b && b < d && a >= d) || (a.cmp(&b).is_eq() && a.cmp(&d) != b.cmp(&d)) {
                    c.viol(format!("order not transitive on {} {} {}", card_str(i as u8), card_str(j as u8), card_str(k as u8)));
                }
            }
        }
    }
    c.add("triples", 52 * 52 * 52);
    c.add("confused_ordered_pairs", confused);
    // collections and sorts
    let rounds = c.n(5_000_000, 150_000);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 50 + t as u64);
        for _ in 0..rounds / 32 {
            let n = rng.below(80);
            let ids: Vec<u8> = (0..n).map(|_| rng.below(52) as u8).collect();
            let v = mks(&ids);
            let r = guard(|| {
                let (mut s, mut u, mut b, mut k) = (v.clone(), v.clone(), v.clone(), v.clone());
                s.sort();
                u.sort_unstable();
                b.sort_by(|a, b| b.cmp(a));
                k.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let mut heap = std::collections::BinaryHeap::from(v.clone());
                let mut hp = vec![];
                while let Some(x) = heap.pop() { hp.push(x) }
                vec![s, u, b, k, hp]
            });
            let Ok(lists) = r else { return c.viol(format!("sorting {}: {r:?}", cards_str(&ids))) };
            let mut want = ids.clone();
            want.sort();
            for (i, l) in lists.iter().enumerate() {
                let mut got: Vec<u8> = l.iter().map(|&x| no(x)).collect();
                let desc = i == 2 || i == 4;
                let ordered = l.windows(2).all(|p| if desc { p[0] >= p[1] } else { p[0] <= p[1] });
                got.sort();
                if got != want || !ordered {
                    return c.viol(format!("sort kind {i} of {} gives {}", cards_str(&ids), cards_txt(l)));
                }
            }
            // a set or map keyed by cards of different ranks keeps them all, in rank order
            let mut seen = 0u16;
            let some: Vec<u8> = ids.iter().copied().filter(|&x| { let b = 1 << rank_of(x); let new = seen & b == 0; seen |= b; new }).collect();
            let mut set = BTreeSet::new();
            let mut map = BTreeMap::new();
            for &x in &some {
                set.insert(mk(x));
                map.insert(mk(x), x);
            }
            let mut w = some.clone();
            w.sort();
            if set.iter().map(|&x| no(x)).collect::<Vec<_>>() != w || some.iter().any(|&x| map.get(&mk(x)) != Some(&x)) {
                return c.viol(format!("ordered set of {} holds {:?}", cards_str(&some), set));
            }
            // any cards: what is lost must be explained by a pair that compares equal
            let mut full = BTreeSet::new();
            for &x in &v { full.insert(x); }
            let mut distinct = ids.clone();
            distinct.sort();
            distinct.dedup();
            for &x in &distinct {
                if !full.iter().any(|&y| no(y) == x) && !full.iter().any(|y| y.cmp(&mk(x)).is_eq()) {
                    return c.viol(format!("ordered set of {} lost {}", cards_str(&ids), card_str(x)));
                }
            }
            c.distinct(ids.iter().fold(17, |a, &b| rng::mix(a ^ (b as u64 + 1))));
        }
        c.add("collections", rounds / 32);
        c.add("evaluations", rounds / 32);
    });
    c.sample("pair", || "2c against 2d: order and equality compared".into());
    c.min("pairs", 2704);
}

/// Run-time part of C13: joining slices, and agreement of all origins.
pub fn forms(c: &Ctx) {
    let Some(all) = all_origins(c) else { return };
    for (i, v) in all.iter().enumerate() {
        for (how, x) in v {
            if x.unique_integer() != v[0].1.unique_integer() || *x != v[0].1 || no(*x) != i as u8 {
                c.viol(format!("{} by {how} is {x:?}, by Card::new {:?}", card_str(i as u8), v[0].1));
            }
            c.add("evaluations", 1);
            c.add("origins", 1);
        }
        c.distinct_n(v.len() as u64);
    }
    let rounds = c.n(20_000_000, 1_000_000);
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        for _ in 0..rounds / 32 {
            let mut parts: Vec<Vec<u8>> = vec![];
            let k = 2 + rng.below(5);
            for _ in 0..k {
                let n = [0, 0, 1, 1, 2, 2, 3, 5, 7, 30][rng.below(10)];
                // repeats within and between the slices on purpose
                parts.push((0..n).map(|_| { let top = if rng.chance(1, 2) { 4 } else { 52 }; rng.below(top) as u8 }).collect());
            }
            let want: Vec<u8> = parts.concat();
            let p: Vec<Vec<Card>> = parts.iter().map(|x| mks(x)).collect();
            let before = p.clone();
            let bx: Box<[Card]> = p[0].clone().into();
            let r = guard(|| match k {
                2 => vec![box_cards!(p[0], p[1]), box_cards!(&p[0], &p[1],), box_cards!(bx, p[1].as_slice())],
                3 => vec![box_cards!(p[0], p[1], p[2]), box_cards!(&p[0][..], p[1].clone(), &p[2],)],
                4 => vec![box_cards!(p[0], p[1], p[2], p[3])],
                5 => vec![box_cards!(p[0], p[1], p[2], p[3], p[4])],
                _ => vec![box_cards!(p[0], p[1], p[2], p[3], p[4], p[5])],
            });
            let Ok(gots) = r else { return c.viol(format!("joining {parts:?}: {r:?}")) };
            for got in &gots {
                if got.iter().map(|&x| no(x)).collect::<Vec<_>>() != want {
                    return c.viol(format!("joining {} slices of {} gives {}", k, cards_str(&want), cards_txt(got)));
                }
            }
            if p != before {
                return c.viol("joining changed its inputs".to_string());
            }
            c.distinct(want.iter().fold(k as u64, |a, &b| rng::mix(a ^ (b as u64 + 1))));
            c.add("evaluations", gots.len() as u64);
            c.add("joins", gots.len() as u64);
        }
    });
    // long slices
    let mut lens: Vec<usize> = vec![100, 1000, 300_000];
    for b in [6, 7, 8, 10, 15, 16, 17] { lens.extend((1usize << b) - 2..=(1 << b) + 1) }
    c.par(lens.len(), |i| {
        let mut rng = Rng::fork(c.seed, 1500 + i as u64);
        let mut part = |n: usize| -> Vec<Card> { (0..n).map(|_| mk(rng.below(52) as u8)).collect() };
        let (x, y, z) = (part(lens[i]), part(3), part(lens[(i * 7) % lens.len()]));
        let r = guard(|| (box_cards!(x, y), box_cards!(&y[..], x.as_slice(), &z), box_cards!(z, y, x, y)));
        let Ok((a, b, d)) = r else { return c.viol(format!("joining slices of {}, 3 and {} cards panics", x.len(), z.len())) };
        for (got, want) in [(a, [&x[..], &y].concat()), (b, [&y[..], &x, &z].concat()), (d, [&z[..], &y, &x, &y].concat())] {
            if got[..] != want[..] { return c.viol(format!("joining slices of {}, 3 and {} cards, {} in all, gives {} cards, the first difference at {:?}", x.len(), z.len(), want.len(), got.len(), got.iter().zip(&want).position(|(a, b)| a != b))) }
            c.add("long_joins", 1);
        }
    });
    // one text is split at every character that Unicode calls white space, and at no other
    c.par(64, |t| {
        for u in (t as u32..0x11_0000).step_by(64) {
            let Some(ch) = char::from_u32(u) else { continue };
            let white = matches!(u, 0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000);
            let s = format!("As{ch}Kd");
            let r = guard(|| cards!(s).collect::<Vec<_>>());
            let want = if white { vec![super::parse::model("As"), super::parse::model("Kd")] } else { vec![super::parse::model(&s)] };
            let ok = matches!(&r, Ok(v) if v.iter().map(super::parse::seen).eq(want));
            if !ok { return c.viol(format!("cards!({s:?}) gives {r:?}")) }
        }
        c.add("separators", 0x11_0000 / 64);
    });
    // texts through the macros, in order, with all kinds of white space
    let ws = [" ", "  ", "\t", "\n", "\r\n", "\u{2003}", " \u{a0} ", "\u{3000}"];
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 500 + t as u64);
        for _ in 0..rounds / 320 {
            let n = rng.below(12);
            let ids: Vec<u8> = (0..n).map(|_| rng.below(52) as u8).collect();
            let mut s = String::new();
            for &x in &ids {
                s += rng.pick(&ws);
                s += &card_str(x);
            }
            s += rng.pick(&ws);
            let r = guard(|| (cards!(s).try_collect::<Vec<Card>>(), cards!(s.as_str()).try_collect::<Box<[Card]>>()));
            let ok = matches!(&r, Ok((Ok(a), Ok(b))) if a.iter().map(|&x| no(x)).collect::<Vec<_>>() == ids && a[..] == b[..]);
            if !ok {
                return c.viol(format!("cards!({s:?}) gives {r:?}"));
            }
            c.add("text_lists", 1);
            c.add("evaluations", 1);
        }
    });
    // the text forms accept and refuse what parsing does, with its errors
    c.par(32, |t| {
        let mut rng = Rng::fork(c.seed, 900 + t as u64);
        for _ in 0..rounds / 100 {
            let text = |rng: &mut Rng| match rng.below(4) {
                0 => { let x = card_str(rng.below(52) as u8); let w = *rng.pick(&ws); match rng.below(4) { 0 => format!("{w}{x}"), 1 => format!("{x}{w}"), 2 => x.to_lowercase(), _ => x } }
                1 => { let x = card_str(rng.below(52) as u8); match rng.below(5) { 0 => x.to_uppercase(), 1 => x.chars().rev().collect(), 2 => format!("{x}\0"), 3 => format!("\u{feff}{x}"), _ => x[..1].into() } }
                _ => super::parse::random_text(rng),
            };
            let (a, b) = (text(&mut rng), text(&mut rng));
            let want = [super::parse::model(&a), super::parse::model(&b)];
            let r = guard(|| {
                let boxed: Box<str> = a.clone().into();
                let one = [card!(a), card!(a.as_str()), card!(&a), card!(boxed), a.parse(), { let s: &str = &a; s.parse() }];
                let many: Vec<_> = cards!(&a, &b).collect();
                let more: Vec<_> = cards!(a.as_str(), b.as_str(), a.as_str(),).collect();
                (one.iter().map(super::parse::seen).collect::<Vec<_>>(), many.iter().map(super::parse::seen).collect::<Vec<_>>(), more.iter().map(super::parse::seen).collect::<Vec<_>>())
            });
            let ok = matches!(&r, Ok((x, y, z)) if x.iter().all(|k| *k == want[0]) && y[..] == want && z[..2] == want && z.len() == 3 && z[2] == want[0]);
            if !ok { return c.viol(format!("the text forms of {a:?} and {b:?}: card!, cards! of two, cards! of three gave {r:?}, expected {want:?}")) }
            c.distinct(a.bytes().chain([0]).chain(b.bytes()).fold(9, |a, b| rng::mix(a ^ (b as u64 + 1))));
            c.add("texts", 2);
            c.add("evaluations", 1);
        }
    });
    c.min("texts", 10_000);
    c.sample("join", || "box_cards!([2c 2c], [], [As], [Kd Qh]) -> 2c 2c As Kd Qh".into());
    c.min("joins", 100_000);
    c.min("origins", 600);
}
