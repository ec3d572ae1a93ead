//! C28: random sequences of public operations against a small model.
use std::{cmp::Ordering, collections::hash_map::DefaultHasher, hash::{Hash, Hasher}};

use poker::{box_cards, card, cards, deck, Card, Eval, EvalClass, EvalError, ParseCardError, Rank, Suit};
use vh::{
    ctx::{guard, Ctx},
    hands::*,
    oracle::*,
    rng::{mix, Rng},
    *,
};

use super::{parse::{message, model, model_chars, seen, Want}, text::bad_dup_message};
use crate::world;

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

const CONST_CARDS: [Card; 3] = [Card::new(Rank::Ace, Suit::Spades), Card::new(Rank::Two, Suit::Clubs), Card::new(Rank::Ten, Suit::Hearts)];

pub struct Deck {
    it: Box<dyn Iterator<Item = Card>>,
    left: Vec<u8>, // reversed
}

#[derive(Default)]
pub struct State {
    cards: Vec<(Card, u8)>,
    hands: Vec<(Vec<Card>, Vec<u8>)>,
    evals: Vec<(Eval, u16)>,
    classes: Vec<(EvalClass, u32)>,
    everrs: Vec<(EvalError, Vec<u8>, Option<usize>)>, // a size, or the list held
    perrs: Vec<(ParseCardError, Want)>,
    evs: Vec<Evaluator>,
    decks: Vec<Deck>,
}

fn keep<T>(v: &mut Vec<T>, x: T, rng: &mut Rng) {
    if v.len() < 12 { v.push(x) } else { let i = rng.below(12); v[i] = x }
}

pub const OPS: usize = 44;

fn text(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 | 1 => card_str(rng.below(52) as u8),
        2 => format!("{}{}", rng.pick(&RANK_CHARS), rng.pick(&RANK_CHARS)),
        3 => (0..rng.below(5)).map(|_| *rng.pick(&['A', 's', ' ', 'é', '♠', 'K', '\u{301}', '💥', 'T', 'h', '1', '0', '\n', 'ſ'])).collect(),
        4 => (0..2).map(|_| char::from_u32(rng.next() as u32 % 0x3000).unwrap_or('x')).collect(),
        _ => String::from_utf8((0..2).map(|_| 32 + rng.below(95) as u8).collect()).unwrap(),
    }
}

pub fn step(w: &World, s: &mut State, op: usize, rng: &mut Rng) -> Result<(), String> {
    macro_rules! check { ($cond:expr, $($t:tt)*) => { if !$cond { return Err(format!($($t)*)) } } }
    macro_rules! pick { ($v:expr) => { if $v.is_empty() { return Ok(()) } else { let i = rng.below($v.len()); &$v[i] } } }
    let some_ids = |s: &State, rng: &mut Rng| -> Vec<u8> {
        match rng.below(7) {
            0 => { let n = rng.below(10); rng.deal(n) }
            1 => realise(&w.o.patterns[rng.below(7462)], rng).to_vec(),
            2 if !s.hands.is_empty() => { let mut h = rng.pick(&s.hands).1.clone(); rng.shuffle(&mut h); h }
            3 if !s.hands.is_empty() => { let mut h = rng.pick(&s.hands).1.clone(); for x in h.iter_mut() { *x = rank_of(*x) * 4 + (suit_of(*x) + 1) % 4 } h }
            4 => (0..rng.below(8)).map(|_| rng.below(52) as u8).collect(),
            5 => { let n = 5 + rng.below(3); rng.deal(n) }
            _ => rng.deal(5),
        }
    };
    match op {
        0 => { let x = rng.below(52) as u8; keep(&mut s.cards, (mk(x), x), rng) }
        1 => { // from parsing
            let t = text(rng);
            let want = model(&t);
            let r: Result<Card, ParseCardError> = match rng.below(3) { 0 => t.parse(), 1 => t.as_str().parse(), _ => card!(t.as_str()) };
            check!(seen(&r) == want, "parsing {t:?} gave {r:?}, expected {want:?}");
            match (r, want) { (Ok(x), Want::Card(n)) => keep(&mut s.cards, (x, n), rng), (Err(e), wt) => keep(&mut s.perrs, (e, wt), rng), _ => {} }
        }
        2 => {
            let (a, b) = if rng.chance(1, 2) { (*rng.pick(&RANK_CHARS), *rng.pick(&SUIT_CHARS)) } else { (char::from(32 + rng.below(200) as u8), char::from(32 + rng.below(200) as u8)) };
            let want = model_chars(a, b);
            let r = Card::try_from_chars(a, b);
            check!(seen(&r) == want, "try_from_chars({a:?}, {b:?}) gave {r:?}, expected {want:?}");
            match (r, want) { (Ok(x), Want::Card(n)) => keep(&mut s.cards, (x, n), rng), (Err(e), wt) => keep(&mut s.perrs, (e, wt), rng), _ => {} }
        }
        3 => { let (e, wt) = pick!(s.perrs); let m = e.to_string(); check!(m == message(wt), "{e:?} prints {m:?}, expected {:?}", message(wt)); let k = e.clone(); check!(k == *e && seen(&Err(k.clone())) == *wt, "a copy of {e:?} differs") }
        4 => { // card getters
            let (x, n) = pick!(s.cards);
            check!(no(*x) == *n && x.rank_suit_string() == card_str(*n) && x.unique_integer() == mk(*n).unique_integer(), "{x:?} is not {}", card_str(*n));
            check!(x.rank_suit_string().parse::<Card>().as_ref() == Ok(x), "{x:?} does not parse back");
        }
        5 => { let (x, n) = pick!(s.cards); let t = format!("[ {}{} ]", RANK_CHARS[rank_of(*n) as usize], SUIT_SYMBOLS[suit_of(*n) as usize]); check!(x.to_string() == t && !format!("{x:?}").is_empty(), "{x:?} prints {x}") }
        6 => { // two cards compared
            let (x, a) = pick!(s.cards); let (y, b) = pick!(s.cards);
            let ro = rank_of(*a).cmp(&rank_of(*b));
            // the order between different cards of one rank is free
            let o = if ro.is_eq() && a != b { x.cmp(y) } else { ro };
            check!((x == y) == (a == b) && (x != y) == (a != b) && x.cmp(y) == o && x.partial_cmp(y) == Some(o) && (x < y) == o.is_lt() && (x >= y) == o.is_ge(), "{x} and {y} compare wrongly");
            check!(a != b || h(x) == h(y), "equal cards {x} hash differently");
            check!(x.rank().cmp(&y.rank()) == ro && (x.suit() == y.suit()) == (suit_of(*a) == suit_of(*b)), "ranks or suits of {x} and {y} compare wrongly");
        }
        7 => { let r = *rng.pick(&RANKS); let c = r.as_char(); check!(Rank::try_from(c).ok() == Some(r) && r.to_string() == c.to_string() && c == RANK_CHARS[rank_no(r) as usize], "rank {r:?} as {c}") }
        8 => { let r = *rng.pick(&SUITS); let c = r.as_char(); check!(Suit::try_from(c).ok() == Some(r) && c == SUIT_CHARS[suit_no(r) as usize] && r.as_pretty_char() == SUIT_SYMBOLS[suit_no(r) as usize] && r.to_string() == r.as_pretty_char().to_string(), "suit {r:?} as {c}") }
        9 => { let c = char::from_u32(rng.next() as u32 % if rng.chance(1, 2) { 128 } else { 0x11_0000 }).unwrap_or('\u{fffd}'); check!(Rank::try_from(c).ok().map(rank_no) == RANK_CHARS.iter().position(|&x| x == c).map(|x| x as u8) && Suit::try_from(c).ok().map(suit_no) == SUIT_CHARS.iter().position(|&x| x == c).map(|x| x as u8), "character {c:?} converts wrongly") }
        10 => { // many texts
            let k = rng.below(7);
            let ts: Vec<String> = (0..k).map(|_| if rng.chance(4, 5) { card_str(rng.below(52) as u8) } else { text(rng) }).collect();
            let want: Vec<Want> = ts.iter().map(|t| model(t)).collect();
            let got: Vec<Want> = Card::parse_to_iter(&ts).map(|r| seen(&r)).collect();
            check!(got == want, "parse_to_iter({ts:?}) gave {got:?}");
            let r: Result<Vec<Card>, _> = Card::parse_to_iter(ts.iter().map(|x| x.as_str())).try_collect();
            match want.iter().find(|x| !matches!(x, Want::Card(_))) {
                Some(e) => { check!(r.as_ref().is_err_and(|x| seen(&Err(x.clone())) == *e), "collecting {ts:?} gave {r:?}, expected {e:?}") }
                None => { let ids: Vec<u8> = want.iter().map(|x| if let Want::Card(n) = x { *n } else { 0 }).collect(); check!(r.as_ref().is_ok_and(|v| v.iter().map(|&x| no(x)).eq(ids.iter().copied())), "collecting {ts:?} gave {r:?}"); keep(&mut s.hands, (r.unwrap(), ids), rng) }
            }
        }
        11 => { let ids = some_ids(s, rng); let t = ids.iter().map(|&x| card_str(x)).collect::<Vec<_>>().join(*rng.pick(&[" ", "  ", "\t", "\n "])); let r = cards!(t).try_collect::<Vec<Card>>(); check!(r.as_ref().is_ok_and(|v| v.iter().map(|&x| no(x)).eq(ids.iter().copied())), "cards!({t:?}) gave {r:?}"); keep(&mut s.hands, (r.unwrap(), ids), rng) }
        12 => { let ids = some_ids(s, rng); keep(&mut s.hands, (w.c(&ids), ids), rng) }
        13 => { // joined
            let (a, x) = pick!(s.hands); let (b, y) = pick!(s.hands); let j = box_cards!(a, b, &CONST_CARDS[..1]); let mut ids = [&x[..], &y[..], &[51]].concat(); check!(j.iter().map(|&x| no(x)).eq(ids.iter().copied()), "joining {} and {} gave {}", cards_str(x), cards_str(y), cards_txt(&j)); let mut v = j.into_vec(); v.truncate(12); ids.truncate(12); keep(&mut s.hands, (v, ids), rng)
        }
        14 => { let (v, ids) = pick!(s.hands); let mut a = v.clone(); a.sort(); let mut b = ids.clone(); b.sort_by_key(|&x| rank_of(x)); let mut p: Vec<u8> = a.iter().map(|&x| no(x)).collect(); let by_rank = p.iter().map(|&x| rank_of(x)).eq(b.iter().map(|&x| rank_of(x))); p.sort(); b.sort(); check!(by_rank && p == b, "sorting {} gave {}", cards_str(ids), cards_txt(&a)) }
        15 => { let (v, ids) = pick!(s.hands); check!(v.iter().max().map(|x| rank_no(x.rank())) == ids.iter().map(|&x| rank_of(x)).max() && v.iter().min().map(|x| rank_no(x.rank())) == ids.iter().map(|&x| rank_of(x)).min(), "max or min of {}", cards_str(ids)) }
        16 => { let e = match rng.below(4) { 0 => Evaluator::default(), 1 if !s.evs.is_empty() => { let i = rng.below(s.evs.len()); std::mem::take(&mut s.evs[i]) } 2 => Evaluator::new(), _ => w.ev.clone() }; if s.evs.len() < 4 { s.evs.push(e) } else { let i = rng.below(4); s.evs[i] = e } }
        17 => { if s.evs.len() > 1 && rng.chance(1, 3) { let i = rng.below(s.evs.len()); s.evs.swap_remove(i); } else if !s.evs.is_empty() { let a = rng.pick(&s.evs); check!(*a == w.ev && a.clone() == *a, "an evaluator differs from the first") } }
        18..=25 => { // evaluate
            let (v, ids) = if op < 22 { let ids = some_ids(s, rng); (w.c(&ids), ids) } else { pick!(s.hands).clone() };
            let e = if s.evs.is_empty() || rng.chance(1, 3) { &w.ev } else { let i = rng.below(s.evs.len()); &s.evs[i] };
            let r = match rng.below(5) {
                0 => e.evaluate(&v),
                1 => e.evaluate(v.as_slice()),
                2 => e.evaluate(v.clone().into_boxed_slice()),
                3 if v.len() == 5 => e.evaluate([v[0], v[1], v[2], v[3], v[4]]),
                _ => e.evaluate(v.clone()),
            };
            let mut m = 0u64;
            let dup = ids.iter().any(|&x| { let d = m >> x & 1 == 1; m |= 1 << x; d });
            match r {
                Ok(ev) if !dup && ids.len() >= 5 => {
                    let g = Ok(Ok(ev));
                    if let Some(m) = w.judge(&ids, &g) { return Err(m) }
                    keep(&mut s.evals, (ev, w.ord(&ids)), rng);
                }
                Err(EvalError::CardsNotUnique(ref x)) if dup && x[..] == v[..] => { let e = r.unwrap_err(); keep(&mut s.everrs, (e, ids, None), rng) }
                Err(EvalError::InvalidHandSize(n)) if !dup && n == ids.len() && n < 5 => { let e = r.unwrap_err(); keep(&mut s.everrs, (e, vec![], Some(n)), rng) }
                r => return Err(format!("evaluate({}) gave {r:?}", cards_str(&ids))),
            }
        }
        26 => { let (e, dups, n) = pick!(s.everrs); let m = e.to_string(); if let Some(n) = n { check!(m.ends_with(&format!("Number of cards received: {n}")), "{e:?} prints {m:?}") } else if let Some(x) = bad_dup_message(dups, &m) { return Err(format!("{e:?} prints {m:?}: {x}")) } check!(e.clone() == *e && e.to_string() == m, "{e:?} changes") }
        27..=29 => { // two evaluations compared
            let (a, x) = pick!(s.evals); let (b, y) = pick!(s.evals); let o = x.cmp(y);
            check!(a.cmp(b) == o && a.partial_cmp(b) == Some(o) && (a == b) == o.is_eq() && (a < b) == o.is_lt() && (a > b) == o.is_gt() && (a <= b) == o.is_le() && (a >= b) == o.is_ge() && a.is_better_than(*b) == o.is_gt() && a.is_worse_than(*b) == o.is_lt() && a.is_equal_to(*b) == o.is_eq(), "{a:?} and {b:?} compare wrongly, the rules say {o:?}");
            check!(o.is_ne() || h(a) == h(b), "equal evaluations {a:?} hash differently");
            check!(a.class().cmp(&b.class()) == o || a.class() == b.class(), "classes of {a:?} and {b:?}");
            check!(*a.max(b) >= *a.min(b), "max below min: {a:?} {b:?}");
        }
        30 => { let (a, x) = pick!(s.evals); let k = w.o.keys[*x as usize - 1]; check!(a.to_string() == key_name(k) && a.class().to_string() == key_name(k), "{a:?} prints {a}, expected {}", key_name(k)) }
        31 => { let (a, x) = pick!(s.evals); let c = category(w.o.keys[*x as usize - 1]); let t = [a.is_high_card(), a.is_pair(), a.is_two_pair(), a.is_three_of_a_kind(), a.is_straight(), a.is_flush(), a.is_full_house(), a.is_four_of_a_kind(), a.is_straight_flush()]; check!(t.iter().enumerate().all(|(i, &b)| b == (i as u32 == c)) && a.is_royal_flush() == (*x == 7462), "tests of {a:?}: {t:?}"); let cl = (a.class(), key_code(w.o.keys[*x as usize - 1])); keep(&mut s.classes, cl, rng) }
        32 => { let mut v: Vec<(Eval, u16)> = s.evals.clone(); v.sort_by(|a, b| b.0.cmp(&a.0)); check!(v.windows(2).all(|p| p[0].1 >= p[1].1), "sorting evaluations: {v:?}") }
        33 => { let e = if rng.chance(1, 2) { (Eval::BEST, 7462) } else { (Eval::WORST, 1) }; keep(&mut s.evals, e, rng) }
        34 => { let cat = rng.below(9) as u32; let (a, b) = (rng.below(13) as u8, if cat == TWO_PAIR || cat == FULL { rng.below(13) as u8 } else { 0 }); keep(&mut s.classes, (class_of(cat, a, b), cat << 8 | (a as u32) << 4 | b as u32), rng) }
        35 => { let (a, x) = pick!(s.classes); let (b, y) = pick!(s.classes); let o = x.cmp(y); check!(a.cmp(b) == o && (a == b) == o.is_eq() && (a < b) == o.is_lt() && a.partial_cmp(b) == Some(o) && class_code(*a) == *x, "{a:?} and {b:?} compare wrongly"); let n = name(x >> 8, (x >> 4 & 15) as u8, (x & 15) as u8); check!(a.to_string() == n, "{a:?} prints {a}, expected {n}") }
        36 => { let mut left: Vec<u8> = (0..52).collect(); left.sort_by_key(|&x| std::cmp::Reverse(x)); if s.decks.len() < 4 { s.decks.push(Deck { it: Box::new(deck::generate()), left }) } else { let i = rng.below(4); s.decks.swap_remove(i); } }
        37 | 38 => { // a card off a deck: any card not yet seen
            if s.decks.is_empty() { return Ok(()) }
            let i = rng.below(s.decks.len());
            let d = &mut s.decks[i];
            let (lo, hi) = d.it.size_hint();
            check!(lo <= d.left.len() && hi.is_none_or(|x| x >= d.left.len()), "size hint of a deck with {} cards: ({lo}, {hi:?})", d.left.len());
            match d.it.next() {
                Some(x) => { let p = d.left.iter().position(|&y| y == no(x)); check!(p.is_some(), "the deck gave {x} twice"); d.left.remove(p.unwrap()); keep(&mut s.cards, (x, no(x)), rng) }
                None => { check!(d.left.is_empty(), "the deck ended without {}", cards_str(&d.left)) }
            }
        }
        39 => { // errors made by hand: any number of cards, any list, any texts
            if rng.chance(1, 2) {
                let n = match rng.below(5) { 0 => rng.below(12), 1 => usize::MAX - rng.below(3), 2 => 1usize << rng.below(64), 3 => (1usize << rng.below(64)) - 1, _ => rng.next() as usize };
                keep(&mut s.everrs, (EvalError::InvalidHandSize(n), vec![], Some(n)), rng);
            } else {
                let mut ids = some_ids(s, rng);
                match rng.below(4) { 0 => { let k = rng.below(300); ids = (0..k).map(|_| rng.below(52) as u8).collect() } 1 => { let t = ids.clone(); ids.extend(t) } _ => {} }
                keep(&mut s.everrs, (EvalError::CardsNotUnique(w.c(&ids)), ids, None), rng);
            }
        }
        40 => {
            let t = match rng.below(4) { 0 => text(rng), 1 => String::new(), 2 => text(rng).repeat(rng.below(40)), _ => card_str(rng.below(52) as u8) };
            let x = char::from_u32(rng.next() as u32 % if rng.chance(1, 2) { 128 } else { 0x11_0000 }).unwrap_or('A');
            let pair = match rng.below(3) {
                0 => (ParseCardError::InvalidLength { original_input: t.clone() }, { let n = t.chars().count(); Want::Len(t, n) }),
                1 => (ParseCardError::InvalidRank { original_input: t.clone(), incorrect_char: x }, Want::Rank(t, x)),
                _ => (ParseCardError::InvalidSuit { original_input: t.clone(), incorrect_char: x }, Want::Suit(t, x)),
            };
            keep(&mut s.perrs, pair, rng);
        }
        41 => { // errors compared, sent, boxed and passed on
            if !s.perrs.is_empty() {
                let (a, x) = pick!(s.perrs); let (b, y) = pick!(s.perrs);
                check!((a == b) == (x == y) && (a != b) == (x != y), "{a:?} and {b:?} compare wrongly");
                let e: Box<dyn std::error::Error + Send + Sync> = Box::new(a.clone());
                check!(e.to_string() == message(x) && e.downcast_ref::<ParseCardError>() == Some(a), "{a:?} in a box prints {e}");
                let mut t = b.clone(); t.clone_from(a);
                check!(t == *a && t.to_string() == message(x), "{b:?}, to which {a:?} was copied, is {t:?}");
            }
            if !s.everrs.is_empty() {
                let (a, x, n) = pick!(s.everrs); let (b, y, m) = pick!(s.everrs);
                check!((a == b) == (x == y && n == m) && (a != b) == (x != y || n != m), "{a:?} and {b:?} compare wrongly");
                let e: Box<dyn std::error::Error + Send + Sync> = Box::new(a.clone());
                check!(e.to_string() == a.to_string() && e.downcast_ref::<EvalError>() == Some(a), "{a:?} in a box prints {e}");
                let mut t = b.clone(); t.clone_from(a);
                check!(t == *a && t.to_string() == a.to_string(), "{b:?}, to which {a:?} was copied, is {t:?}");
            }
        }
        42 => { // lists of everything compared as collections
            let (a, x) = pick!(s.hands); let (b, y) = pick!(s.hands);
            check!((a == b) == (x == y), "{} and {}: equality as lists", cards_str(x), cards_str(y));
            let set: std::collections::HashSet<Card> = a.iter().chain(b).copied().collect();
            let mut ids: Vec<u8> = x.iter().chain(y).copied().collect(); ids.sort(); ids.dedup();
            check!(set.len() == ids.len() && ids.iter().all(|&n| set.contains(&mk(n))), "a set of {} and {} has {} members", cards_str(x), cards_str(y), set.len());
        }
        _ => {
            #[cfg(feature = "shuffle")]
            {
                let d = if rng.chance(1, 2) { deck::shuffled() } else { deck::shuffled_with(&mut vh::rngs::Source::new(vh::rngs::Kind::SplitMix(rng.next()), 1 << 40, 3)) };
                let mut n: Vec<u8> = d.iter().map(|&x| no(x)).collect();
                let five: Vec<u8> = n[..5.min(n.len())].to_vec();
                n.sort();
                check!(n.iter().copied().eq(0..52), "a shuffled deck is {}", cards_txt(&d));
                keep(&mut s.hands, (d[..5].to_vec(), five), rng);
            }
        }
    }
    Ok(())
}

const _: fn() = || { let _: Ordering = Ordering::Less; };

pub fn api(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    let seqs = c.n(1_000_000u64, 30_000u64);
    let only: Option<u64> = std::env::var("VH_ONLY").ok().and_then(|x| x.parse().ok());
    let counts: Vec<std::sync::atomic::AtomicU64> = (0..OPS).map(|_| Default::default()).collect();
    c.par(seqs as usize, |t| {
        if only.is_some_and(|x| x != t as u64) { return }
        let mut rng = Rng::fork(c.seed, t as u64);
        let mut s = State::default();
        let mut trail: Vec<u8> = vec![];
        let len = 100 + rng.below(500);
        // each sequence prefers some operations
        let fav: Vec<usize> = (0..6).map(|_| rng.below(OPS)).collect();
        for i in 0..len {
            let op = if rng.chance(1, 3) { *rng.pick(&fav) } else { rng.below(OPS) };
            trail.push(op as u8);
            counts[op].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let r = guard(|| step(&w, &mut s, op, &mut rng));
            let m = match r { Ok(Ok(())) => continue, Ok(Err(m)) => m, Err(m) => m };
            let from = trail.len().saturating_sub(12);
            c.viol(format!("{m} (operation {i} of sequence {t}; latest operations {:?})", &trail[from..]));
            return;
        }
        for p in trail.windows(3) { c.distinct(p.iter().fold(1, |a, &b| mix(a ^ (b as u64 + 1)))) }
        c.add("sequences", 1);
        c.add("evaluations", len as u64);
        if t < 2 { c.sample("operations", || format!("{:?}", &trail[..30])) }
    });
    for (i, n) in counts.iter().enumerate() { c.add(&format!("op_{i:02}"), n.load(std::sync::atomic::Ordering::Relaxed)) }
    if only.is_none() {
        c.min("sequences", 8000);
        for i in 0..OPS { c.min(&format!("op_{i:02}"), 10_000) }
    }
}
