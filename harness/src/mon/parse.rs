//! C10 accept, C11 errors, C12 multi.
use std::{borrow::Cow, cell::Cell, collections::VecDeque};

use poker::{cards, Card, ParseCardError, Rank, Suit};
use super::places;
use vh::{
    ctx::{guard, Ctx},
    oracle::*,
    rng::Rng,
    *,
};

fn rank_idx(c: char) -> Option<u8> { RANK_CHARS.iter().position(|&x| x == c).map(|x| x as u8) }
fn suit_idx(c: char) -> Option<u8> { SUIT_CHARS.iter().position(|&x| x == c).map(|x| x as u8) }

#[derive(Debug, PartialEq, Clone)]
pub enum Want {
    Card(u8),
    Len(String, usize),
    Rank(String, char),
    Suit(String, char),
}

pub fn model(s: &str) -> Want {
    let n = s.chars().count();
    if n != 2 {
        return Want::Len(s.into(), n);
    }
    let mut i = s.chars();
    let (a, b) = (i.next().unwrap(), i.next().unwrap());
    match (rank_idx(a), suit_idx(b)) {
        (Some(r), Some(u)) => Want::Card(r * 4 + u),
        (None, _) => Want::Rank(s.into(), a),
        _ => Want::Suit(s.into(), b),
    }
}

pub fn model_chars(a: char, b: char) -> Want {
    match (rank_idx(a), suit_idx(b)) {
        (Some(r), Some(u)) => Want::Card(r * 4 + u),
        (None, _) => Want::Rank(a.to_string(), a),
        _ => Want::Suit(b.to_string(), b),
    }
}

pub fn seen(r: &Result<Card, ParseCardError>) -> Want {
    match r {
        Ok(c) => Want::Card(no(*c)),
        Err(ParseCardError::InvalidLength { original_input }) => Want::Len(original_input.clone(), original_input.chars().count()),
        Err(ParseCardError::InvalidRank { original_input, incorrect_char }) => Want::Rank(original_input.clone(), *incorrect_char),
        Err(ParseCardError::InvalidSuit { original_input, incorrect_char }) => Want::Suit(original_input.clone(), *incorrect_char),
    }
}

pub fn message(w: &Want) -> String {
    match w {
        Want::Card(_) => String::new(),
        Want::Len(s, n) => format!("Error parsing input '{s}' as a Card: Found input of length {n}, expected 2"),
        Want::Rank(s, ch) => format!("Error parsing input '{s}' as a Card: Invalid rank character '{ch}', expected one of [23456789TJQKA]"),
        Want::Suit(s, ch) => format!("Error parsing input '{s}' as a Card: Invalid suit character '{ch}', expected one of [chsd]"),
    }
}

const ODD: [&str; 44] = [
    "", " ", "\0", "\u{feff}", "\u{200b}", "\u{200d}", "\u{301}", "\u{fe0f}", "\u{202e}", "10", "1", "T", "t", "a", "A", "k", "K", "é", "♠", "♥", "♣", "♦",
    "🂡", "🃏", "Ａ", "２", "٢", "²", "ｓ", "Ѕ", "ѕ", "А", "С", "с", "ſ", "s", "S", "C", "D", "H", "\n", "\t", "İ", "K",
];

pub fn random_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=5 => 2,
        6..=7 => 3,
        8 => 4 + rng.below(4),
        _ => 8 + rng.below(40),
    };
    for i in 0..n {
        match rng.below(8) {
            0 | 1 => s.push(*rng.pick(if i % 2 == 0 { &RANK_CHARS[..] } else { &SUIT_CHARS[..] })),
            2 => s.push(*rng.pick(if i % 2 == 1 { &RANK_CHARS[..] } else { &SUIT_CHARS[..] })),
            3 => s.push((32 + rng.below(95)) as u8 as char),
            4 => s.push_str(ODD[rng.below(ODD.len())]),
            5 => s.push(SUIT_SYMBOLS[rng.below(4)]),
            6 => s.push(char::from_u32(rng.below(0x3000) as u32).unwrap_or('x')),
            _ => s.push(char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    s
}

/// Sends many texts to f: exhaustive families and random ones.
fn texts(c: &Ctx, f: impl Fn(&str) -> bool + Sync) {
    // every character: alone, doubled, as a suit after each rank, as a rank before each suit, and added to a valid name
    c.par(0x110, |hi| {
        let mut n = 0u64;
        let mut rng = Rng::fork(c.seed, hi as u64);
        let mut s = String::new();
        for lo in 0..0x1000 {
            let Some(ch) = char::from_u32((hi * 0x1000 + lo) as u32) else { continue };
            let mut go = |parts: &[char]| {
                s.clear();
                s.extend(parts);
                n += 1;
                f(&s)
            };
            let ok = go(&[ch])
                && go(&[ch, ch])
                && RANK_CHARS.iter().all(|&r| go(&[r, ch]))
                && SUIT_CHARS.iter().all(|&u| go(&[ch, u]));
            let (r, u) = (RANK_CHARS[rng.below(13)], SUIT_CHARS[rng.below(4)]);
            if !ok || !go(&[r, u, ch]) || !go(&[ch, r, u]) || !go(&[r, ch, u]) || !go(&[u, r]) || !go(&[ch]) {
                return;
            }
        }
        c.add("texts_by_character", n);
        c.add("evaluations", n);
        c.distinct_n(n);
    });
    if c.stop() {
        return;
    }
    // every ASCII text of up to three characters
    c.par(128, |a| {
        let mut n = 0u64;
        let a = a as u8 as char;
        let mut s = String::new();
        for b in 0..128u8 {
            s.clear();
            s.push(a);
            s.push(b as char);
            if !f(&s) { return }
            n += 1;
            for d in 0..128u8 {
                s.push(d as char);
                if !f(&s) { return }
                n += 1;
                s.pop();
            }
        }
        c.add("ascii_texts", n);
        c.add("evaluations", n);
    });
    let rounds = c.n(100_000_000, 6_000_000);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, 4242 + t as u64);
        for _ in 0..rounds / 64 {
            let s = random_text(&mut rng);
            c.distinct(s.bytes().fold(3, |a, b| rng::mix(a ^ (b as u64 + 1))));
            if !f(&s) { return }
        }
        c.add("random_texts", rounds / 64);
        c.add("evaluations", rounds / 64);
    });
    // lengths that look like two after a narrowing, of characters of every size
    for l in [254usize, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 770, 1024, 1026, 4096, 4098, 32768, 32770, 65534, 65535, 65536, 65537, 65538, 65539, 131074, 262146, 1048578, 16777218] {
        for ch in ["s", "é", "♠", "💥"] {
            let unit = ch.len();
            for n in [l, l / unit] {
                let s = format!("A{}", ch.repeat(n.max(3) - 1));
                f(&s);
                c.add("long_texts", 1);
            }
        }
    }
    for k in 0..22 {
        let mut s = "As".repeat(1 << k >> 1);
        f(&s);
        s.push('\u{10ffff}');
        f(&s);
        c.add("long_texts", 2);
    }
    c.min("texts_by_character", 20_000_000);
    c.min("random_texts", 1_000_000);
}

/// Some texts of all kinds, for looking them up in many places.
fn sample_texts(c: &Ctx) -> Vec<String> {
    let mut rng = Rng::fork(c.seed, 5);
    let mut v: Vec<String> = (0..52).map(card_str).collect();
    v.extend(ODD.iter().map(|s| s.to_string()));
    v.extend(ODD.iter().flat_map(|s| [format!("A{s}"), format!("{s}s"), format!("{s}{s}")]));
    v.extend((0..1500).map(|_| random_text(&mut rng)));
    v
}
fn fold(s: &str) -> u64 { s.bytes().fold(11, |a, b| rng::mix(a ^ (b as u64 + 1))) }

pub fn accept(c: &Ctx) {
    // all 52 names, and back
    for i in 0..52u8 {
        let s = card_str(i);
        let r = guard(|| s.parse::<Card>());
        if !matches!(&r, Ok(Ok(x)) if no(*x) == i && x.unique_integer() == mk(i).unique_integer()) {
            c.viol(format!("{s:?} parses to {r:?}"));
        }
        let back = guard(|| mk(i).rank_suit_string());
        if back.as_deref() != Ok(s.as_str()) {
            c.viol(format!("name of {s} is {back:?}"));
        }
        if let Ok(b) = back {
            let again = guard(|| b.parse::<Card>());
            if again != Ok(Ok(mk(i))) {
                c.viol(format!("name {b:?} of {s} parses to {again:?}"));
            }
        }
        let (rc, sc) = (mk(i).rank().as_char(), mk(i).suit().as_char());
        let r = guard(|| (Rank::try_from(rc), Suit::try_from(sc)));
        if r != Ok((Ok(mk(i).rank()), Ok(mk(i).suit()))) {
            c.viol(format!("characters {rc:?}, {sc:?} of {s} convert back to {r:?}"));
        }
        c.add("names", 1);
    }
    // single characters and pairs
    c.par(0x110, |hi| {
        let mut n = 0;
        for lo in 0..0x1000 {
            let Some(ch) = char::from_u32((hi * 0x1000 + lo) as u32) else { continue };
            let r = guard(|| (Rank::try_from(ch), Suit::try_from(ch)));
            let want = (rank_idx(ch), suit_idx(ch));
            let ok = matches!(&r, Ok((a, b))
                if a.as_ref().ok().map(|&x| rank_no(x)) == want.0 && b.as_ref().ok().map(|&x| suit_no(x)) == want.1
                && (a.is_ok() || *a == Err(ch)) && (b.is_ok() || *b == Err(ch)));
            if !ok {
                c.viol(format!("character {ch:?}: as rank and suit {r:?}"));
                if c.stop() { return }
            }
            let mut pair = |a: char, b: char| {
                n += 1;
                let r = guard(|| Card::try_from_chars(a, b));
                let got = r.as_ref().ok().and_then(|x| x.as_ref().ok()).map(|&x| no(x));
                let want = rank_idx(a).zip(suit_idx(b)).map(|(x, y)| x * 4 + y);
                if r.is_err() || got != want {
                    c.viol(format!("characters {a:?}, {b:?} give {r:?}"));
                    return false;
                }
                true
            };
            for r in RANK_CHARS { if !pair(r, ch) { return } }
            for u in SUIT_CHARS { if !pair(ch, u) { return } }
            if !pair(ch, ch) { return }
        }
        c.add("character_pairs", n);
        c.add("evaluations", n);
        c.distinct_n(n);
    });
    texts(c, |s| {
        let r = guard(|| s.parse::<Card>());
        let want = model(s);
        let ok = match (&r, &want) {
            (Ok(Ok(x)), Want::Card(i)) => no(*x) == *i && *x == mk(*i),
            (Ok(Err(_)), Want::Card(_)) | (Err(_), _) => false,
            (Ok(Ok(_)), _) => false,
            (Ok(Err(_)), _) => true,
        };
        if !ok {
            c.viol(format!("text {s:?} parses to {r:?}"));
        }
        ok
    });
    let v = sample_texts(c);
    let names = v.clone();
    let f: places::Facts = std::sync::Arc::new(move || v.iter().map(|s| {
        let mut ch = s.chars();
        let (a, b) = (ch.next().unwrap_or('A'), ch.next().unwrap_or('s'));
        let is = |x: Result<Card, ParseCardError>| x.map_or(99, |x| no(x) as u64);
        is(s.parse()) | is(Card::try_from_chars(a, b)) << 8 | Rank::try_from(a).map_or(99, |x| rank_no(x) as u64) << 16 | Suit::try_from(b).map_or(99, |x| suit_no(x) as u64) << 24
    }).chain((0..52).map(|i| fold(&mk(i).rank_suit_string()))).collect());
    places::everywhere(c, "parsing", f, |i| format!("{:?}", names.get(i).cloned().unwrap_or("a name".into())));
    c.sample("text", || "\"\u{ff21}s\" refused, \"As\" accepted".into());
    c.min("character_pairs", 19_000_000);
}

fn check_err(c: &Ctx, what: &str, r: &Result<Result<Card, ParseCardError>, String>, want: &Want) -> bool {
    if let Want::Card(_) = want {
        return true; // C10's business
    }
    let ok = match r {
        Ok(x @ Err(e)) => {
            if seen(x) != *want {
                false
            } else {
                let m = guard(|| e.to_string());
                m.as_deref() == Ok(message(want).as_str())
            }
        }
        _ => false,
    };
    if !ok {
        let m = match r {
            Ok(Err(e)) => guard(|| e.to_string()),
            _ => Err(String::new()),
        };
        c.viol(format!("{what}: {r:?} with message {m:?}; expected {want:?}"));
    }
    ok
}

pub fn errors(c: &Ctx) {
    let kinds: [std::sync::atomic::AtomicU64; 4] = Default::default();
    let tally = |w: &Want| {
        let i = match w {
            Want::Card(_) => 0,
            Want::Len(..) => 1,
            Want::Rank(..) => 2,
            Want::Suit(..) => 3,
        };
        kinds[i].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    };
    texts(c, |s| {
        let w = model(s);
        tally(&w);
        let r = guard(|| s.parse::<Card>());
        let shown: String = s.chars().take(80).collect();
        check_err(c, &format!("text {shown:?}"), &r, &w)
    });
    c.par(0x110, |hi| {
        let mut n = 0;
        let mut rng = Rng::fork(c.seed, hi as u64 + 999);
        for lo in 0..0x1000 {
            let Some(ch) = char::from_u32((hi * 0x1000 + lo) as u32) else { continue };
            let other = char::from_u32(rng.below(0xd000) as u32).unwrap();
            for (a, b) in [(ch, 's'), ('A', ch), (ch, ch), (ch, other), (other, ch), (RANK_CHARS[rng.below(13)], ch), (ch, SUIT_CHARS[rng.below(4)])] {
                n += 1;
                let w = model_chars(a, b);
                tally(&w);
                let r = guard(|| Card::try_from_chars(a, b));
                if !check_err(c, &format!("characters {a:?}, {b:?}"), &r, &w) { return }
            }
        }
        c.add("character_pairs", n);
        c.add("evaluations", n);
    });
    for (k, n) in ["accepted", "length_errors", "rank_errors", "suit_errors"].iter().zip(&kinds) {
        c.add(k, n.load(std::sync::atomic::Ordering::Relaxed));
    }
    let v = sample_texts(c);
    let names = v.clone();
    let f: places::Facts = std::sync::Arc::new(move || v.iter().map(|s| {
        let mut ch = s.chars();
        let (a, b) = (ch.next().unwrap_or('A'), ch.next().unwrap_or('s'));
        let is = |x: Result<Card, ParseCardError>| x.as_ref().map_or_else(|e| rng::mix(fold(&format!("{:?}", seen(&x))) ^ fold(&e.to_string())), |_| 1);
        rng::mix(is(s.parse()) ^ is(Card::try_from_chars(a, b)).rotate_left(20))
    }).collect());
    places::everywhere(c, "errors", f, |i| format!("what {:?} gives", names[i]));
    c.min("length_errors", 1_000_000);
    c.min("rank_errors", 1_000_000);
    c.min("suit_errors", 1_000_000);
    for s in ["é", "10c", "A♠", "♠A"] {
        c.sample("error", || format!("{s:?} -> {}", message(&model(s))));
    }
}

/// A source that records how many texts were taken, with a chosen (truthful) size hint, that may go on after its end.
struct Source<'a> {
    items: VecDeque<&'a str>,
    taken: &'a Cell<usize>,
    hint: usize,
    revive: bool,
    ended: bool,
}
impl<'a> Iterator for Source<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        if self.items.is_empty() && !self.ended {
            self.ended = true;
            return None;
        }
        if self.items.is_empty() {
            return if self.revive { Some("Zz") } else { None };
        }
        self.taken.set(self.taken.get() + 1);
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, None),
            _ => (0, Some(n + 3)),
        }
    }
}

pub fn multi(c: &Ctx) {
    let rounds: u64 = c.n(30_000_000, 2_000_000);
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        for _ in 0..rounds / 64 {
            let n = match rng.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 3 + rng.below(5), 4 => 8 + rng.below(20), _ => rng.below(6) };
            let bad = rng.below(5);
            let mut txt: Vec<String> = (0..n)
                .map(|_| if bad > 0 && rng.below(8) < bad { random_text(&mut rng) } else { card_str(rng.below(52) as u8) })
                .collect();
            if rng.chance(1, 3) {
                txt.iter_mut().for_each(|s| *s = card_str(rng.below(52) as u8));
            }
            let want: Vec<Want> = txt.iter().map(|s| model(s)).collect();
            c.distinct(txt.iter().flat_map(|s| s.bytes().chain([0])).fold(5, |a, b| rng::mix(a ^ (b as u64 + 1))));
            let bads = want.iter().filter(|w| !matches!(w, Want::Card(_))).count();
            c.add("sequences", 1);
            c.add("evaluations", 1);
            if bads > 0 { c.add("sequences_with_errors", 1) }
            let fail = |what: &str, got: String| c.viol(format!("{what} of {txt:?}: {got}"));
            // step by step, with truthful hints and no look-ahead
            let taken = Cell::new(0);
            let src = Source { items: txt.iter().map(|s| s.as_str()).collect(), taken: &taken, hint: rng.below(4), revive: rng.chance(1, 2), ended: false };
            let res = guard(|| {
                let mut it = Card::parse_to_iter(src);
                if taken.get() != 0 { return Err(format!("{} texts consumed before any was asked for", taken.get())) }
                for (i, w) in want.iter().enumerate() {
                    let (lo, hi) = it.size_hint();
                    if lo > n - i || hi.is_some_and(|h| h < n - i) {
                        return Err(format!("size hint {:?} with {} left", (lo, hi), n - i));
                    }
                    match it.next() {
                        Some(r) if seen(&r) == *w => {}
                        x => return Err(format!("result {i} is {x:?}, expected {w:?}")),
                    }
                    if taken.get() != i + 1 { return Err(format!("{} texts consumed for {} results", taken.get(), i + 1)) }
                }
                match it.next() { None => Ok(()), x => Err(format!("{x:?} after the end")) }
            });
            match res { Ok(Ok(())) => {} x => return fail("stepping through the results", format!("{x:?}")) }
            // whole, by different consumers
            let check = |what: &str, got: Result<Vec<Result<Card, ParseCardError>>, String>, want: &[Want]| -> bool {
                match got {
                    Ok(v) if v.iter().map(seen).collect::<Vec<_>>() == want => true,
                    x => { c.viol(format!("{what} of {txt:?}: {x:?}")); false }
                }
            };
            let k = if n > 0 { rng.below(n) } else { 0 };
            let ok = check("collect", guard(|| Card::parse_to_iter(&txt).collect()), &want)
                && check("collect of borrowed", guard(|| Card::parse_to_iter(txt.iter().map(|s| s.as_str())).collect()), &want)
                && check("collect of owned", guard(|| Card::parse_to_iter(txt.clone()).collect()), &want)
                && check("collect of cow", guard(|| Card::parse_to_iter(txt.iter().map(|s| Cow::Borrowed(s.as_str()))).collect()), &want)
                && check("collect of boxed", guard(|| Card::parse_to_iter(txt.iter().map(|s| s.clone().into_boxed_str())).collect()), &want)
                && check("fold", guard(|| Card::parse_to_iter(&txt).fold(vec![], |mut v, x| { v.push(x); v })), &want)
                && check("for_each", guard(|| { let mut v = vec![]; Card::parse_to_iter(&txt).for_each(|x| v.push(x)); v }), &want)
                && check("next then fold", guard(|| { let mut it = Card::parse_to_iter(&txt); let mut v: Vec<_> = it.by_ref().take(k).collect(); it.for_each(|x| v.push(x)); v }), &want)
                && check("skip", guard(|| Card::parse_to_iter(&txt).skip(k).collect()), &want[k.min(n)..])
                && check("nth", guard(|| Card::parse_to_iter(&txt).nth(k).into_iter().collect()), if n > 0 { &want[k..k + 1] } else { &[] })
                && check("step_by", guard(|| Card::parse_to_iter(&txt).step_by(2).collect()), &want.iter().step_by(2).cloned().collect::<Vec<_>>())
                && check("last", guard(|| Card::parse_to_iter(&txt).last().into_iter().collect()), if n > 0 { &want[n - 1..] } else { &[] })
                && check("chain and zip", guard(|| Card::parse_to_iter(&txt).zip(0..).map(|x| x.0).collect()), &want);
            if !ok { return }
            let counts = guard(|| {
                (Card::parse_to_iter(&txt).count(), Card::parse_to_iter(&txt).filter(|x| x.is_err()).count(), Card::parse_to_iter(&txt).position(|x| x.is_err()))
            });
            if counts != Ok((n, bads, want.iter().position(|w| !matches!(w, Want::Card(_))))) {
                return fail("counting", format!("{counts:?}"));
            }
            // all together: first error or all cards
            let first = want.iter().find(|w| !matches!(w, Want::Card(_)));
            let judge = |what: &str, got: Result<Result<Vec<Card>, ParseCardError>, String>| -> bool {
                let ok = match (&got, first) {
                    (Ok(Ok(v)), None) => v.iter().map(|&x| Want::Card(no(x))).collect::<Vec<_>>() == want,
                    (Ok(Err(e)), Some(w)) => seen(&Err(e.clone())) == *w,
                    _ => false,
                };
                if !ok { c.viol(format!("{what} of {txt:?}: {got:?}")) }
                ok
            };
            let sep = *rng.pick(&[" ", "  ", "\t", "\n", "\u{2003}", "\r\n "]);
            let joinable = txt.iter().all(|s| !s.is_empty() && !s.contains(char::is_whitespace));
            let ok = judge("try_collect", guard(|| Card::parse_to_iter(&txt).try_collect::<Vec<_>>()))
                && judge("try_collect into a box", guard(|| Card::parse_to_iter(&txt).try_collect::<Box<[_]>>().map(|x| x.to_vec())))
                && judge("try_collect into a deque", guard(|| Card::parse_to_iter(&txt).try_collect::<VecDeque<_>>().map(|x| x.into_iter().collect())))
                && judge("collect into a Result", guard(|| Card::parse_to_iter(&txt).collect::<Result<Vec<_>, _>>()))
                && judge("parse_to_iter as a loop with ?", guard(|| { let mut v = vec![]; for x in Card::parse_to_iter(&txt) { v.push(x?) } Ok(v) }))
                && (!joinable || {
                    let j = format!("{sep}{}{sep}", txt.join(sep));
                    judge("cards! of one text", guard(|| cards!(j).try_collect::<Vec<_>>()))
                        && judge("cards! of one text slice", guard(|| cards!(&j[..]).try_collect::<Vec<_>>()))
                        && check("iterating cards! of one text", guard(|| cards!(j).collect()), &want)
                })
                && (n != 2 || judge("cards! of 2", guard(|| cards!(&txt[0], &txt[1]).try_collect())))
                && (n != 3 || judge("cards! of 3", guard(|| cards!(txt[0].as_str(), txt[1].as_str(), txt[2].as_str(),).try_collect())))
                && (n != 5 || judge("cards! of 5", guard(|| cards!(&txt[0], &txt[1], &txt[2], &txt[3], &txt[4]).try_collect())))
                && (n != 7 || judge("cards! of 7", guard(|| cards!(&txt[0], &txt[1], &txt[2], &txt[3], &txt[4], &txt[5], &txt[6]).try_collect())));
            if !ok { return }
            // collecting stops at the first error: nothing after it is taken
            let stop = first.map_or(n, |_| want.iter().position(|w| !matches!(w, Want::Card(_))).unwrap() + 1);
            for way in 0..3 {
                taken.set(0);
                let src = Source { items: txt.iter().map(|s| s.as_str()).collect(), taken: &taken, hint: rng.below(4), revive: rng.chance(1, 2), ended: false };
                let end = n + 3;
                // with an error in it, the source may as well go on for ever
                let endless = first.is_some() && rng.chance(1, 2);
                let tail = std::iter::from_fn(|| { if !endless { return None } taken.set(taken.get() + 1); assert!(taken.get() < end + 1000, "goes on after the first error"); Some("As") });
                let src = src.chain(tail);
                let got = guard(|| match way {
                    0 => Card::parse_to_iter(src).try_collect::<Vec<_>>(),
                    1 => Card::parse_to_iter(src).collect::<Result<Vec<_>, _>>(),
                    _ => Card::parse_to_iter(src).try_collect::<VecDeque<_>>().map(Vec::from),
                });
                if !judge("collecting from a counted source", got) { return }
                if taken.get() != stop { return fail("collecting (way 0..2: try_collect, collect, try_collect into a deque)", format!("way {way} took {} texts, the first error is number {stop} of {n}", taken.get())) }
            }
            // sources without end, whose hints say so: (usize::MAX, None)
            if n > 0 {
                let m = n + rng.below(n + 3);
                let around: Vec<Want> = want.iter().cycle().take(m).cloned().collect();
                let ok = check("the beginning of an endless source", guard(|| Card::parse_to_iter(txt.iter().cycle()).take(m).collect()), &around)
                    && check("a later part of an endless source", guard(|| Card::parse_to_iter(txt.iter().chain(txt.iter().cycle())).skip(k).take(m - k).collect()), &around[k..])
                    && (first.is_none() || judge("try_collect from an endless source", guard(|| Card::parse_to_iter(txt.iter().cycle()).try_collect::<Vec<_>>()))
                        && judge("collect from an endless source", guard(|| Card::parse_to_iter(txt.iter().chain(std::iter::repeat(&txt[0]))).collect::<Result<Vec<_>, _>>())));
                if !ok { return }
                let h = guard(|| { let mut it = Card::parse_to_iter(std::iter::repeat(&txt[0])); let _ = it.next(); it.size_hint() });
                if !matches!(h, Ok((_, None))) { return fail("the length hint of an endless source", format!("{h:?}")) }
            }
            // two iterators interleaved do not disturb each other
            let other: Vec<String> = txt.iter().rev().cloned().collect();
            let r = guard(|| {
                let (mut a, mut b) = (Card::parse_to_iter(&txt), Card::parse_to_iter(&other));
                (0..n).all(|i| seen(&a.next().unwrap()) == want[i] && seen(&b.next().unwrap()) == want[n - 1 - i])
            });
            if r != Ok(true) { return fail("two interleaved iterators", format!("{r:?}")) }
            if n == 4 { c.sample("sequence", || format!("{txt:?} -> {want:?}")) }
        }
    });
    if c.stop() { return }
    long_lists(c);
    c.min("sequences", 200_000);
    c.min("sequences_with_errors", 20_000);
}

/// Lists about as long as small counters count, and much longer ones: valid ones, and ones whose only bad text is late.
fn long_lists(c: &Ctx) {
    let mut lens: Vec<usize> = vec![1000, 20_000, 100_000, 300_000];
    for b in [7, 8, 9, 10, 12, 15, 16, 17] { lens.extend((1usize << b) - 2..=(1 << b) + 2) }
    if !c.sanitized { lens.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3_000_000]) }
    if c.thorough && !c.sanitized { lens.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 50_000_000]) }
    lens.sort_by_key(|&l| std::cmp::Reverse(l));
    c.par(lens.len(), |i| {
        let n = lens[i];
        let mut rng = Rng::fork(c.seed, 4000 + i as u64);
        let names: Vec<String> = (0..52).map(|x| card_str(x as u8)).collect();
        // the k-th text, without keeping them
        let (a, salt) = (rng.next() | 1, rng.next());
        let id = |k: usize| (rng::mix((k as u64).wrapping_mul(a) ^ salt) % 52) as u8;
        for bad in [None, Some(n - 1), Some(n / 2), Some(rng.below(n))] {
            let wrong = random_text(&mut rng);
            let wrong = if matches!(model(&wrong), Want::Card(_)) { "Zz".to_string() } else { wrong };
            let text = |k: usize| -> &str { if bad == Some(k) { &wrong } else { &names[id(k) as usize] } };
            let taken = Cell::new(0usize);
            let source = || (0..n).map(|k| { taken.set(k + 1); text(k) });
            let fail = |what: &str, got: String| c.viol(format!("{what} of {n} texts, {}: {got}", bad.map_or("all of them cards".to_string(), |b| format!("of which only the one at {b} is no card: {wrong:?}"))));
            let all = |what: &str, r: Result<Result<Vec<Card>, ParseCardError>, String>| -> bool {
                let said = match (&r, bad) {
                    (Ok(Ok(v)), None) if v.len() == n => match v.iter().enumerate().find(|(k, x)| no(**x) != id(*k)) { None => return true, Some((k, x)) => format!("card {k} is {x}") },
                    (Ok(Err(e)), Some(_)) if seen(&Err(e.clone())) == model(&wrong) => return true,
                    (Ok(Ok(v)), _) => format!("{} cards", v.len()),
                    (x, _) => format!("{x:?}").chars().take(300).collect(),
                };
                fail(what, said);
                false
            };
            taken.set(0);
            if !all("try_collect", guard(|| Card::parse_to_iter(source()).try_collect::<Vec<_>>())) { return }
            if taken.get() != bad.map_or(n, |b| b + 1) { return fail("try_collect", format!("took {} texts", taken.get())) }
            if !all("collect into a Result", guard(|| Card::parse_to_iter(source()).collect::<Result<Vec<_>, _>>())) { return }
            if !all("try_collect into a deque", guard(|| Card::parse_to_iter(source()).try_collect::<VecDeque<_>>().map(Vec::from))) { return }
            let r = guard(|| {
                let mut it = Card::parse_to_iter(source());
                let mut k = 0;
                loop {
                    let (lo, hi) = it.size_hint();
                    if lo > n - k || hi.is_some_and(|h| h < n - k) { return Err(format!("size hint {:?} with {} left", (lo, hi), n - k)) }
                    let Some(r) = it.next() else { break };
                    if k >= n || !matches!(&r, Ok(x) if bad != Some(k) && no(*x) == id(k)) && !(bad == Some(k) && seen(&r) == model(&wrong)) { return Err(format!("result {k} is {r:?}")) }
                    k += 1;
                }
                if k == n { Ok(()) } else { Err(format!("{k} results")) }
            });
            match r { Ok(Ok(())) => {} Ok(Err(m)) | Err(m) => return fail("stepping through the results", m) }
            let r = guard(|| Card::parse_to_iter(source()).fold((0usize, 0usize), |(k, right), r| (k + 1, right + match r { Ok(x) => bad != Some(k) && no(x) == id(k), Err(_) => bad == Some(k) } as usize)));
            if r != Ok((n, n)) { return fail("folding", format!("{r:?} (results, right ones)")) }
            if n <= 1 << 20 && !wrong.is_empty() && !wrong.contains(char::is_whitespace) {
                let mut line = String::with_capacity(3 * n);
                for k in 0..n { line.push_str(text(k)); line.push_str(if k % 7 == 3 { "\u{3000}" } else { " " }) }
                if !all("cards! of one text", guard(|| cards!(line).try_collect::<Vec<_>>())) { return }
            }
            c.add("long_lists", 1);
            c.add("texts_in_long_lists", 5 * n as u64);
        }
        c.add("evaluations", 20 * n as u64);
    });
}
