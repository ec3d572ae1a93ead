//! C24: everything observable as text, folded into digests that must not depend on build or machine.
//! Chunked, so that a difference can be dumped and shown.
use std::fmt::Write;

use poker::{cards, Card, Eval, EvalError, ParseCardError};
use vh::{
    ctx::{guard, Ctx},
    hands::*,
    oracle::*,
    rng::{mix, Rng},
    *,
};

struct Out<'a> {
    c: &'a Ctx,
    section: String,
    dump: Option<String>,
    h: u64,
    n: u64,
    buf: String,
}
impl Out<'_> {
    fn section(&mut self, s: &str) {
        self.flush();
        self.section = s.into();
    }
    fn flush(&mut self) {
        if self.n > 0 {
            println!("DIGEST {} {} {:016x}", self.section, self.n, self.h);
            self.c.add("evaluations", self.n);
            self.c.distinct_n(self.n);
        }
        self.h = 0xcbf29ce484222325;
        self.n = 0;
    }
    fn line(&mut self) {
        for b in self.buf.bytes() { self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3) }
        self.h = mix(self.h);
        self.n += 1;
        if self.dump.as_deref() == Some(&self.section) { println!("LINE {} {}", self.n, self.buf.replace('\n', "\\n")) }
        self.buf.clear();
    }
}
macro_rules! put { ($o:expr, $($t:tt)*) => {{ let _ = write!($o.buf, $($t)*); $o.line(); }} }

fn err_text(e: &EvalError) -> String {
    match e {
        EvalError::CardsNotUnique(v) => format!("dup {} | {e}", cards_txt(v)),
        EvalError::InvalidHandSize(n) => format!("size {n} | {e}"),
    }
}

/// digest [size] [dump-section]; size: tiny (interpreters), small, big
pub fn digest(c: &Ctx, args: &[String]) {
    let size = args.first().map(String::as_str).unwrap_or("small");
    let (tiny, big) = (size == "tiny", size == "big");
    let mut o = Out { c, section: String::new(), dump: args.get(1).cloned(), h: 0, n: 0, buf: String::new() };
    o.flush();
    let r = guard(|| run(&mut o, c.seed, tiny, big));
    match r {
        Ok(()) => {}
        Err(m) => { o.buf.clear(); put!(o, "{m}"); c.viol(format!("section {}: {m}", o.section)) }
    }
    o.flush();
}

fn run(o: &mut Out, seed: u64, tiny: bool, big: bool) {
    let mut rng = Rng::new(seed);
    o.section("encoding");
    let all: Vec<Card> = (0..52).map(mk).collect();
    for x in &all {
        put!(o, "{} {:#010x} {} {x} {} {} {} {} {}", x.rank_suit_string(), x.unique_integer(), no(*x), x.rank(), x.suit(), x.rank().as_char(), x.suit().as_char(), x.suit().as_pretty_char());
    }
    o.section("rankcard");
    for x in &all {
        for y in &all {
            if tiny && (no(*x) as usize * 5 + no(*y) as usize * 3) % 23 != 0 { continue }
            put!(o, "{} {} {} {}", x.cmp(y) as i8, x.rank().cmp(&y.rank()) as i8, x == y, x < y)
        }
    }
    o.section("parse");
    // (no debug output of texts: which characters it escapes depends on the standard library's Unicode version)
    let refused = |e: &ParseCardError| match e {
        ParseCardError::InvalidLength { original_input } => format!("length {e} {original_input}"),
        ParseCardError::InvalidRank { original_input, incorrect_char } => format!("rank {e} {original_input} {:x}", *incorrect_char as u32),
        ParseCardError::InvalidSuit { original_input, incorrect_char } => format!("suit {e} {original_input} {:x}", *incorrect_char as u32),
    };
    let card = |r: Result<Card, ParseCardError>| match r { Ok(x) => format!("{x} {:#x}", x.unique_integer()), Err(e) => refused(&e) };
    let show = |s: &str| card(s.parse::<Card>());
    for a in 32..127u8 {
        for b in 32..127u8 {
            if tiny && (a ^ b.wrapping_mul(3)) % 211 != 0 { continue }
            let s = String::from_utf8(vec![a, b]).unwrap();
            put!(o, "{}", show(&s));
            put!(o, "{}", card(Card::try_from_chars(a as char, b as char)));
        }
    }
    for s in ["", "A", "As ", " As", "AsK", "10s", "é♠", "A♠", "💥", "💥💥", "Ａs", "A\u{301}", "\u{301}s", "\0\0", "日本語", "aS", "ſs", "Aſ"] { put!(o, "{}", show(s)) }
    for _ in 0..if tiny { 20 } else { 20_000 } {
        let s: String = (0..rng.below(4)).map(|_| char::from_u32(rng.next() as u32 % 0x11_0000).unwrap_or('\u{fffd}')).collect();
        put!(o, "{}", show(&s));
        let v: Result<Vec<Card>, _> = cards!(format!("As {s} Kd")).try_collect();
        match v { Ok(v) => put!(o, "{}", cards_txt(&v)), Err(e) => put!(o, "{}", refused(&e)) }
    }
    o.section("deck");
    put!(o, "{}", cards_txt(&poker::deck::generate().collect::<Vec<_>>()));
    #[cfg(feature = "shuffle")]
    {
        o.section("shuffle");
        for i in 0..if tiny { 1 } else { 2000 } {
            let mut s = vh::rngs::Source::new(vh::rngs::Kind::SplitMix(mix(seed ^ i)), 1 << 40, 1);
            put!(o, "{} {}", cards_txt(&poker::deck::shuffled_with(&mut s)), s.drawn);
        }
    }
    o.section("classes");
    let cl = super::compare::all_classes();
    for (i, (_, a)) in cl.iter().enumerate() {
        put!(o, "{a} {a:?}");
        let (skip, step) = if tiny { (i * 97 % 389, 389) } else { (0, 1) };
        for (_, b) in cl.iter().skip(skip).step_by(step) {
            put!(o, "{}", a.cmp(b) as i8);
        }
    }
    o.section("constants");
    for e in [Eval::BEST, Eval::WORST] { put!(o, "{e} {:?} {:?}", e.class(), e.cmp(&Eval::BEST)) }
    o.section("evaluator");
    let ev = Evaluator::new();
    if !tiny { put!(o, "{} {}", ev == ev.clone(), ev == Evaluator::default()) } // a minute each in an interpreter
    // every strength: class, text, and order along the rules' own ranking
    o.section("strengths");
    // (tables of the oracle are too slow to build in an interpreter: hands are picked at random there)
    let mut prev: Option<Eval> = None;
    let describe = |e: Eval| format!("{e} {:?} {} {} {}", e.class(), e.is_royal_flush(), e.is_better_than(Eval::WORST), e.is_flush());
    if tiny {
        for _ in 0..400 {
            let h = rng.deal(5);
            let e = ev.evaluate(mks(&h)).unwrap();
            put!(o, "{} {} {:?}", cards_str(&h), describe(e), prev.map(|p| p.cmp(&e)));
            prev = Some(e);
        }
        for h in ["As Ks Qs Js Ts", "5d 4d 3d 2d Ad", "9c 9d 9h 9s 2c", "7c 7d 7h Ks Kd", "Ah 9h 7h 4h 2h", "5d 4s 3d 2d Ad", "3c 3d 3h 9s Kc", "3c 3d 9h 9s Kc", "3c 3d 8h 9s Kc", "2c 3c 4c 5c 7d"] {
            let v: Vec<Card> = cards!(h).try_collect().unwrap();
            let e = ev.evaluate(&v).unwrap();
            put!(o, "{} {} {:?}", h, describe(e), prev.map(|p| p.cmp(&e)));
            prev = Some(e);
        }
    } else {
        let or = Oracle::new();
        for p in &or.patterns {
            let h = canonical(p);
            let e = ev.evaluate(mks(&h)).unwrap();
            put!(o, "{} {} {:?}", cards_str(&h), describe(e), prev.map(|p| p.cmp(&e)));
            prev = Some(e);
        }
        // every five-card hand: class, and order against the hand before
        for a in 0..48u8 {
            if !big && a % 12 != 0 { continue }
            o.section(&format!("five_{a}"));
            combos5(52 - a as usize, |ix| {
                if ix[0] != 0 { return }
                let h = ix.map(|i| all[a as usize + i]);
                let e = ev.evaluate(h).unwrap();
                put!(o, "{} {:x}", prev.map_or(9, |p| p.cmp(&e) as i8), class_code(e.class()));
                prev = Some(e);
            });
        }
    }
    o.section("many");
    for k in 0..if tiny { 60 } else { 30_000 } {
        let n = if tiny { 6 + k % 2 } else { 6 + k % 6 };
        let h = rng.deal(n);
        let e = ev.evaluate(mks(&h)).unwrap();
        put!(o, "{} {} {:?}", cards_str(&h), describe(e), prev.map(|p| p.cmp(&e)));
        prev = Some(e);
    }
    if !tiny {
        for n in [20usize, 31, 33, 52] {
            let h = rng.deal(n);
            put!(o, "{}", describe(ev.evaluate(mks(&h)).unwrap()));
        }
    }
    o.section("errors");
    for k in 0..if tiny { 40 } else { 5000 } {
        let n = k % 12;
        let mut h = rng.deal(n);
        if n > 1 && k % 3 != 0 { let (i, j) = (rng.below(n), rng.below(n)); h[i] = h[j] }
        match ev.evaluate(mks(&h)) { Ok(e) => put!(o, "{}", describe(e)), Err(e) => put!(o, "{}", err_text(&e)) }
    }
}
