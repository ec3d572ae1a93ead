//! C19 names, C20 evalerr.
use std::fmt::Write;

use poker::{EvalError, Card};
use vh::{
    ctx::{eval, guard, Ctx},
    hands::*,
    oracle::*,
    rng::Rng,
    *,
};

use super::compare::all_classes;
use super::places;
use crate::world;

pub fn names(c: &Ctx) {
    let Some(w) = world(c, false) else { return };
    // classes, every one that can be built
    for (code, cl) in all_classes() {
        let want = name(code >> 8, (code >> 4 & 15) as u8, (code & 15) as u8);
        let got = guard(|| {
            let mut s = String::new();
            write!(s, "{cl}").unwrap();
            (cl.to_string(), format!("<{cl}>"), s, format!("{cl:#}"))
        });
        if got != Ok((want.clone(), format!("<{want}>"), want.clone(), want.clone())) {
            c.viol(format!("class {cl:?} prints {got:?}, expected {want:?}"));
        }
        let dbg = guard(|| format!("{cl:?} {cl:#?}"));
        if dbg.is_err() { c.viol(format!("debug output of a class: {dbg:?}")) }
        c.add("classes", 1);
    }
    // evaluations: every strength, in several hands and sizes
    let rounds = c.n(300, 20);
    c.par(7462, |i| {
        let mut rng = Rng::fork(c.seed, i as u64);
        let want = key_name(w.o.keys[i]);
        for r in 0..rounds {
            let mut h = realise(&w.o.patterns[i], &mut rng).to_vec();
            if r % 3 == 2 {
                let more = 1 + rng.below(3);
                for _ in 0..more * 8 {
                    let q = rng.below(52) as u8;
                    if h.contains(&q) || h.len() >= 5 + more { continue }
                    h.push(q);
                    if w.ord(&h) as usize != i + 1 { h.pop(); }
                }
                rng.shuffle(&mut h);
            }
            let e = eval(&w.ev, &w.c(&h));
            let Ok(Ok(e)) = e else { return c.viol(format!("evaluate({}) gave {e:?}", cards_str(&h))) };
            let got = guard(|| (e.to_string(), e.class().to_string(), format!("{e:#}"), format!("[{e}] {}", e.class())));
            if got != Ok((want.clone(), want.clone(), want.clone(), format!("[{want}] {want}"))) {
                return c.viol(format!("{} prints (evaluation, class, ..) {got:?}, expected {want:?}", cards_str(&h)));
            }
            let dbg = guard(|| format!("{e:?} {e:#?}"));
            if dbg.is_err() { return c.viol(format!("debug output of an evaluation: {dbg:?}")) }
            c.add(if h.len() > 5 { "texts_6_or_more" } else { "texts_5" }, 1);
        }
        c.add("evaluations", rounds);
        c.add("strengths", 1);
        if i % 2500 == 7 { c.sample("name", || want.clone()) }
    });
    for (k, want) in [(poker::Eval::BEST, "Royal flush"), (poker::Eval::WORST, "High card, seven")] {
        let got = guard(|| (k.to_string(), k.class().to_string()));
        if got != Ok((want.into(), want.into())) { c.viol(format!("constant {k:?} prints {got:?}, expected {want:?}")) }
    }
    let (ev, cl) = (w.reps.clone(), all_classes());
    let names: Vec<String> = ev.iter().map(|x| format!("{x:?}")).chain(cl.iter().map(|x| format!("{:?}", x.1))).collect();
    let f: places::Facts = std::sync::Arc::new(move || ev.iter().map(places::text).chain(cl.iter().map(|x| places::text(&x.1))).collect());
    places::everywhere(c, "texts", f, |i| format!("the text of {}", names[i]));
    c.distinct_n(7462 + 429);
    c.min("strengths", 7462);
    c.min("classes", 429);
    c.min("texts_6_or_more", 2000);
}

const FIXED: &str = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: ";
const SIZE: &str = "Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: ";

/// Judges a not-unique message for these cards; the order of the names is free but must be repeatable.
pub fn bad_dup_message(ids: &[u8], msg: &str) -> Option<String> {
    let Some(rest) = msg.strip_prefix(FIXED) else { return Some("the fixed sentence is not there".into()) };
    let mut dups: Vec<String> = (0..52u8).filter(|x| ids.iter().filter(|y| *y == x).count() > 1).map(card_str).collect();
    let mut got: Vec<String> = if rest.is_empty() { vec![] } else { rest.split(' ').map(String::from).collect() };
    got.sort();
    dups.sort();
    if got != dups { return Some(format!("names {got:?}, repeated are {dups:?}")) }
    None
}

pub fn evalerr(c: &Ctx) {
    let ev = match guard(Evaluator::new) {
        Ok(e) => e,
        Err(e) => return c.viol(format!("Evaluator::new(): {e}")),
    };
    let all: Vec<Card> = (0..52).map(mk).collect();
    let rounds = c.n(20_000_000u64, 1_000_000u64);
    let judge = |ids: &[u8], origin: &str, e: &EvalError| -> bool {
        let EvalError::CardsNotUnique(held) = e else {
            c.viol(format!("{} ({origin}) gave {e:?}", cards_str(ids)));
            return false;
        };
        if held.iter().map(|&x| no(x)).collect::<Vec<_>>() != ids {
            c.viol(format!("the error for {} holds {}", cards_str(ids), cards_txt(held)));
            return false;
        }
        let r = guard(|| {
            let first = e.to_string();
            let copy = e.clone();
            let again: Vec<String> = (0..3).map(|_| e.to_string()).chain([copy.to_string(), format!("{e}"), format!("{e:#}")]).collect();
            let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(copy.clone());
            (first.clone(), again.iter().all(|x| *x == first) && boxed.to_string() == first && copy == *e, format!("{e:?}").len())
        });
        let Ok((msg, same, _)) = r else {
            c.viol(format!("printing the error for {}: {r:?}", cards_str(ids)));
            return false;
        };
        if !same {
            c.viol(format!("the error for {} prints differently at different times: {msg}", cards_str(ids)));
            return false;
        }
        if let Some(m) = bad_dup_message(ids, &msg) {
            c.viol(format!("the error for {} ({origin}) prints {msg:?}: {m}", cards_str(ids)));
            return false;
        }
        true
    };
    c.par(64, |t| {
        let mut rng = Rng::fork(c.seed, t as u64);
        for _ in 0..rounds / 64 {
            let n = match rng.below(8) { 0 => 2 + rng.below(3), 1..=3 => 5 + rng.below(3), 4..=5 => 2 + rng.below(20), 6 => 20 + rng.below(90), _ => 2 + rng.below(8) };
            let pool = [1usize, 2, 4, 13, 52][rng.below(5)];
            let base = rng.deal(pool);
            let mut ids: Vec<u8> = (0..n).map(|_| *rng.pick(&base)).collect();
            let mut dups = (0..52u8).filter(|x| ids.iter().filter(|y| *y == x).count() > 1).count();
            if dups == 0 {
                let j = rng.below(n);
                let q = ids[(j + 1 + rng.below(n - 1)) % n];
                ids[j] = q;
                dups = 1;
            }
            let cards: Vec<Card> = ids.iter().map(|&x| all[x as usize]).collect();
            match eval(&ev, &cards) {
                Ok(Err(e)) => {
                    if !judge(&ids, "from evaluate", &e) { return }
                    // the same error made by hand, at other times
                    let again = EvalError::CardsNotUnique(cards.clone());
                    if guard(|| again.to_string()) != Ok(e.to_string()) || again != e {
                        return c.viol(format!("equal errors for {} print differently: {again} / {e}", cards_str(&ids)));
                    }
                }
                r => return c.viol(format!("evaluate({}) gave {r:?}", cards_str(&ids))),
            }
            c.add(&format!("lists_with_{:02}_repeated", dups.min(20)), 1);
            c.distinct(ids.iter().fold(n as u64, |a, &b| rng::mix(a ^ (b as u64 + 1))));
            if rng.below(40_000) == 0 { c.sample("message", || format!("{}", EvalError::CardsNotUnique(cards.clone()))) }
        }
        // an error made by hand may hold no repeated card at all
        for _ in 0..200 {
            let n = rng.below(20);
            let ids = rng.deal(n);
            if !judge(&ids, "made by hand", &EvalError::CardsNotUnique(mks(&ids))) { return }
        }
        c.add("made_by_hand", 200);
        c.add("evaluations", rounds / 64 * 6);
    });
    // all cards twice, in one order and its reverse, and long lists
    let mut all2: Vec<u8> = (0..52).chain((0..52).rev()).collect();
    judge(&all2, "made by hand", &EvalError::CardsNotUnique(mks(&all2)));
    for _ in 0..40 { all2.extend(0..52) }
    judge(&all2, "made by hand", &EvalError::CardsNotUnique(mks(&all2)));
    // one card very many times, alone and among others
    for times in [127usize, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1024, 32768, 65535, 65536, 65537, 131072] {
        for others in [0usize, 1, 3, 51] {
            let mut rng = Rng::fork(c.seed, (times * 64 + others) as u64);
            let kinds = rng.deal(others + 1);
            let mut ids = kinds.clone();
            ids.extend(std::iter::repeat_n(kinds[0], times - 1));
            if others > 1 { ids.push(kinds[1]) }
            if rng.below(2) == 0 { rng.shuffle(&mut ids) }
            match eval(&ev, &mks(&ids)) {
                Ok(Err(e)) => if !judge(&ids, "from evaluate", &e) { return },
                r => return c.viol(format!("evaluate of a list with {times} times {} gave {r:?}", card_str(kinds[0]))),
            }
            c.add("very_many_of_one_card", 1);
        }
    }
    // hand sizes
    for n in 0..5usize {
        for _ in 0..400 {
            let mut rng = Rng::fork(c.seed, 7 + n as u64);
            let ids = rng.deal(n);
            match eval(&ev, &mks(&ids)) {
                Ok(Err(e)) if e == EvalError::InvalidHandSize(n) && guard(|| e.to_string()) == Ok(format!("{SIZE}{n}")) => {}
                r => return c.viol(format!("evaluate({}) gave {r:?}: {:?}", cards_str(&ids), r.as_ref().map(|x| x.as_ref().err().map(|e| e.to_string())))),
            }
            c.add("short_hands", 1);
        }
    }
    for n in [0usize, 1, 4, 5, 6, 52, 255, 256, 65536, u32::MAX as usize, usize::MAX, usize::MAX - 1] {
        let e = EvalError::InvalidHandSize(n);
        let got = guard(|| (e.to_string(), e.clone() == e));
        if got != Ok((format!("{SIZE}{n}"), true)) { c.viol(format!("hand size {n} prints {got:?}")) }
    }
    if guard(|| EvalError::InvalidHandSize(3) == EvalError::InvalidHandSize(4) || EvalError::InvalidHandSize(0) == EvalError::CardsNotUnique(vec![])) != Ok(false) {
        c.viol("different errors compare equal");
    }
    let mut rng = Rng::fork(c.seed, 20);
    let errs: Vec<EvalError> = (0..200).map(|i| {
        let n = 2 + rng.below(12);
        let pool = rng.deal(1 + i % 6);
        EvalError::CardsNotUnique((0..n).map(|_| mk(*rng.pick(&pool))).collect())
    }).chain((0..6).map(EvalError::InvalidHandSize)).collect();
    let names: Vec<String> = errs.iter().map(|x| format!("{x:?}")).collect();
    let f: places::Facts = std::sync::Arc::new(move || {
        let ev = Evaluator::new();
        errs.iter().map(places::text).chain(errs.iter().map(|e| match e {
            EvalError::CardsNotUnique(x) => match ev.evaluate(x) { Err(e) => places::text(&e), Ok(_) => 1 },
            EvalError::InvalidHandSize(n) => match ev.evaluate(mks(&(0..*n as u8).collect::<Vec<_>>())) { Err(e) => places::text(&e), Ok(_) => 1 },
        })).collect()
    });
    let k = names.len();
    places::everywhere(c, "errors", f, |i| format!("the text of {}", names[i % k]));
    c.min("lists_with_02_repeated", 1000);
    c.min("lists_with_04_repeated", 1000);
    c.min("short_hands", 2000);
}

/// What must be the same in every process (and, for decks from the default source, must not be).
pub fn consts(c: &Ctx) {
    let d = guard(|| poker::deck::generate().collect::<Vec<_>>());
    match d {
        Ok(d) => println!("CONST deck {}", cards_txt(&d)),
        Err(m) => return c.viol(m),
    }
    // a fixed workload, whatever the seed
    let mut rng = Rng::new(0xC0);
    let ev = match guard(Evaluator::new) { Ok(e) => e, Err(m) => return c.viol(m) };
    let mut n = 0;
    for k in 0..400 {
        let len = 2 + rng.below(12);
        let h: Vec<u8> = (0..len).map(|_| rng.below(9 + k % 43) as u8).collect();
        match ctx::eval(&ev, &mks(&h)) {
            Ok(Err(e)) => match guard(|| (e.to_string(), format!("{e:?}"))) {
                Ok((t, d)) => {
                    if k < 12 { println!("CONST message_{k} {} {d}", t.replace('\n', "\\n")) }
                    n = rng::mix(t.bytes().chain(d.bytes()).fold(n, |a, b| rng::mix(a ^ (b as u64 + 1))));
                }
                Err(m) => return c.viol(m),
            },
            Ok(Ok(e)) => n = rng::mix(e.to_string().bytes().fold(n, |a, b| rng::mix(a ^ (b as u64 + 1)))),
            Err(m) => return c.viol(m),
        }
    }
    println!("CONST messages {n:016x}");
    #[cfg(feature = "shuffle")]
    match guard(poker::deck::shuffled) {
        Ok(d) => println!("UNIQ firstdeck {}", cards_txt(&d)),
        Err(m) => return c.viol(m),
    }
    // and the first decks of threads that were never there at the same time
    #[cfg(feature = "shuffle")]
    for t in 0..3 {
        match std::thread::spawn(|| guard(poker::deck::shuffled)).join() {
            Ok(Ok(d)) => println!("UNIQ thread{t} {}", cards_txt(&d)),
            x => return c.viol(format!("shuffled() in a new thread: {x:?}")),
        }
    }
    c.add("evaluations", 404);
    c.add("processes", 1);
    c.distinct_n(1);
}
