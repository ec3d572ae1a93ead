#[cfg(feature = "shuffle")]
pub mod rngs;
pub mod ctx;
pub mod ev;
pub mod hands;
pub mod oracle;
pub mod rng;

use oracle::*;
pub use ev::Evaluator;
use poker::{Card, Eval, EvalClass, Rank, Suit};

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine, Rank::Ten, Rank::Jack,
    Rank::Queen, Rank::King, Rank::Ace,
];
pub const SUITS: [Suit; 4] = [Suit::Clubs, Suit::Diamonds, Suit::Hearts, Suit::Spades];

pub fn rank_no(r: Rank) -> u8 {
    match r {
        Rank::Two => 0,
        Rank::Three => 1,
        Rank::Four => 2,
        Rank::Five => 3,
        Rank::Six => 4,
        Rank::Seven => 5,
        Rank::Eight => 6,
        Rank::Nine => 7,
        Rank::Ten => 8,
        Rank::Jack => 9,
        Rank::Queen => 10,
        Rank::King => 11,
        Rank::Ace => 12,
    }
}
pub fn suit_no(s: Suit) -> u8 {
    match s {
        Suit::Clubs => 0,
        Suit::Diamonds => 1,
        Suit::Hearts => 2,
        Suit::Spades => 3,
    }
}
/// Card number of a library card, by its rank and suit.
pub fn no(c: Card) -> u8 { rank_no(c.rank()) * 4 + suit_no(c.suit()) }

pub fn mk(c: u8) -> Card { Card::new(RANKS[rank_of(c) as usize], SUITS[suit_of(c) as usize]) }
pub fn mks(c: &[u8]) -> Vec<Card> { c.iter().map(|&x| mk(x)).collect() }
pub fn cards_txt(c: &[Card]) -> String {
    c.iter().map(|&c| card_str(no(c))).collect::<Vec<_>>().join(" ")
}

pub fn class_of(cat: u32, a: u8, b: u8) -> EvalClass {
    let (x, y) = (RANKS[a as usize], RANKS[b as usize]);
    match cat {
        HIGH => EvalClass::HighCard { high_rank: x },
        PAIR => EvalClass::Pair { pair: x },
        TWO_PAIR => EvalClass::TwoPair { first_pair: x, second_pair: y },
        TRIPS => EvalClass::ThreeOfAKind { trips: x },
        STRAIGHT => EvalClass::Straight { high_rank: x },
        FLUSH => EvalClass::Flush { high_rank: x },
        FULL => EvalClass::FullHouse { trips: x, pair: y },
        QUADS => EvalClass::FourOfAKind { quads: x },
        _ => EvalClass::StraightFlush { high_rank: x },
    }
}
pub fn key_class(k: u32) -> EvalClass { class_of(category(k), tie(k, 0), tie(k, 1)) }

/// Structural comparison of classes that does not use the library's PartialEq.
pub fn class_code(c: EvalClass) -> u32 {
    let f = |cat: u32, a: Rank, b: u8| cat << 8 | (rank_no(a) as u32) << 4 | b as u32;
    match c {
        EvalClass::HighCard { high_rank } => f(HIGH, high_rank, 0),
        EvalClass::Pair { pair } => f(PAIR, pair, 0),
        EvalClass::TwoPair { first_pair, second_pair } => f(TWO_PAIR, first_pair, rank_no(second_pair)),
        EvalClass::ThreeOfAKind { trips } => f(TRIPS, trips, 0),
        EvalClass::Straight { high_rank } => f(STRAIGHT, high_rank, 0),
        EvalClass::Flush { high_rank } => f(FLUSH, high_rank, 0),
        EvalClass::FullHouse { trips, pair } => f(FULL, trips, rank_no(pair)),
        EvalClass::FourOfAKind { quads } => f(QUADS, quads, 0),
        EvalClass::StraightFlush { high_rank } => f(STRAIGHT_FLUSH, high_rank, 0),
    }
}
pub fn key_code(k: u32) -> u32 {
    let c = category(k);
    c << 8 | (tie(k, 0) as u32) << 4 | if c == TWO_PAIR || c == FULL { tie(k, 1) as u32 } else { 0 }
}

/// Shared set-up of the evaluation monitors.
pub struct World {
    pub o: Oracle,
    pub cards: Vec<Card>,
    pub ev: Evaluator,
    /// One evaluation per strength, by ordinal-1.
    pub reps: Vec<Eval>,
    pub rep_hands: Vec<[u8; 5]>,
}

impl World {
    /// Err: (is_violation, message)
    pub fn new(full_check: bool) -> Result<(Self, u64), (bool, String)> {
        let o = Oracle::new();
        let n = o.self_check(full_check).map_err(|e| (false, format!("oracle self-check failed: {e}")))?;
        let cards: Vec<Card> = (0..52).map(mk).collect();
        let ev = ctx::guard(Evaluator::new).map_err(|e| (true, format!("Evaluator::new(): {e}")))?;
        let mut reps = vec![];
        let mut rep_hands = vec![];
        for p in &o.patterns {
            let h = hands::canonical(p);
            let hc = h.map(|c| cards[c as usize]);
            match ctx::eval(&ev, &hc) {
                Ok(Ok(e)) => reps.push(e),
                x => return Err((true, format!("evaluate({}) gave {x:?}", cards_str(&h)))),
            }
            rep_hands.push(h);
        }
        Ok((World { o, cards, ev, reps, rep_hands }, n))
    }
    pub fn c(&self, h: &[u8]) -> Vec<Card> { h.iter().map(|&c| self.cards[c as usize]).collect() }
    pub fn ord(&self, h: &[u8]) -> u16 { self.o.ord(self.o.best(h)) }
    pub fn rep(&self, ord: u16) -> Eval { self.reps[ord as usize - 1] }
    /// Full judgement of one result for a valid hand. None = as it should be.
    pub fn judge(&self, h: &[u8], got: &Result<Result<Eval, poker::EvalError>, String>) -> Option<String> {
        let k = self.o.best(h);
        let want = self.rep(self.o.ord(k));
        match got {
            Ok(Ok(e)) if *e == want && class_code(e.class()) == key_code(k) => None,
            Ok(Ok(e)) => Some(format!(
                "evaluate({}) gave {e:?} ({e}), the rules say {} as for {}",
                cards_str(h),
                key_name(k),
                cards_str(&self.rep_hands[self.o.ord(k) as usize - 1])
            )),
            x => Some(format!("evaluate({}) gave {x:?}", cards_str(h))),
        }
    }
}
