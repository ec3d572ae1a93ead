//! The rules of poker, written without looking at the library under test.
//!
//! A card is a number 0..52: rank * 4 + suit, rank 0 = two .. 12 = ace, suit 0 clubs, 1 diamonds, 2 hearts, 3 spades.
//! The value of a hand is a key that compares like a showdown: category in bits 20.., then up to five tie-breaking ranks,
//! four bits each, most significant first.

pub const HIGH: u32 = 0;
pub const PAIR: u32 = 1;
pub const TWO_PAIR: u32 = 2;
pub const TRIPS: u32 = 3;
pub const STRAIGHT: u32 = 4;
pub const FLUSH: u32 = 5;
pub const FULL: u32 = 6;
pub const QUADS: u32 = 7;
pub const STRAIGHT_FLUSH: u32 = 8;
pub const CAT_NAMES: [&str; 9] = [
    "high_card", "pair", "two_pair", "three_of_a_kind", "straight", "flush", "full_house", "four_of_a_kind", "straight_flush",
];

pub fn rank_of(c: u8) -> u8 { c / 4 }
pub fn suit_of(c: u8) -> u8 { c % 4 }

fn key(cat: u32, tie: &[u8]) -> u32 {
    let mut k = cat << 20;
    for (i, &r) in tie.iter().enumerate() {
        k |= (r as u32) << (16 - 4 * i);
    }
    k
}

pub fn category(key: u32) -> u32 { key >> 20 }
pub fn tie(key: u32, i: u32) -> u8 { ((key >> (16 - 4 * i)) & 15) as u8 }

/// Textbook classification of exactly five cards given as (rank, is every card of one suit).
pub fn classify(mut r: [u8; 5], one_suit: bool) -> u32 {
    // sort high to low
    for i in 1..5 {
        let mut j = i;
        while j > 0 && r[j - 1] < r[j] {
            r.swap(j - 1, j);
            j -= 1;
        }
    }
    // groups of equal ranks: (count, rank), biggest count first, then highest rank
    let mut groups: [(u8, u8); 5] = [(0, 0); 5];
    let mut n = 0;
    let mut i = 0;
    while i < 5 {
        let mut j = i;
        while j < 5 && r[j] == r[i] {
            j += 1;
        }
        groups[n] = ((j - i) as u8, r[i]);
        n += 1;
        i = j;
    }
    let g = &mut groups[..n];
    for i in 1..n {
        let mut j = i;
        while j > 0 && g[j - 1] < g[j] {
            g.swap(j - 1, j);
            j -= 1;
        }
    }
    if n == 5 {
        let straight_top = if r[0] - r[4] == 4 {
            Some(r[0])
        } else if r == [12, 3, 2, 1, 0] {
            Some(3) // A-2-3-4-5 is five-high
        } else {
            None
        };
        return match (straight_top, one_suit) {
            (Some(t), true) => key(STRAIGHT_FLUSH, &[t]),
            (Some(t), false) => key(STRAIGHT, &[t]),
            (None, true) => key(FLUSH, &r),
            (None, false) => key(HIGH, &r),
        };
    }
    let ranks: Vec5 = Vec5::from(g);
    let cat = match (g[0].0, g[1].0) {
        (4, 1) => QUADS,
        (3, 2) => FULL,
        (3, 1) => TRIPS,
        (2, 2) => TWO_PAIR,
        (2, 1) => PAIR,
        _ => unreachable!(),
    };
    key(cat, ranks.as_slice())
}

struct Vec5([u8; 5], usize);
impl Vec5 {
    fn from(g: &[(u8, u8)]) -> Self {
        let mut v = [0; 5];
        for (i, x) in g.iter().enumerate() {
            v[i] = x.1;
        }
        Vec5(v, g.len())
    }
    fn as_slice(&self) -> &[u8] { &self.0[..self.1] }
}

pub fn five(c: &[u8; 5]) -> u32 {
    let r = [rank_of(c[0]), rank_of(c[1]), rank_of(c[2]), rank_of(c[3]), rank_of(c[4])];
    let s = suit_of(c[0]);
    classify(r, c.iter().all(|&x| suit_of(x) == s))
}

/// Value of the best five of n >= 5 distinct cards given as a set, from histograms (no enumeration of subsets).
pub struct Oracle {
    straight_top: Vec<i8>, // by 13-bit rank mask; -1 none
    pub ordinal: Vec<u16>, // by key; 0 = not a key, 1 = weakest .. 7462 = strongest
    pub keys: Vec<u32>,    // by ordinal-1
    pub patterns: Vec<([u8; 5], bool)>, // by ordinal-1: ranks and one_suit
}

fn top_bits(mut m: u32, n: usize, out: &mut [u8]) {
    for o in out.iter_mut().take(n) {
        let b = 31 - m.leading_zeros();
        *o = b as u8;
        m &= !(1 << b);
    }
}

impl Oracle {
    pub fn new() -> Self {
        let mut straight_top = vec![-1i8; 8192];
        for (m, t) in straight_top.iter_mut().enumerate() {
            for top in (3..13u32).rev() {
                let need: usize = if top == 3 { 0b1_0000_0000_1111 } else { 0b11111 << (top - 4) };
                if m & need == need {
                    *t = top as i8;
                    break;
                }
            }
        }
        let mut pats: Vec<(u32, [u8; 5], bool)> = vec![];
        for a in 0..13u8 {
            for b in a..13 {
                for c in b..13 {
                    for d in c..13 {
                        for e in d..13 {
                            if a == e {
                                continue; // five of a kind does not exist
                            }
                            let r = [a, b, c, d, e];
                            pats.push((classify(r, false), r, false));
                            if a < b && b < c && c < d && d < e {
                                pats.push((classify(r, true), r, true));
                            }
                        }
                    }
                }
            }
        }
        pats.sort();
        let mut ordinal = vec![0u16; 9 << 20];
        let mut keys = vec![];
        let mut patterns = vec![];
        for (k, r, s) in pats {
            if keys.last() != Some(&k) {
                keys.push(k);
                patterns.push((r, s));
                ordinal[k as usize] = keys.len() as u16;
            } else {
                panic!("oracle: two patterns with one key");
            }
        }
        Oracle { straight_top, ordinal, keys, patterns }
    }

    pub fn ord(&self, key: u32) -> u16 { self.ordinal[key as usize] }

    pub fn best(&self, cards: &[u8]) -> u32 {
        let mut m = [0u32; 4];
        for &c in cards {
            m[suit_of(c) as usize] |= 1 << rank_of(c);
        }
        self.best_masks(m)
    }

    pub fn best_masks(&self, m: [u32; 4]) -> u32 {
        let any = m[0] | m[1] | m[2] | m[3];
        let mut sf = -1i8;
        let mut fl: u32 = 0;
        for x in m {
            if x.count_ones() >= 5 {
                sf = sf.max(self.straight_top[x as usize]);
                let mut t = [0u8; 5];
                top_bits(x, 5, &mut t);
                fl = fl.max(key(FLUSH, &t));
            }
        }
        if sf >= 0 {
            return key(STRAIGHT_FLUSH, &[sf as u8]);
        }
        // ranks held at least 2, 3, 4 times
        let (ab, cd) = (m[0] & m[1], m[2] & m[3]);
        let (ao, co) = (m[0] | m[1], m[2] | m[3]);
        let four = ab & cd;
        let three = (ab & co) | (cd & ao);
        let two = ab | cd | (ao & co);
        if four != 0 {
            let mut q = [0u8; 1];
            top_bits(four, 1, &mut q);
            let mut k = [0u8; 1];
            top_bits(any & !(1 << q[0]), 1, &mut k);
            return key(QUADS, &[q[0], k[0]]);
        }
        if three != 0 {
            let mut t = [0u8; 1];
            top_bits(three, 1, &mut t);
            let p = two & !(1 << t[0]);
            if p != 0 {
                let mut q = [0u8; 1];
                top_bits(p, 1, &mut q);
                return key(FULL, &[t[0], q[0]]);
            }
        }
        if fl != 0 {
            return fl;
        }
        let st = self.straight_top[any as usize];
        if st >= 0 {
            return key(STRAIGHT, &[st as u8]);
        }
        if three != 0 {
            let mut t = [0u8; 1];
            top_bits(three, 1, &mut t);
            let mut k = [0u8; 2];
            top_bits(any & !(1 << t[0]), 2, &mut k);
            return key(TRIPS, &[t[0], k[0], k[1]]);
        }
        if two.count_ones() >= 2 {
            let mut p = [0u8; 2];
            top_bits(two, 2, &mut p);
            let mut k = [0u8; 1];
            top_bits(any & !(1 << p[0]) & !(1 << p[1]), 1, &mut k);
            return key(TWO_PAIR, &[p[0], p[1], k[0]]);
        }
        if two != 0 {
            let mut p = [0u8; 1];
            top_bits(two, 1, &mut p);
            let mut k = [0u8; 3];
            top_bits(any & !(1 << p[0]), 3, &mut k);
            return key(PAIR, &[p[0], k[0], k[1], k[2]]);
        }
        let mut t = [0u8; 5];
        top_bits(any, 5, &mut t);
        key(HIGH, &t)
    }

    /// The oracle's own check: known frequencies, and agreement of the two evaluators. Err = the oracle is wrong.
    pub fn self_check(&self, full: bool) -> Result<u64, String> {
        if self.keys.len() != 7462 {
            return Err(format!("{} strengths instead of 7462", self.keys.len()));
        }
        let mut n = 0u64;
        if full {
            let want = [1302540u64, 1098240, 123552, 54912, 10200, 5108, 3744, 624, 40];
            let mut got = [0u64; 9];
            for a in 0..52u8 {
                for b in a + 1..52 {
                    for c in b + 1..52 {
                        for d in c + 1..52 {
                            for e in d + 1..52 {
                                let h = [a, b, c, d, e];
                                let k = five(&h);
                                got[category(k) as usize] += 1;
                                if k != self.best(&h) {
                                    return Err(format!("evaluators disagree on {h:?}"));
                                }
                                n += 1;
                            }
                        }
                    }
                }
            }
            if got != want {
                return Err(format!("frequencies {got:?}"));
            }
        }
        let mut rng = crate::rng::Rng::new(0x0DDC0FFEE);
        for i in 0..if full { 4000 } else { 500 } {
            let n_cards = 6 + i % 7;
            let cards = rng.deal(n_cards);
            let mut best = 0;
            crate::hands::combos5(n_cards, |ix| {
                let h = [cards[ix[0]], cards[ix[1]], cards[ix[2]], cards[ix[3]], cards[ix[4]]];
                best = best.max(five(&h));
            });
            if best != self.best(&cards) {
                return Err(format!("evaluators disagree on {cards:?}"));
            }
            n += 1;
        }
        Ok(n)
    }
}

pub const NAMES: [&str; 13] = [
    "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace",
];
pub const PLURALS: [&str; 13] = [
    "twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks", "queens", "kings", "aces",
];
pub const RANK_CHARS: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CHARS: [char; 4] = ['c', 'd', 'h', 's'];
pub const SUIT_SYMBOLS: [char; 4] = ['\u{2663}', '\u{2666}', '\u{2665}', '\u{2660}'];
pub const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];

/// English name for a category with its defining ranks.
pub fn name(cat: u32, a: u8, b: u8) -> String {
    let (n, p) = (NAMES[a as usize], PLURALS[a as usize]);
    let q = PLURALS[b as usize];
    match cat {
        HIGH => format!("High card, {n}"),
        PAIR => format!("Pair, {p}"),
        TWO_PAIR => format!("Two pair, {p} and {q}"),
        TRIPS => format!("Three of a kind, {p}"),
        STRAIGHT => format!("Straight, {n}-high"),
        FLUSH => format!("Flush, {n}-high"),
        FULL => format!("Full house, {p} over {q}"),
        QUADS => format!("Four of a kind, {p}"),
        STRAIGHT_FLUSH if a == 12 => "Royal flush".into(),
        STRAIGHT_FLUSH => format!("Straight flush, {n}-high"),
        _ => unreachable!(),
    }
}

pub fn key_name(k: u32) -> String { name(category(k), tie(k, 0), tie(k, 1)) }

pub fn card_str(c: u8) -> String {
    format!("{}{}", RANK_CHARS[rank_of(c) as usize], SUIT_CHARS[suit_of(c) as usize])
}
pub fn cards_str(c: &[u8]) -> String { c.iter().map(|&x| card_str(x)).collect::<Vec<_>>().join(" ") }
