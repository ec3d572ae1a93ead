//! Makes OUT_DIR/codegen.rs, the table of the static evaluator.
//! VS_TABLE=code   from the tables of the crate itself, as the upstream table was bootstrapped
//! VS_TABLE=rules  from the rules of poker alone, as a stand-in for the published table (which cannot be downloaded here)
use std::{collections::BTreeMap, env, fmt::Write, fs, path::PathBuf};

type Table = BTreeMap<i32, String>;

fn from_code() -> (Table, Table) {
    let t = poker::evaluate::lookup_table::LookupTable::new();
    let f = t.flush_lookup.iter().map(|(k, v)| (*k, format!("{v:?}"))).collect();
    let u = t.unsuited_lookup.iter().map(|(k, v)| (*k, format!("{v:?}"))).collect();
    (f, u)
}

fn from_rules() -> (Table, Table) {
    const P: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
    const N: [&str; 13] = ["Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Jack", "Queen", "King", "Ace"];
    // (category, tie-breaking ranks) of every multiset of five ranks
    let mut hands: Vec<([usize; 6], bool, [usize; 5])> = vec![];
    for a in 0..13 { for b in 0..=a { for c in 0..=b { for d in 0..=c { for e in 0..=d {
        let r = [a, b, c, d, e];
        if a == e { continue }
        let mut groups: Vec<(usize, usize)> = (0..13).rev().map(|x| (r.iter().filter(|&&y| y == x).count(), x)).filter(|g| g.0 > 0).collect();
        groups.sort_by(|x, y| y.cmp(x));
        let straight = groups.len() == 5 && (a - e == 4 || r == [12, 3, 2, 1, 0]);
        let top = if r == [12, 3, 2, 1, 0] { 3 } else { a };
        for suited in [false, true] {
            if suited && groups.len() < 5 { continue }
            let cat = match (groups[0].0, groups.len(), straight, suited) {
                (_, _, true, true) => 8,
                (4, ..) => 7,
                (3, 2, ..) => 6,
                (_, _, false, true) => 5,
                (_, _, true, false) => 4,
                (3, ..) => 3,
                (2, 3, ..) => 2,
                (2, ..) => 1,
                _ => 0,
            };
            let mut key = [cat, 0, 0, 0, 0, 0];
            if straight { key[1] = top } else { for (i, g) in groups.iter().enumerate() { key[i + 1] = g.1 } }
            hands.push((key, suited, r));
        }
    }}}}}
    hands.sort();
    hands.reverse();
    assert_eq!(hands.len(), 7462);
    let (mut f, mut u) = (Table::new(), Table::new());
    for (i, (k, suited, r)) in hands.iter().enumerate() {
        let h = format!("hand_rank: PokerHandRank({})", i + 1);
        let (x, y) = (N[k[1]], N[k[2]]);
        let m = match k[0] {
            0 => format!("HighCard {{ {h}, high_rank: {x} }}"),
            1 => format!("Pair {{ {h}, pair: {x} }}"),
            2 => format!("TwoPair {{ {h}, high_pair: {x}, low_pair: {y} }}"),
            3 => format!("ThreeOfAKind {{ {h}, trips: {x} }}"),
            4 => format!("Straight {{ {h}, high_rank: {x} }}"),
            5 => format!("Flush {{ {h}, high_rank: {x} }}"),
            6 => format!("FullHouse {{ {h}, trips: {x}, pair: {y} }}"),
            7 => format!("FourOfAKind {{ {h}, quads: {x} }}"),
            _ => format!("StraightFlush {{ {h}, high_rank: {x} }}"),
        };
        let key = r.iter().map(|&x| P[x]).product::<i32>();
        if *suited { f.insert(key, m); } else { u.insert(key, m); }
    }
    (f, u)
}

fn main() {
    println!("cargo:rerun-if-env-changed=VS_TABLE");
    println!("cargo:rerun-if-changed=build.rs");
    let (f, u) = if env::var("VS_TABLE").as_deref() == Ok("rules") { from_rules() } else { from_code() };
    let mut out = String::new();
    let open = "{ use crate::evaluate::meta::Meta::*; use crate::evaluate::hand_rank::PokerHandRank; use crate::card::rank::Rank::*; ";
    for (name, t) in [("FLUSH_LOOKUP", f), ("UNSUITED_LOOKUP", u)] {
        let mut m = phf_codegen::Map::new();
        for (k, v) in t { m.entry(k, &v); }
        writeln!(out, "#[allow(unused_imports)] pub static {name}: ::phf::Map<i32, crate::evaluate::meta::Meta> = {open}{} }};", m.build()).unwrap();
    }
    fs::write(PathBuf::from(env::var("OUT_DIR").unwrap()).join("codegen.rs"), out).unwrap();
}
