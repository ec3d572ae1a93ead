"""C13: a crate that writes cards in every way the macros offer, made anew for each seed. Every expected value is the
documented encoding, worked out here."""
import os, random
import core
from rules import RANKS, SUITS, text

R = "Two Three Four Five Six Seven Eight Nine Ten Jack Queen King Ace".split()
S = "Clubs Diamonds Hearts Spades".split()
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
FLAG = [0x8000, 0x4000, 0x2000, 0x1000]


def code(c):
    r, s = c
    return 1 << (16 + r) | FLAG[s] | r << 8 | PRIMES[r]


def idf(c, of):
    return f"{R[c[0]]} of {S[c[1]]}" if of else f"{R[c[0]]}, {S[c[1]]}"


def lst(cs, of, trail):
    sep = ", " if of else "; "
    return sep.join(idf(c, of) for c in cs) + (sep.strip() if trail else "")


def arr(cs):
    return "[" + ", ".join(str(code(c)) for c in cs) + "]"


HEAD = '''#![allow(unused, clippy::all)]
fn ints(c: &[poker::Card]) -> Vec<i32> { c.iter().map(|c| c.unique_integer()).collect() }
struct T { n: u64, bad: u64 }
impl T {
    fn ck(&mut self, what: &str, got: Vec<i32>, want: &[i32]) {
        self.n += 1;
        if got != want { self.bad += 1; if self.bad < 10 { println!("VIOL {what} gives {got:x?}, expected {want:x?}") } }
    }
    fn res(&mut self, what: &str, got: Result<Vec<poker::Card>, poker::ParseCardError>, want: &[i32]) {
        match got { Ok(v) => self.ck(what, ints(&v), want), Err(e) => { self.n += 1; self.bad += 1; println!("VIOL {what} fails: {e}") } }
    }
}
'''


def make(seed, thorough):
    rnd = random.Random(seed)
    all_ = [(r, s) for r in range(13) for s in range(4)]
    fns, n = [], 0

    def fn(body):
        nonlocal n
        fns.append(f"fn f{n}(t: &mut T) {{\n{body}}}\n")
        n += 1

    q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    for c in all_:
        w, a, b = text(c), idf(c, False), idf(c, True)
        x = f"[{code(c)}]"
        fn(f'''    const A: poker::Card = poker::card!({a});
    const B: poker::Card = poker::card!({b});
    static C: poker::Card = poker::card!({b});
    const D: [poker::Card; 1] = poker::cards!({a});
    const E: [poker::Card; 1] = poker::cards!({b});
    const F: [poker::Card; 1] = poker::cards!({a};);
    static G: [poker::Card; 1] = poker::cards!({b},);
    const H: poker::Card = poker::Card::new(poker::Rank::{R[c[0]]}, poker::Suit::{S[c[1]]});
    const fn k() -> poker::Card {{ poker::card!({a}) }}
    const K: poker::Card = k();
    t.ck("card!({a}) as a constant", ints(&[A]), &{x});
    t.ck("card!({b}) as a constant", ints(&[B]), &{x});
    t.ck("card!({b}) as a static", ints(&[C]), &{x});
    t.ck("cards!({a}) as a constant", ints(&D), &{x});
    t.ck("cards!({b}) as a constant", ints(&E), &{x});
    t.ck("cards!({a};) as a constant", ints(&F), &{x});
    t.ck("cards!({b},) as a static", ints(&G), &{x});
    t.ck("Card::new as a constant", ints(&[H]), &{x});
    t.ck("card!({a}) in a constant function", ints(&[K]), &{x});
    t.ck("card!({a})", ints(&[poker::card!({a})]), &{x});
    t.ck("card!({b})", ints(&[poker::card!({b})]), &{x});
    t.res("card!({w:s}) of a text", poker::card!({q(w)}).map(|x| vec![x]), &{x});
    let s = String::from({q(w)});
    t.res("card!({w}) of a String", poker::card!(s).map(|x| vec![x]), &{x});
    t.res("card!({w}) of a text expression", poker::card!(s.as_str()).map(|x| vec![x]), &{x});
    t.res("try_from_chars {w}", poker::Card::try_from_chars('{w[0]}', '{w[1]}').map(|x| vec![x]), &{x});
    t.res("parse {w}", {q(w)}.parse::<poker::Card>().map(|x| vec![x]), &{x});
    t.ck("equality of the constants of {w}", vec![(A == B && B == H && C == H && k() == K) as i32], &[1]);
''')
    # lists of every length, with repeats
    total = 260 if thorough else 90
    for i in range(total):
        k = rnd.choice([1, 2, 2, 3, 4, 5, 5, 6, 7, 9, 13, 26, 52]) if i > 10 else [1, 2, 3, 4, 5, 6, 7, 52, 60, 300, 301][i]
        cs = [rnd.choice(all_) for _ in range(k)] if k > 52 or rnd.random() < .4 else rnd.sample(all_, k)
        of, tr = rnd.random() < .5, rnd.random() < .5
        m = lst(cs, of, tr)
        body = f'''    const A: [poker::Card; {k}] = poker::cards!({m});
    t.ck("a constant cards!(..) of {k}", ints(&A), &{arr(cs)});
    let v = poker::cards!{rnd.choice(["({})", "[{}]", "{{{}}}"]).format(lst(cs, not of, not tr))};
    t.ck("cards!(..) of {k}", ints(&v), &{arr(cs)});
'''
        ts = [text(c) for c in cs]
        if k > 1:
            body += f'    t.res("cards!(texts) of {k}", poker::cards!({", ".join(map(q, ts))}{"," if tr else ""}).try_collect(), &{arr(cs)});\n'
            body += f'    let s = [{", ".join(q(x) + ".to_string()" for x in ts[:2])}];\n    t.res("cards!(Strings)", poker::cards!(&s[0], &s[1]).try_collect(), &{arr(cs[:2])});\n'
        sep = lambda: rnd.choice([" ", "  ", "\\t", "\\n", " \\r\\n", "\\u{2003}"])
        joined = "".join(sep() + x for x in ts) + rnd.choice(["", " ", "\\n"])
        body += f'    t.res("cards!(one text) of {k}", poker::cards!("{joined}").try_collect(), &{arr(cs)});\n'
        body += f'    t.res("cards!(text expression) of {k}", poker::cards!(format!("{{}} {{}}", "{joined}", "")).try_collect(), &{arr(cs)});\n'
        parts, rest = [], cs[:]
        while len(parts) < 2 or (rest and len(parts) < 8):
            j = rnd.randint(0, len(rest)) if len(parts) < 7 else len(rest)
            parts.append(rest[:j])
            rest = rest[j:]
        parts.append(rest)
        names = []
        for j, p in enumerate(parts):
            kind = rnd.randint(0, 3)
            if not p:
                body += f"    let p{j}: Vec<poker::Card> = Vec::new();\n"
            elif kind == 0:
                body += f"    let p{j} = poker::cards!({lst(p, True, False)});\n"
            elif kind == 1:
                body += f"    let p{j}: &[poker::Card] = &poker::cards!({lst(p, False, False)});\n"
            elif kind == 2:
                body += f"    let p{j}: Box<[poker::Card]> = Box::new(poker::cards!({lst(p, True, True)}));\n"
            else:
                body += f"    const P{j}: [poker::Card; {len(p)}] = poker::cards!({lst(p, False, True)});\n    let p{j} = P{j}.to_vec();\n"
            names.append(rnd.choice([f"p{j}", f"&p{j}", f"p{j}[..]", f"{{ &p{j} }}"]) if j else f"p{j}")
        body += f'    let b: Box<[poker::Card]> = poker::box_cards!({", ".join(names)}{"," if tr else ""});\n    t.ck("box_cards!(..) of {len(parts)} slices", ints(&b), &{arr(cs)});\n'
        fn(body)
    parts = [rnd.choice(["a", "e", "&THREE[1..]", "a[..1]", "THREE", "[THREE[2]]", "a.to_vec()"]) for _ in range(60)]
    parts[0] = "a"
    holds = {"a": [0, 1, 2], "e": [], "&THREE[1..]": [1, 2], "a[..1]": [0], "THREE": [0, 1, 2], "[THREE[2]]": [2], "a.to_vec()": [0, 1, 2]}
    three = [code((12, 3)), code((0, 0)), code((1, 2))]
    many, many_ints = ", ".join(parts), str([three[j] for x in parts for j in holds[x]])
    # inside a scope whose own names are those of the library, with use, and nested
    fn(f'''    #[derive(Debug)] struct Card; #[derive(Debug)] enum Rank {{ Ace }} #[derive(Debug)] enum Suit {{ Spades }}
    let card = 1; let cards = 2; let rank = 3;
    t.ck("card! next to other things of these names", ints(&[poker::card!(Ace of Spades), poker::card!(Ace, Spades)]), &[{code((12, 3))}, {code((12, 3))}]);
    t.ck("cards! next to other things of these names", ints(&poker::cards!(Ace of Spades, Two of Clubs)), &[{code((12, 3))}, {code((0, 0))}]);
    t.res("card!(text) next to other things of these names", poker::card!("Td").map(|x| vec![x]), &[{code((8, 1))}]);
    t.res("cards!(texts) next to other things of these names", poker::cards!("Td", "2c").try_collect(), &[{code((8, 1))}, {code((0, 0))}]);
''')
    fn(f'''    use poker::{{box_cards, card, cards, Card, Rank, Suit}};
    let mut k = 0;
    let mut next = || {{ k += 1; ["As", "Kd", "2c", "3h", "4h", "5h", "6h"][(k - 1) % 7] }};
    t.res("cards! of expressions looked at in order and once", cards!(next(), next(), next()).try_collect(), &[{code((12, 3))}, {code((11, 1))}, {code((0, 0))}]);
    let mut m = 0;
    const THREE: [Card; 3] = [card!(Ace of Spades), card!(Two of Clubs), card!(Three of Hearts)];
    let mut slice = || {{ m += 1; &THREE[(m - 1) % 3..(m - 1) % 3 + 1] }};
    t.ck("box_cards! of expressions looked at in order and once", ints(&box_cards!(slice().to_vec(), slice().to_vec(), slice().to_vec())), &[{code((12, 3))}, {code((0, 0))}, {code((1, 2))}]);
    t.ck("how often 3 arguments of cards! and 3 of box_cards! were looked at", vec![k as i32, m as i32], &[3, 3]);
    let (mut k, mut m) = (0, 0);
    let mut one = || {{ k += 1; ["As", "Kd"][(k - 1) % 2] }};
    let mut line = || {{ m += 1; ["As Kd", "2c"][(m - 1) % 2] }};
    t.res("card! of an expression looked at once", card!(one()).map(|x| vec![x]), &[{code((12, 3))}]);
    t.res("cards! of one expression looked at once", cards!(line()).try_collect(), &[{code((12, 3))}, {code((11, 1))}]);
    t.ck("how often the argument of card! and the only one of cards! were looked at", vec![k as i32, m as i32], &[1, 1]);
    let mut hands: Vec<Vec<Card>> = (0..4).map(|i| THREE[i % 3..].to_vec()).collect();
    t.ck("box_cards! of hands taken away", ints(&box_cards!(hands.pop().unwrap_or_default(), hands.pop().unwrap_or_default(), hands.pop().unwrap_or_default())), &[{code((12, 3))}, {code((0, 0))}, {code((1, 2))}, {code((1, 2))}, {code((0, 0))}, {code((1, 2))}]);
    t.ck("what is left of the hands", vec![hands.len() as i32], &[1]);
    t.ck("nested box_cards!", ints(&box_cards!(box_cards!(cards!(Ace, Spades), cards!(Two, Clubs)), cards!(Three of Hearts))), &[{code((12, 3))}, {code((0, 0))}, {code((1, 2))}]);
    match card!("1s") {{ Err(poker::ParseCardError::InvalidRank {{ ref original_input, incorrect_char: '1' }}) if original_input == "1s" => {{}} x => t.ck(&format!("card!(\\"1s\\") {{x:?}}"), vec![], &[1]) }}
    let r: Vec<bool> = cards!("As xx Kd").map(|x| x.is_ok()).collect();
    t.ck("cards! with a bad text", r.iter().map(|&x| x as i32).collect(), &[1, 0, 1]);
    let r: Vec<bool> = cards!("As", "xx", "Kd").map(|x| x.is_ok()).collect();
    t.ck("cards! with a bad text", r.iter().map(|&x| x as i32).collect(), &[1, 0, 1]);
    let (a, e): (&[Card], &[Card]) = (&THREE, &[]);
    t.ck("box_cards! of 60 slices", ints(&box_cards!({many})), &{many_ints});
    let pats = match card!(Nine of Hearts) {{ x if x == card!(Nine, Hearts) => 1, _ => 0 }};
    t.ck("a guard", vec![pats], &[1]);
''')
    main = "fn main() {\n    let mut t = T { n: 0, bad: 0 };\n" + "".join(f"    f{i}(&mut t);\n" for i in range(n)) + \
        '    println!("SAMPLE forms: const A: Card = card!(Ace of Spades); cards!(King, Hearts; Queen, Hearts;); cards!(\\"As\\", \\"Kd\\",); box_cards!(a, &b[..], c)");\n' \
        '    println!("STAT evaluations {}", t.n);\n    println!("STAT expressions {}", t.n);\n    println!("STAT distinct {}", t.n);\n    println!("STAT violations {}", t.bad);\n    println!("DONE");\n}\n'
    d = os.path.join(core.BUILD, "formsrc")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "forms"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[workspace]\n\n[dependencies]\npoker = { path = "/repo", default-features = false }\n')
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(HEAD + "".join(fns) + main)
    return n
