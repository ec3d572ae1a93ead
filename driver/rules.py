"""The rules of poker in Python, for the transcripts of the example programs. Written from the rules, not from the code."""
from itertools import combinations

RANKS = "23456789TJQKA"
SUITS = "cdhs"
PRETTY = {"♣": "c", "♦": "d", "♥": "h", "♠": "s"}
NAME = "two three four five six seven eight nine ten jack queen king ace".split()
PLURAL = "twos threes fours fives sixes sevens eights nines tens jacks queens kings aces".split()
CATS = ["high card", "pair", "two pair", "three of a kind", "straight", "flush", "full house", "four of a kind", "straight flush"]
# White_Space of Unicode
WS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"


def split_ws(s):
    out, cur = [], ""
    for ch in s:
        if ch in WS:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur else out


def parse(t):
    """A card as (rank, suit), or the message."""
    e = f"Error parsing input '{t}' as a Card: "
    if len(t) != 2:
        return e + f"Found input of length {len(t)}, expected 2"
    if t[0] not in RANKS:
        return e + f"Invalid rank character '{t[0]}', expected one of [23456789TJQKA]"
    if t[1] not in SUITS:
        return e + f"Invalid suit character '{t[1]}', expected one of [chsd]"
    return RANKS.index(t[0]), SUITS.index(t[1])


def straight_top(ranks):
    r = set(ranks)
    for top in range(12, 3, -1):
        if all(top - i in r for i in range(5)):
            return top
    return 3 if {12, 0, 1, 2, 3} <= r else None


def best(cards):
    """(category, defining ranks...) of the best five of any number of different cards."""
    ranks = [r for r, _ in cards]
    cnt = {r: ranks.count(r) for r in set(ranks)}
    of = lambda n: sorted((r for r in cnt if cnt[r] >= n), reverse=True)
    flush = [sorted((r for r, s in cards if s == u), reverse=True) for u in range(4)]
    flush = [f for f in flush if len(f) >= 5]
    sf = [straight_top(f) for f in flush]
    sf = [t for t in sf if t is not None]
    if sf:
        return 8, max(sf)
    if of(4):
        return 7, of(4)[0]
    if of(3) and len(of(2)) > 1:
        t = of(3)[0]
        return 6, t, [r for r in of(2) if r != t][0]
    if flush:
        return 5, max(f[:5] for f in flush)[0]
    t = straight_top(ranks)
    if t is not None:
        return 4, t
    if of(3):
        return 3, of(3)[0]
    if len(of(2)) > 1:
        return 2, of(2)[0], of(2)[1]
    if of(2):
        return 1, of(2)[0]
    return 0, max(ranks)


def name(k):
    c = k[0]
    if c == 8 and k[1] == 12:
        return "Royal flush"
    return ["High card, {n}", "Pair, {p}", "Two pair, {p} and {q}", "Three of a kind, {p}", "Straight, {n}-high", "Flush, {n}-high",
            "Full house, {p} over {q}", "Four of a kind, {p}", "Straight flush, {n}-high"][c].format(
        n=NAME[k[1]], p=PLURAL[k[1]], q=PLURAL[k[2]] if len(k) > 2 else "")


DUP = "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: "
SHORT = "Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: "


def text(c):
    return RANKS[c[0]] + SUITS[c[1]]


def answer_ok(line, got):
    """Is `got` the answer of the prompt to `line`? None, or what it should be."""
    cards = []
    for t in split_ws(line):
        c = parse(t)
        if isinstance(c, str):
            return None if got == c else c
        cards.append(c)
    dups = {text(c) for c in cards if cards.count(c) > 1}
    if dups:
        if got.startswith(DUP):
            said = got[len(DUP):].split(" ")
            if sorted(said) == sorted(dups):
                return None
        return DUP + " ".join(sorted(dups)) + " (in any order)"
    if len(cards) < 5:
        return None if got == SHORT + str(len(cards)) else SHORT + str(len(cards))
    want = name(best(cards))
    return None if got == want else want


def self_check():
    """best() against the maximum over five-card subsets, with five cards classified by themselves; names of known hands."""
    import random
    rnd = random.Random(7)
    deck = [(r, s) for r in range(13) for s in range(4)]
    counts = [0] * 9
    for _ in range(300):
        h = rnd.sample(deck, rnd.choice([6, 7, 8, 9]))
        k = best(h)
        m = max(best(c) for c in combinations(h, 5))
        assert k == m, (h, k, m)
        counts[k[0]] += 1
    known = {"As Ks Qs Js Ts": "Royal flush", "5h 4h 3h 2h Ah": "Straight flush, five-high", "5h 4h 3h 2c Ah": "Straight, five-high", "Kh Qh 3h 2h Ah": "Flush, ace-high",
             "Jh Jc Js 4h 4d": "Full house, jacks over fours", "Kh Kc 4s 4h 2d": "Two pair, kings and fours", "Qh Kc Ad 2h 3s": "High card, ace"}
    for h, n in known.items():
        assert name(best([parse(t) for t in h.split()])) == n, h
    return 300 + len(known)
