"""C26 and C27: the example programs as real processes on pipes; their transcripts are judged line by line by a model."""
import os, random, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import core
from rules import *

CLEAN = ("CLICOLOR", "CLICOLOR_FORCE", "NO_COLOR", "LD_PRELOAD", "VH_RANDOM")


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in CLEAN}
    e["TERM"] = "xterm"
    e.update(extra or {})
    return e


def batch(path, data, extra=None, timeout=120):
    """Whole input at once. Returns (stdout, return code) or None if it did not end."""
    p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra), start_new_session=True)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    return out.decode("utf-8", "replace"), p.returncode, err.decode("utf-8", "replace")


class Live:
    """A process that is spoken to line by line."""

    def __init__(self, path, extra=None):
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra), start_new_session=True)
        self.late = threading.Timer(60, self.p.kill)
        self.killed = False
        self.late.start()

    def say(self, line):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def line(self):
        b = self.p.stdout.readline()
        return None if b == b"" else b.decode("utf-8", "replace").rstrip("\n")

    def end(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        rest = self.p.stdout.read().decode("utf-8", "replace")
        err = self.p.stderr.read().decode("utf-8", "replace")
        rc = self.p.wait()
        timed_out = not self.late.is_alive()
        self.late.cancel()
        return rest, rc, err, timed_out


# ---- the hand prompt

WELCOME = ['Welcome to the poker hand REPL!', 'For help, enter "help". To quit, enter "quit" or press CTRL+C.']
HELP = ["", "Enter a list of 5 or more space-separated cards to be evaluated as a hand.",
        "Cards are two character strings, where the first character represents", "the card rank, and the second character represents the card suit.", "",
        "Valid ranks: one of [23456789TJQKA]", "Valid suits: one of [chsd]", "", "Example: poker> Tc Jc Qc Kc Ac", ""]
DECK = [r + s for r in RANKS for s in SUITS]
ODD = "éß♠♥💥Ａｓ日本\u0301\u200d\ufeffİıſΩ\x00\x07\x1b\\'\"{}%"


def some_line(rnd):
    k = rnd.randrange(16)
    sep = lambda: rnd.choice([" "] * 8 + ["  ", "\t", "\u00a0", "\u2003", "\u3000", " \t "])
    if k < 6:
        n = rnd.choice([5, 5, 5, 6, 7, 7, 8, 9, 12])
        h = rnd.sample(DECK, n)
        if rnd.random() < .3:
            u = rnd.choice(SUITS)
            h = [r + u for r in rnd.sample(RANKS, min(n, 12))]
        elif rnd.random() < .3:
            a = rnd.randrange(9)
            h = [RANKS[a + i] + rnd.choice(SUITS) for i in range(5)] + h[5:]
            h = list(dict.fromkeys(h))
    elif k == 6:
        h = rnd.sample(DECK, rnd.randrange(5))
    elif k == 7:
        h = [rnd.choice(DECK) for _ in range(rnd.randrange(2, 14))]
        h += rnd.choices(h, k=rnd.randrange(1, 4))
    elif k == 8:
        h = rnd.sample(DECK, 6)
        h[rnd.randrange(6)] = rnd.choice(["10h", "1s", "aS", "As,", "as", "AS", "sA", "A", "Ahh", "xx", "Kx", "xK", "é", "A♠", "♠A", "💥💥"])
    elif k == 9:
        h = ["".join(rnd.choice(ODD + RANKS + SUITS) for _ in range(rnd.randrange(1, 5))) for _ in range(rnd.randrange(1, 6))]
    elif k == 10:
        return "help"
    elif k == 11:
        return rnd.choice(["", " ", "\t", "help ", " help", "HELP", "quit ", " quit", "Quit", "quit quit", "q", "exit"])
    elif k == 12:
        return "".join(chr(rnd.choice([rnd.randrange(32, 127), rnd.randrange(0xa0, 0x3000), rnd.randrange(0x10000, 0x11000)])) for _ in range(rnd.randrange(40)))
    elif k == 13:
        h = [rnd.choice(DECK)] * rnd.randrange(2, 9)
    elif k == 14:
        h = rnd.sample(DECK, 5) + [rnd.choice(["ZZ" * 300, "A" * 2000, "As" * 500])]
        if rnd.random() < .5:
            h = h[:5]
    else:
        h = rnd.sample(DECK, 5)
        h.append(rnd.choice(h))
        rnd.shuffle(h)
    s = sep().join(h)
    return rnd.choice(["", "", sep()]) + s + rnd.choice(["", "", sep()])


def clean(line):
    """Lines a pipe can carry: no line ends inside; a final carriage return would be part of the line end."""
    return line.replace("\n", " ").replace("\r", " ")


def expect(line):
    return HELP if line == "help" else None


def judge_repl(lines, quit_at, text):
    """Checks the whole transcript of one session. Yields (ok, message)."""
    out = text.split("\n")
    if out[:2] != WELCOME:
        return f"does not start with its welcome, but {out[:2]}", 0
    at = 2
    for i, l in enumerate(lines[:quit_at]):
        if l == "help":
            got = out[at:at + len(HELP)]
            if got != HELP:
                return f"line {i} 'help' is answered {got!r}", i
            at += len(HELP)
            continue
        if at >= len(out) - 1:
            return f"line {i} {l!r} is not answered (the output ends)", i
        # the echo of odd input may hold line ends of its own: none here, see clean()
        want = answer_ok(l, out[at])
        if want is not None:
            return f"line {i} {l!r} is answered {out[at]!r}, should be {want!r}", i
        at += 1
    if out[at:] != [""]:
        return f"after the last answer it goes on with {out[at:at + 3]!r}", quit_at
    return None, quit_at


def repl(c):
    if not c.build("examples"):
        return
    self_checked = self_check()
    path = os.path.join(c.target_dir("examples"), "debug/examples/poker-repl")
    run = core.Run("examples: poker-repl")
    n = 20000 if c.thorough else 2000
    tally = {"lines": 0, "hands": 0, "helps": 0, "refusals": 0, "sessions": 0, "ended_by_quit": 0, "ended_by_end_of_input": 0, "unterminated_last_line": 0, "line_by_line_sessions": 0}
    seen = set()
    lock = threading.Lock()

    def session(i):
        rnd = random.Random(c.seed * 100003 + i)
        lines = [clean(some_line(rnd)) for _ in range(12000 if i % 200 == 7 else rnd.choice([0, 1, 5, 60, 200, 200, 400]))]
        if i % 50 == 3:
            lines += [" ".join(rnd.sample(DECK, k)) for k in (13, 15, 16, 17, 20, 24)] + ([" ".join(rnd.sample(DECK, 52))] if i % 500 == 3 else [])
        if i % 20 == 5 and lines:
            lines += [rnd.choice(lines[-20:]) for _ in range(40)]
        lines = [l for l in lines if l != "quit"]
        quit_at = len(lines)
        tail = []
        mode = i % 3
        if mode == 0:
            tail = ["quit"] + [clean(some_line(rnd)) for _ in range(rnd.randrange(4))]
        live = i % 10 == 9
        unterminated = False
        rep = {"session": i}
        if live:
            p = Live(path)
            text = ""
            for _ in WELCOME:
                text += (p.line() or "") + "\n"
            for l in lines[:60]:
                p.say(l)
                for _ in HELP if l == "help" else [0]:
                    x = p.line()
                    if x is None:
                        break
                    text += x + "\n"
            quit_at = min(60, len(lines))
            for l in tail:
                p.say(l)
            rest, rc, err, late = p.end()
            text += rest
            if late:
                with lock:
                    run.inconclusive.append(f"session {i} did not end within 60 s")
                return
        else:
            data = "".join(l + rnd.choice(["\n"] * 3 + ["\r\n"]) for l in lines + tail)
            unterminated = mode == 1 and bool(lines) and lines[-1] != "" and i % 2 == 1
            if unterminated:
                data = data.rstrip("\r\n")
            r = batch(path, data.encode())
            if r is None:
                with lock:
                    run.inconclusive.append(f"session {i} did not end within 120 s")
                return
            text, rc, err = r
        bad, _ = judge_repl(lines, quit_at, text)
        if bad is None and rc != 0:
            bad = f"ends with status {rc}: {err[-300:]}"
        with lock:
            if bad:
                run.viols.append(f"session {i} (seed {c.seed}): {bad}" + (f"; its last words: {err[-300:]}" if "panicked" in err else ""))
                return
            tally["sessions"] += 1
            tally["line_by_line_sessions"] += live
            tally["unterminated_last_line"] += unterminated
            tally["ended_by_quit" if mode == 0 else "ended_by_end_of_input"] += 1
            for l in lines[:quit_at]:
                tally["lines"] += 1
                toks = split_ws(l)
                cs = [parse(t) for t in toks]
                seen.add(l)
                if l == "help":
                    tally["helps"] += 1
                elif len(cs) >= 5 and not any(isinstance(x, str) for x in cs) and len(set(cs)) == len(cs):
                    tally["hands"] += 1
                    k = "hands_" + CATS[best(cs)[0]].replace(" ", "_")
                    tally[k] = tally.get(k, 0) + 1
                else:
                    tally["refusals"] += 1

    t = time.time()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(session, range(n)))
    run.stats = {**tally, "evaluations": tally["lines"], "distinct": len(seen), "rules_self_check": self_checked}
    run.samples = [f"line: {l!r}" for l in sorted(seen, key=len)[100:900:200]]
    run.wall, run.done = time.time() - t, True
    c.runs.append(run)
    for m in run.viols:
        c.violation(m)
    for m in run.inconclusive:
        c.unsure(m)
    if not run.viols and (tally["hands"] < 500 or tally["refusals"] < 500 or tally["ended_by_quit"] < 5):
        c.unsure(f"too little was observed: {tally}")


# ---- video poker

CLEAR = "\x1b[2J\x1b[1;1H"
HAND = re.compile(r"^((?:\[ [23456789TJQKA][♣♦♥♠] \] ){4}\[ [23456789TJQKA][♣♦♥♠] \]) \((.*)\)$")
U64 = 1 << 64


def usize(t):
    """Rust's parse::<usize>"""
    if re.fullmatch(r"\+?[0-9]+", t, re.A) and int(t) < U64:
        return int(t)
    return None


def pay(wager, k):
    if k[0] == 1:
        return wager if k[1] >= 9 else 0
    if k[0] == 8 and k[1] == 12:
        return 4000 if wager == 5 else 250 * wager
    return {0: 0, 2: 2, 3: 3, 4: 4, 5: 6, 6: 9, 7: 25, 8: 50}[k[0]] * wager


class Bad(Exception):
    pass


class Game:
    """Follows one game: feed it what the player says, it reads what the program answers (by `line()`), and complains."""

    def __init__(self, line, tally):
        self.line, self.t, self.credits, self.phase, self.over = line, tally, 100, "wager", False
        self.wager, self.hand, self.first = 0, None, None
        self.ck(CLEAR + "Welcome to Jacks or Better video poker!")
        self.ck('To quit, enter "quit" or press CTRL+C.')
        self.ck("")
        self.ask()

    def ck(self, want):
        got = self.line()
        if got != want:
            raise Bad(f"{want!r} was due, got {got!r}")

    def ask(self):
        if self.phase == "wager":
            self.ck(f"Enter a wager. (Credits: {self.credits}, max: 5)")
        else:
            self.ck("Enter the cards' numbers you wish to swap, if any.")

    def read_hand(self, first):
        l = self.line()
        if first and l is not None:
            if not l.startswith(CLEAR):
                raise Bad(f"a new deal was due, got {l!r}")
            l = l[len(CLEAR):]
        m = HAND.match(l or "")
        if not m:
            raise Bad(f"five cards and their name were due, got {l!r}")
        cards = [(RANKS.index(x[2]), SUITS.index(PRETTY[x[3]])) for x in re.findall(r"\[ .. \]", m[1])]
        if len(set(cards)) != 5:
            raise Bad(f"a hand of five different cards was due, got {l!r}")
        k = best(cards)
        if m[2] != name(k):
            raise Bad(f"{m[1]} is called {m[2]!r}, it is {name(k)!r}")
        return cards, k

    def say(self, s):
        """The player says s; returns False if the game is over."""
        t = self.t
        if s == "quit":
            self.over = True
            t["quits"] += 1
            return False
        if self.phase == "wager":
            w = usize(s)
            if w is None:
                self.ck(f"Invalid input '{s}'. Expected wager from 1 to 5.")
            elif w == 0:
                self.ck("Sorry, you can't bet 0 credits!")
            elif w > 5:
                self.ck(f"Invalid wager amount '{w}'. Expected amount from 1 to 5.")
            elif w > self.credits:
                self.ck(f"Not enough credits! Got {w} but you have {self.credits}.")
                t["wagers_beyond_credits"] += 1
            else:
                self.wager = w
                self.credits -= w
                self.hand, self.first = self.read_hand(True)
                self.ck(" (1)    (2)    (3)    (4)    (5)")
                self.phase = "swap"
                self.ask()
                return True
            t["refused_wagers"] += 1
            self.ck("")
            self.ask()
            return True
        nums = [usize(x) for x in split_ws(s)]
        bad = None
        if None in nums:
            bad = f"Error parsing input '{s}'. Expected space-separated list of card numbers to swap."
        elif any(not 1 <= x <= 5 for x in nums):
            bad = f"Error parsing input '{s}'. Not all listed numbers are between 1 and 5."
        elif len(nums) > 5:
            bad = f"Error parsing input '{s}'. Specified more than 5 cards to swap."
        elif len(set(nums)) < len(nums):
            got = self.line()
            head = "Cannot provide duplicate cards to swap: "
            want = sorted(str(x) for x in set(nums) if nums.count(x) > 1)
            if got is None or not got.startswith(head) or not got.endswith(".") or sorted(got[len(head):-1].split(" ")) != want:
                raise Bad(f"{head}{' '.join(want)}. (in any order) was due, got {got!r}")
            bad = ""
        if bad is not None:
            if bad:
                self.ck(bad)
            t["refused_swaps"] += 1
            self.ck("")
            self.ask()
            return True
        hand, k = self.read_hand(False)
        for i in range(5):
            if i + 1 not in nums and hand[i] != self.hand[i]:
                raise Bad(f"card {i + 1} was kept, but {text(self.hand[i])} became {text(hand[i])}")
            if i + 1 in nums:
                # discarded cards go back into the deck before new ones are drawn
                t["swapped_cards"] += 1
                t["swapped_cards_changed"] += hand[i] != self.hand[i]
        def order(k):
            return (k[0],) + tuple(k[1:])
        if order(k) > order(self.first):
            self.ck("You got a better hand!")
        elif order(k) < order(self.first):
            self.ck("You got a worse hand...")
        win = pay(self.wager, k)
        self.ck(f"Winnings: {win}")
        if win:
            self.credits += self.wager + win
        what = "royal_flush" if k == (8, 12) else CATS[k[0]].replace(" ", "_") + ("" if k[0] != 1 else "_jacks_or_better" if k[1] >= 9 else "_low")
        t["paid_" + what] = t.get("paid_" + what, 0) + 1
        t["rounds"] += 1
        t["keep_%d" % (5 - len(nums))] = t.get("keep_%d" % (5 - len(nums)), 0) + 1
        if self.credits == 0:
            self.ck("Game over!")
            self.over = True
            t["games_lost"] += 1
            return False
        self.ck("")
        self.phase = "wager"
        self.ask()
        return True


def player(rnd, style, g):
    """What the player says next."""
    if g.phase == "wager":
        if rnd.random() < .12:
            return clean(rnd.choice(["0", "6", "00", "-1", "+0", "x", "", " ", " 3", "3 ", "1.0", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "٣", "５", "1e1", "5 5", "quit ", "help", "é", str(g.credits + 1), "1_0", "0x1", "++1", "--"]))
        if g.credits < 5 and rnd.random() < .4:
            return str(rnd.randint(g.credits + 1, 5))
        w = 5 if style == "max" else rnd.randint(1, 5)
        return rnd.choice([str(w)] * 6 + [f"+{w}", f"0{w}", f"000{w}"])
    if rnd.random() < .1:
        return clean(rnd.choice(["0", "6", "1 6", "1 1", "2 2 3 3", "1 2 3 4 5 1", "1,2", "a", "1 b", "-1", "1 2 3 4 5 5 4", "5 5 5 5 5 5", "18446744073709551616", "1.0", "0 0", "٣", "quit ", "é é", "1 2 3 4 5 6", "+0"]))
    if style == "keep":
        s = []
    elif style == "all":
        s = [1, 2, 3, 4, 5]
    elif style == "smart":
        r = [x for x, _ in g.hand]
        u = [y for _, y in g.hand]
        m = max(u.count(y) for y in u)
        if g.first[0] >= 4:
            s = []
        elif m >= 4 and g.first[0] < 3:
            s = [i + 1 for i in range(5) if u.count(u[i]) < m]
        else:
            s = [i + 1 for i in range(5) if r.count(r[i]) == 1]
    else:
        s = rnd.sample([1, 2, 3, 4, 5], rnd.randrange(6))
    rnd.shuffle(s)
    return rnd.choice(["", "", " "]) + rnd.choice([" ", " ", "  ", "\t", "\u3000"]).join(rnd.choice([str(x)] * 5 + [f"+{x}", f"0{x}"]) for x in s) + rnd.choice(["", "", " "])


TALLY = ("rounds", "refused_wagers", "refused_swaps", "quits", "games_lost", "swapped_cards", "swapped_cards_changed", "wagers_beyond_credits", "games", "ended_by_end_of_input")


def one_game(path, rnd, style, rounds, extra, script=None):
    """Plays a game; returns (complaint or None, inconclusive or None, tally, log)."""
    t = dict.fromkeys(TALLY, 0)
    p = Live(path, extra)
    log, bad, g = [], None, None

    def line():
        l = p.line()
        log.append("< " + repr(l))
        return l
    try:
        g = Game(line, t)
        k = 0
        while t["rounds"] < rounds:
            s = script[k] if script and k < len(script) else player(rnd, style, g)
            k += 1
            log.append("> " + repr(s))
            p.say(s)
            if not g.say(s):
                break
        if not g.over and rnd.random() < .5:
            p.say("quit")
            g.over = True
            t["quits"] += 1
        elif not g.over:
            t["ended_by_end_of_input"] += 1
    except Bad as e:
        bad = str(e)
    rest, rc, err, late = p.end()
    if late:
        return None, "a game did not end within 60 s", t, log
    if bad is None and rest != "":
        bad = f"after the end it goes on with {rest[:200]!r}"
    if bad is None and rc != 0:
        bad = f"ends with status {rc}: {err[-300:]}"
    if bad and "panicked" in err:
        bad += "; its last words: " + err[-300:]
    t["games"] = 1
    return bad, None, t, log


def video(c):
    if not c.build("examples", optional=("rel",)):
        return
    self_checked = self_check()
    path = os.path.join(c.target_dir("examples"), "debug/examples/jacks-or-better")
    run = core.Run("examples: jacks-or-better")
    jobs = []
    for i in range(8000 if c.thorough else 900):
        jobs.append((i, ["max", "random", "keep", "all", "smart"][i % 5], 300, None, None))
    # hands too rare to be dealt by chance: the program's random numbers are replaced
    so = os.path.join(core.BUILD, "fixedrandom.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(core.VERIF, "native", "fixedrandom.c"), "-ldl"], capture_output=True, text=True)
    steered = []
    if r.returncode == 0 and c.built.get("rel"):
        f = c.run("rel", "seeds")
        f.stats.pop("evaluations", None)
        f.stats.pop("distinct", None)
        for info in f.infos:
            if info.startswith("seed "):
                _, cat, s = info.split()
                for w in ((1, 2, 3, 4, 5) if int(cat) >= 8 else (rnd_w(c.seed, s),)):
                    jobs.append((len(jobs), "keep", 2, {"LD_PRELOAD": so, "VH_RANDOM": s}, [str(w), ""]))
    else:
        c.notes.append("the stand-in for the system's random numbers could not be built: rare hands were left to chance: " + r.stderr[-300:])
    tally = {}
    rounds = set()

    def play(j):
        i, style, n, extra, script = j
        return j, one_game(path, random.Random(c.seed * 7919 + i), style, n, extra, script)

    t0 = time.time()
    with ThreadPoolExecutor(12) as ex:
        for j, (bad, late, t, log) in ex.map(play, jobs):
            for k, v in t.items():
                tally[k] = tally.get(k, 0) + v
            hands = [x for x in log if "] (" in x]
            tally["hands_shown"] = tally.get("hands_shown", 0) + len(hands)
            rounds.update(hands)
            if bad:
                run.viols.append(f"game {j[0]} (seed {c.seed}, {j[1]}{', ' + str(j[3]) if j[3] else ''}): {bad}; before that: {' '.join(log[-8:])[:900]}")
            if late:
                run.inconclusive.append(late)
            if len(run.samples) < 4 and len(log) > 40:
                run.samples.append("game: " + " ".join(log[3:12])[:380])
    run.stats = {**tally, "evaluations": tally.get("hands_shown", 0), "distinct": len(rounds), "rules_self_check": self_checked}
    run.wall, run.done = time.time() - t0, True
    c.runs.append(run)
    for m in run.viols:
        c.violation(m)
    for m in run.inconclusive:
        c.unsure(m)
    if not run.viols and (tally["rounds"] < 1000 or tally["games_lost"] < 3 or tally["refused_wagers"] < 50 or tally["refused_swaps"] < 50):
        c.unsure(f"too little was observed: {tally}")
    if not tally.get("paid_royal_flush"):
        c.notes.append("no royal flush was dealt, so its payout was not observed")


def rnd_w(seed, s):
    return 1 + (int(s) ^ seed) % 5
