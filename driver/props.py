"""What each check builds, runs and concludes."""
import itertools, os, re, shutil, struct, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import core, forms, games

STD = [
    "the oracle (harness/src/oracle.rs) states the rules of poker; it was written from the rules and checks itself in every run against brute force and known counts",
    "the compiler, standard library and operating system behave",
]


def simple(*monitors, builds=("chk", "rel")):
    def f(c):
        if not c.build(*builds):
            return
        for m in monitors:
            for b in builds:
                c.run(b, m)
    return f


def many(c, build, n, *args, workers=8, first=0, env=None):
    """One monitor in n fresh processes, with n different seeds."""
    def one(i):
        return c.run(build, *args, env={"VERIF_SEED": c.seed * 100_000 + first + i, **(env or {})}, label=f"{build}: {' '.join(args)} process {i}")
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, range(n)))


def c07(c):
    if not c.build("chk", "rel"):
        return
    for b in ("chk", "rel"):
        c.run(b, "construct")
    # the first evaluators of a process, made by many threads at once
    n = 600 if c.thorough else 48
    rs = many(c, "rel", n, "coldstart", first=70_000) + many(c, "chk", n // 2, "coldstart", first=80_000)
    c.notes.append(f"{len(rs)} fresh processes whose threads made their first evaluators at once")


def c08(c):
    if not c.build("chk", "rel", "tsan", "miri"):
        return
    # one interpreted thread of work goes on in the background
    back = ThreadPoolExecutor(2)
    later = [back.submit(c.run, "miri", "miri", env={"VERIF_SEED": c.seed * 1000 + k, "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-preemption-rate=0.05 -Zmiri-seed=%d" % (c.seed * 1000 + k)}, timeout=800, label=f"miri: 3 threads, scheduler seed {c.seed * 1000 + k}") for k in range(24 if c.thorough else 1)]
    for b in ("chk", "rel"):
        c.run(b, "threads")
    n = 1500 if c.thorough else 120
    rs = many(c, "rel", n, "coldstart") + many(c, "chk", n // 2, "coldstart", first=50_000)
    orders = {u for r in rs for u in r.uniqs}
    c.notes.append(f"{len(rs)} fresh processes, {len(orders)} different orders in which their threads first used the library")
    if len(orders) < 20 and not c.viols:
        c.unsure(f"only {len(orders)} different orders of first use were seen")
    c.run("tsan", "threads", env={"VH_OPS": 60000 if c.thorough else 4000}, timeout=None)
    many(c, "tsan", 200 if c.thorough else 16, "coldstart", workers=4, first=60_000)
    for f in later:
        f.result()


def c13(c):
    n = forms.make(c.seed, c.thorough)
    if not c.build("chk", "rel"):
        return
    good, err = c._build("forms")
    c.built["forms"] = good
    if good:
        r = c.run("forms", label="forms: generated program")
        if "panicked at" in r.err:
            c.violation("the generated program panicked: " + r.err[:600].replace("\n", "\\n"), {"build": "forms", "args": []})
    elif re.search(r"--> src.main\.rs", err):
        c.violation("a program that writes cards in the documented ways no longer compiles (it does on the tree as it was): " + err[:900].replace("\n", "\\n"), {"build": "forms", "args": []})
    else:
        c.unsure("build forms failed: " + err[-1500:])
    for b in ("chk", "rel"):
        c.run(b, "forms")


def with_consts(monitor, uniq):
    def f(c):
        if not c.build("chk", "rel"):
            return
        for b in ("chk", "rel"):
            c.run(b, monitor)
        n = 400 if c.thorough else 40
        rs = many(c, "rel", n, "consts") + many(c, "chk", 8, "consts", first=50_000)
        if uniq:
            rs += frozen(c, n)
            seen = {}
            for r in rs:
                for u in r.uniqs:
                    what, _, deck = u.partition(" ")
                    if deck in seen:
                        c.violation(f"two decks of the default source are the same, {what} of [{r.label}] and {seen[deck]}: {deck}", r.replay)
                        return
                    seen[deck] = f"{what} of [{r.label}]"
            c.notes.append(f"{len(seen)} different first decks of threads in {len(rs)} processes")
            longer(c)
        else:
            c.same_consts(rs)
    return f


def longer(c):
    """Long runs of decks of processes side by side: no deck of one may come up in another."""
    files = [os.path.join(core.BUILD, f"decks-{os.getpid()}-{k}") for k in range(8 if c.thorough else 4)]
    try:
        with ThreadPoolExecutor(len(files)) as ex:
            rs = list(ex.map(lambda f: c.run("rel", "manydecks", f, label=f"rel: manydecks process {f[-1]}"), files))
        if not all(r.done for r in rs):
            return
        seen, n = {}, 0
        for r, f in zip(rs, files):
            for i, (h,) in enumerate(struct.iter_unpack("<Q", open(f, "rb").read())):
                n += 1
                if h in seen:
                    c.violation(f"the deck number {i} of the default source of one process is the deck number {seen[h][1]} of {'the same' if seen[h][0] == f else 'another'}", r.replay)
                    return
                seen[h] = (f, i)
        c.notes.append(f"{n} decks of the default source in {len(files)} processes, no two of them the same")
    finally:
        for f in files:
            if os.path.exists(f):
                os.unlink(f)


def frozen(c, n):
    """First decks of processes that are alike in everything but the system's random numbers."""
    so = native("frozen")
    if not so:
        c.notes.append("the clock could not be stopped")
        return []
    env = {"LD_PRELOAD": so}
    if shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
        env["VH_PRE"] = "setarch -R"
    rs = many(c, "rel", n, "consts", env={**env, "VERIF_SEED": "1"})
    for r in rs:
        r.label += " (stopped clock, fixed addresses)"
    return rs


def c16(c):
    if not c.build("chk", "rel"):
        return
    for b in ("chk", "rel"):
        c.run(b, "uniform")
    c.run("rel", "uniform_many")
    # How much randomness of the system the first deck of a process depends on.
    so = native("fixedrandom")
    if not so:
        c.notes.append("what is taken from the system could not be counted")
        return
    for k in range(3):
        def taken(*a):
            log = os.path.join(core.BUILD, f"randlog-{os.getpid()}")
            try:
                r = c.run("rel", "onedeck", *a, env={"LD_PRELOAD": so, "VH_RANDOM": str(c.seed * 10 + k), "VH_RANDOM_LOG": log})
                return sum(map(int, open(log).read().split())) if os.path.exists(log) else 0, r
            finally:
                if os.path.exists(log):
                    os.unlink(log)
        (idle, _), (n, r), (m, s) = taken("none"), taken(), taken()
        if not (r.done and s.done):
            return
        c.notes.append(f"random bytes taken from the system for a process's first deck: {n - idle}; the deck is a function of them: {r.uniqs == s.uniqs}")
        if 0 < n - idle < 29 and r.uniqs == s.uniqs and n == m:
            c.violation(f"the first deck of a process is made of {n - idle} random bytes of the system alone: not every one of the 52! orderings can be equally likely, that takes 29", r.replay)
            return


def native(name):
    so = os.path.join(core.BUILD, f"{name}.so")
    tmp = f"{so}.{os.getpid()}"
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, os.path.join(core.VERIF, "native", f"{name}.c"), "-ldl"], capture_output=True, text=True)
    if r.returncode:
        return None
    os.replace(tmp, so)
    return so


def c23(c):
    if not c.build("static-code", "static-code-chk", optional=("static-rules",)):
        return
    for b in ("static-code", "static-code-chk"):
        c.run(b)
    if c.built.get("static-rules"):
        c.run("static-rules", label="static-rules: ")


def digests(r):
    d = {}
    for x in r.digests:
        sec, n, h = x.split(" ")
        d[sec] = (n, h)
    return d


MACHINES = ["miri32", "miribe", "miri-win", "miri-mac"]
# surroundings in which programs are run
PLACES = {
    "no variables at all": {},
    "a bare terminal": {"TERM": "dumb", "LANG": "C", "LC_ALL": "C", "NO_COLOR": "1", "CI": "true", "COLUMNS": "20", "PATH": "/bin"},
    "a coloured terminal": {"TERM": "xterm-256color", "COLORTERM": "truecolor", "LANG": "en_US.UTF-8", "LC_ALL": "en_US.UTF-8", "CLICOLOR_FORCE": "1", "FORCE_COLOR": "1", "COLUMNS": "200", "HOME": "/nowhere", "USER": "nobody"},
    "another language": {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "LC_CTYPE": "tr_TR.UTF-8", "LANGUAGE": "tr:de", "TZ": "Asia/Tokyo"},
    "an old character set": {"LANG": "de_DE.ISO-8859-1", "LC_ALL": "de_DE.ISO-8859-1", "TERM": "vt100", "TZ": "UTC"},
    "a debugging session": {"RUST_LOG": "trace", "RUST_BACKTRACE": "full", "RUST_LIB_BACKTRACE": "1", "DEBUG": "1", "VERBOSE": "1", "POKER_DEBUG": "1", "POKER_LOG": "trace", "CARGO_PKG_NAME": "poker", "CARGO_MANIFEST_DIR": "/nowhere"},
}
VALUES = ["", "0", "1", "2", "true", "false", "never", "always", "off", "on", "C", "en_US.UTF-8", "dumb", "xterm-256color", "debug", "trace", "/nowhere"]


def c24(c):
    builds = ["rel", "chk", "dev", "nodef", "lto", "size", "native", "abort"] + (["nightly"] if c.thorough else [])
    machines = MACHINES + (["miri-win32", "miri-ppc", "miri-arm", "miri-bsd"] if c.thorough else [])
    if not c.build(*builds, *machines):
        return
    size = "big" if c.thorough else "small"
    def go(b):
        return {s: c.run(b, "digest", s, timeout=800) for s in ((size, "tiny") if not b.startswith("miri") else ("tiny",))}
    with ThreadPoolExecutor(9) as ex:
        runs = dict(zip(builds + machines, ex.map(go, builds + machines)))
    compared = 0

    def same(name, s, r, dump):
        nonlocal compared
        ref = runs["rel"][s]
        if not (ref.done and r.done):
            return True
        x, y = digests(ref), digests(r)
        for sec in x:
            if sec not in y:
                if sec != "shuffle" or name != "nodef":
                    c.unsure(f"section {sec} is missing in {name}")
                continue
            compared += 1
            if x[sec] != y[sec]:
                c.violation(f"{name} differs from 'rel' in section {sec} ({s}): " + dump(sec), r.replay)
                return False
        return True

    for b in builds[1:] + machines:
        for s, r in runs[b].items():
            if not same(b if b == "nodef" else f"the build or machine '{b}'", s, r, lambda sec: first_difference(c, s, sec, b)):
                return
    c.notes.append(f"{compared} section digests compared over {len(builds) + len(machines)} builds and machines")
    if compared < 60 and not c.viols:
        c.unsure(f"only {compared} digests were compared")
    # the same program in other surroundings
    before = compared
    nothing = {k: None for k in os.environ}
    places = {k: {**nothing, **v} for k, v in PLACES.items()}
    exe = c.command("rel", [])[0]
    cpus = sorted(os.sched_getaffinity(0))
    for n in (1, 2, 3):
        if shutil.which("taskset") and len(cpus) > n:
            places[f"a machine with {n} processors"] = {"VH_PRE": "taskset -c " + ",".join(map(str, cpus[:n]))}
    if shutil.which("prlimit"):
        places["a little memory for stacks"] = {"VH_PRE": "prlimit --stack=262144", "RUST_MIN_STACK": "131072"}
    places["another folder"] = {"VH_CWD": "/"}
    there = f"{sys.executable} {os.path.join(core.VERIF, 'driver', 'place.py')} "
    for k, v in {"a folder that is gone": "deleted", "a folder with an odd name": "bytes", "a folder far down": "deep", "closed standard streams": "closed", "other arguments": "args", "a terminal": "terminal"}.items():
        places[k] = {"VH_PRE": there + v}
    so = native("frozen")
    if so:
        places["a stopped clock"] = {"LD_PRELOAD": so}
    names, base = asked_for(c, "small"), asked_for(c, None)
    if names is None or base is None:
        c.unsure("what the program asks of its environment could not be watched")
        return
    new = sorted(n for n in names - base if not n.startswith(("VH_", "VERIF_", "file:")))
    files = sorted(n[5:] for n in names - base if n.startswith("file:") and not n.startswith("file:/"))[:40]
    c.notes.append(f"files asked for during a digest, beyond those of an idle program: {sorted(n[5:] for n in names - base if n.startswith('file:'))[:20] or 'none'}")
    if files:
        for k in range(7):
            places[f"a folder that has {', '.join(files[:5])} ({k})"] = {"VH_PRE": there + f"files:{k}:" + ",".join(os.fsencode(f).hex() for f in files)}
    c.notes.append(f"environment variables asked for during a digest, beyond those of an idle program: {new or 'none'}")
    for n in new[:20]:
        for v in VALUES:
            places[f"{n}={v!r}"] = {n: v}
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda k: (k, c.run("rel", "digest", "small", env=places[k], label=f"rel: in {k}")), places))
    if c.thorough:
        runs["rel"]["small"] = c.run("rel", "digest", "small")
    for k, r in rs:
        if not same(f"the program in {k}", "small", r, lambda sec: first_difference(c, "small", sec, "rel", places[k])):
            return
    c.notes.append(f"{compared - before} section digests compared in {len(places)} surroundings")


def asked_for(c, size):
    """Names of the environment variables that the program asks for."""
    so, log = native("envwatch"), os.path.join(core.BUILD, f"envlog-{os.getpid()}")
    if not so:
        return None
    try:
        e = {**c.env_for("rel"), "LD_PRELOAD": so, "VH_ENVLOG": log}
        subprocess.run(c.command("rel", ["digest", size] if size else ["nothing"]), env=e, capture_output=True, cwd=core.BUILD, timeout=300)
        return set(open(log, errors="surrogateescape").read().split("\n")) - {""} if os.path.exists(log) else None
    finally:
        if os.path.exists(log):
            os.unlink(log)


def first_difference(c, size, sec, b, env=None):
    out = []
    for x, v in (("rel", {}), (b, env or {})):
        e, pre, cwd = core.surround(c.env_for(x), v)
        p = subprocess.run(pre + c.command(x, ["digest", size, sec]), env=e, capture_output=True, text=True, errors="replace", cwd=cwd, timeout=600)
        out.append([l for l in p.stdout.splitlines() if l.startswith("LINE ")])
    for l, m in itertools.zip_longest(*out):
        if l != m:
            return f"'{l}' there, '{m}' here"
    return "(no difference when run again)"


def c25(c):
    if not c.build("mem", "asan", "miri"):
        return
    back = ThreadPoolExecutor(2)
    later = [back.submit(c.run, "miri", "miri", env={"VERIF_SEED": c.seed * 1000 + 500 + k, "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check -Zmiri-seed=%d" % (c.seed * 1000 + 500 + k)}, timeout=800, label=f"miri: scheduler seed {c.seed * 1000 + 500 + k}") for k in range(8 if c.thorough else 1)]
    c.run("mem")
    for m in ("history", "api", "construct", "threads", "parse_err", "multi", "deck", "shuffle", "nested"):
        c.run("asan", m, env={"VH_OPS": 3000}, timeout=700)
    if c.thorough:
        for m in ("reject", "evalerr", "forms", "sorted", "invariance", "coldstart"):
            c.run("asan", m, timeout=3600)
    for f in later:
        f.result()


def P(fn, rule, extra=(), exhaustive=False):
    return fn, rule, STD + list(extra), exhaustive


PROPS = {
    "C01": P(simple("class5"), "distinct five-card sets evaluated and compared with the oracle's class (not orders of the same set)", exhaustive=True),
    "C02": P(simple("showdown"), "distinct pairs of strengths plus distinct five-card hands and distinct random showdowns compared", ["every 5-card hand is compared with its own and its neighbouring strengths; every pair of strengths through sampled hands"]),
    "C03": P(simple("bestof"), "distinct sets of six or more cards evaluated", ["all hands of six and (optimised build) seven cards; longer ones are sampled"]),
    "C04": P(simple("invariance"), "distinct sets of cards evaluated in many orders, containers and suit renamings"),
    "C05": P(simple("reject"), "distinct lists of cards offered (all lists of up to four, all multisets of five, sampled longer lists)"),
    "C06": P(simple("history", "nested"), "distinct histories (sequence of calls before a call) after which a result was judged"),
    "C07": P(c07, "distinct ways of obtaining an evaluator times hands judged"),
    "C08": P(c08, "distinct interleaving windows (8 consecutive call/return events of concurrent calls), phases and fresh processes", ["ThreadSanitizer and Miri see only the interleavings that happened"]),
    "C09": P(simple("encoding"), "distinct card origins and pairs of cards compared", exhaustive=True),
    "C10": P(simple("parse"), "distinct strings, character pairs and characters offered"),
    "C11": P(simple("parse_err"), "distinct refused strings and character pairs whose error and message were judged"),
    "C12": P(simple("multi"), "distinct (texts, sequence of iterator operations) pairs judged"),
    "C13": P(c13, "distinct macro expressions of the generated program, origins of cards and joins judged"),
    "C14": P(with_consts("deck", False), "distinct ways of consuming decks judged"),
    "C15": P(with_consts("shuffle", True), "distinct states of random sources shuffled from, and decks of the default source"),
    "C16": P(c16, "shuffled decks counted into the statistics", ["a statistic alarms only beyond a deviation that a fair shuffle shows less than once in 10^9 runs of the check"]),
    "C17": P(simple("compare"), "distinct pairs of evaluations compared through all interfaces"),
    "C18": P(simple("predicates"), "distinct evaluations, classes and pairs judged"),
    "C19": P(simple("names"), "distinct evaluations and classes printed", exhaustive=True),
    "C20": P(with_consts("evalerr", False), "distinct rejected lists whose message was judged"),
    "C21": P(simple("rankcard"), "distinct pairs of ranks and cards compared, and cards printed"),
    "C22": P(simple("sorted"), "distinct pairs and triples of cards and lists sorted or collected"),
    "C23": P(c23, "distinct lists of cards evaluated through the static table, the ordinary evaluator and the oracle", ["the published table cannot be downloaded here; tables made from the code and from the rules stand in for it"]),
    "C24": P(c24, "builds and machines whose section digests were compared", ["Miri's i686 and s390x targets stand for 32-bit and big-endian machines"]),
    "C25": P(c25, "distinct measurements of live heap bytes, and histories run under AddressSanitizer, LeakSanitizer and Miri"),
    "C26": P(games.repl, "distinct input lines answered", ["lines are valid UTF-8"]),
    "C27": P(games.video, "distinct dealt hands and answers judged", ["the rules of the game are those its README and messages state"]),
    "C28": P(simple("api", "nested"), "distinct operations and values met in random operation sequences"),
}
