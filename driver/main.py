import json, os, subprocess, sys
import core, props


def main(argv):
    if not argv:
        print(__import__("__main__").__doc__)
        return 3
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    if argv[0] == "setup":
        c = core.Check("setup", "quick", seed, "")
        ok = c.build("chk", "rel", optional=[b for b in core.BUILDS if b not in ("chk", "rel", "forms", "nightly", "miri-win32", "miri-ppc", "miri-arm", "miri-bsd")])
        for m in c.inconclusive:
            print(m)
        print("setup:", "ok" if ok else "FAILED")
        return 0 if ok else 2
    if argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    if prop not in props.PROPS:
        print("unknown property", prop)
        return 3
    return decide(prop, tier, seed)


def decide(prop, tier, seed):
    fn, rule, assumptions, exhaustive = props.PROPS[prop]
    c = core.Check(prop, tier, seed, rule, assumptions, exhaustive)
    try:
        fn(c)
    except Exception as e:  # a fault of the machinery is never a verdict
        import traceback
        c.unsure("the driver failed: " + traceback.format_exc()[-1500:])
    return c.finish()


def replay(path):
    d = json.load(open(path))
    print("was:", d["message"])
    if "build" not in d:
        print("running the whole check again with seed", d["seed"])
        return decide(d["property"], d["tier"], int(d["seed"]))
    c = core.Check(d["property"], d["tier"], int(d["seed"]), "replay")
    os.environ["VERIF_TIER"] = d["tier"]
    if d["build"] == "forms":
        return decide(d["property"], d["tier"], int(d["seed"]))
    if not c.build(d["build"]):
        print("cannot build:", c.inconclusive)
        return 2
    r = c.run(d["build"], *d["args"], env=d.get("env"))
    for m in r.viols:
        print("VIOL", m)
    for s, m in r.finds:
        print("FIND", s, m)
    known = core.load_known(d["property"])
    if r.viols or [s for s, _ in r.finds if s not in known]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 2 if r.inconclusive else 0
