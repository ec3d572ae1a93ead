#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "driver"))
T = {
 "C01": ("monitored run over all 2,598,960 five-card hands, judged by a rules oracle", "Every five-card hand (canonical and shuffled orders) in two builds; trusts the oracle, which checks itself against known category counts."),
 "C02": ("monitored comparisons of all pairs of the 7462 strengths, judged by a rules oracle", "All pairs of strengths through representative hands, every hand against its own strength; other representatives sampled."),
 "C03": ("monitored run over all hands of 6 and 7 cards and sampled longer ones, judged by a best-five oracle", "All hands of 6 and 7 cards (optimised build), sampled or structured hands of 8 to 52; every position of the best five for chosen hands."),
 "C04": ("metamorphic online monitor: permutations, containers, suit renamings", "All 120 orders of sampled hands and several orders of every hand; larger hands sampled."),
 "C05": ("error monitor over enumerated and generated invalid and valid lists", "All lists of up to four cards and every multiset of five (in sampled orders), repeats at every pair of positions for longer lists; other contents sampled."),
 "C06": ("history monitor: random call histories against a memoryless oracle", "Millions of steps over histories built to confuse caches and buffers, calls nested in calls of the caller's code and interrupted by its panics; sampled, not exhaustive."),
 "C07": ("monitored construction of evaluators in many ways, each run over hands of every strength", "28 ways of obtaining an evaluator, each judged on every strength; other ways are not explored."),
 "C08": ("concurrent stress with an online result monitor, ThreadSanitizer, and Miri's race detector", "Only the interleavings that happened are judged (incl. 1,100 threads at once, over 100,000 short-lived ones, and a watchdog for deadlocks); happens-before race detection widens that to races not manifested."),
 "C09": ("monitored encoding of all 52 cards from many origins, all pairs compared", "Exhaustive over cards, pairs and the known origins."),
 "C10": ("monitored parsing of all short and character-pair texts, judged by a text oracle", "Exhaustive over all pairs of the first 1,000s of characters and all single characters at either place; longer texts sampled."),
 "C11": ("monitored parse errors over generated refused texts, judged by a text oracle", "Every character at either place; other texts sampled."),
 "C12": ("online monitor of the iterator protocol against a model, with a source that records each demand", "Sampled texts and operation sequences."),
 "C13": ("generated programs of every macro form, run and judged, plus monitored joins", "All 52 cards in all single-card forms, arguments' evaluations counted, lists of up to 301; lists and joins sampled."),
 "C14": ("online monitor of the deck iterator's protocol, across threads and processes", "Sampled ways of consuming."),
 "C15": ("monitor of shuffles from recorded and adversarial random sources, across threads and processes", "Sampled sources and states; decks of the default source compared over threads and processes, also with a stopped clock and fixed addresses."),
 "C16": ("statistical monitor over recorded shuffles", "Detects biases above the resolution given in the evidence; judges the random bits a shuffle draws, and the extremes of tens of millions of single decks; alarms only beyond 1e-9 significance."),
 "C17": ("monitor of all comparison interfaces over all pairs of strengths", "Every pair of strengths through a representative, other representatives and triples sampled."),
 "C18": ("monitor of category tests and class order over every strength and every class pair", "Every strength and all pairs of classes; hands sampled within a strength."),
 "C19": ("monitor of the text of every strength and class", "Every strength and every class; other hands sampled."),
 "C20": ("monitor of error messages over generated invalid lists, compared across processes", "Lists sampled, with repeats of every card and multiplicity."),
 "C21": ("monitor of order and text of all cards and ranks", "Exhaustive over cards, ranks and pairs of them; sorting sampled."),
 "C22": ("monitor of the order laws over all pairs and triples of cards, and of sorts and collections", "Exhaustive over pairs and triples; one recorded finding (78 pairs of cards that are equal in order only)."),
 "C23": ("differential monitor: static-table evaluator, ordinary evaluator and rules oracle side by side", "All five-card hands, sampled others; uses tables generated from the code and from the rules, as the published one cannot be fetched here."),
 "C24": ("digests of the observed behaviour compared over builds and (interpreted) machines", "Eight native builds and many surroundings (environment, locale, terminal, stack, processors, clock) on large workloads; 32-bit, big-endian, Windows and macOS machines under Miri on a small one."),
 "C25": ("counting allocator, AddressSanitizer with LeakSanitizer, and Miri over the library's operations", "Only executed paths are judged, calls interrupted by the caller's panics among them; the counting allocator sees every allocation of the process."),
 "C26": ("transcript checker over sessions of the hand prompt, judged by an independent Python model", "Sampled lines and sessions."),
 "C27": ("transcript checker over games with chosen random bytes, judged by an independent Python model", "Sampled deals, plus deals steered to every category; every answer of every game is judged."),
 "C28": ("model-based random operation sequences with an online monitor", "Sampled sequences, nested and interrupted calls; watchdogs for runaway CPU time and deadlocks."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
doc = {"version": 1, "setup_cmd": "./check setup", "checks": [
    {"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
     "technique": "runtime monitoring: " + T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in T],
    "not_applicable": [], "notes": "No hooks in /repo: every monitor uses the public interface. A replay file is run with './check replay FILE'."}
json.dump(doc, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
