#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=hook)))
EV="src/evaluate/"
p("C01","Five-card hands get the poker category and ranks the rules assign",
 """For every five distinct cards of a 52-card deck, given in any order, evaluation succeeds and its class is the one the rules of poker assign: the right
 category (high card, pair, two pair, three of a kind, straight, flush, full house, four of a kind, straight flush) and the right defining ranks
 (highest card, pair, higher pair then lower pair, trips, quads, trips-and-pair, top of the straight). A-2-3-4-5 counts as a five-high straight, and no other wrap-around is a straight.""",
 ["inputs"],"every 5-card subset of the deck, in every order",
 "The unit tests check the class of ten hand-picked five-card hands; test_all_five_card_combos checks only that 7462 different evaluations exist, not that any hand gets the right one.",
 [EV+"lookup_table.rs",EV+"evaluation.rs",EV+"utils.rs",EV+"meta.rs"],
 [("flush test, prime product and table lookup",EV+"evaluation.rs five"),("table construction",EV+"lookup_table.rs flushes_straights_high_cards, multiples")],
 ["Evaluator::evaluate","Eval::class"])
p("C02","Comparing two evaluations decides the showdown exactly, kickers included",
 """For any two valid hands, comparing their evaluations says that the first wins, loses or ties exactly when poker's rules say so: category first, then the
 defining ranks, then the kickers from highest to lowest, with suits never breaking a tie. Over all hands there are exactly 7462 strengths, totally ordered.""",
 ["inputs"],"every pair of hands (all pairs of the 7462 strength classes, with many representative hands each, of equal and of different sizes)",
 "One unit test compares four hands and one doc-test two flushes; the all-combinations test counts distinct values without checking which hand gets which, so two strengths could be exchanged unnoticed.",
 [EV+"lookup_table.rs",EV+"hand_rank.rs",EV+"meta.rs",EV+"eval.rs",EV+"evaluation.rs"],
 [("hand ranks 1..7462 in construction order",EV+"lookup_table.rs"),("comparison on hand rank",EV+"meta.rs PartialOrd/Ord")],
 ["Eval operators and comparison methods"])
p("C03","A hand of six or more cards is worth its best five-card subset",
 """For any 6 to 52 distinct cards, in any order, evaluation equals the strongest evaluation among all its five-card subsets, and reports that subset's class.
 It is never lower, never higher and never depends on where in the input the best five cards stand; so adding a card never makes a hand worse.""",
 ["inputs"],"every set of 6 to 52 distinct cards and every position of the best five in it",
 "The tests evaluate ten hand-picked six-card and ten seven-card hands and nothing longer; the combination generator is tested on one 3-choose-2 example.",
 [EV+"evaluation.rs",EV+"utils.rs"],
 [("maximum over all combinations",EV+"evaluation.rs six_plus"),("combination generator",EV+"utils.rs Combinations")],
 ["Evaluator::evaluate"])
p("C04","Evaluation depends on the set of cards only, not order, container or suit names",
 """Evaluating any permutation of the same cards, held in any kind of container the call accepts (array, slice, vector, boxed slice, shared slice, sub-slice), gives an equal
 evaluation with the same class and the same text. Renaming the four suits consistently (any permutation of the suits) changes nothing either.""",
 ["inputs"],"every ordering, container and suit renaming of every valid hand",
 "Each test hand is evaluated in a single order and container; 120 orders of 2.6 million hands are not sampled at all.",
 [EV+"evaluation.rs",EV+"mod.rs",EV+"utils.rs"],
 [("commutative folds over the cards",EV+"evaluation.rs five"),("AsRef<[Card]> argument",EV+"mod.rs Evaluator::evaluate")],["Evaluator::evaluate"])
p("C05","Invalid hands are rejected with the exact error, valid hands never are",
 """Evaluating a list in which any card occurs more than once, whatever its length and wherever the repeats stand, fails with the not-unique error carrying exactly the given cards in the given order.
 Evaluating fewer than five cards, all distinct, fails with the hand-size error carrying their number; repeats take precedence over shortness.
 Every list of five or more distinct cards is accepted, and none of this ever panics.""",
 ["inputs"],"every list of cards of any length, with repeats at any pair of positions",
 "Four short lists test the uniqueness helper and one list each reaches the two errors; positions, lengths and the other 48 cards are not tried.",
 [EV+"evaluation.rs",EV+"utils.rs","src/error.rs"],
 [("uniqueness bit set",EV+"utils.rs all_unique, card_to_index"),("length match",EV+"evaluation.rs evaluate")],["Evaluator::evaluate's Result"])
p("C06","An evaluation never depends on what was evaluated before",
 """The result of evaluating given cards is the same whatever calls were made before on the same evaluator, on other evaluators, or elsewhere in the library: successes and failures, hands of
 any size, related or unrelated cards, any number of them. Evaluating never changes the evaluator or the caller's cards.""",
 ["histories"],"every history of earlier calls (including adversarially related hands and failed calls) before every call",
 "Unit tests make one or a few calls in a fixed order and never repeat a hand after other calls.",
 [EV+"mod.rs",EV+"evaluation.rs"],[("evaluate borrows the evaluator immutably",EV+"mod.rs Evaluator::evaluate")],["Evaluator::evaluate over long call histories"])
p("C07","Every way of obtaining an evaluator gives a complete, interchangeable one",
 """An evaluator from the constructor, from the default value, from taking one out of a place and leaving the default, or by cloning (also after use, also in another thread) evaluates every valid hand, and all of them agree on every
 hand and compare equal. None of them ever panics on cards it is asked to evaluate.""",
 ["inputs","histories"],"every construction path x every hand",
 "All tests share one evaluator from the constructor; the default value and clones are never used.",
 [EV+"mod.rs",EV+"lookup_table.rs"],[("constructor, Default, Clone, PartialEq",EV+"mod.rs Evaluator")],["Evaluator::{new,default,clone,==}"])
p("C08","One evaluator shared by many threads gives every thread the right answers",
 """Any number of threads may evaluate hands on one shared evaluator at the same time, and every call returns what it would have returned alone, under any interleaving, including when the first
 uses of the library race with each other at process start. There are no data races.""",
 ["schedules"],"every interleaving of concurrent evaluate/parse/deck calls on shared evaluators",
 "The only concurrent test is a doc-test with ten threads and one random hand each that checks nothing about the results.",
 [EV+"mod.rs",EV+"evaluation.rs","src/lib.rs"],[("no interior mutability; shared & access",EV+"mod.rs Evaluator::evaluate")],["per-thread call histories; ThreadSanitizer; Miri"])
p("C09","Each of the 52 cards has its own documented 32-bit encoding",
 """For every rank and suit, the card's integer is exactly the documented layout: one rank bit (two = bit 16 ... ace = bit 28), one suit flag (clubs 0x8000, diamonds 0x4000, hearts 0x2000, spades 0x1000),
 the rank number 0..12 in bits 8..11, and the rank's prime (2,3,5,...,41) in the low bits, nothing else. Rank and suit read back from a card are those it was made with, and two cards are equal exactly when rank and suit both agree, and equal cards hash equally.""",
 ["inputs"],"all 52 cards, however obtained, and all pairs of them",
 "One doc-test checks the ace of spades; the unit tests check that the integers are distinct, not what they are.",
 ["src/card/mod.rs","src/card/rank.rs","src/card/suit.rs","src/constants.rs"],[("bit layout","src/card/mod.rs Card::new"),("decoding","src/card/mod.rs Card::rank, Card::suit")],["Card::unique_integer, rank, suit, ==, Hash"])
p("C10","Exactly the 52 two-character names parse, each to its own card, and back",
 """A string parses to a card exactly when it is one of 23456789TJQKA followed by one of chsd, and nothing else at all (no other case, spacing, script, symbol or length); the same holds for making a card from two characters and for the rank
 and suit conversions of single characters. A card's two-character name parses back to the same card, and the rank and suit characters convert back to the same rank and suit.""",
 ["inputs"],"every Unicode string, every pair of characters, every single character",
 "The unit test parses the 52 valid names and three invalid ones; there are 1.1 million characters and unboundedly many strings that must be refused.",
 ["src/card/mod.rs","src/card/rank.rs","src/card/suit.rs"],[("FromStr, try_from_chars","src/card/mod.rs"),("TryFrom<char>","src/card/rank.rs, src/card/suit.rs")],["Result of parsing"])
p("C11","A refused card text yields the right error with the offending input in it",
 """Text that is not exactly two characters is refused as a length error, otherwise a bad first character as a rank error, otherwise a bad second one as a suit error; the error carries the unmodified input and the offending character (for the two-character
 constructor the input is the offending character alone, and the rank is looked at first). The error's message quotes the input, and states the number of characters (not bytes) found, or the bad character together with the accepted ones.""",
 ["inputs"],"every refused Unicode string or pair of characters",
 "Three ASCII examples are tested for each of structure and message; no multi-byte input is.",
 ["src/card/mod.rs","src/error.rs"],[("error construction","src/card/mod.rs from_str, try_from_chars"),("Display","src/error.rs ParseCardError")],["ParseCardError fields and Display"])
p("C12","Parsing many cards gives one result per text, in order, lazily, without stopping",
 """Parsing a sequence of texts yields, in order, exactly the result of parsing each text, consuming one text per result and only on demand, and goes on after errors; the remaining-length hints are always truthful. Collecting it all gives all the cards in order if every text
 is valid and otherwise the error of the first invalid text, taking no text after that one. The several-cards macro does the same for a list of texts and for one text split at whitespace.""",
 ["inputs","histories"],"every sequence of texts, every source iterator and every sequence of iterator operations",
 "Doc-tests collect two valid cards; no error in the middle, no partial consumption and no other iterator method is exercised.",
 ["src/card/mod.rs","src/card/macros.rs"],[("ParseToIter adaptor","src/card/mod.rs"),("string arms of cards!","src/card/macros.rs")],["ParseToIter::{next,size_hint,fold,try_collect}"])
p("C13","All ways of writing the same card or cards mean the same",
 """The single-card macro (both identifier forms and the text form), the several-cards macro (both identifier forms), the constructor, parsing and the two-character constructor all give the identical card for the same rank and suit, in the order written, also when computed in constant context. The text forms accept and refuse exactly what parsing does, with the same error.
 Joining slices of cards gives exactly the concatenation of the slices, in order and with nothing dropped, merged or added.""",
 ["programs","inputs"],"every rank x suit x way of writing it; every sequence of card slices",
 "Doc-tests use the macros on four or five different cards; joining is tested on three one-card slices.",
 ["src/card/macros.rs","src/card/mod.rs","src/deck.rs"],[("card!, cards!, box_cards!","src/card/macros.rs")],["values of the macro expressions"])
p("C14","A generated deck is every card exactly once, every time",
 """Each generated deck yields each of the 52 cards exactly once and then ends, in the same order every time, however its iterator is consumed (step by step, skipping, folding, partially, several decks interleaved), and its remaining-length hints are always truthful.
 A deck obtained earlier or in another thread never influences a later one.""",
 ["inputs","histories"],"every way of consuming any number of generated decks",
 "The tests collect or count one whole deck.",
 ["src/deck.rs"],[("cartesian product of ranks and suits","src/deck.rs generate")],["deck::generate iterator"])
p("C15","Shuffling always gives a full deck, decided only by the given random source",
 """For any random source that lets the shuffle finish, however biased its numbers, the shuffled deck holds each of the 52 cards exactly once. Two sources in the same state give the same deck (and are left in the same state), whatever was shuffled before; decks from the default source
 drawn repeatedly or in different threads do not repeat.""",
 ["inputs","histories","schedules"],"every random source and history of shuffles",
 "The test only counts the cards of one shuffled deck: 52 copies of one card would pass.",
 ["src/deck.rs"],[("collect and shuffle","src/deck.rs shuffled, shuffled_with")],["deck::shuffled, deck::shuffled_with"])
p("C16","Shuffling is unbiased",
 """With a uniform random source every ordering of the deck is equally likely: over many shuffles every card is equally often at every position, every pair of cards equally often in either order, next to each other and at any pair of positions, and no card, position, hand category or parity is favoured.
 This holds for the default source and for a supplied one.""",
 ["inputs","histories"],"the distribution over seeds of the shuffled deck",
 "No test looks at the order of a shuffled deck.",
 ["src/deck.rs"],[("Fisher-Yates from rand","src/deck.rs shuffled_with")],["deck::shuffled, deck::shuffled_with"])
p("C17","All comparison interfaces of evaluations agree and obey the ordering laws",
 """For any two evaluations, is-better-than, is-worse-than, is-equal-to, the operators, cmp, partial_cmp, max and min all tell the same story, exactly one of better, worse and equal holds, and the relation is transitive. Equal evaluations hash equally,
 have the same class and text. The best and worst constants are an upper and a lower bound of every evaluation, equal to a royal flush and to the weakest seven-high.""",
 ["inputs"],"every pair (and triple) of evaluations",
 "Four evaluations are compared with the three named methods only; operators, hashing, and the constants against real hands are not tested.",
 [EV+"eval.rs",EV+"meta.rs",EV+"hand_rank.rs"],[("comparison methods",EV+"eval.rs"),("Ord, Eq, Hash",EV+"meta.rs"),("constants",EV+"meta.rs BEST, WORST")],["Eval comparison API"])
p("C18","Category tests and class order agree with the evaluation",
 """For every evaluation exactly one of the nine category tests is true, namely the one of its class, and the royal-flush test is true exactly for ace-high straight flushes. Classes are ordered by category and then by their ranks (first the higher pair, the trips, or the single rank; then the second), so that
 a better class always means a better evaluation, and a better evaluation never has a worse class.""",
 ["inputs"],"every evaluation, every pair of evaluations, every class value a caller can write down",
 "One test compares three classes; the category tests are tried positively on ten hands per size, never for being false.",
 [EV+"class.rs",EV+"meta.rs",EV+"eval.rs"],[("derived Ord on variant and field order",EV+"class.rs EvalClass"),("predicates",EV+"meta.rs is_*")],["Eval::is_*, Eval::class, EvalClass ordering"])
p("C19","Every evaluation prints as its proper English name",
 """Every evaluation and class prints as: "High card, ace"; "Pair, sevens"; "Two pair, kings and fours" (higher first for evaluations); "Three of a kind, sixes"; "Straight, five-high"; "Flush, jack-high"; "Full house, jacks over fours" (trips over pair); "Four of a kind, twos"; "Straight flush, nine-high"; or "Royal flush" for the ace-high straight flush,
 with the names and plurals of its own ranks. An evaluation prints the same as its class.""",
 ["inputs"],"all 7462 strengths and every class value a caller can write down",
 "Four of the texts are tested: royal flush, high card seven, jacks over fours, pair of sevens.",
 [EV+"class.rs",EV+"meta.rs","src/card/rank.rs"],[("Display",EV+"class.rs"),("rank names","src/card/rank.rs as_str_name, as_str_name_plural")],["Display of Eval and EvalClass"])
p("C20","Evaluation errors name each repeated card once, or the number of cards",
 """The message of a not-unique error lists the two-character name of every card that occurs more than once, each exactly once, and of no other card, separated by single spaces after a fixed sentence; the message of a hand-size error ends with the number of cards received.
 The same error always prints the same text.""",
 ["inputs","histories"],"every rejected list of cards, rendered any number of times",
 "One list with one repeated card is tested; with two or more repeats the order of the names was never looked at.",
 ["src/error.rs"],[("Display","src/error.rs EvalError")],["Display of EvalError"])
p("C21","Ranks and cards are ordered by rank; cards and suits print as specified",
 """Ranks are ordered two < three < ... < king < ace, and comparing two cards of different ranks, in any way (operators, cmp, partial_cmp, sorting, maximum), is comparing their ranks, whatever their suits. Cards print as "[ A♠ ]" with the rank's letter and the suit's own symbol, ranks print as their letter and suits as their symbol.""",
 ["inputs"],"all pairs of ranks and of cards, all 52 cards' texts",
 "No test compares two cards or two ranks; two of 52 card texts are tested.",
 ["src/card/mod.rs","src/card/rank.rs","src/card/suit.rs"],[("Ord for Card","src/card/mod.rs"),("derived Ord for Rank","src/card/rank.rs"),("Display","src/card/mod.rs, src/card/suit.rs")],["comparison and Display of Card, Rank, Suit"])
p("C22","Ordered collections and sorting never lose or confuse cards",
 """Comparing cards is a total preorder, consistently between cmp, partial_cmp and the operators, so that sorting any list of cards yields a permutation of it; and two cards compare equal in order only if they are equal, so that ordered sets and maps keyed by cards keep every distinct card.""",
 ["inputs"],"all pairs and triples of cards, all subsets put into ordered collections",
 "No test compares cards or stores them in an ordered collection.",
 ["src/card/mod.rs"],[("PartialOrd and Ord next to derived Eq","src/card/mod.rs")],["Ord and Eq of Card; BTreeSet<Card>, sort"])
p("C23","The static-table evaluator agrees with the ordinary one on every input",
 """With the static lookup feature on, evaluating through the static table gives for every list of cards, valid or not, of any size, the same result as an ordinary evaluator and as the rules of poker: the same class, order and text, or the same error. It needs no evaluator and keeps no heap memory.""",
 ["inputs","configurations"],"every list of cards, static feature on",
 "The feature's tests are never built here (its build step downloads the table), and upstream they evaluate ten hands per size.",
 [EV+"static_lookup.rs",EV+"evaluation.rs",EV+"lookup_table.rs"],[("StaticEvaluator",EV+"static_lookup.rs"),("shared generic evaluate",EV+"evaluation.rs"),("published table for bootstrapping",EV+"lookup_table.rs LookupTable")],["poker::evaluate::static_lookup::evaluate vs Evaluator::evaluate"])
p("C24","Results are the same in every build configuration and on every kind of machine",
 """Parsing, decks, encodings, evaluations, comparisons, texts and errors are the same in debug and optimised builds, with and without arithmetic and debug checks, with and without the default feature, on 32-bit, big-endian and 64-bit machines of different systems, and whatever the environment variables, working folder and number of processors.""",
 ["configurations","inputs"],"every supported build configuration and target x every input",
 "The tests are run in one configuration: debug, default features, 64-bit little-endian.",
 ["src/lib.rs","Cargo.toml",EV+"lookup_table.rs",EV+"utils.rs","src/deck.rs"],[("no dependence on debug assertions, overflow or word size","src/evaluate/utils.rs"),("rand feature gate","src/deck.rs")],["digest of the whole observable behaviour per configuration"])
p("C25","The library keeps no memory and commits no undefined behaviour or leaks",
 """However long it is used, the library holds no more memory than before, apart from a bounded one-time amount: evaluating, parsing, shuffling and error handling leave nothing behind, and dropping an evaluator frees everything it took. No use of the public interface triggers undefined behaviour, an invalid memory access or a leak.""",
 ["histories","inputs"],"every call history; every input reached under AddressSanitizer/LeakSanitizer and Miri",
 "No test measures memory, and none is run under a sanitizer.",
 ["src/lib.rs",EV+"mod.rs",EV+"evaluation.rs","src/card/mod.rs","src/deck.rs"],[("forbid(unsafe_code)","src/lib.rs"),("stateless calls",EV+"evaluation.rs")],["counting global allocator; ASan/LSan; Miri"])
p("C26","The hand prompt answers every line correctly and keeps going",
 """The interactive hand evaluator answers each line of text with the name of the evaluated hand, the help text, or the exact message of the parse or evaluation error, in order and one answer per line, never crashes or stops on bad input, and ends at "quit" or end of input.""",
 ["inputs","histories"],"every sequence of input lines",
 "The examples contain no tests; they are only compiled.",
 ["examples/poker-repl.rs","examples/common/mod.rs"],[("read-evaluate-print loop","examples/poker-repl.rs main")],["stdout transcript of the poker-repl process"])
p("C27","The video poker game conserves cards and credits and pays by its table",
 """In every game, each dealt hand holds five different cards, swapping replaces only the chosen cards and keeps the others in place, and the hand is named correctly before and after. Credits go down by the wager and up by wager plus winnings if anything was won, with winnings exactly the pay table's multiple of the wager; credits never go negative and the game ends exactly when they reach zero or the player quits.
 Impossible wagers and swaps are refused with their message and without effect.""",
 ["inputs","histories"],"every sequence of player inputs and every deal",
 "The examples contain no tests; they are only compiled.",
 ["examples/jacks-or-better.rs","examples/common/mod.rs"],[("game loop","examples/jacks-or-better.rs main"),("swap_cards, get_wager, get_swaps, payout","examples/jacks-or-better.rs")],["stdout transcript of the jacks-or-better process"])
p("C28","Any sequence of public calls behaves as the rules say and never panics or hangs",
 """Any sequence of operations on the public interface (making, parsing, comparing, sorting, hashing and printing cards, ranks, suits, decks, evaluators, evaluations, classes and errors, in any mix and any order), with any arguments that compile, returns, without panicking, what a simple model of cards and poker rules predicts.""",
 ["histories","inputs"],"every finite sequence of public calls with arbitrary arguments",
 "Each test exercises one operation in isolation.",
 ["src/lib.rs","src/card/mod.rs","src/deck.rs",EV+"mod.rs","src/error.rs"],[("whole public interface","src/lib.rs")],["every return value of a random operation sequence"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
