#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))

prop("C01", "Hits are the leftmost, Perl-preferred, non-overlapping matches of the pattern",
  "For every accepted pattern and every text, the hits reported are exactly the leftmost, non-overlapping matches that a backtracking Perl matcher prefers (greedy and nongreedy operators, ordered alternation, counted repetition, dot, classes, groups). No match is missed, none is invented, and start and end offsets are exact byte offsets. (Patterns repeating without bound a subexpression that can match empty are left out of the exact comparison.)",
  ["programs", "inputs"], "every valid pattern (any nesting of alternation, grouping, greedy and nongreedy, counted and unbounded repetition, literals, dot, classes), every text, and every determinisation depth",
  "The tests compare a fixed list of patterns and texts; priorities among threads interact with the optimiser, the rewriter and the code generator in combinations no list samples.",
  ["src/lib/parser.cpp", "src/lib/rewriter.cpp", "src/lib/nfabuilder.cpp", "src/lib/nfaoptimizer.cpp", "src/lib/codegen.cpp", "src/lib/compiler.cpp", "src/lib/vm.cpp"],
  [("ordered NFA transitions and pruning of branches", "src/lib/nfabuilder.cpp, src/lib/nfaoptimizer.cpp"), ("priority-ordered threads with labels, locks and match ends", "src/lib/vm.cpp"), ("parse tree reductions", "src/lib/rewriter.cpp")],
  ["hit callback of lg_search / lg_closeout_search"], "property-based testing against a backtracking reference matcher; sanitizers; coverage-guided fuzzing (thorough)",
  "Explored, not proved: about half a million generated pattern/text pairs per quick run over small alphabets chosen to collide, in ASCII, UTF-8 and UTF-16. Trusts the 150-line reference matcher and the generator's knowledge of what it renders.")

prop("C02", "Patterns searched together behave as if searched alone",
  "Compiling several patterns into one program never changes any pattern's own hits: each keyword gets exactly the hits it gets when it is the only pattern, whatever the other patterns are and in whatever order they were added, including duplicates, common prefixes, and different encodings and options. Hits carry the index of their own pattern.",
  ["programs", "inputs"], "every set of patterns, every order of adding them, every text",
  "Merging and labelling depend on how the patterns of a set overlap; tests use a few hand-made sets.",
  ["src/lib/nfaoptimizer.cpp", "src/lib/fsmthingy.cpp", "src/lib/compiler.cpp", "src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp"],
  [("merging patterns into one automaton", "src/lib/nfaoptimizer.cpp mergeIntoFSM"), ("guard labels separating patterns", "src/lib/nfaoptimizer.cpp labelGuardStates"), ("per-label match ends and liveness", "src/lib/vm.cpp")],
  ["KeywordIndex, Start, End of each hit"], "property-based testing: differential (together vs. alone vs. reordered) and against the reference matcher",
  "Explored: pattern sets of up to 8 patterns and dictionaries of up to 400 words.")

prop("C03", "Cutting a stream into buffers, and where it starts, changes no hit",
  "Feeding a text to a search context in any number of consecutive buffers (of any sizes, including empty) at any starting offset and then closing out yields, for each keyword, the same hits in the same order as one search of the whole text, shifted by the starting offset. The value each search call returns is a true lower bound on the start of any hit reported later, never exceeds the offset just past the data searched, never decreases, and equals that offset when nothing is in progress. Hits of one keyword arrive in increasing, non-overlapping order.",
  ["inputs", "histories"], "every text, every way of cutting it, every starting offset up to 2^62",
  "The number of ways to cut even one text is exponential; tests cut a handful of texts.",
  ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp"],
  [("threads carried over between buffers", "src/lib/vm.cpp Vm::search"), ("prefilter disabled near the end of a buffer", "src/lib/vm.cpp Vm::search"), ("least live start", "src/lib/vm.cpp _startOfLeftmostLiveThread")],
  ["hit callback", "return value of lg_search"], "property-based testing: metamorphic (one buffer vs. random cuts and offsets), invariant on the returned bound",
  "Explored: random cuts of random texts; the return value's tightness is decided exactly for literal patterns only.")

prop("C04", "The determinisation depth never changes results",
  "The same patterns compiled with any determinisation depth, from none to unlimited, give the same hits for search and for starts-with on every text. The depth affects only speed and program size.",
  ["programs", "inputs", "configurations"], "every set of patterns, every depth, every text",
  "The subset construction must keep priorities and labels apart; tests run most patterns at one depth.",
  ["src/lib/nfaoptimizer.cpp", "include/nfaoptimizer.h", "src/lib/fsmthingy.cpp"],
  [("priority-preserving subset construction", "src/lib/nfaoptimizer.cpp subsetDFA")],
  ["hit callback"], "property-based testing: differential between depths 0,1,2,3,4,(5,7,10,20,unlimited)",
  "Explored; depths above 4 only for pattern sets small enough to determinise quickly.")

prop("C05", "starts-with reports each keyword's preferred match at the first byte only",
  "On a fresh or reset context, lg_starts_with reports, for each keyword that matches beginning at the first byte of the buffer, exactly its preferred match there, and nothing else, however short the buffer is. It leaves the context as good as new: it can be called again, or followed by a search, without a reset.",
  ["programs", "inputs", "histories"], "every set of patterns and every buffer, of any length",
  "The early exits and the prefilter make results depend on buffer length and on the other patterns present; tests check few buffers.",
  ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp"],
  [("threads started at the first byte only", "src/lib/vm.cpp Vm::startsWith"), ("prefilter", "src/lib/vm.cpp Vm::startsWith, src/lib/utility.cpp")],
  ["hit callback of lg_starts_with"], "property-based testing against the reference matcher, with follow-up calls on the same context",
  "Explored. A context that has been searched but not reset is outside the property.")

prop("C06", "Search contexts are independent, reusable and thread-safe",
  "Any number of contexts can be created from one program, used in any interleaving of search, closeout, reset, starts-with, destruction and creation, in one thread or one per thread, and each yields exactly the hits of its own text since it was last fresh. Reset makes a context as good as new at any moment; the FSM may be discarded once the program exists; buffers may be overwritten after each call; no data races occur.",
  ["histories", "schedules"], "every history of calls on up to four contexts, and concurrent use of one context per thread",
  "Histories are unbounded, and leftovers in a context only show after particular sequences; tests use contexts once.",
  ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp", "include/sparseset.h", "src/lib/program.cpp"],
  [("reset of all per-search state", "src/lib/vm.cpp Vm::reset"), ("programs immutable once created", "src/lib/program.cpp, include/handles.h")],
  ["hit callback"], "stateful model-based property testing; ThreadSanitizer runs with concurrent contexts",
  "Explored: random histories of up to 28 calls; thread schedules are the operating system's, observed by ThreadSanitizer's happens-before analysis.")

prop("C07", "A serialised program read back is the same program",
  "Writing a program fills exactly the number of bytes announced, deterministically, and reading that image back (also after the original is destroyed) gives a program with the same size, the same image, the same pattern count and pattern information (pattern, encoding, user index), and the same hits for search and starts-with on every text.",
  ["programs", "inputs"], "every compiled set of patterns, any user indices, every text",
  "Tests round-trip a few fixed programs.",
  ["src/lib/program.cpp", "src/lib/pattern_map.cpp", "src/lib/lightgrep_c_api.cpp"],
  [("marshalling of the pattern map", "src/lib/pattern_map.cpp"), ("marshalling of the program and its filter", "src/lib/program.cpp")],
  ["lg_write_program, lg_read_program, lg_prog_pattern_info, hit callback"], "property-based round-trip testing",
  "Explored; images are read on the machine that wrote them.")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                 "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: every check builds the library or the command-line program from /repo's working tree into /verif/build and uses only its public interfaces."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
