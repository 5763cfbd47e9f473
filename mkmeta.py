#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept together here so that they stay in step)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NAME = "src/types/name.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "state": state or [],
                          "observe_at": observe or [], "hook_needed": None}})
TBL = [{"name": "table of interned strings", "meaning": "the only state shared by all calls of a process", "where": NAME}]
WRAP = ["src/types/name.rs", "src/types/variable.rs", "src/types/predicate.rs", "src/types/type.rs", "src/types/function_symbols.rs", "src/types/action_symbols.rs", "src/types/da_symbol.rs", "src/types/pref_name.rs", "src/parsers/name.rs"]
p("C01", "A name is its text, whatever the route, thread or history",
  "A name made from a text by any public route (constructors, conversions from borrowed, owned or caller-defined strings, symbol and variable wrappers, parsers) reads back exactly that text for as long as it lives. Two names are equal, and equal names hash alike, exactly according to their texts. This holds with and without interning, whatever other threads create, clone, drop or fail to create before, meanwhile or afterwards.",
  ["schedules", "histories", "inputs", "configurations", "fault_sequences"], "All texts (empty, well-known, multi-byte, shared prefixes, differing in case), all creation routes, all interleavings of creating, cloning, comparing and dropping threads, all histories of the process, both interning configurations.",
  "The tests create a handful of names on one thread; the table of names is process-wide and its content depends on everything created before, by any thread.",
  WRAP, [("sorted table searched by text, inserted under a lock", NAME + " new_string_interned"), ("equality and hash by text", NAME + " PartialEq/Hash of NameVariant"), ("constant names bypass the table", NAME + " map_to_static")], TBL, ["Deref, AsRef, Display, len, is_empty, ==, Hash of Name and the wrapper types"])
p("C02", "Equal interned names that are alive share one storage",
  "With interning enabled, any two names with the same text that are alive at the same time and were both made through deduplicating routes (including those inside parsed values) hold their text at the same address. No interleaving of creations, clones and drops and no failed creation makes a second copy.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of threads creating, cloning and dropping equal names, by all deduplicating routes, and all histories before.",
  "The documented deduplication is asserted by no test across threads or histories: a second copy needs a race between search and insertion or an order of texts that a handful of names does not produce.",
  WRAP, [("search and insertion in one critical section", NAME + " new_string_interned"), ("reference-counted strings", NAME + " InternedString")], TBL, ["address of the text of live names"])
p("C03", "A failing call harms nobody else",
  "When a caller's own code (string conversion, iterator or hasher) panics, or memory for one creation or parse cannot be had, that call alone fails, and it fails with exactly that panic. Every other call, earlier, concurrent or later, on this thread or another, including calls made while a stack unwinds or a thread ends, gives the result it gives without the failure.",
  ["fault_sequences", "schedules", "histories"], "All moments at which the caller's code may panic or an allocation fail, in any number and combination, under all interleavings with other creations and parses.",
  "No test injects a failure; the effect of one shows only in later or concurrent calls.",
  WRAP + ["src/parsers/mod.rs"], [("lock poisoning ignored, caller code outside the critical section", NAME + " new_string_interned")], TBL, ["results and panics of Name::new, From, Parser::parse"])
p("C04", "Creating names never deadlocks and never waits for a caller's code",
  "A creation of a name ends after a bounded number of its own steps once it is scheduled, under every interleaving. This holds even when the caller's code it runs (a conversion, an iterator, a hasher) itself creates or parses names, and when such code of another thread never returns.",
  ["schedules", "fault_sequences", "histories"], "All interleavings, spurious wake-ups, and all points at which a thread may be suspended in the caller's code, re-enter the library, or be preempted.",
  "A deadlock or a wait for a stalled thread needs a conversion that re-enters or stalls at the moment another call runs; no test has two threads.",
  [NAME, "src/types/variable.rs", "src/types/predicate.rs"], [("short critical section without caller code", NAME + " new_string_interned")], TBL, ["return of Name::new and the parsers"])
p("C05", "A parse depends on its text alone",
  "Parsing a text gives the value, remainder or error (with its positions) that it gives as the only call of a fresh process. Nothing that happened before or happens concurrently changes this: other parses on any thread, failed or abandoned parses, names, reuse of the buffer the text was in, the clock, or the length of the history.",
  ["histories", "schedules", "inputs", "fault_sequences"], "All histories and interleavings of parses and name creations before and during the parse, all entry points, all input buffers (fresh or reused), with and without interning.",
  "The tests parse each text once, from a constant, in one order; results that leak from an earlier parse, a buffer address or another thread cannot show.",
  ["src/parsers/mod.rs", "src/parsers/domain.rs", "src/parsers/problem.rs", "src/parsers/name.rs", NAME], [("parsers without state of their own", "src/parsers"), ("values own their text", NAME)], TBL, ["Parser::parse, Parser::from_str and the parse_* functions"])
p("C06", "A torn domain or problem file is always rejected",
  "If a well-formed domain or problem text is cut anywhere before the parenthesis that closes it, and the lost tail is missing, zeroed, blank, garbage without a closing parenthesis, or (once a parenthesis is open) a line break followed by other text with balanced parentheses, such as another document, then parsing it as a domain or problem fails. No crash of a writer can thus turn a document into a smaller valid one.",
  ["crash_points", "inputs"], "All well-formed documents, all cut points, and the listed contents of the lost tail.",
  "The tests parse complete documents; none cuts one, and the cut that a lenient parser accepts depends on the document.",
  ["src/parsers/domain.rs", "src/parsers/problem.rs", "src/parsers/utilities.rs"], [("balanced parentheses around every section and the whole", "src/parsers/utilities.rs parens, prefix_expr")], None, ["Domain and Problem parsers"])
p("C07", "Damaged documents are answered, never fatal",
  "Whatever storage faults do to a document (flipped bits, lost, doubled, swapped, misplaced, zeroed or foreign blocks, torn or spliced files), parsing it returns a value or an error after a number of steps bounded by the length of the text, without panic, abort or request for more input. Every position reported lies within the text on the right line, and the remainder of a success is the end of the text.",
  ["fault_sequences", "inputs"], "All chains of the listed faults on documents for all parser entry points, and large regular documents.",
  "The tests use well-formed texts; the byte that makes an unwrap, a slice or a recursion fail is rare.",
  ["src/parsers/mod.rs", "src/parsers/number.rs", "src/parsers/comments.rs", "src/parsers/utilities.rs", "src/types/number.rs"], [("errors as values", "src/parsers ParseResult"), ("numbers out of range rejected", "src/parsers/number.rs"), ("comments skipped in a loop", "src/parsers/comments.rs")], None, ["result and positions of every parser entry point"])
p("C08", "A fatal failure of a caller's element parser ends the parse unchanged",
  "The public combinators that take a caller's element parser (typed lists, function typed lists, literals, atomic formulae, optional parentheses) return a fatal error, a request for more input, or a panic of that parser to their caller unchanged, and do not call it again. A recoverable error only ends the list or alternative as the grammar says.",
  ["fault_sequences", "inputs"], "All element parsers that fail in one of these ways at any of their calls, all texts, all nestings of the combinators.",
  "No test passes a combinator a parser that fails fatally.",
  ["src/parsers/typed_list.rs", "src/parsers/function_typed_list.rs", "src/parsers/literal.rs", "src/parsers/atomic_formula.rs", "src/parsers/empty_or.rs", "src/parsers/utilities.rs"], [("only recoverable errors are tried again", "nom's alt, many0, separated_list used by the combinators")], None, ["typed_list, function_typed_list, literal, atomic_formula, empty_or"])
p("C09", "Repeating the same work does not use up memory",
  "A program that repeats the same creations, parses, clones and drops, failures included, holds the same amount of memory after each repetition from some early one on. What is dropped is given back, apart from a bounded table of names.",
  ["histories", "schedules", "fault_sequences"], "All programs of the library's operations, on any threads, with panicking conversions and failing allocations, repeated any number of times.",
  "No test looks at memory, and a leak needs a repetition, a failure path or a race to show.",
  [NAME, "src/parsers/mod.rs", "src/types/typed.rs", "src/types/domain.rs"], [("names found in the table are shared, not added again", NAME + " new_string_interned"), ("owned values without cycles", "src/types")], TBL, ["live bytes and blocks of the heap"])
p("C10", "Parsed values are independent of each other and of their input",
  "A parsed value, its clones and the values built from it can be read, compared, taken apart, shared between threads and dropped in any order, and every other one stays what it was, equal to what it was cloned from, even if memory runs out meanwhile. Put together again from its parts it is equal to itself. Overwriting or freeing the text it was parsed from changes nothing, and all public value types can be sent to and shared between threads.",
  ["schedules", "histories", "inputs"], "All orders and interleavings of cloning, sharing, rebuilding, iterating, comparing and dropping of values of all entry points, on any threads, while input buffers are reused and allocations fail.",
  "The tests look at each value once, right after making it, while its text is still there.",
  ["src/types/domain.rs", "src/types/problem.rs", "src/types/name.rs", "src/types/typed.rs"], [("values own all they refer to", "src/types"), ("builders take and return owned values", "src/types/domain.rs with_*")], None, ["Clone, PartialEq, Debug, accessors and with_* of the value types"])
p("C13", "White space and comments do not change the result",
  "Changes that text-mode transfers, editors and formatters make to a file do not change what it parses to: other line ends (LF, CR LF, CR), tabs for blanks and back, blanks or blank lines added or taken away where there is white space, blanks before line ends, white space before a closing parenthesis removed, comments changed to any text (also none at all), extended by more comment lines or removed, and comments put in wherever white space stands (after it, or before it, directly behind a part; but behind `minimize` and `maximize` only after it), before a section and before the end of a definition.",
  ["inputs", "fault_sequences"], "All accepted texts of all entry points, all chains of such changes at all or some places.",
  "The tests use one layout each, without comments in most places.",
  ["src/parsers/utilities.rs", "src/parsers/comments.rs", "src/parsers/typed_list.rs", "src/parsers/con_gd.rs"], [("ws, multispace1, prefix_expr, parens, space separated lists", "src/parsers/utilities.rs"), ("comments skipped like white space", "src/parsers/comments.rs")], None, ["result of every parser entry point"])
p("C22", "What follows a text does not change it",
  "Whatever stands behind a complete construct (the rest of a longer file it was written over, another document, zeroed or foreign blocks, stray parentheses), parsing gives the same value, and the remainder begins where the construct ends, give or take white space and comments. After a construct that does not end with a parenthesis this holds if a blank, a line end or a parenthesis comes next.",
  ["inputs", "fault_sequences"], "All accepted texts of all entry points, all that may follow them.",
  "Most tests parse a text that ends where the construct ends.",
  ["src/parsers/mod.rs", "src/parsers/domain.rs", "src/parsers/problem.rs", "src/parsers/utilities.rs", "src/parsers/typed_list.rs"], [("each parser takes its own construct and returns the rest", "src/parsers ParseResult")], None, ["result and remainder of every parser entry point"])
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA.append({"property": id, "reason": reason})
PURE = "A pure function of its argument: no schedule, clock, I/O, fault or history can influence it, so simulation would be input generation under another name. "
p("C23", "Printing into a failing sink reports it and harms nothing",
  "Printing a public value (Debug, also alternate and with width or precision; Display of the keyword types) writes the same text to every sink. If the sink refuses at any write, printing stops there and reports an error; if it panics, the panic passes through unchanged; if it prints or makes names itself, or never returns, nobody else is disturbed. What is printed afterwards, on any thread, is whole again.",
  ["fault_sequences", "schedules", "inputs"], "All values and ways to print them, all places where the sink may fail, all threads that print at the same time.",
  "The tests print into strings only, which never fail.",
  ["src/types/name.rs", "src/types/requirement.rs", "src/types/number.rs", "src/types/assign_op.rs", "src/types/binary_op.rs"], [("Debug and Display of names write the text", NAME + " NameVariant"), ("derived Debug and the Display implementations", "src/types")], None, ["Debug and Display of the value types"])
na("C11", "Every domain of the grammar is parsed to its own structure", "Every text derivable from the documented PDDL 3.1 grammar for domains is accepted as a whole, and the value contains each section, in order, with the names, types and nesting of the text. Texts outside the grammar are rejected.", ["inputs"], "All texts.", "Tests cover a few documents.", ["src/parsers/domain.rs", "src/parsers/structure_def.rs"], [("parser per production", "src/parsers")], PURE + "That results do not depend on anything but the text is C05.")
na("C12", "Every problem of the grammar is parsed to its own structure", "Every text derivable from the documented grammar for problems is accepted as a whole, and the value contains its objects, initial state, goal, constraints, metric and length as written.", ["inputs"], "All texts.", "Tests cover a few documents.", ["src/parsers/problem.rs", "src/parsers/init_el.rs"], [("parser per production", "src/parsers")], PURE)
na("C14", "Typed lists give every element its type", "Every element of a typed list has the type that follows it next, elements of the untyped tail have the implied type, and order is kept.", ["inputs"], "All lists.", "Tests cover short lists.", ["src/parsers/typed_list.rs", "src/types/typed.rs"], [("typed_list", "src/parsers/typed_list.rs")], PURE)
na("C15", "Keywords and enumerations convert both ways", "Every keyword parses to one enumeration value whose text form is that keyword, and no other text does.", ["inputs"], "All keywords and texts.", "Finite; tests cover most.", ["src/types/requirement.rs", "src/types/binary_op.rs"], [("names module", "src/types")], PURE)
na("C16", "Requirements imply what the standard says", "Expanding a requirement gives the set of requirements it stands for according to the standard, and testing for one agrees with the expansion.", ["inputs"], "All subsets of requirements.", "Tests cover some requirements.", ["src/types/requirement.rs"], [("expand, contains", "src/types/requirement.rs")], PURE)
na("C17", "Numbers have a consistent equality, order and hash", "Equality of numbers is an equivalence, their order is total and agrees with it, and equal numbers hash alike.", ["inputs"], "All pairs and triples of numbers.", "Tests compare a few.", ["src/types/number.rs"], [("OrderedFloat-like comparison", "src/types/number.rs")], PURE)
na("C18", "Conjunctions flatten and iterate in order", "Conversions and iterators of goal, effect and constraint lists yield exactly their elements, in order, whether or not a single one is wrapped in a conjunction.", ["inputs"], "All values.", "Tests cover short lists.", ["src/types/pre_gd.rs", "src/types/effects.rs", "src/types/pref_con_gd.rs"], [("iter, try_get, into", "src/types")], PURE)
na("C19", "Builders and accessors are inverse", "What is set with a builder method is what the accessor of the same name returns, and nothing else changes.", ["inputs"], "All values.", "Tests call some.", ["src/types/domain.rs", "src/types/problem.rs"], [("with_*", "src/types")], PURE + "That building from a clone leaves the original alone is part of C10.")
na("C20", "Every combination of crate features builds", "The crate compiles and passes its tests under every combination of its features.", ["configurations"], "All subsets of features.", "Tests run under one.", ["Cargo.toml", "src/lib.rs"], [("cfg attributes", "src/lib.rs")], "A property of compilation, not of an execution that could be simulated.")
na("C21", "Parsing takes time linear in the text", "The time of a parse grows at most linearly with the length of the text for bounded nesting.", ["inputs"], "All texts.", "No test measures time.", ["src/parsers"], [("recursive descent", "src/parsers")], "Simulation decides nothing about performance; C07 and C04 only bound steps generously to tell an end from none.")

LEVEL = "Seeded search: holds on everything simulated, a sample of schedules, faults and texts, not a proof. "
NOTES = {
 "C01": LEVEL + "Oracle: the text each name was made from (a one-line model), checked after every operation on any thread, with own equality, hash and reading of every wrapper type.",
 "C02": LEVEL + "Oracle: addresses of all live interned names with equal text. Interning build only (the property is about interning).",
 "C03": LEVEL + "Oracle: the model of C01/C02/C05 for all calls but the one hit; every suspect run is repeated without its faults and counts only if it then passes.",
 "C04": LEVEL + "Oracle: scheduler knows who waits for whom; a wait with nobody left to end it, a wait for a call stalled in caller code, or more than 3 million own steps (plus 10,000 for each name made so far) is a violation, once every other runnable thread has had its turns.",
 "C05": LEVEL + "Oracle: the same parse as the only call of a newly forked process.",
 "C06": LEVEL + "Oracle: rejection; documents come from a generator of well-formed texts (about 99 % accepted uncut; only those count).",
 "C07": LEVEL + "Oracle: an outcome within 2,000,000 + length * (30,000 + 800 * nesting^2) steps (worst measured on accepted and damaged texts: a third of half of that) and positions recomputed from the text. Nesting at most 60, arithmetic nesting at most 5: beyond are the known findings.",
 "C08": LEVEL + "Oracle: identity of the injected error (position, kind) or panic payload and the number of calls made after it.",
 "C09": LEVEL + "Oracle: exact live bytes and blocks of the simulated heap after each of 12 to 24 equal rounds; growth counts if the least of the last three exceeds the greatest of rounds 4 to 6.",
 "C13": LEVEL + "Oracle: the value of the same text before the change, in the same process; only texts accepted whole before it count (about 98 %).",
 "C22": LEVEL + "Oracle: the value of the text alone, in the same process, and the place of the remainder.",
 "C23": LEVEL + "Oracle: what the same value prints into a string just before and after; the sink itself knows whether it refused and what came later.",
 "C10": LEVEL + "Oracle: digest of each value when it was parsed, pairwise equality, and equality with what is put together again from its parts.",
}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        if not x["anchors"]["state"]: del x["anchors"]["state"]
        if not x["anchors"]["observe_at"]: del x["anchors"]["observe_at"]
        for q in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + q), q
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                 "technique": "deterministic simulation with fault injection (seeded schedules, simulated futexes, clock, entropy, heap)",
                 "level": "exploration", "level_note": NOTES[i]} for i in NOTES],
     "not_applicable": NA,
     "notes": "No hooks in /repo: the seams lie below the library (control-flow callbacks added by the compiler, futex, clock, entropy and allocator symbols). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
