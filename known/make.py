#!/usr/bin/env python3
"""Writes the replay files of the known findings (the entry numbers are those `simdriver entries` prints)."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
driver = os.path.join(here, "../target/i/debug/simdriver")
entries = {l.split()[1]: int(l.split()[0]) for l in subprocess.check_output([driver, "entries"], text=True).splitlines()}
deep = {"Domain": ("(define (domain d) (:action a :parameters () :precondition " + "(not " * 4000, "(p)", ")" * 4000 + "))"),
        "GoalDefinition": ("(and " * 4000, "(p)", ")" * 4000),
        "PrefConGDs": ("(forall (?x) " * 4000, "(p)", ")" * 4000),
        "Effects": ("(forall (?x) " * 4000, "(p)", ")" * 4000),
        "Term": ("(f " * 4000, "a", ")" * 4000)}
slow = {"FExp": ("(+ " * 20, "1", " 1 1)" * 20), "FExpDa": ("(+ " * 20, "1", " 1 1)" * 20), "MetricFExp": ("(+ " * 20, "1", " 1 1)" * 20)}
for kind, cls, ts in (("deep", sys.argv[1] if len(sys.argv) > 1 else "crash:SIGABRT", deep), ("slow", "no-progress", slow)):
    for e, (a, b, c) in ts.items():
        with open(os.path.join(here, "C07-%s-%s.replay" % (kind, e)), "w") as f:
            f.write("# known finding\nclass %s\nmode seed\nhashes - -\nproperty C07\nfamily damage\ninterning 1\n" % cls)
            f.write("knobs seed=1 strategy=serial/0/0 spurious=0 between=0 entropy=1 clock=1700000000000000000 tick=1000 jitter=0\n")
            f.write("rounds 1 0\nslots 0 0\ntext %s\nthread 0\nop 0 damaged %d 0 0 9\n" % (a + b + c, entries[e]))
