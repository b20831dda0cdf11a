"""Checks whose driver carries its own model: histories on the containers."""
from .core import *

# property -> list of (label, driver source, library groups, driver args, quick cases, thorough cases)
PLAN = {
    "T01": [("", "tree.cpp", (), ["1"], 4000, 120000)],
    "T02": [("", "tree.cpp", (), ["2"], 2500, 80000)],
    "V01": [("", "static_vector.cpp", (), [], 12000, 600000)],
    "R01": [("", "trie.cpp", (), ["1"], 14000, 400000)],
    "R02": [("", "trie.cpp", (), ["2"], 11200, 300000)],
    "R03": [("", "trie.cpp", (), ["3"], 5600, 160000)],
    "A01": [("", "atom.cpp", (), [], 16000, 400000), ("known", "atom.cpp", (), ["known"], 1, 1)],
    "G01": [("", "tag_tree.cpp", ("encoding", "html"), [], 12000, 400000)],
    "D01": [("", "dom.cpp", ("encoding", "html"), [], 60000, 2000000)],
    "S01": [("", "serialize.cpp", (), ["1"], 40000, 1000000)],
    "S02": [("", "serialize.cpp", (), ["2"], 40000, 1000000)],
}
RULE = {
    "T01": "One case is a random edit history; it is non-trivial if at least two edits were applied, and cases are distinct by their event trace. States are distinct tree shapes.",
    "T02": "One case is a random edit history with a traversal from every node after each edit; distinct by event trace. States are distinct tree shapes traversed.",
    "R01": "One case is a random history on one trie kind and label type; distinct by event trace. States are distinct key sets.",
    "R02": "One case is a random history with full structural navigation; distinct by event trace. States are distinct key sets.",
    "R03": "One case is a random history with persistence round trips; distinct by event trace. States are distinct key sets.",
    "A01": "One case is a random history on one atom set; distinct by event trace. States are distinct string sets.",
    "G01": "One case is a random edit history of a document tree; distinct by event trace. States are distinct shapes with node kinds.",
    "D01": "One case is all names at one position of the tables plus one random comparison, element or node in one encoding form; distinct by event trace. States are distinct elements and nodes.",
    "S01": "One case is one random integer sequence of one width; distinct by its bytes.",
    "S02": "One case is one word list with four random inputs; distinct by words and inputs.",
    "V01": "One case is a random history on one element type and capacity; distinct by event trace. States are distinct contents.",
}
ASSUME = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library assertions and libstdc++ assertions on", "the reference model in the driver"]


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = RULE[prop]
    c.assumptions = ASSUME
    b = Build()
    plan = PLAN[prop]
    exes = b.many([dict(name=os.path.splitext(src)[0], harness=src, libs=libs, link=ICU if libs else ()) for _, src, libs, _, _, _ in plan])
    for exe, (label, src, libs, args, q, t) in zip(exes, plan):
        run = run_cases(exe, q if tier == "quick" else t, args, tier=tier, label=label)
        c.add(run, label)
    return c.finish()
