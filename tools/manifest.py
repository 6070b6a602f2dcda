#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "Random circuits over the whole AST and all short texts of the grammar models are printed and read back by the library; printed text and result are judged by the parser machine of the specification.",
    "C02": "Texts in random layouts and the accepted texts of the grammar models are parsed by the library and by the parser machine; both must denote the same modules.",
    "C03": "Mutated texts and all kinds of near misses enumerated by the grammar models; the parser machine decides what is malformed.",
    "C04": "TLC checks on all short texts that layout does not matter to the parser machine; sets of layouts of one text are read by the library and compared with the machine.",
    "C05": "TLC checks nested contexts against a flat list of additions for all short histories; histories and texts full of equal names are replayed.",
    "C06": "TLC checks the iterator machine for all short histories of next/add on all short texts; histories are replayed on Modules.",
    "C07": "TLC checks the consumer machine for all short sequences of modules and errors, and UTF-8 validity for all short sequences of boundary bytes; both are replayed, as are chunked and failing streams.",
    "C08": "TLC checks termination and order of the printing machine for all small instantiation graphs; the graphs are printed by the library and the printed order is judged.",
    "C09": "TLC checks the laws for all pairs and triples of a universe of types; all pairs and random variations are replayed.",
    "C10": "As C09, for combining; fixed-point widths over all extremes.",
    "C11": "TLC checks the typing rules against the values of all small widths and legality at the extremes; operand combinations are replayed.",
    "C12": "TLC checks typing and blame over all expressions of bounded depth over declarations of every kind; they are replayed, as are random ones.",
    "C13": "TLC checks flow against the leaf-oriented type of the root for all access paths of bounded depth; they are replayed, as are random ones.",
    "C14": "TLC checks directions, masks and address widths of all short port lists; they are replayed.",
    "C15": "TLC checks writing and reading of all short strings over the special characters; they are replayed in every context.",
    "C16": "TLC checks the digit-string arithmetic against integers; every numeral is replayed at every place where a number may stand.",
    "C17": "All texts of the models, mutated texts and garbage run under catch_unwind, a timeout and process isolation; the iterator must end and repeat its outcome.",
    "C18": "Traversals over the modules of the models and random ones are compared with those of the specification.",
    "C19": "TLC checks frame conditions for all short histories of builders; they are replayed.",
    "C20": "Malformed texts of the models and mutated ones at several offsets; the parser machine knows where the fault is.",
    "C21": "TLC checks that every part of a universe of parts is written as text which is read as that part again; the parts of the model and random ones are printed by the library and the text is judged by the grammar of the specification.",
    "C22": "Pairs of parts, modules and circuits - all pairs of samples of the model, random documents and copies changed at one place - are built separately and compared by the library; the specification says which are the same.",
    "C23": "TLC checks a printer of nested pieces against targets of every capacity; circuits, parts and errors are printed by the library into such targets and what the target saw is judged by the same machine.",
}
TRUST = " Trusted: TLC, the specification in /verif/spec, the harness's reading of the public interface. Sampled beyond the bounds of the models."

checks = [{
    "property": p,
    "quick_cmd": "python3 check.py %s --tier quick" % p,
    "thorough_cmd": "python3 check.py %s --tier thorough" % p,
    "technique": "TLA+ specification checked with TLC; its behaviours replayed on the library and observations checked against it",
    "level": "model_checking",
    "level_note": NOTES[p] + TRUST,
} for p in sorted(NOTES)]
doc = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public interface of the crate. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
