"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "Hypothesis-generated level specs, write/read round trip against the specification minus documented loss",
    "C02": "generated levels written by the code, decoded by an independent reference decoder and compared",
    "C03": "files produced by an independent reference encoder over generated encoder plans, read by the code and compared",
    "C04": "generated levels written repeatedly, over dirty streams, at offsets, to files and after being read back; byte equality and unchanged-level oracle",
    "C05": "generated levels, new metadata and region chunkings; region bytes and full read compared, reference decoder",
    "C06": "generated variable trees, round trip plus reference codec differential",
    "C07": "generated invalid values and their valid neighbours against the documented exception",
    "C08": "model-based operation sequences on bit streams against an integer bit-array model",
    "C09": "generated primitive values against exact rational arithmetic and the reference codec",
    "C10": "generated replays, round trip and reference codec differential",
    "C11": "generated replays and independently made encodings against an independent replay codec in both directions",
    "C12": "truncation at generated points and structure-aware mutation fuzzing with an exception/termination oracle",
    "C13": "generated tiles under all symmetries against exact integer geometry",
    "C14": "generated levels under random affine symmetries against a model of every kind of content",
    "C15": "metamorphic: sequences of generated transformations against their product and inverse",
    "C16": "generated tiles and levels upscaled, against exact polygon coverage geometry",
    "C17": "generated tile layouts against an independent edge rule oracle, with recorded callbacks",
    "C18": "generated tile layouts against an independent exact-geometry join oracle",
    "C19": "stateful histories of id-affecting operations against a set model",
    "C20": "generated reference graphs, renumbered or merged, compared by tagged identity",
    "C21": "generated level pairs merged then edited, against a dictionary model",
    "C22": "generated variable trees through JSON text, round trip plus independent schema-compatibility oracle",
    "C23": "generated levels and command lines run in a scratch directory with injected failures, files compared by independent decoder",
    "C24": "generated levels and option combinations against the transformation model",
    "C25": "generated save files converted and compared with an independent migration model",
    "C26": "stateful accessor/raw-variable histories against a dictionary model over a pinned accessor table",
    "C27": "stateful operation sequences on array variables against a Python list",
    "C28": "generated equal pairs and single-attribute mutations, equality and hash laws",
    "C29": "generated matrices against exact rational affine algebra",
    "C30": "generated levels written, stored totals recomputed from the specification by independent decoding",
    "C31": "generated sequences of objects on shared streams of several kinds, positions and ownership against a model",
    "C32": "stateful histories of sprite and filth edits on several tiles against a tuple model",
    "C33": "stateful histories of creating, reading and changing objects in place against independent per-object models",
    "C34": "stateful sessions of commands run as separate processes through every entry point, differentially against in-process calls",
    "C35": "metamorphic stateful sessions: the same edits on a lived-in level and on variants reloaded, copied or rebuilt at generated checkpoints",
    "C37": "stateful sessions with generated entity classes whose hooks record their calls, against a model of positions and ids",
    "C36": "generated levels and replays built from documented names, written files decoded and independent encodings read against a table of the game's numbers",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "props", i + ".py")):
        checks.append({"property": i, "level": "exploration", "technique": "property-based testing: " + T[i],
                       "level_note": "sampled search, seeded; bounds and generators in DESIGN.md, case counts in the evidence file",
                       "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
