#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("runtime monitoring: hostile workload under panic, stack, CPU time, memory and result monitors", "Generated, mutated and truncated documents in all error modes, in worker processes watched from outside for panics, stack exhaustion, endless loops and memory; no claim beyond the inputs executed."),
"C02": ("runtime monitoring: fault injection into the reader, differential oracle, descriptor monitor", "Every document is parsed in many chunkings and with read failures and ends at every byte (sampled in long ones); results are compared with those of a plain parse and open descriptors counted."),
"C03": ("runtime monitoring: race detector, memory sharing monitor, history differential", "Histories of parses and draws and concurrent parses run under the race detector; results are compared field by field, scanned for shared memory and overwritten. Schedules are those the Go scheduler produced."),
"C04": ("runtime monitoring: online checker relating the three error modes and the log", "Each document with planted unsupported constructs is parsed in all modes; results, errors and log lines are compared with what the generator planted."),
"C05": ("runtime monitoring: parsed paths checked online against an independent path interpreter", "Trusts the interpreter in harness/model.go written from the SVG grammar."),
"C06": ("runtime monitoring: geometric oracle on the curves produced for arcs", "Points of the curves are tested against the ellipse, end points, direction and extent computed independently from SVG's arc equations."),
"C07": ("runtime monitoring: geometric oracle on the outlines of shapes", "Outlines are sampled and compared in both directions with the ideal outline."),
"C08": ("runtime monitoring: parsed lengths checked online against a reference resolver", "Trusts the reference resolver (96 dpi) in harness/model.go."),
"C09": ("runtime monitoring: style of every parsed path checked online against a reference cascade", "Trusts the reference cascade in harness/model.go."),
"C10": ("runtime monitoring: transform of every parsed path checked online against a reference composition", "Trusts the reference matrices in harness/model.go."),
"C11": ("runtime monitoring: algebraic assertions on real matrix operations", "Laws are asserted with error bounds derived from the operands' magnitude."),
"C12": ("runtime monitoring: parsed colours checked online against a reference parser", "Trusts an independent table of the 147 names and the reference parser."),
"C13": ("runtime monitoring: parsed gradients checked online against a reference model", "Trusts the reference model of gradients in harness/model.go."),
"C14": ("runtime monitoring: drawing of use elements checked against the expanded document and a reference model", "Two oracles: the reference model and the parse of the document with every use written out."),
"C15": ("runtime monitoring: masks and mask lists checked online against a reference model", "Trusts the reference model of masks in harness/model.go."),
"C16": ("runtime monitoring: reported metadata checked online against a reference model", "Trusts the reference model of metadata in harness/model.go."),
"C17": ("runtime monitoring: round trip of path texts through the parser, builder calls recorded", "Texts are read by an independent reader and by the package's parser, and compared with the recorded operations."),
"C18": ("runtime monitoring: recorded drawing calls and options checked against the reference mapping", "Contexts of all three renderers record the points they receive."),
"C19": ("runtime monitoring: trace of graphic context calls checked against a specification of the trace", "A recording draw2d context; its trace of paints is compared with the one the parsed drawing demands."),
"C20": ("runtime monitoring: trace of scanner calls checked against reference strokes and gradients", "A recording rasterx scanner; outlines are compared with those the rasterx library produces for independently computed parameters, which are trusted."),
"C21": ("runtime monitoring: painted pixels checked against reference pictures", "Pictures are compared with those of a gg context driven path by path by the monitor (trusting gg's rasterizer) and with an independent point sampler of fills and masks."),
"C22": ("runtime monitoring: race detector, snapshot and repetition monitors under stress", "Sequences and concurrent draws with all renderers under the race detector, pictures and deep snapshots compared, CPU time and memory watched. Schedules are those the Go scheduler produced."),
"C23": ("runtime monitoring: fault injection into documents, the outcome watched in all error modes", "One value of a document that parses is replaced by a malformed one; every mode has to report an error."),
"C24": ("runtime monitoring: metamorphic differential oracle over XML notations", "Every document is parsed in several notations and results are compared field by field."),
"C25": ("runtime monitoring: metamorphic differential oracle over parts of documents", "Every document is parsed whole and element by element; parts are compared with the whole exactly."),
}
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": [],
 "notes": "No hooks are needed: everything is observed through the exported API, contexts and scanners handed to the renderers, the log, the readers and the process. /repo's commits are repairs only (KNOWN_FINDINGS.txt)."}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"bash run.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {k}",
      "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
