#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "W": "TLA+ specification of the wire format (spec/Wire.tla), checked with TLC (spec/MCWire.tla, spec/MCVarint.tla); messages enumerated by TLC are replayed into generated code and recorded encodings/decodings are validated by TLC (spec/WireTrace.tla)",
 "C": "TLA+ specification of schemas (spec/Schema.tla: numbering, scopes, name lookup) checked with TLC (spec/MCSchema.tla, spec/MCResolve.tla), whose enumerated schemas and worlds are replayed into the real compiler, and seeded recordings of the compiler validated by TLC (spec/SchemaTrace.tla)",
 "C06": "TLA+ specification of the generated declarations (spec/CodeGen.tla, spec/Schema.tla); every documented type enumerated by TLC (spec/MCTypes.tla) and seeded projects are generated by the real compiler, compiled by rustc, and the recorded items validated by TLC (spec/SchemaTrace.tla)",
 "M02": "TLA+ specification of numbering (spec/Schema.tla) checked with TLC (spec/MCSchema.tla), whose enumerated schemas are replayed into the real suggestion functions, validated by TLC (spec/SchemaTrace.tla)",
}
T["F"] = "TLA+ specification of the language (spec/Syntax.tla: the texts of a schema, exact in every optional space, escape and separator, and the range of every element), enumerated by TLC (spec/MCSyntax.tla: every construct in every layout deviation) and replayed into the real parser and formatter; seeded recordings of parser and formatter validated by TLC (spec/SyntaxTrace.tla)"
T["L"] = "TLA+ specification of the language server as its client sees it (spec/Lsp.tla: positions in the three encodings, edits, what is owed after every conversation, what is shown of a schema), model checked and enumerated with TLC (spec/MCLspEdit.tla: edit histories, spec/MCLspTalk.tla: conversations, spec/MCSyntax.tla: documents) and replayed over stdio into the real server; these and seeded recordings are validated by TLC (spec/LspTrace.tla)"
T["K"] = "TLA+ specification of projects and the tool (spec/Project.tla: glob patterns, ignore rules, directory trees; spec/Tool.tla: what formatting, checking and building do to a tree), model checked and enumerated with TLC (spec/MCProject.tla, spec/MCTool.tla), replayed on real directories with the real library and binary; these and seeded recordings are validated by TLC (spec/ToolTrace.tla)"
T["M01"] = "TLA+ specification of the sizes values can have, derived from the wire format and checked against it with TLC (spec/Meta.tla, spec/MCMeta.tla), whose enumerated types are replayed into the real size information; these and seeded recordings are validated by TLC (spec/MetaTrace.tla)"
T["G"] = "TLA+ specification of the Go packages a schema stands for (spec/GoGen.tla: names, types, and the code of constructors, encoders, decoders and size functions as trees), with names and types enumerated by TLC (spec/MCGo.tla, spec/MCTypes.tla) and replayed into the real generator, whose output is parsed with Go's own parser and validated by TLC (spec/GoTrace.tla)"
T["D"] = "TLA+ specification of the documentation a schema stands for (spec/DocGen.tla: pages, paths, links, listed items, and the declaration, sizes and next identifiers shown on each), with names and types enumerated by TLC (spec/MCDoc.tla, spec/MCTypes.tla) and replayed into the real generator and command, whose pages are read back and validated by TLC (spec/DocTrace.tla)"
N = {
 "D": "bounded: every definition, name and type up to the bounds of the models, plus seeded random schemas and projects; the specification decides each set of pages exactly",
 "G": "bounded: every identifier and every type up to the bounds of the models, plus seeded random projects; the specification decides each package exactly",
 "K": "bounded: all trees, patterns, rules and command sequences of the model up to its bounds, plus seeded random ones on real directories; the specification judges each outcome exactly",
 "L": "bounded: all edit histories and conversations of the model up to its bounds, plus seeded random ones; the specification judges each answer exactly",
 "F": "bounded: every construct with every single layout deviation from TLC, plus seeded random schemas, layouts and damaged texts; the specification decides each of them exactly",
 "C": "bounded: exhaustive small schemas and worlds from TLC plus seeded random larger ones; the specification is exact for all of them",
 "M": "bounded: exhaustive small schemas from TLC plus seeded random larger ones",
 "W": "bounded: seeded random schemas and values plus a fixed catalogue of every type in every position; the specification is exact for all of them",
}
exec(open(os.path.join(V, "tools", "notes.py")).read())
done = DONE
checks = []
for p in props:
    if p in done:
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "technique": T.get(p, T.get(p[0])), "level": "model_checking", "level_note": N.get(p, N.get(p[0]))})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in done]
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "none", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
