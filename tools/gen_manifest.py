#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json. Properties without an entry in CHECKS are listed as not claimed."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
EX, MC, FE = "exploration", "model_checking", "fault_enumeration"
CHECKS = {
    "C01": (EX, "exhaustive enumeration of builder programs and call histories, packaging-closure oracle",
            "Every placement of every package-relevant feature, every ordered pair of core placements, all package options and all header/footer/section call histories up to the bound are packed by the real code through both routes and judged by an independent packaging model."),
    "C02": (EX, "exhaustive enumeration of string arguments and strings, differential against the packed marker trees",
            "Every string-valued builder argument is packed with a plain marker, which shows where it is carried, and then with every string of the bounded set; every part must parse under a strict XML parser and be the marker tree with the marker replaced."),
    "C03": (EX, "bounded-exhaustive enumeration of content trees, differential against independent package and model readers",
            "Every run content in every inline and block container and every inline/block tree up to the node bound is built, packed, extracted from the package by an independent reader and read back; all three trees must agree node for node with references resolved to contents."),
    "C04": (EX, "exhaustive enumeration of formatting settings, values, ordered pairs and places against a reference model of the property containers",
            "Every setter of runs, run properties, paragraphs, paragraph properties, styles and numbering levels with every value, all ordered pairs, all settings together and every place is executed; the written containers, and those written again after reading, must equal the model's containers element for element."),
    "C05": (EX, "exhaustive enumeration of table, row, cell and section settings, values, ordered pairs and places against a reference model of the property containers",
            "Every setter of tables, rows, cells, table styles, sections and the document's page layout with every value, all ordered pairs, all settings together and every place is executed; the written containers of the object and of its neighbours, and those written again after reading, must equal the model's containers element for element."),
    "C06": (MC, "systematic exploration of thread schedules over the real code, preemption-bounded",
            "Threads constructing elements run the shipped code under a controlled scheduler that takes control at every access to process-wide mutable memory; every schedule within the preemption bound is executed and the ids handed out must differ."),
    "C07": (MC, "exhaustive enumeration of id assignments over positions and of construction/export/packing histories",
            "All id assignments over pairs and triples of positions, clones, library-made paragraphs, read-and-extend documents and all step histories up to the bound are packed; ids are collected from every part by an independent reader."),
    "C08": (EX, "exhaustive enumeration of picture placements and byte-equality patterns, byte-level oracle",
            "Every format at every position, every equality pattern (CRC-32 collisions included) of up to three pictures, caller-chosen relationship ids, read-extend-pack histories and up to 24 pictures are packed and read with and without previews; the bytes reached through references must be the bytes given."),
    "C09": (MC, "explicit-state exploration of call histories against a slot-table reference model",
            "All histories of header and footer calls on document and section up to the bound run on the real builder; after each the package and its reading are compared with the reference model's table of slots, including the title-page and even/odd switches."),
    "C10": (EX, "exhaustive enumeration of comment placements, ranges and reply forests",
            "Every content form at every range position, every acyclic parent assignment over up to three comments, and every interleaving of range marks over paragraphs is packed and read; ranges, contents and threads must agree with what was built."),
    "C11": (EX, "exhaustive enumeration of footnote placements, clones and packing routes",
            "Every position, content size, cloning pattern and way of obtaining the archive is run; the references must reach exactly the notes given, once each."),
    "C12": (EX, "bounded-exhaustive enumeration of bodies, table options and field codes against a model of the entries",
            "Every sequence of up to three body items with every range, style list, link option and position of the table is packed; the entries found in the document part must equal the model's, each must refer to one bookmark around its heading, field codes must state the options and field marks must nest in every part."),
    "C13": (FE, "exhaustive enumeration of single faults and attribute-fault pairs over packages that use the whole vocabulary",
            "Every token, attribute, byte, part, relationship, picture and archive fault is applied to every package in turn; each read must end in time and memory with a document or an error."),
    "C14": (FE, "exhaustive enumeration of cuts, tag damage and entry corruption, judged by a separate XML parser",
            "Every cut position, every removed, doubled, renamed or reversed tag and every corrupted entry byte of the judged parts is tried; all must be errors."),
    "C15": (FE, "exhaustive fault enumeration at every call of the destination, differential against an ideal destination",
            "Every call of the destination fails once, fails for good, accepts nothing, accepts a part or is interrupted, alone and in pairs, for documents of four shapes and both routes; success must mean the ideal archive and every failure must be an error."),
    "C16": (MC, "exhaustive exploration of operation histories, differential between routes, histories and fresh processes",
            "All histories of packing, building, cloning, exporting and collecting up to the bound run on documents that use every counter and table; every later archive must equal the first, and the same constructions must give the same parts in every fresh process."),
    "C17": (EX, "bounded-exhaustive enumeration of packages and their single variations, differential between read/pack cycles",
            "Every fixture, every package of the vocabulary with every single variation and every feature in every place goes through two or three cycles; the documents read and the parts written must stay the same, relationship ids and media names being compared through what they lead to."),
    "C18": (EX, "bounded-exhaustive enumeration of equivalent encodings, differential between encodings",
            "Every rewriting of the encoding at every site of packages that use the whole vocabulary, every rewriting of whole parts and of the packaging of these and of every fixture is read; the document must equal the one read from the original encoding."),
    "C19": (EX, "bounded-exhaustive enumeration of numbering definitions, uses and histories against a model of the numbering part",
            "Every level setting alone and in pairs, every small set of definitions with every link and override shape, every place and route that can use numbering and all short histories of defining, using, packing and reading are executed; the numbering part must equal the model after each packing and stay the same over further cycles."),
    "C20": (EX, "bounded-exhaustive enumeration of setter sequences and histories against a model of the parts",
            "Every setter with every value alone, after every other, in triples of representatives and in histories with packing and reading is executed; styles, defaults, settings, variables, properties, custom items and web extensions found through the relationships must equal the model, once each, and stay the same over further cycles."),
    "C21": (MC, "explicit-state exploration of event sequences against a reference model of the tree",
            "All event sequences up to the bound, deep nestings and long tags run on the real writer; the bytes must parse back to the model's tree, closing with nothing open must be refused, and every failing or short destination call is tried."),
    "C22": (EX, "bounded-exhaustive enumeration of tracked-change trees with unique authors",
            "Every paragraph tree over runs, insertions, deletions, moves and links up to the node bound, with every paragraph mark and property change, in every position, is packed and read with a different author on every change; ids are checked with the counters brought into coincidence."),
    "C23": (EX, "bounded-exhaustive enumeration of settings, contents and strings, judged by an independent JSON parser and pairwise distinction",
            "Every setting with every value in every place, every kind of content and every string argument with every string is exported; the text must parse strictly, documents that differ must differ in it and equal ones must not, and what a setting adds to the export must be there again after packing and reading."),
    "C24": (EX, "bounded-exhaustive enumeration of picture settings and their sequences against a model of the drawing",
            "Every setting with every value in every picture position, all ordered pairs of settings, all pairs of neighbouring pictures and every spelling of foreign anchors are packed, read and packed again; each stage must show what the model of the picture says."),
    "C25": (EX, "bounded-exhaustive differential enumeration of packages and flat layouts",
            "Every fixture, vocabulary package, variation and built document is read as an archive and as flat XML, and every layout choice of the flat form is combined; both readings must give the same document."),
    "C26": (EX, "bounded-exhaustive enumeration of XML trees, names and item lists, judged by an independent parser",
            "Every tree up to the bound, every combination of attribute and namespace lists and every item list is packed; the parts found through the relationships must hold the tree that was handed over."),
    "C27": (EX, "bounded-exhaustive enumeration of field codes, their settings and spellings",
            "Every kind of code with every combination of settings is packed live and deleted in every place, read back and parsed, and every order, spacing and quoting of a code is parsed; the settings must be the ones spelled."),
    "C28": (EX, "bounded-exhaustive enumeration of paragraph contents against a model of their text",
            "Every list of items and run contents up to the bound is built, packed and read; its plain text must be the model's before and after."),
    "C29": (EX, "bounded-exhaustive differential enumeration of added markup",
            "Every fragment of recorded or unmodelled markup is put into every place that can hold it, alone, in pairs and everywhere at once; the package must read like the one without."),
    "C30": (EX, "bounded-exhaustive enumeration of content controls against a model",
            "Every combination of settings, every list of children with nested controls and every pair of controls up to the bound is packed, read and packed again; settings and children must be the model's each time."),
    "C31": (EX, "bounded-exhaustive enumeration of theme and web settings parts against a model",
            "Every font group, font list and forest of divisions up to the bound is put into a package that is read as an archive and in flat form; fonts and divisions must be the model's."),
    "C32": (EX, "bounded-exhaustive enumeration of text boxes and shapes against a model",
            "Every content list, nesting, placement and shape setting up to the bound is put into a package that is read; boxes, shapes and what follows them must be the model's."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "none", "enable": "the checks use the public API only; no hooks are compiled in", "source_commits": []},
    "checks": [
        {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
         "evidence_file": f"evidence/{p}.json", "level": CHECKS[p][0], "technique": CHECKS[p][1], "level_note": CHECKS[p][2]}
        for p in props if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": "the check for this property is not built yet"} for p in props if p not in CHECKS],
    "notes": "All checks share one binary (harness/, crate mc) rebuilt from /repo's working tree by check.sh. Known findings: known_findings.txt. Design: DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
