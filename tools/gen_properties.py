#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "docx-core/src/documents/"
R = "docx-core/src/reader/"

prop("C01", "Every packed archive is a closed, unambiguous OPC package",
 "In every archive the library packs, part names are unique, every internal relationship target and every content-type override names a part that is present, every part has the content type its role requires, and relationship ids are unique within each relationship part. Every relationship id used inside a part resolves, in that part's own relationship part, to a relationship of the kind the using element needs, and every part that carries something the document uses is reachable from the package root.",
 ["programs", "configurations"],
 "all combinations and orders of up to three content features (links, pictures, comments, footnotes, numbering, headers/footers, sections, table of contents, custom XML, custom properties, task panes, web extensions) at every nesting position the builder offers, plus the two-, three- and eleven-fold repetitions of each feature",
 "The snapshot tests each compare one hand-picked document; relationship bookkeeping is spread over counters and hand-written walkers whose gaps only show for particular feature pairs, nestings and counts that no test composes.",
 [D+"mod.rs", D+"document_rels.rs", D+"content_types.rs", D+"rels.rs", D+"xml_docx.rs", "docx-core/src/zipper/mod.rs", D+"image_collector.rs"],
 [("dependency collection before packing", D+"mod.rs"), ("relationship and content-type counters", D+"document_rels.rs"), ("part emission", "docx-core/src/zipper/mod.rs")],
 state=[("relationship tables", "id/type/target triples per source part", D+"document_rels.rs"), ("content-type table", "override per part name", D+"content_types.rs")],
 observe=["bytes written by pack"])

prop("C02", "Any string handed to the builder yields well-formed XML carrying that string",
 "Whatever text a caller passes to any string-valued builder argument, every part of the packed archive is well-formed XML with all namespace prefixes declared and no duplicate attributes. Decoding the element or attribute that carries the argument gives back exactly the caller's text, markup characters, entity look-alikes, quotes and surrounding blanks included. Only line breaks in run text, carriage returns and characters XML cannot represent may be left out.",
 ["inputs", "programs"],
 "every string-valued builder argument (about 140) x every host part x both output routes x every string up to length 2 (3 in the thorough tier) over an alphabet of markup, quoting, blank, control, non-ASCII and astral characters, plus 60 longer look-alikes (entities, CDATA, comments, tags, URLs); every ordered pair of paragraph-level arguments",
 "Tests use plain ASCII in nearly every slot; escaping is decided per call site, so each slot has to be tried with each metacharacter.",
 [D+"elements", D+"doc_props/core.rs", D+"doc_props/custom.rs", D+"settings.rs", D+"webextension.rs", "docx-core/src/escape/mod.rs", "docx-core/src/xml/writer.rs"],
 [("escaping at construction or at emission", "docx-core/src/escape/mod.rs"), ("XML emission", "docx-core/src/xml/writer.rs")],
 observe=["bytes written by pack"])

prop("C03", "A document's content structure survives packing and reading back",
 "Reading a packed document returns the same content tree: the same paragraphs, runs, text, breaks, tabs, fields, tracked-change wrappers, links, bookmarks, content controls, tables, rows, cells and sections, in the same order and with the same nesting and text. Nothing is lost, duplicated, reordered or moved to another parent.",
 ["programs"],
 "every tree of the builder's containers and leaves up to depth 4 and width 2 over the stated vocabulary, every ordered pair of sibling kinds in every container, every leaf with every value of its arguments and every run of up to three contents",
 "Tests round-trip a few fixture documents; whether a given leaf survives inside a given chain of containers depends on separate reader and writer code per container kind.",
 [R+"document.rs", R+"paragraph.rs", R+"run.rs", R+"table_cell.rs", R+"structured_data_tag.rs", R+"insert.rs", R+"delete.rs", R+"hyperlink.rs", D+"document.rs"],
 [("per-container writers", D+"elements"), ("per-container readers", R)],
 observe=["bytes written by pack", "value returned by read_docx"])

prop("C04", "Run and paragraph formatting is written exactly and read back unchanged",
 "Each run- and paragraph-formatting setting, with each of its values and in combination with any other setting, is emitted as the WordprocessingML element and attributes the standard assigns to it, once, inside the right property container and in no other place. Reading the package and packing it again emits the same settings.",
 ["configurations", "inputs"],
 "every formatting setter of runs and paragraphs x every enum value and boundary number, alone and in all ordered pairs, in every host (body, table cell, header, footer, footnote, comment, style, numbering level, tracked change)",
 "Snapshot tests fix the output of a few settings one at a time; dropped, swapped or cross-talking values only show for particular values, pairs and hosts.",
 [D+"elements/run_property.rs", D+"elements/paragraph_property.rs", R+"run_property.rs", R+"paragraph_property.rs", "docx-core/src/types", "docx-core/src/xml_builder/elements.rs"],
 [("property writers", D+"elements"), ("property readers", R), ("enum codecs", "docx-core/src/types")],
 observe=["bytes written by pack", "bytes written after read_docx and pack"])

prop("C05", "Table, row, cell, section and page settings are written and read back exactly",
 "Each table, row, cell, section and page-layout setting, with each of its values and in combination with any other, is emitted as the WordprocessingML element and attributes the standard assigns to it, in the right property container, and no setting disturbs another. Reading the package and packing it again emits the same settings.",
 ["configurations", "inputs"],
 "every setter of tables, rows, cells, sections and page layout x every enum value and boundary number, alone and in all ordered pairs, for nested tables and for first/middle/last sections",
 "Snapshot tests cover single settings with one value each; the reader side is only exercised by fixtures.",
 [D+"elements/table_property.rs", D+"elements/table_cell_property.rs", D+"elements/table_row_property.rs", D+"elements/section_property.rs", R+"table_property.rs", R+"table_cell_property.rs", R+"section_property.rs"],
 [("property writers", D+"elements"), ("property readers", R)],
 observe=["bytes written by pack", "bytes written after read_docx and pack"])

prop("C06", "Identifiers drawn automatically are distinct under every thread schedule",
 "When several threads construct elements that receive an automatic identifier (tracked changes and property changes, external links, pictures, footnotes, generated heading bookmarks), no two elements of the same identifier space ever receive the same identifier. This holds however the threads are interleaved and whichever kinds of element share a space.",
 ["schedules"],
 "all interleavings within a preemption bound (3 for one draw each, 2 for two draws each and for three threads; more in the thorough tier), with a scheduling point at every access to process-wide mutable memory, for every ordered pair of element kinds that share an identifier space",
 "The tests run the generators from one thread at a time; under cfg(test) most generators are replaced by constants, so the shipped generators are never exercised at all.",
 [D+"bookmark_id.rs", D+"footnote_id.rs", D+"history_id.rs", D+"hyperlink_id.rs", D+"pic_id.rs", D+"paragraph_property_change_id.rs", D+"toc_key.rs"],
 [("process-wide counters", D+"history_id.rs")],
 state=[("counters", "next identifier to hand out", D+"history_id.rs")],
 observe=["identifiers visible in the constructed elements"])

prop("C07", "Paragraph ids are unique within a package and references to them agree",
 "After packing, every paragraph in the document, header, footer, comment and footnote parts carries a paragraph id, and no two paragraphs anywhere in the package carry the same hexadecimal number, even when the caller reused, cloned, emptied or set ids by hand or the library added the paragraph itself. Ids the library draws have eight hexadecimal digits in the range 00000001..7FFFFFFF, an id that was given to one paragraph only is left alone, and every paragraph id kept in the comment-extension part names an existing comment paragraph.",
 ["programs", "histories"],
 "all assignments of {automatic, fixed, fixed in other case, empty, first automatic value, free text} ids to two paragraphs at any positions the builder offers and three at core positions, clones of every position, and all histories of up to five construction, export and packing steps",
 "Uniqueness is global over all parts, so it depends on which positions two colliding paragraphs occupy; tests look at one pair.",
 [D+"mod.rs", D+"paragraph_id.rs", D+"elements/paragraph.rs", D+"comments_extended.rs"],
 [("collision scan and refresh before packing", D+"mod.rs"), ("allocation", D+"paragraph_id.rs")],
 observe=["w14:paraId attributes in all packed parts"])

prop("C08", "Every picture shows its own bytes in the packed file and after reading",
 "For every picture placed anywhere in the body, a header or a footer, its embed reference leads to a media part whose bytes are exactly the picture's bytes, and pictures with different bytes never share a media part while equal bytes are stored once. Reading the package returns each referenced image's bytes unchanged whether or not previews are requested, and requesting no preview returns an empty preview.",
 ["programs", "inputs", "configurations"],
 "all placements of up to three pictures over the picture positions, all equality patterns among their bytes including equal length and equal CRC-32, all image formats, both preview options",
 "Tests place one or two pictures in fixed places; mixing bytes up needs particular coincidences between parts, ids and contents.",
 [D+"image_collector.rs", D+"elements/pic.rs", "docx-core/src/zipper/mod.rs", R+"read_docx.rs", D+"mod.rs"],
 [("media registry and per-part relationships", D+"image_collector.rs"), ("media emission", "docx-core/src/zipper/mod.rs"), ("image loading", R+"read_docx.rs")],
 observe=["media parts and image relationships", "images returned by read_docx"])

prop("C09", "Each section shows exactly the headers and footers it was given",
 "For every sequence of header and footer calls on the document and its sections, each section's default, first-page and even-page reference leads to a part with exactly the content last given for that slot of that section, and slots never given have no reference. First-page slots switch the section's title page on and even-page slots switch even/odd headers on, and reading back attributes the same content to the document's own slots.",
 ["histories"],
 "all call histories up to length 4 over the six slots of the document and of up to two sections, repeated calls included, plus eleven-or-more header configurations",
 "Association is by position between counters and an iteration order, so it depends on the order of calls; tests use one order.",
 [D+"mod.rs", D+"document.rs", D+"elements/section.rs", D+"elements/section_property.rs", D+"document_rels.rs", "docx-core/src/zipper/mod.rs"],
 [("relationship ids handed out per call", D+"mod.rs"), ("parts written in iteration order", D+"xml_docx.rs")],
 state=[("header/footer counters", "numbers used for part names and relationship ids", D+"document_rels.rs")],
 observe=["w:headerReference/w:footerReference to part content"])

prop("C10", "Comments keep their range, content, author, date and thread",
 "For every placement of comment ranges, the packed comments part holds each referenced comment exactly once with its id, author, date and content, the range markers and the reference mark carry that id in the place the caller put them, and a reply names its parent's paragraph in the comment-extension part. Reading back attaches the same comment to the same range and restores every parent link, and exactly the comments that were resolved stay resolved.",
 ["programs"],
 "all placements of up to three comments over the comment positions x all parent forests over them x one or two paragraphs or a table per comment x every subset of them resolved",
 "Threading combines three parts and depends on nesting, order and paragraph counts; tests cover one reply in one paragraph.",
 [D+"mod.rs", D+"comments.rs", D+"comments_extended.rs", D+"elements/comment.rs", D+"elements/comment_range_start.rs", R+"comment.rs", R+"comments.rs", R+"read_docx.rs"],
 [("comment collection and thread linking", D+"mod.rs"), ("thread reconstruction", R+"read_docx.rs")],
 observe=["comments and commentsExtended parts", "value returned by read_docx"])

prop("C11", "Footnote references and footnote bodies correspond one to one",
 "Every footnote reference in the packed document leads to exactly one footnote whose content is what the caller attached, no footnote is duplicated or missing, footnote ids are distinct and differ from the two reserved separator notes. This holds wherever a reference is placed and however often the document value is cloned, dependency-collected or packed.",
 ["programs", "histories"],
 "all placements of up to three footnotes over the run positions x content of zero to two paragraphs and every kind of paragraph content x {pack, collect then pack, build twice, clone then pack}",
 "Collection walks the whole tree and appends to shared state, so omissions and duplicates depend on nesting and on repetition.",
 [D+"footnotes.rs", D+"elements/footnote.rs", D+"elements/footnote_reference.rs", D+"image_collector.rs", D+"document_tree.rs", D+"mod.rs"],
 [("footnote collection", D+"image_collector.rs"), ("footnotes part", D+"footnotes.rs")],
 observe=["footnotes part and references"])

prop("C12", "A generated table of contents lists exactly the headings it should",
 "With automatic items, the packed table of contents contains exactly one entry per paragraph of the body or of a section whose style is a heading style of a level in the requested range or was listed by the caller with such a level, in document order, with the heading's text and level and a page reference (and link, if asked for) to a bookmark that encloses that heading; other paragraphs get no entry, and entries or surrounding contents given by the caller are written as given. The field code states the options the caller set and, in every part, complex-field begin, separate and end marks are balanced.",
 ["programs", "configurations"],
 "all sequences of up to three body items of 21 kinds (heading levels, custom and doubly listed styles, plain, undefined, empty, inserted, deleted, moved, linked, bookmarked, broken-up headings, tables, content controls, sections) x level ranges x style lists x links x positions; pairs of tables; all short lists of contents before and after x table options; every field code option with every value, alone, in ordered pairs and together; fields in each of 30 places",
 "The expansion walks styles and paragraphs together; tests fix two heading layouts.",
 [D+"mod.rs", D+"elements/table_of_contents.rs", D+"toc_key.rs", D+"elements/instr_toc.rs", D+"elements/table_of_contents_item.rs"],
 [("TOC expansion before packing", D+"mod.rs"), ("field code rendering", D+"elements/instr_toc.rs")],
 observe=["document part of the packed archive"])

prop("C13", "Reading any bytes returns a result: no panic, hang or crash",
 "For every byte sequence offered as a package, and for every text offered to the XML readers, reading terminates promptly with either a document or an error; it never panics, overflows the stack, aborts, loops forever or allocates without bound. This includes packages whose parts are truncated, whose elements or attributes are missing, repeated, reordered, misplaced or hold impossible values.",
 ["inputs", "fault_sequences"],
 "every single fault from {cut a part at or within each token, drop/duplicate/unwrap/swap/empty/rename/misplace each element, drop/repeat/reorder each attribute, set each attribute to each hostile value, remove or substitute each byte, replace or remove each part, cut or alter the archive at each byte, redirect each relationship, damage each picture byte, nest each structure up to 2^14 deep} and every pair of attribute faults, of 17 packages that exercise the whole vocabulary",
 "Fixtures are valid files; there is no negative-input suite, and the space of single faults has tens of thousands of points.",
 [R, "docx-core/src/xml_json/mod.rs"],
 [("pull parser loops", R), ("archive access", R+"read_zip.rs")],
 observe=["outcome of read_docx / read_xml"])

prop("C14", "A damaged mandatory part is reported, never read as a shorter document",
 "If the main document part is missing, empty, cut off before its root element closes, has opening and closing tags that do not match, or its archive entry is corrupt, reading returns an error instead of a document with silently missing content. The same holds for the styles, numbering, settings, web settings and relationship parts once they are referenced, and for the comments parts unless they are absent altogether.",
 ["inputs", "fault_sequences"],
 "every cut position and every token-level damage that makes the part ill-formed, for each of the named parts",
 "No test feeds a damaged part.",
 [R+"mod.rs", R+"read_docx.rs", R+"read_zip.rs", R+"xml_parser.rs", R+"rels.rs"],
 [("end-of-document handling in reader loops", R+"document.rs"), ("archive access", R+"read_zip.rs")],
 observe=["outcome of read_docx"])

prop("C15", "Packing reports every write failure and tolerates every short write",
 "If the destination fails at any point, packing returns an error and never panics or reports success; if the destination accepts only part of each write or interrupts, packing still succeeds and produces exactly the same archive as an ideal destination. A document whose packing failed can be packed again with full success.",
 ["fault_sequences"],
 "every position of the destination's call sequence x {error, zero-length write, one-byte write, interruption} and every pair of transient faults on a short document",
 "Tests write to an in-memory buffer that never fails.",
 ["docx-core/src/zipper/mod.rs", D+"xml_docx.rs", "docx-core/src/xml/writer.rs", D+"mod.rs"],
 [("archive writer", "docx-core/src/zipper/mod.rs"), ("XML writer", "docx-core/src/xml/writer.rs")],
 observe=["result of pack and bytes at the destination"])

prop("C16", "Packing is repeatable and the output routes agree",
 "Packing a document directly, through an explicit build step, after a clone, after exporting JSON or a second time yields the same parts with the same contents up to automatically drawn ids, and a document value constructed once yields the same parts in every process. Exporting JSON is valid JSON, does not change the document, and gives the same text each time.",
 ["histories", "configurations"],
 "all histories of up to four operations from {pack, build, clone, JSON export, JSON with comment update, comment export, footnote collection} on documents that use every counter and table, both routes for every feature at every position, and every document of the census in eight fresh processes",
 "Tests call one route once per document; iteration order and accumulated state only show on repetition.",
 [D+"mod.rs", D+"xml_docx.rs", "docx-core/src/zipper/mod.rs", D+"doc_props/custom.rs"],
 [("two packing routes", D+"mod.rs"), ("accumulating dependency collection", D+"mod.rs")],
 observe=["parts and bytes produced by each route"])

prop("C17", "Reading, packing and reading again reaches a fixed point",
 "Packing a document that was read succeeds without panicking and, when the package read was sound, yields a valid package that reads to the same document; the first packing may add the library's built-in style and numbering and leave out definitions, comments, links and pictures nothing refers to and runs without content. Repeating the cycle changes nothing further: no part, style, numbering, relationship or content is added, dropped or altered from one cycle to the next.",
 ["programs", "inputs"],
 "every package fixture shipped with the repository, packages that use the whole vocabulary of the reader and every single structural or value variation of them, and documents built from every feature in every place alone and in pairs, through two or three read/pack cycles",
 "Tests either read or write; no test edits and re-saves, the main use of the reader.",
 [R+"read_docx.rs", D+"mod.rs", D+"styles.rs", D+"numberings.rs", D+"document_rels.rs"],
 [("reader to model", R+"read_docx.rs"), ("model to package", D+"mod.rs")],
 observe=["value returned by read_docx at each cycle", "packed parts at each cycle"])

prop("C18", "The reader gives one answer for equivalent encodings of a package",
 "Two packages that differ only in ways XML, ZIP and the packaging convention call equivalent read to the same document: attribute order, empty-element form, comments, processing instructions, insignificant white space between elements, character references or CDATA for text, byte-order mark, namespace prefixes, entry order, compression method, part names and relationship ids chosen consistently, absolute or relative targets, on/off values and lengths spelled differently. Unknown elements and attributes in foreign namespaces are skipped without affecting their neighbours.",
 ["inputs"],
 "every single application of every such rewriting at every site of packages that exercise the whole vocabulary, every rewriting of one or all parts of those packages and of every fixture, every spelling of every on/off value (an element switched off reads like none) and lengths in twips or points",
 "Fixtures come from a few producers, each with a fixed style of encoding.",
 [R+"xml_parser.rs", R+"attributes", R+"rels.rs", R+"document_rels.rs", R+"read_zip.rs", R],
 [("attribute lookup", R+"attributes"), ("event reader", R+"xml_parser.rs"), ("relationship resolution", R+"document_rels.rs")],
 observe=["value returned by read_docx"])

prop("C19", "Numbering definitions and their use survive packing and reading",
 "Every abstract numbering, its levels with all level settings, every numbering instance and every level override given by the caller is written once with the caller's ids and values, a paragraph's numbering reference leads to the instance the caller named, and a document that uses numbering anywhere relates to the numbering part. Reading back and packing again preserves all of it without adding definitions.",
 ["programs", "configurations"],
 "all ordered sets of up to two abstract numberings and three instances over small id sets including the built-in numbering's, every level setting value alone and in ordered pairs in definitions and overrides, numbering used at every paragraph position and through styles, and all histories of defining, using, packing and reading up to five steps",
 "Tests snapshot one or two numberings; reference integrity and override interaction need combinations.",
 [D+"numberings.rs", D+"elements/abstract_numbering.rs", D+"elements/numbering.rs", D+"elements/level.rs", D+"elements/level_override.rs", R+"numberings.rs", R+"level.rs", R+"level_override.rs"],
 [("numbering part", D+"numberings.rs"), ("numbering detection", D+"elements/paragraph.rs")],
 observe=["numbering part", "value returned by read_docx"])

prop("C20", "Styles, defaults, settings and document properties are kept exactly",
 "Every style with all its attributes, document defaults, settings, document variables, custom properties, core dates, custom XML items and web-extension entries given by the caller is written once, with the caller's values, in the part the convention assigns to it. The kinds the reader supports (styles, defaults, settings, variables, custom properties) read back with the same values.",
 ["programs", "configurations"],
 "every setter of styles, defaults, settings, properties, custom XML and web extensions with every value, alone and in ordered pairs, ordered triples of representatives, sets of up to four styles including the built-in one's id, and all histories of calls, packing and reading up to four steps",
 "Tests snapshot single calls; counters and maps shared between entries only show with several entries.",
 [D+"styles.rs", D+"elements/style.rs", D+"elements/doc_defaults.rs", D+"settings.rs", D+"doc_props/custom.rs", D+"doc_props/core.rs", D+"custom_item.rs", D+"webextension.rs", D+"taskpanes.rs", R+"styles.rs", R+"style.rs", R+"settings.rs"],
 [("part writers", D+"styles.rs"), ("readers", R+"styles.rs")],
 observe=["packed parts", "value returned by read_docx"])

prop("C21", "The streaming XML writer emits one well-formed tree per legal event sequence",
 "For every legal sequence of document-start, element-start, text and element-end events, with every choice of namespaces, prefixes and attributes, the bytes written parse back to exactly that sequence, with attribute values as given, and text as given when escaping is on and verbatim when it is off. Closing an element when none is open is refused with an error and leaves the writer usable, and a destination that fails makes the event fail.",
 ["programs", "configurations"],
 "all event sequences up to length 6 over an alphabet of element names with and without namespaces, attribute sets and texts, under both escaping options",
 "Tests cover a dozen sequences; element-stack and self-closing decisions depend on event order.",
 ["docx-core/src/xml/writer.rs", "docx-core/src/xml/common.rs", "docx-core/src/xml_builder/mod.rs"],
 [("pending start tag and element stack", "docx-core/src/xml/writer.rs")],
 state=[("element stack", "open elements", "docx-core/src/xml/writer.rs"), ("pending start", "start tag not closed yet", "docx-core/src/xml/writer.rs")],
 observe=["bytes written and result of each call"])

prop("C22", "Tracked changes keep their author, date, kind and content",
 "Insertions, deletions, moves, paragraph-mark changes and paragraph-property changes are written with the caller's author and date, distinct ids and the right deleted-text spelling, enclose exactly the runs the caller put in them, and read back the same at every nesting. Plain text extraction from a paragraph shows inserted and moved-to text and not deleted or moved-from text, the same before packing and after reading.",
 ["programs"],
 "all nestings of tracked-change wrappers up to depth 3 over run kinds, in every paragraph position, x author/date values",
 "Tests cover each wrapper alone.",
 [D+"elements/insert.rs", D+"elements/delete.rs", D+"elements/move_from.rs", D+"elements/move_to.rs", D+"elements/paragraph.rs", R+"insert.rs", R+"delete.rs"],
 [("wrapper writers and readers", D+"elements/insert.rs"), ("raw text", D+"elements/paragraph.rs")],
 observe=["document part", "value returned by read_docx", "raw text"])

prop("C23", "The JSON export shows every setting and distinguishes every difference",
 "The JSON export is valid JSON, carries every text, setting and value given through the builder except the theme hints of colours, and two documents that differ in one other setting or one value never export the same JSON. For the parts that reading keeps, the export of a document that was packed and read back shows the same values.",
 ["configurations", "inputs"],
 "every builder setting x every pair of distinct values, at every host of the vocabulary",
 "JSON snapshots exist for some fixtures only; serialisers with skip rules and renames are per type.",
 [D+"elements", D+"mod.rs"],
 [("serialisation of each element", D+"elements")],
 observe=["text returned by the JSON export"])

prop("C24", "Size, rotation and placement of pictures survive packing and reading",
 "Every size, rotation, distance to the text, position, reference frame, alignment, stacking order, overlap, cell layout and simple position given to a picture is written in the place, unit and spelling the standard defines, and the last value given to a setting stands. Reading gives the same values for pictures in the line (which have only size, rotation and distances) and floating ones, whatever neighbours they have, and packing what was read writes them again.",
 ["configurations", "programs"],
 "all ordered pairs (deep tier: triples) of picture settings with every value including the ends of the integer ranges, inline and floating, in every picture position; all pairs of neighbouring pictures; every spelling of flags and signs in foreign anchors",
 "Tests write four drawings and read none with a position; no test reads a rotation, an alignment or a reference frame back.",
 [D+"elements/pic.rs", D+"elements/drawing.rs", R+"drawing.rs", R+"pic.rs", "docx-core/src/types/relative_from_type.rs", "docx-core/src/types/drawing_position.rs"],
 [("drawing writer", D+"elements/drawing.rs"), ("drawing reader", R+"drawing.rs")],
 observe=["document, header and footer parts", "value returned by read_docx"])

prop("C25", "The flat XML form of a package reads to the same document as the archive",
 "A document given in the single-file XML form that Word writes reads to the same document as the archive with the same parts: body, sections, headers and footers, comments and their threads, styles, numbering, settings, properties, theme, pictures with their bytes and links with their targets. The order of parts and attributes, further attributes, white space, line breaks in binary data, the folder and name of the main part and text that looks like package markup make no difference.",
 ["inputs", "configurations"],
 "every package fixture, packages that use the whole vocabulary, every single structural or value variation of them that the archive reader accepts, one package that holds every kind of part, and documents built from every feature in every place; x all combinations of the layout choices of the flat form, x folders and names of the main part, x texts that look like markup in every run",
 "Three tests read flat XML: one with a single run, one with one picture and one that only splits parts.",
 [R+"read_xml.rs", R+"read_docx.rs", R+"rels.rs"],
 [("splitting the text into parts and reading them", R+"read_xml.rs")],
 observe=["value returned by read_xml", "value returned by read_docx"])

prop("C26", "Custom XML data is packed with its content unchanged",
 "Each custom XML item handed over is written as a part of its own, related to the document and to a property part with the caller's id, in the order given. The part holds the same elements in the same order with the same qualified names, attributes and text as the XML handed over, whatever comments, CDATA sections, character references or instructions the text was spelled with.",
 ["inputs", "programs"],
 "all trees of depth three whose element contents are lists of up to four of text, text with references, white space, CDATA, comment, instruction, empty and nested elements; all combinations of attribute and namespace lists on three nested elements x element names x preambles; all lists of up to four items through both output routes",
 "Tests pack one item with one attribute per element and no mixed or split text.",
 [D+"custom_item.rs", D+"custom_item_property.rs", D+"custom_item_rels.rs", "docx-core/src/xml_json/mod.rs", D+"mod.rs"],
 [("tree kept between parsing and writing", "docx-core/src/xml_json/mod.rs")],
 observe=["custom XML parts and their relationships in the archive"])

prop("C27", "Field codes keep their settings when written, read and parsed",
 "A field code given through the builder, whether a contents entry, page reference, link, page number, page count, table of contents or free text, live or deleted, is written between its marks with the field's name, the caller's text and exactly the switches the caller chose, and a live code survives reading. Parsing a code gives the settings it spells, with or without the field's name, whatever the order of its switches and the white space between them, and whether its arguments are quoted or bare; in particular a written code parses to the settings it was written from.",
 ["inputs", "programs"],
 "every kind of code x every combination of its settings x texts with blanks, markup and non-ASCII characters x live or deleted x marks needing an update or not x nine places for a run; lists of up to three page numbers and page counts in body, header and footer; every order of the switches x five separators x four surroundings x quoted or bare arguments x with or without the name; texts with quotation marks, backslashes and look-alikes",
 "Tests write one entry and one page reference and parse three table-of-contents codes; no test parses another kind of code.",
 [D+"elements/instr_tc.rs", D+"elements/instr_pageref.rs", D+"elements/instr_hyperlink.rs", D+"elements/instr_toc.rs", D+"elements/instr_text.rs", D+"elements/delete_instr_text.rs", D+"elements/run.rs", R+"run.rs"],
 [("splitting a code into arguments and switches", D+"elements/instr_toc.rs")],
 observe=["w:instrText and w:delInstrText elements in the archive", "values returned by the public parsers of field codes"])

prop("C28", "The plain text of a paragraph is what its final version shows",
 "The plain text the library gives for a paragraph is, in document order, the text of its runs with a tab for every tab and positional tab and a line break for every break and carriage return. Inserted, moved-in, linked, tagged, bookmarked and commented text is included, deleted and moved-away text is left out, and a paragraph that was packed and read back gives the same plain text.",
 ["inputs", "programs"],
 "all lists of up to two paragraph items over seventeen kinds of item x thirteen kinds of run content, and all lists of up to three items (four in the thorough tier), before packing and after reading",
 "Tests take the plain text of three paragraphs with text only; no tab, break, link or tag occurs in them.",
 [D+"elements/paragraph.rs", D+"elements/run.rs", R+"paragraph.rs", R+"run.rs"],
 [("collecting text from nested children", D+"elements/paragraph.rs")],
 observe=["value returned by the public plain-text function of a paragraph"])

prop("C29", "Markup that records something else does not alter what is read",
 "Elements the format allows beside the current content but that say something else, such as former settings recorded by change tracking, conditional formatting of table styles, a row's exceptions, form field and content control settings, range and proofing marks and other elements the library does not model, leave everything read from the elements around them as it is without them. Groups around runs that carry no meaning of their own leave the runs as they are.",
 ["inputs"],
 "every kind of such markup (over two hundred fragments for some thirty hosts) in every place between the children of every element that can hold it in packages that use the whole vocabulary; every pair of fragments with content of their own in one part; every fragment alone in an element added for it; every fragment in all places of every fixture at once; every stretch of up to three runs in every group",
 "Fixtures hold a few tracked changes and one table style each; a leaked value shows only when the recorded value differs from the current one.",
 [R+"section_property.rs", R+"table_property.rs", R+"style.rs", R+"run_property.rs", R+"paragraph_property.rs", R+"table_row.rs", R+"table_cell_property.rs", R+"table.rs", R+"ignore.rs", R+"structured_data_tag.rs", R+"run.rs", R+"settings.rs", R+"numberings.rs"],
 [("skipping an element with its content", R+"ignore.rs")],
 observe=["value returned by read_docx"])

prop("C30", "Content controls keep their settings and content",
 "A content control is written once where the caller put it, with the caller's name, data binding and formatting and no other, and with its children in the caller's order, controls inside controls included. A control between paragraphs, in a cell, header or footer comes back from reading with the same settings and children and is written again unchanged.",
 ["programs", "configurations"],
 "every combination of name, data binding fields and formatting x six places; every list of up to two children of six kinds, with controls nested up to two deep; every two controls with small settings in every two places; each packed, read and packed again",
 "Tests build one control with one binding and read none; nested controls and settings after reading occur in no test.",
 [D+"elements/structured_data_tag.rs", D+"elements/structured_data_tag_property.rs", D+"elements/data_binding.rs", R+"structured_data_tag.rs", R+"table_cell.rs", R+"header.rs", R+"footer.rs"],
 [("reading a control until its own end", R+"structured_data_tag.rs")],
 observe=["w:sdt elements in the archive", "value returned by read_docx"])

prop("C31", "Theme fonts and web divisions are read as stated",
 "For any package, the heading and body fonts reported after reading are the typefaces and the per-script fonts its theme names, in the same order, and no font named elsewhere in the theme. The divisions reported are those of its web settings with the same ids, margins, order and nesting. The flat XML form of the package gives the same.",
 ["inputs"],
 "every choice of the three typefaces of a group x up to two script fonts x element form x surroundings; script font lists up to six; every choice of four margins in four arrangements; every ordered forest of up to six divisions with or without margins; archive and flat form",
 "Tests read one theme and one web settings part; absent typefaces, several script fonts and nested divisions occur in no test.",
 [R+"theme.rs", R+"font_scheme.rs", R+"font_group.rs", R+"web_settings.rs", R+"div.rs"],
 [("reading a division until its own end", R+"div.rs"), ("reading a font group until its own end", R+"font_group.rs")],
 observe=["JSON export of the value returned by read_docx and read_xml"])

prop("C32", "Text boxes and shapes are read with their content and placement",
 "For any package, a text box reported after reading holds the paragraphs, tables and pictures stated in it, in order, and has the distances and position its anchor states and no other. A text box that is stated in two alternative forms is reported once from the preferred form, and an older-form shape is reported with its image and style text. What follows a text box or shape in its run, paragraph and document is read unchanged, also when boxes stand inside boxes.",
 ["inputs"],
 "every list of up to two blocks in a text box in every form and place; every nesting of boxes, alternatives and shapes up to the bound; every combination of shape settings; every choice of the four distances; every position, alignment and reference of both axes",
 "Fixtures hold three text boxes, none of them nested and none with content after it in the same run.",
 [R+"drawing.rs", R+"shape.rs", R+"mc_fallback.rs", R+"run.rs", D+"elements/text_box.rs", D+"elements/text_box_content.rs", D+"elements/drawing.rs"],
 [("skipping the older form until its own end", R+"mc_fallback.rs"), ("reading a shape until its own end", R+"shape.rs")],
 observe=["value returned by read_docx"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
