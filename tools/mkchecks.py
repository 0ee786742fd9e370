#!/usr/bin/env python3
"""Writes tools/checks.json (technique, level and note of every claimed check)."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
SE="stateless model checking of the real code: exhaustive enumeration of the bounded space of inputs and operation sequences, each executed and compared with a reference model"
FE="exhaustive fault enumeration on the real code: every fault point in the bounded space is executed and judged by a reference model"
C={}
def c(id,note,level="model_checking",tech=SE): C[id]=dict(technique=tech,level=level,note=note)
c("C01","Bounded by text length over a 24-symbol alphabet (3 quick, 4 thorough), all Unicode scalar values, wrap lengths up to 100/700, sizes to 64 KiB; oracle is the identity.")
c("C02","All entry shapes of a full product of optional parts, all sequences of up to the bound over 16 entry kinds, catalogs of hundreds of entries; oracle: the input catalog in canonical form.")
c("C03","All documents up to the bound over menus of line forms and all style combinations of a renderer, under each reader option; oracle: an independent reference PO reader (mc/refpo.go).")
c("C04","All token sequences up to the bound, every byte value at every place of sample files, all pairs of boundary words in MO headers and tables, faulty streams; monitored for panics, time and memory.")
c("C05","All catalogs up to the bound over a message menu under all writer and reader settings; oracle: independent reference of what MO keeps, plus a strict independent MO reader.")
c("C06","All id sets of up to six bits of choice over menus, all sets of colliding hashes, sizes 0..N; oracle: independent binary and hash-table search over a strict MO reader (mc/refmo.go).")
c("C07","Every truncation point and every out-of-range value of every word of a set of MO files, all parse-again histories; oracle: strict independent MO reader.",level="fault_enumeration",tech=FE)
c("C08","All pairs of catalogs up to the bound over an identity menu under all merge settings; oracle: coverage and preservation predicates checked on every result.")
c("C09","All pairs with shared identities over menus of metadata and translations on both sides, all merge settings; oracle: the required merged entry, field by field.")
c("C10","All sequences of up to three catalogs over menus of definitions, all selection bounds; oracle: reference concatenation.")
c("C11","Breadth-first over all operation sequences up to the bound with a reference model in lockstep, plus full products for each operation.")
c("C12","All lists up to the bound over menus of entries with ties, every comparator and sort; oracle: stable insertion sort with a reference comparison; order axioms on all triples.")
c("C13","All pairs of entries with up to two fields set, all pairs of small lists and files; oracle: equality of canonical texts.")
c("C14","All header texts up to the bound over menus of lines, all edit sequences, every field combination through load and save; oracle: reference header model.")
c("C15","All Go sources of a generator of call shapes, import names, argument forms, comments and nestings up to the bound; oracle: the generator's own knowledge of what must be found.")
c("C16","All path sets, exclusions and readers over a small file tree, plus extraction options; oracle: reference walk and reference header. Symbolic links are not covered.")
c("C17","All library operations on a pool of catalogs whose slices share spare capacity, each run twice; oracle: full dumps before and after.")
c("C18","All sequences of calls with and without temporary options up to the bound on each object; oracle: a fresh object per call.")
c("C19","All settings of the output options on a pool of catalogs; oracle: the reading of the output, and the default output filtered line by line.")
c("C20","All catalogs of a pool, byte texts up to the bound, all highlighting styles and environments; oracle: the plain output.")
c("C21","Every fault position of every output on a pool of catalogs, all states of an output path; oracle: the complete output.",level="fault_enumeration",tech=FE)
c("C22","All schedules up to the preemption bound of pairs of operations on an instrumented build under a cooperative scheduler, plus the race detector on all pairs; oracle: the sequential results.",tech="stateless model checking: controlled scheduler exploring all interleavings of the real code up to a preemption bound at statement granularity; race detector on every pair")
c("C23","Runs of the built tools over all small products of catalogs, input forms, output forms and options in fresh directories; oracle: the library operation and the independent PO and MO readers.")
c("C24","All causes of failure (bad inputs at every place, all truncations, option mistakes, output faults, every file size limit) crossed with tools and output forms; oracle: exit status, message, unchanged files.",level="fault_enumeration",tech=FE)
c("C25","Runs of the built xgotext over all small products of inputs, exclusions, outputs and options on a source tree, and all subsets of an existing file to join; oracle: reference extraction, reference header, no-loss predicates.")
c("C26","All catalogs up to the bound over menus of entry shapes, all Unicode scalar values, widths and writer options, exchanged in both directions; oracle: the installed GNU gettext tools and the C library's gettext.")
c("C27","All pairs of small catalogs over an identity menu and over entries varying every field, all settings, two to three repetitions, in the library and through the tools; oracle: the first result.")
c("C28","All documents up to the bound over menus of lines, comments and string pieces, all entries varying every field, MO files in every layout, two generations; oracle: the first generation.")
c("C29","All small catalogs, documents and sources under every option through every entry point, and all sets of options of the tools in every spelling; oracle: the first way of asking.")
c("C30","All small catalogs, documents and sources with every combination of logger, verbosity and ignored errors, failing writers, and every tool; oracle: the result without them.")
c("C31","All documents up to a bound of lines, every one- and two-line fault and every byte fault in a complete catalog, all cuts of sources and MO files, and every tool with a bad input at every place; oracle: a grammar automaton over tokens with places.")
json.dump(dict(checks=C,not_applicable={},notes="Every check builds mc/ and the command-line tools from /repo's working tree into a scratch directory, explores its bounded spaces completely and writes evidence/<id>.json."),open(os.path.join(here,"checks.json"),"w"),indent=1)
