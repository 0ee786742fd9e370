#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from the property texts, the evidence of the last quick runs,
the known findings, the planted bugs and the prose below."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
checks=json.load(open(root+"/tools/checks.json"))["checks"]
W=[]
def w(s=""): W.append(s)

w('''# Design

## 1. Method

Everything here is bounded exhaustive exploration (explicit-state model checking) of the
*real code*: the public Go API and the built command-line tools run in lockstep with small
reference models.  There is no separate model that could drift from the implementation: each
element of a stated finite space - an input, an operation sequence, a configuration, a fault
point, a schedule - is executed on the code built from /repo's working tree, and the model
(or a relation between executions) decides that one execution.  A check is quiet only if every
element of its spaces was executed and agreed.  Nothing is sampled; where a deadline cuts a
space short, the evidence file says so (`exhaustive: false`, explored of size), and on the
unchanged tree no quick check is cut.

* `mc/engine.go` enumerates a space `[0,n)` on all cores.  A space is an index range that a
  mixed-radix decoder (`Dec`) or the sequence enumerator (`seqAt`, all sequences up to a
  length over a menu) turns into a case, so every case has a number and `check.sh ID replay
  FILE` repeats it.  A case that fails is repeated, minimal information is written to
  `out/ID-k.json`, and a VIOLATION line is printed.  A watchdog turns a hang into a violation
  and `check.sh` does so with fatal errors of the Go run time (stack overflow, concurrent map
  writes), which cannot be recovered inside the process.
* Conformance of models: the models *are* compared with the implementation on every trace -
  that comparison is the check.  Models that stand in for an outside format were themselves
  validated against GNU gettext (C26: GNU's own tools and the C library's gettext take part).
* `mc/refpo.go` is a hand-written reader of the PO dialect, `mc/refmo.go` a strict and a
  lenient MO reader with gettext's binary search and hash probing; `mc/rich.go` the menu of
  entries that vary every field, alone and in pairs; `mc/faults.go` streams that fail at byte
  n in several ways; `mc/cli.go` runs a tool in a fresh scratch directory and snapshots it;
  `mc/sched/` the controlled scheduler.
* C22 is stateless exploration under a controlled scheduler: `mc child instrument` rewrites
  every function of /repo through a `go build -overlay` (nothing is written to /repo) so that
  it yields before every statement; the explorer then enumerates all schedules up to two
  preemptions of pairs of calls.  Interleavings inside a statement are covered by running every
  pair under the happens-before race detector.
* The checks never write outside a scratch directory below /tmp that they remove.  They read
  no source text of /repo (except to instrument it for C22), so refactorings do not matter.

Quick tier: complete spaces that take seconds to a minute and a half each; deadline 240 s.
Thorough tier: larger bounds of the same spaces; deadline 780 s, after which the rest is
reported as not explored.  Every check takes the tier as its argument.
''')

w('## 2. Properties\n')
w('''For each property: what is decided, the spaces explored exhaustively by the quick tier (with their
sizes on the unchanged tree), the oracle with the assumptions made, and why tests do not settle it.
''')
for p in props:
    i=p["id"]; c=checks.get(i)
    ev={}
    try: ev=json.load(open(f"{root}/evidence/{i}.json"))
    except Exception: pass
    w(f"### {i} {p['title']}\n")
    w(p["statement"]+"\n")
    if not c: w("Not claimed.\n"); continue
    w(f"*Technique.* {c['technique'][0].upper()+c['technique'][1:]}. {c['note']}\n")
    w(f"*Quantified over.* {p['quantifier']['text']}.\n")
    sp=ev.get("coverage",{}).get("spaces",[])
    if sp and ev.get("tier","quick")=="quick":
        w("*Explored (quick).*\n")
        for s in sp: w(f"- `{s['name']}` ({s['size']:,} cases): {s['what']}")
        w()
    if ev.get("assumptions"):
        w("*Oracle and assumptions.*\n")
        for a in ev["assumptions"]: w("- "+a)
        w()
    w(f"*Why tests do not settle it.* {p['why_tests_cant']}\n")
    if ev.get("wall_s"): w(f"*Cost.* about {max(1,round(ev['wall_s']))} s on eight cores (quick).\n")

w('''## 3. Genuine defects found and repaired

All are repaired in /repo, one `fix:` commit each; `known_findings.txt` has the list by commit.  No finding
is open.
''')
for l in open(root+"/known_findings.txt"):
    if l.startswith("fixed: "):
        _,pr,co,*t=l.split(); w(f"- {pr.split('=')[1]} `{co}` {' '.join(t)}")
w()
w('''## 4. False alarms met on the way, and what was changed

- C08: a template message may resemble an existing one through its plural id; the menu's ids are now
  either clearly similar in every part or share no letter, and guesses are judged by the flag, not by an own similarity measure.
- C19: an obsolete entry with an empty id is no header; whether omit-header or managed header touch it is
  left open, so such entries are not in those spaces.
- C26: what GNU gettext itself normalises is not compared (unknown flags, fuzzy marks of untranslated messages,
  obsolete messages without translation, repeated references, `./`).
- C27: a template that repeats a message is not a well-formed template for a second merge; obsolete entries in the
  middle of a catalog are moved to the end when it is re-read (GNU does the same), which counts as the first run's effect;
  location options of msgomerge may re-order obsolete entries once; xgotext -j keeps the existing header's layout.
- C28: an MO file with repeated messages comes out without them when it goes by way of a PO file.
- C29: standard error carries log lines with the time of day; times are removed before comparing.
- C30: extraction logs skipped calls and repeated files also without verbosity; the property speaks of
  writing and reading.
- C22: the race-detecting build broke silently when a C file was added to the package (cgo on in that build only);
  the file is now embedded under another name, and a failing build makes the evidence not exhaustive.

## 5. Behaviour that was examined and accepted

Not defects, and not alarmed on: xgotext, msgocat and msgomerge overwrite the output they are told to write; msgomerge -U also
writes to standard output or -o; compendium messages become template messages; two headers make msgofmt fail as a duplicate;
msgofmt -D joins the directory with -o; xgotext's default output is standard output; `-o newdir/` writes a file of that name;
-j with --omit-header drops the header; Merge does not add the template's header; word wrap splits at line breaks only; a header
value of one space is the mark of an empty field; Clean*, CutHeader and Sort work in place; unknown values of enumerated options
are accepted; one missing final NUL in an MO file is accepted; `#~` in mid-line is not PO; untranslated messages are written to MO
files (GNU leaves them out); unsorted plural forms are written to PO in the given order; merging keeps the existing flags rather
than the template's; use-first takes the first definition even if it is untranslated; octal escapes need three digits;
msgounfmt of several files may write repeated messages; msgounfmt without arguments is an error.

## 6. Limits

- Strings are bounded by alphabets and lengths; beyond them only size sweeps (lengths, counts) are explored.
- Symbolic links, dot imports and shadowed package names (C15, C16), multi-line titles (C19) are not covered.
- C22 bounds preemptions to two and calls to two at a time (races: also all together); other modules' code is not instrumented.
- C26 depends on the gettext 0.21 installed in the sandbox; where it is missing the check compares nothing against it and says so in its evidence.
- The go-fuzzywuzzy similarity itself is taken as given.
- Charsets whose trail bytes are ASCII (SHIFT_JIS, BIG5), CP1255, and concatenating files of different charsets (C02, C23) are left out.
- Plural forms with gaps are renumbered when compiled to MO (the format has no numbers); C05 only covers forms numbered from 0.
- Repeated flags in a definition merged (C10), negative line numbers in references, FSI/PDI marks around file names (C26), comments and
  trailing blanks in `-f` lists (C23) are unspecified and not checked.
- xgotext opens all its files at once; counts of files near the limit of open files are not explored beyond C16's space.
- The unused functions (file highlighting by the compiler) are not reached by any check.
''')
w('''## 7. Planted bugs

Every directory of `seeded/` holds one bug, written from the property text, that compiles and passes the tests; each
is caught by the quick check of its property.  Those marked * were missed when first planted; the check was then
strengthened (the added space or field is named where it helps).
''')
first={'C03-plural-index':'byte edits of documents','C07-half-table':'layouts, cuts at words','C05-unsorted-plurals':'forms in every order','C08-obsolete-drop':'obsolete entries next to kept ones',
'C10-prefix-translation':'menu of prefixes','C11-validate-plural':'forms without plural id','C14-template-flag':'header flags','C18-config-copy':'parsers for several paths','C23-cat-lang':'','C25-suffix-nolocation':'affixes with spaces',
'C30-verbose-reread':'calls out of sorted order','C15-line-eof':'line sweep up to 70000','C22-shared-header':'shared headers and configurations','C29-float-config':'all combinations of header options, construction against one call'}
first.update(json.load(open(root+"/tools/first_missed.json")) if os.path.exists(root+"/tools/first_missed.json") else {})
w("| bug | property | needs | breaks |"); w("|---|---|---|---|")
for d in sorted(os.listdir(root+"/seeded")):
    m=json.load(open(f"{root}/seeded/{d}/meta.json"))
    star=""
    if d in first: star="*"+(f" ({first[d]})" if first[d] else "")
    w(f"| {d}{star} | {m['property']} | {m['needs'].replace('|','/')} | {m['what_it_breaks'].replace('|','/')} |")
w()
if os.path.exists(root+"/tools/mutation.md"): w(open(root+"/tools/mutation.md").read())
open(root+"/DESIGN.md","w").write("\n".join(W)+"\n")
