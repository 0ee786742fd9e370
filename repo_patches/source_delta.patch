From 544257a1ccba28606cc2baf96f0916da2cff8a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 01/87] fix: lex PO strings whose last character is an escaped
 backslash

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..c1504f0 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\[\s\S]|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 8a5d9d03d00e8c0807933da966700dc24e006772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 02/87] fix: write non-ASCII unprintable characters as they are
 in PO strings

---
 pkg/po/compile/po_compiler_util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..725798d 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
@@ -54,7 +55,8 @@ func escapePOString(s string) string {
 		case '\r':
 			buf.WriteString(`\r`)
 		default:
-			if strconv.IsPrint(r) {
+			// The \x escape can only hold one byte, so it's limited to ASCII.
+			if strconv.IsPrint(r) || r >= utf8.RuneSelf {
 				buf.WriteRune(r)
 			} else {
 				fmt.Fprintf(&buf, "\\x%02x", r)
-- 
2.43.0


From 8d0676ce471addd0413cba58626c9bc03eb79c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 03/87] fix: match PO comment markers only at the start of the
 comment

---
 pkg/po/parse/po_parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..56c4444 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,12 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From ec1d6ef5051f447b8fd5c322af61a33763b12ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 04/87] fix: keep the indentation of PO comments

---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 56c4444..3d4470d 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -127,11 +127,11 @@ func (p *PoParser) Errors() []error {
 // Regular expressions for parsing different types of PO file comments.
 var (
 	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	generalRegex   = regexp.MustCompile(`^# ?(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. ?(.*)`) // Extracted comments
 	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
 	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
+	previousRegex  = regexp.MustCompile(`^#\| ?(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From d60dc138eba3c918014131c1c7ec55baa7c8889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 05/87] fix: read PO files that end in a comment without a
 newline

---
 pkg/po/parse/po_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 3d4470d..953ae9a 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -249,7 +250,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
+	p.data = slices.Clip(p.originalData) // The original buffer must not be modified.
 	p.data = append(p.data, []byte(safeTemplate)...)
 
 	// Parse the file using the participle parser
-- 
2.43.0


From a168dc2908d54dc3db64183fb4c0988242a6e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 06/87] fix: read PO references without line, with colons, or
 several per comment

---
 pkg/po/compile/po_compiler_format.go |  4 +++
 pkg/po/parse/po_parser.go            | 39 ++++++++++++++++++----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..c00e06e 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -224,6 +224,10 @@ func (eb *entryBuilder) referenceComment() string {
 	case PoLocationModeFull:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
+			if l.Line < 0 { // The line is unknown.
+				fmt.Fprintf(&b, "%s\n", l.File)
+				return
+			}
 			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	case PoLocationModeFile:
diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 953ae9a..6ad8f09 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -178,6 +178,28 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	return f.Entries
 }
 
+// referenceRegex matches one "file:line" reference of a location comment.
+var referenceRegex = regexp.MustCompile(`(\S.*?):(\d+)(?:\s+|$)`)
+
+// parseLocations parses the content of a location comment, which may contain
+// several "file:line" references. A reference without line number has line -1.
+func parseLocations(refs string) (locs po.Locations, err error) {
+	end := 0
+	for _, m := range referenceRegex.FindAllStringSubmatchIndex(refs, -1) {
+		line, err := strconv.Atoi(refs[m[4]:m[5]])
+		if err != nil {
+			return nil, fmt.Errorf("error parsing integer: %w", err)
+		}
+		locs = append(locs, po.Location{Line: line, File: refs[m[2]:m[3]]})
+		end = m[1]
+	}
+	if rest := strings.TrimSuffix(strings.TrimSpace(refs[end:]), ":"); rest != "" {
+		locs = append(locs, po.Location{Line: -1, File: rest})
+	}
+
+	return locs, nil
+}
+
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
 func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
@@ -191,20 +213,11 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		switch {
 		case locationRegex.MatchString(t.String()):
 			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
-			}
-
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
+			locs, err := parseLocations(matches[1])
+			if err != nil {
+				return err
 			}
-			entry.Locations = append(entry.Locations, loc)
+			entry.Locations = append(entry.Locations, locs...)
 		case extractedRegex.MatchString(t.String()):
 			entry.ExtractedComments = append(entry.ExtractedComments,
 				extractedRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From 8d034dfa4f6c344e6112cb4de77bd1e976d6639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 07/87] fix: split comma-separated flags of PO entries

---
 pkg/po/parse/po_parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 6ad8f09..824a6bc 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -223,9 +223,11 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 				extractedRegex.FindStringSubmatch(t.String())[1],
 			)
 		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
+			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(t.String())[1], ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
 		case previousRegex.MatchString(t.String()):
 			entry.Previous = append(entry.Previous,
 				previousRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From d7773a88b52f683cbc3e1e533b0218fea7d12ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 08/87] fix: ignore the carriage return at the end of PO
 comments

---
 pkg/po/parse/po_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 824a6bc..d661311 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -210,6 +210,7 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		if obsoleteRegex.MatchString(t.String()) {
 			continue
 		}
+		t.Value = strings.TrimSuffix(t.Value, "\r") // Files with CRLF line endings.
 		switch {
 		case locationRegex.MatchString(t.String()):
 			matches := locationRegex.FindStringSubmatch(t.String())
-- 
2.43.0


From 6b1dac61affc42461929e2933410a75cdc01ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 09/87] fix: keep the comments of obsolete PO entries with the
 obsolete entries

Comments in front of an obsolete entry moved to the next live entry, custom
obsolete prefixes were only honoured next to #~ lines, previous-message lines
of obsolete entries were lost and malformed obsolete entries were dropped
silently.
---
 pkg/po/parse/po_parser.go | 80 +++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 21 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index d661311..f78aec5 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -134,30 +134,62 @@ var (
 	previousRegex  = regexp.MustCompile(`^#\| ?(.*)`) // Previous message comments
 )
 
-// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
-	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
+// obsoleteRegex returns the regular expression of the obsolete entry marker in use.
+func (p *PoParser) obsoleteRegex() *regexp.Regexp {
+	if !p.Config.UseCustomObsoletePrefix {
+		return obsoleteRegex
+	}
+	prefix := regexp.QuoteMeta(string(p.Config.CustomObsoletePrefix))
+	return regexp.MustCompile(fmt.Sprintf(`^#%s *(.*)`, prefix))
+}
+
+// splitObsoletes separates the comment tokens that belong to obsolete entries
+// from the tokens of the entry that follows them. The comments up to the last
+// obsolete line in front of the entry belong to the obsolete entries.
+func splitObsoletes(comp *regexp.Regexp, tokens []lexer.Token) (live, obsolete []lexer.Token) {
+	isObsolete := func(t lexer.Token) bool {
+		return t.Type == util.PoSymbols["Comment"] && comp.MatchString(t.String())
+	}
+
+	last := -1
+	for i, t := range tokens {
+		if t.Type != util.PoSymbols["Comment"] && t.Type != util.PoSymbols["WS"] {
+			break
+		}
+		if isObsolete(t) {
+			last = i
+		}
+	}
+
+	for i, t := range tokens {
+		if i <= last || isObsolete(t) {
+			obsolete = append(obsolete, t)
+			continue
 		}
+		live = append(live, t)
 	}
 
+	return live, obsolete
+}
+
+// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
+func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
+	comp := p.obsoleteRegex()
+
 	cleanedLines := make([]string, 0, len(tokens))
 	for _, token := range tokens {
 		if token.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if !comp.MatchString(token.String()) {
-			continue
+		line := token.String()
+		if comp.MatchString(line) {
+			line = comp.FindStringSubmatch(line)[1]
+			if strings.HasPrefix(line, "|") { // Previous message.
+				line = "#" + line
+			}
 		}
 
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
-		)
+		cleanedLines = append(cleanedLines, line)
 	}
 
 	fullFile := strings.Join(cleanedLines, "\n")
@@ -166,12 +198,13 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 		fullFile,
 		"tmp",
 		PoWithConfig(p.Config),
+		PoWithParseObsolete(false),
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	p.errors = append(p.errors, parser.Errors()...)
+	if f == nil {
 		return nil
 	}
 
@@ -277,6 +310,7 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Remove the temporary marker entry
+	marker := pFile.Entries[len(pFile.Entries)-1]
 	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
 
 	// Optionally filter out all comments
@@ -286,6 +320,8 @@ func (p *PoParser) Parse() *po.File {
 		})
 	}
 
+	var obsoleteTokens []lexer.Token
+
 	// Process each entry in the parsed file
 	for _, e := range pFile.Entries {
 		if p.Config.IgnoreAllComments {
@@ -314,7 +350,9 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
+		live, obsolete := splitObsoletes(p.obsoleteRegex(), e.Tokens)
+		obsoleteTokens = append(obsoleteTokens, obsolete...)
+		err = parseComments(&newEntry, live)
 		if err != nil {
 			p.error(err.Error())
 		}
@@ -330,10 +368,10 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
-		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
+	_, obsolete := splitObsoletes(p.obsoleteRegex(), marker.Tokens)
+	obsoleteTokens = append(obsoleteTokens, obsolete...)
+	if len(obsoleteTokens) > 0 && p.Config.ParseObsoletes && !p.Config.IgnoreAllComments {
+		entries = append(entries, p.parseObsoleteEntries(obsoleteTokens)...)
 	}
 
 	// Apply post-processing options
-- 
2.43.0


From 4946928bb310344aa533c689269fc7d5ccf69b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 10/87] fix: reject PO strings that span lines and plural
 messages without msgstr

---
 internal/util/po_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index c1504f0..9ada1af 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -18,7 +18,7 @@ type (
 		ID          []string        `Msgid @String+`
 		Str         []string        `(Msgstr @String+`
 		MsgidPlural []string        `| (MsgidPlural @String+`
-		Plurals     []pluralEntries `@@*))`
+		Plurals     []pluralEntries `@@+))`
 	}
 
 	pluralEntries struct {
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\[\s\S]|[^"\\])*"`},
+		{Name: "String", Pattern: `"(\\[\s\S]|[^"\\\n])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 55d1fe5415b3f54a3cf6e41f7ba6361f388b4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 11/87] fix: report a msgctxt without msgid at the end of a PO
 file

---
 pkg/po/parse/po_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index f78aec5..fd0af94 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -311,6 +311,10 @@ func (p *PoParser) Parse() *po.File {
 
 	// Remove the temporary marker entry
 	marker := pFile.Entries[len(pFile.Entries)-1]
+	if marker.Context != nil { // The marker has none, it comes from the end of the file.
+		p.error("%s: msgctxt without msgid at the end of the file", p.filename)
+		return nil
+	}
 	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
 
 	// Optionally filter out all comments
-- 
2.43.0


From 7b4b0679cfa70999f537ac1f5fa75a539754ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 12/87] fix: write and expect the GNU magic number in the byte
 order of the MO file

Big-endian files were written with the bytes of the little-endian magic number,
so that no reader (including this one, when detecting the order) could read them.
---
 internal/util/bytes.go    | 16 +++-------------
 pkg/po/parse/mo_parser.go |  2 +-
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..c610912 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -41,20 +41,10 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the magic number of MO files as it is when it's written
+// and read in this byte order, which is the same for all of them.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return LittleEndianMagicNumber
 }
 
 func (e Endianness) String() string {
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..7dfbfa7 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -108,7 +108,7 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	var magic u32
 
 	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
+		err := bin.Read(reader, bin.LittleEndian, &magic)
 		if err != nil {
 			m.error("error reading magic number: %w", err)
 			return
-- 
2.43.0


From 5fd853b19aa877e7ef119b9822567ed73cc48013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 13/87] fix: read plural messages with a single form and ids
 with several EOT from MO files

---
 pkg/po/parse/mo_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 7dfbfa7..fedc9c8 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -299,7 +299,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 	)
 
 	// Split context from message ID (separated by EOT)
-	d := bytes.Split(msgid, eot)
+	d := bytes.SplitN(msgid, eot, 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -320,7 +320,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Handle plural forms in message string
 	msgstrParts := bytes.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
+	if len(msgstrParts) == 1 && len(msgidParts) == 1 {
 		entry.Str = string(msgstrParts[0])
 	} else {
 		for i, s := range msgstrParts {
-- 
2.43.0


From df735bf747a460b35d4c0e59715bc3912e7efcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 14/87] fix: check the bounds of tables and strings when
 reading MO files

Huge counts and lengths panicked or exhausted memory, truncated strings were
padded with NULs, and the errors of one parse were reported by the next one.
---
 pkg/po/parse/mo_parser.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index fedc9c8..70626ce 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -15,6 +15,7 @@ import (
 // Type aliases for cleaner code.
 type (
 	u32 = uint32
+	u64 = uint64
 	i64 = int64
 	i32 = int32
 )
@@ -152,6 +153,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
@@ -174,6 +176,17 @@ func (m *MoParser) Parse() (file *po.File) {
 		m.error("invalid minor version number (%d)", v)
 	}
 
+	// Check the bounds of both tables
+	tabSize := u64(header.Nstrings) * 8
+	if !m.inRange(u64(header.OrigTabOffset), tabSize) {
+		m.error("original table out of range(%d)", header.OrigTabOffset)
+		return
+	}
+	if !m.inRange(u64(header.TransTabOffset), tabSize) {
+		m.error("translation table out of range(%d)", header.TransTabOffset)
+		return
+	}
+
 	// Read message ID table
 	msgIDStart := make([]u32, header.Nstrings)
 	msgIDLen := make([]u32, header.Nstrings)
@@ -238,6 +251,11 @@ func (m *MoParser) Parse() (file *po.File) {
 	return
 }
 
+// inRange reports whether the file has size bytes at the offset start.
+func (m *MoParser) inRange(start, size u64) bool {
+	return start+size <= u64(len(m.data))
+}
+
 // makeEntries creates po.Entries from the parsed MO file data.
 func (m *MoParser) makeEntries(
 	r *bytes.Reader,
@@ -251,6 +269,15 @@ func (m *MoParser) makeEntries(
 		strStart := i64(msgStrStart[i])
 		strLen := msgStrLen[i]
 
+		if !m.inRange(u64(msgIDStart[i]), u64(idLen)) {
+			m.error("msgid data out of range[start: %d len: %d]", idStart, idLen)
+			return
+		}
+		if !m.inRange(u64(u32(msgStrStart[i])), u64(u32(strLen))) {
+			m.error("msgstr data out of range[start: %d len: %d]", strStart, strLen)
+			return
+		}
+
 		// Read message ID data
 		_, err := r.Seek(idStart, 0)
 		if err != nil {
-- 
2.43.0


From 446c18aada2396719b624c8c51f543c3d5a1dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 15/87] fix: hash the bytes of the message ids

The hash table of MO files did not find non-ASCII messages.
---
 internal/util/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..da7ba17 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -4,8 +4,8 @@ package util
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ { // The hash is defined on bytes, not on runes.
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From 73ad02032ce178b883d1d76ebf3ea4fe580ce407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 16/87] fix: compare the obsolete mark of entries for equality

---
 pkg/po/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..8d3b1f7 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -141,7 +141,7 @@ func (e Entry) Hash() uint32 {
 func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From b41a3662a84454e1c357e3d5aa20b8753fc1179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 17/87] fix: drop messages outside either bound when
 concatenating

---
 pkg/po/msgcat_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..d2381b1 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,7 +64,7 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
+		return info.timesFound >= process.config.LessThan ||
 			info.timesFound <= process.config.MoreThan
 	})
 }
-- 
2.43.0


From c6394cfab577c84597217e938460795a608ab509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 18/87] fix: unite the flags of concatenated messages without
 file markers

---
 pkg/po/msgcat_merge.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index d2381b1..29cf29a 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -126,12 +126,7 @@ func msgcatMergeEntry(
 	originalFilename, newFilename string,
 ) Entry {
 	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
+		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
 			originalEntry.Comments,
 			newEntry.Comments,
@@ -230,6 +225,17 @@ func msgcatMergeStrings(originalStr, newStr string, originalFilename, newFilenam
 	return builder.String()
 }
 
+// msgcatMergeFlags returns the flags of both entries, each of them once.
+func msgcatMergeFlags(originalFlags, newFlags []string) []string {
+	merged := slices.Clone(originalFlags)
+	for _, flag := range newFlags {
+		if !slices.Contains(merged, flag) {
+			merged = append(merged, flag)
+		}
+	}
+	return merged
+}
+
 func msgcatMergeComments(
 	originalComments, newComments []string,
 	originalFilename, newFilename string,
-- 
2.43.0


From d9c24bc4017d8f27b5d04627a82915076ddf1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 19/87] fix: keep the obsolete mark and the input when
 concatenating messages

---
 pkg/po/msgcat_merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 29cf29a..3c6f5f4 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -162,9 +162,10 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
 	}
 
 	if !mergedEntry.IsFuzzy() &&
-- 
2.43.0


From 9326c619e30c31f85ec24544efde7640fd5e5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 20/87] fix: keep all translations of concatenated messages

The plural forms that only a later definition has were lost, and a message was
marked fuzzy although one of its definitions was just not translated.
---
 pkg/po/msgcat_merge.go | 41 ++++++++++++++++++++++++++++++++++++-----
 pkg/po/plurals.go      |  4 ++++
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 3c6f5f4..62b37d7 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -125,6 +125,17 @@ func msgcatMergeEntry(
 	newEntry Entry,
 	originalFilename, newFilename string,
 ) Entry {
+	conflict := originalEntry.FullUnifiedID() != newEntry.FullUnifiedID()
+	if originalEntry.IsPlural() != newEntry.IsPlural() {
+		msgcatToPlural(&originalEntry, newEntry.Plural)
+		msgcatToPlural(&newEntry, originalEntry.Plural)
+	}
+	conflict = conflict || msgcatConflict(originalEntry.Str, newEntry.Str)
+	for _, original := range originalEntry.Plurals {
+		i := newEntry.Plurals.indexByID(original.ID)
+		conflict = conflict || i != -1 && msgcatConflict(original.Str, newEntry.Plurals[i].Str)
+	}
+
 	mergedEntry := Entry{
 		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
@@ -168,15 +179,29 @@ func msgcatMergeEntry(
 		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
 	}
 
-	if !mergedEntry.IsFuzzy() &&
-		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
+	if !mergedEntry.IsFuzzy() && conflict {
 		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
 	}
 
 	return mergedEntry
 }
 
+// msgcatConflict reports whether two translations can't be merged into one.
+func msgcatConflict(originalStr, newStr string) bool {
+	return originalStr != "" && newStr != "" && originalStr != newStr
+}
+
+// msgcatToPlural makes a singular entry plural, with its translation as the first form.
+func msgcatToPlural(entry *Entry, plural string) {
+	if entry.IsPlural() {
+		return
+	}
+	if entry.Str != "" {
+		entry.Plurals = PluralEntries{{0, entry.Str}}
+	}
+	entry.Str, entry.Plural = "", plural
+}
+
 // msgcatMergePlurals handles merging of plural form strings.
 func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
@@ -188,8 +213,9 @@ func msgcatMergePlurals(
 
 	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
 
-	for i, original := range originalEntry.Plurals {
-		if i >= len(newEntry.Plurals) {
+	for _, original := range originalEntry.Plurals {
+		i := newEntry.Plurals.indexByID(original.ID)
+		if i == -1 {
 			mergedEntries = append(mergedEntries, original)
 			continue
 		}
@@ -203,6 +229,11 @@ func msgcatMergePlurals(
 			),
 		})
 	}
+	for _, newPlural := range newEntry.Plurals {
+		if originalEntry.Plurals.indexByID(newPlural.ID) == -1 {
+			mergedEntries = append(mergedEntries, newPlural)
+		}
+	}
 
 	return mergedEntries
 }
diff --git a/pkg/po/plurals.go b/pkg/po/plurals.go
index abf5aa8..f01e02a 100644
--- a/pkg/po/plurals.go
+++ b/pkg/po/plurals.go
@@ -45,6 +45,10 @@ func (p PluralEntries) Solve() PluralEntries {
 	return cleaned
 }
 
+func (p PluralEntries) indexByID(id int) int {
+	return slices.IndexFunc(p, func(pe PluralEntry) bool { return pe.ID == id })
+}
+
 func (p PluralEntries) IsSorted() bool {
 	return slices.IsSortedFunc(p, ComparePluralEntry)
 }
-- 
2.43.0


From 48a552327cf83a0ef64a70dc269710473faf6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 21/87] fix: do not confuse a struct with its first field when
 comparing values

---
 internal/util/equal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..b74200a 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,12 @@ func FuzzyEqual(x, y string) bool {
 	return fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+type visitedPair struct {
+	addr1, addr2 uintptr
+	typ          reflect.Type // A struct has the same address as its first field.
+}
+
+type visitedPairs map[visitedPair]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -38,7 +43,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 	}
 	if v1.CanAddr() && v2.CanAddr() {
 		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visitedPair{addr1, addr2, v1.Type()}
 		if _, found := visited[pair]; found {
 			return true
 		}
-- 
2.43.0


From f5e9bfdc9e7c54b933959c9848899129918c7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 22/87] fix: do not divide by zero when averaging no values

Comparing the ids of two headers panicked.
---
 internal/util/average.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..7980251 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -8,6 +8,9 @@ type Number interface {
 
 func Average[T Number](values ...T) T {
 	var total T
+	if len(values) == 0 {
+		return total
+	}
 
 	for _, v := range values {
 		total += v
-- 
2.43.0


From 2871fad46deb0d503e8005915f3b7b300945baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 23/87] fix: keep the order of equal elements when sorting

---
 internal/slices/slices_go1.21.go | 2 +-
 internal/slices/slices_legacy.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/slices/slices_go1.21.go b/internal/slices/slices_go1.21.go
index bc4fe2d..9b25961 100644
--- a/internal/slices/slices_go1.21.go
+++ b/internal/slices/slices_go1.21.go
@@ -11,5 +11,5 @@ import (
 type Ordered = cmp.Ordered
 
 func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
-	slices.SortFunc(x, cmp)
+	slices.SortStableFunc(x, cmp)
 }
diff --git a/internal/slices/slices_legacy.go b/internal/slices/slices_legacy.go
index be4e4ba..032381d 100644
--- a/internal/slices/slices_legacy.go
+++ b/internal/slices/slices_legacy.go
@@ -13,7 +13,7 @@ type Ordered interface {
 }
 
 func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
-	sort.Slice(x, func(i, j int) bool {
+	sort.SliceStable(x, func(i, j int) bool {
 		return cmp(x[i], x[j]) < 0
 	})
 }
-- 
2.43.0


From 5686ac3beb4cc4a8362af36f140ec0267c97d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 24/87] fix: make the comparison of translations a consistent
 ordering

A singular entry was equal to different plural entries.
---
 pkg/po/cmp.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..6578598 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -99,12 +99,10 @@ func CompareEntryByLocation(a, b Entry) int {
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
-		}
+	if i := strings.Compare(a.Str, b.Str); i != 0 {
+		return i
 	}
-	return strings.Compare(a.Str, b.Str)
+	return ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr)
 }
 
 // CompareEntryByLine compares entries by line numbers in their locations.
-- 
2.43.0


From cc118986d0de790bae7e40ab54ec9190be4f8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 25/87] fix: compare line numbers and plural indices without
 overflow

---
 pkg/po/cmp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 6578598..57c2ace 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -140,7 +140,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -158,7 +158,17 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
+}
+
+// compareInt compares two integers, whose difference may overflow.
+func compareInt(a, b int) int {
+	if a < b {
+		return -1
+	} else if a > b {
+		return 1
+	}
+	return 0
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 898cbab3ee001be83a8bcd4987ea9b5b661c316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 26/87] fix: sort the header first even if it is fuzzy

---
 pkg/po/cmp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 57c2ace..d875e8a 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -55,8 +55,15 @@ func CompareEntriesFunc(a, b Entries, cmp Cmp[Entry]) int {
 }
 
 // CompareEntry compares two entries based on their obsolescence, fuzzy flag,
-// location, and ID (in that order).
+// location, and ID (in that order). The header comes first.
 func CompareEntry(a, b Entry) int {
+	aHeader := a.IsHeader() && !a.Obsolete
+	bHeader := b.IsHeader() && !b.Obsolete
+	if aHeader && !bHeader {
+		return -1
+	} else if !aHeader && bHeader {
+		return 1
+	}
 	if cmp := CompareEntryByObsolete(a, b); cmp != 0 {
 		return cmp
 	}
-- 
2.43.0


From c10685e72cbcbd53ce437f9ba14171b302e84352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 27/87] fix: do not write into the input's references when
 solving duplicates

---
 pkg/po/entries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
-- 
2.43.0


From d92c6f708cb192b98210316eacdf9eff34089393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 28/87] fix: keep the live definition, the header and the input
 when compiling to MO

Cleaning removed messages that have an obsolete or fuzzy duplicate in front,
dropped fuzzy headers, and sorting without cleaning sorted the caller's entries.
---
 pkg/po/compile/mo_compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..9d1bb8f 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -57,11 +58,14 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	entries := mc.File.Entries
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		entries = slices.DeleteFunc(slices.Clone(entries), func(e po.Entry) bool {
+			// The header is kept even if it's fuzzy.
+			return e.Obsolete || (e.IsFuzzy() && !e.IsHeader())
+		}).CleanDuplicates()
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-		entries = entries.SortFunc(po.CompareEntryByID)
+		entries = slices.Clone(entries).SortFunc(po.CompareEntryByID)
 	}
 	mc.info("creating header...")
 	var hashTabSize u32
-- 
2.43.0


From fd85acc65434d24e5749cb45e64980d2f34863af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 29/87] fix: do not remove the header from the caller's entries
 when writing PO

---
 pkg/po/compile/po_compiler.go      | 2 +-
 pkg/po/compile/po_compiler_util.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..53b3807 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -107,7 +107,7 @@ func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
 	if c.Config.OmitHeader {
 		i := c.File.Index("", "")
 		if i != -1 {
-			entries = slices.Delete(entries, i, i+1)
+			entries = slices.Delete(slices.Clone(entries), i, i+1)
 		}
 	}
 
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 725798d..2439808 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -93,7 +93,7 @@ func (c PoCompiler) writeHeader(writer io.Writer, entries *po.Entries, eb *entry
 		return nil
 	}
 	header := c.File.HeaderFromIndex(i)
-	*entries = slices.Delete(*entries, i, i+1)
+	*entries = slices.Delete(slices.Clone(*entries), i, i+1)
 
 	if c.Config.HeaderConfig != nil {
 		header = c.Config.HeaderConfig.ToHeader()
-- 
2.43.0


From ead95b67a5b17b5c580164e03e6aa39987e56f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 30/87] fix: write the managed header once and escape its
 fields

---
 pkg/po/compile/po_compiler_format.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index c00e06e..58a1ccd 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -119,7 +119,7 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
+			fmt.Fprintf(&buf, headerFieldFormat, escapePOString(field.Key), escapePOString(field.Value))
 
 			if i != len(header.Fields) {
 				fmt.Fprint(&buf, "\n")
@@ -129,9 +129,6 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
-- 
2.43.0


From 9799996927d553ae94a492772c7e65183ce81b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 31/87] fix: do not panic when the location mode is not set

---
 pkg/po/compile/po_compiler_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 58a1ccd..8c9e04f 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -218,7 +218,7 @@ func (eb *entryBuilder) referenceComment() string {
 
 	var writeRef func(id int)
 	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
+	default: // PoLocationModeFull
 		writeRef = func(id int) {
 			l := eb.Locations[id]
 			if l.Line < 0 { // The line is unknown.
-- 
2.43.0


From 97c90098ec27e078ebd60d5f54fe3b7f1c157a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 32/87] fix: do not write the id as translation of untranslated
 plural messages

---
 pkg/po/compile/po_compiler_format.go | 4 ++--
 pkg/po/merge.go                      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 8c9e04f..5c254a8 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -154,10 +154,10 @@ func (eb *entryBuilder) msgstr() string {
 	const format = "msgstr[%d]"
 	if eb.IsPlural() {
 		if len(eb.Plurals) == 0 {
-			id := eb.string(eb.ID, "msgstr")
+			str := eb.string(eb.Config.MsgstrPrefix+eb.Config.MsgstrSuffix, "msgstr")
 			for i := 0; i < 2; i++ {
 				fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, i)))
-				fmt.Fprint(&msgstr, id)
+				fmt.Fprint(&msgstr, str)
 			}
 			return msgstr.String()
 		}
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..e5737a8 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -132,7 +132,7 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 		}
 	} else if entry.IsPlural() {
 		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
+			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
 		}
 	}
 	return false
-- 
2.43.0


From e75461bfe1e8bbf970ea2f436d4a29736df6be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 33/87] fix: mark all lines of obsolete entries when
 highlighting

Styled lines did not start with '#' and ended after the line break, so comments
were marked as obsolete lines and an extra marked line was added.
---
 pkg/po/compile/po_compiler_format.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 5c254a8..14db8e8 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -70,15 +70,11 @@ func applyColor(c TermColorer, str string) string {
 func (eb *entryBuilder) BuildEntry() []byte {
 	var buf bytes.Buffer
 	buf.WriteString(eb.comment())
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
+	entry := eb.msgid() + eb.msgstr()
 
 	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
 
 	if eb.Obsolete || commentFuzzy {
-		entry := buf.String()
-		buf.Reset()
-
 		prefix := "#"
 		if eb.Obsolete {
 			if eb.Config.UseCustomObsoletePrefix {
@@ -90,13 +86,15 @@ func (eb *entryBuilder) BuildEntry() []byte {
 		prefix += " "
 
 		for _, line := range strings.Split(entry, "\n") {
-			if strings.HasPrefix(line, "#") || line == "" {
+			if line == "" {
 				buf.WriteString(line + "\n")
 				continue
 			}
 
 			buf.WriteString(prefix + line + "\n")
 		}
+	} else {
+		buf.WriteString(entry)
 	}
 
 	buf.WriteByte('\n')
@@ -274,22 +272,22 @@ func (eb *entryBuilder) string(str string, styles ...string) string {
 			builder.WriteString(eb.applyStyle(`"`, "string") + "\n")
 		}
 		return eb.applyStyle(
-			builder.String(),
+			strings.TrimSuffix(builder.String(), "\n"),
 			append(styles, "string")...,
-		)
+		) + "\n"
 	}
 
 	fmt.Fprint(&builder, `"`)
 	fmt.Fprint(&builder, eb.text(escapePOString(str),
 		slices.Delete(styles, 0, 1)...,
 	))
-	builder.WriteString(eb.applyStyle(`"`, "string") + "\n")
+	builder.WriteString(eb.applyStyle(`"`, "string"))
 	// fmt.Fprintf(&builder, "\"%s\"\n", escapePOString(str))
 
 	return eb.applyStyle(
 		builder.String(),
 		append(styles, "string")...,
-	)
+	) + "\n"
 }
 
 func (eb *entryBuilder) text(str string, styles ...string) string {
-- 
2.43.0


From 7bd9ddf90bfa44d7de7f6e209cc77c787cb9be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 34/87] fix: do not leave the flags and references of commented
 out entries behind

---
 pkg/po/compile/po_compiler_format.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 14db8e8..5021d56 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -189,9 +189,25 @@ func (eb *entryBuilder) comment() string {
 	b.WriteString(eb.flagComment())
 	b.WriteString(eb.previousComment())
 
+	if eb.Config.CommentFuzzy && eb.IsFuzzy() && !eb.Obsolete {
+		// The comments must not be taken as those of the next entry.
+		return eb.applyStyle(commentOut(b.String()), "comment")
+	}
+
 	return eb.applyStyle(b.String(), "comment")
 }
 
+// commentOut turns all comments into translator comments.
+func commentOut(comments string) string {
+	lines := strings.SplitAfter(comments, "\n")
+	for i, line := range lines {
+		if line != "" && !strings.HasPrefix(line, "# ") {
+			lines[i] = "# " + line
+		}
+	}
+	return strings.Join(lines, "")
+}
+
 func (eb *entryBuilder) translatorComment() string {
 	var b strings.Builder
 	for _, comment := range eb.Comments {
-- 
2.43.0


From aed139e3d6739d1cb0b13c1901bef4a473290efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 35/87] fix: do not add the msgstr prefix and suffix to the
 header

---
 pkg/po/compile/po_compiler_format.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 5021d56..94cb604 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -150,9 +150,13 @@ func (eb *entryBuilder) msgid() string {
 func (eb *entryBuilder) msgstr() string {
 	var msgstr strings.Builder
 	const format = "msgstr[%d]"
+	prefix, suffix := eb.Config.MsgstrPrefix, eb.Config.MsgstrSuffix
+	if eb.IsHeader() { // Its fields aren't translations.
+		prefix, suffix = "", ""
+	}
 	if eb.IsPlural() {
 		if len(eb.Plurals) == 0 {
-			str := eb.string(eb.Config.MsgstrPrefix+eb.Config.MsgstrSuffix, "msgstr")
+			str := eb.string(prefix+suffix, "msgstr")
 			for i := 0; i < 2; i++ {
 				fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, i)))
 				fmt.Fprint(&msgstr, str)
@@ -163,7 +167,7 @@ func (eb *entryBuilder) msgstr() string {
 			fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, pe.ID)))
 			fmt.Fprint(&msgstr,
 				eb.string(
-					eb.Config.MsgstrPrefix+pe.Str+eb.Config.MsgstrSuffix,
+					prefix+pe.Str+suffix,
 					"msgstr",
 				),
 			)
@@ -174,7 +178,7 @@ func (eb *entryBuilder) msgstr() string {
 
 	fmt.Fprint(&msgstr, eb.keyword("msgstr"))
 	fmt.Fprint(&msgstr, eb.string(
-		eb.Config.MsgstrPrefix+eb.Str+eb.Config.MsgstrSuffix,
+		prefix+eb.Str+suffix,
 		"msgstr",
 	))
 
-- 
2.43.0


From a6168f5d12b13b7cde3a5758df09cd23b4306fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 36/87] fix: restore the configuration after options that
 replace all of it

---
 pkg/go/parse/config.go      | 3 ++-
 pkg/po/compile/mo_config.go | 3 ++-
 pkg/po/compile/po_config.go | 7 +++++--
 pkg/po/parse/mo_config.go   | 3 ++-
 pkg/po/parse/po_config.go   | 3 ++-
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..ccd9c66 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,12 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	last := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+	c.lastCfg = last // After the options, which may replace the whole configuration.
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..8a1efea 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,12 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+	mc.lastCfg = last // After the options, which may replace the whole configuration.
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..fc17378 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,16 +64,19 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	last := *c
 	for _, po := range opts {
 		po(c)
 	}
+	c.lastCfg = last // After the options, which may replace the whole configuration.
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..8cf95f3 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,12 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+	mc.lastCfg = last // After the options, which may replace the whole configuration.
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..67e5a63 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,11 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	last := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+	p.lastCfg = last // After the options, which may replace the whole configuration.
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From 4c82f8bc9c8cb25282bfac1e95d9e6b4b4abb91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 37/87] fix: do not undo the options given at construction when
 restoring the configuration

---
 pkg/go/parse/config.go      | 1 +
 pkg/po/compile/mo_config.go | 1 +
 pkg/po/compile/po_config.go | 2 ++
 pkg/po/parse/mo_config.go   | 1 +
 pkg/po/parse/po_config.go   | 1 +
 5 files changed, 6 insertions(+)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index ccd9c66..c4853c7 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -51,6 +51,7 @@ func DefaultConfig(opts ...Option) Config {
 	for _, opt := range opts {
 		opt(&c)
 	}
+	c.lastCfg = nil // There is nothing to restore yet.
 
 	return c
 }
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index 8a1efea..faf7760 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -79,6 +79,7 @@ func DefaultMoConfig(opts ...MoOption) MoConfig {
 		SortEntries:   true,
 	}
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is nothing to restore yet.
 	return c
 }
 
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index fc17378..eaa9b71 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -56,6 +56,7 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 	var config PoConfig
 
 	config.ApplyOptions(opts...)
+	config.lastCfg = nil // There is nothing to restore yet.
 
 	return config
 }
@@ -96,6 +97,7 @@ func DefaultPoConfig(opts ...PoOption) PoConfig {
 	}
 
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is nothing to restore yet.
 
 	return c
 }
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 8cf95f3..aa85201 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -27,6 +27,7 @@ func DefaultMoConfig(opts ...MoOption) MoConfig {
 	mc := MoConfig{}
 
 	mc.ApplyOptions(opts...)
+	mc.lastCfg = nil // There is nothing to restore yet.
 	return mc
 }
 
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 67e5a63..8a6b009 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -65,6 +65,7 @@ func DefaultPoConfig(opts ...PoOption) PoConfig {
 		ParseObsoletes:  true,
 	}
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is nothing to restore yet.
 	return c
 }
 
-- 
2.43.0


From 82656239007bf3842c7a1150618b3ddf424fe0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 38/87] fix: forget the imports of the previous content when
 reusing a Go file object

---
 pkg/go/parse/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..9f3fce4 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,6 +58,8 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.pkgName = DefaultPackageName
+	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
-- 
2.43.0


From d225957425175953788d8497b05c57ab974161db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 39/87] fix: report the line on which raw strings begin

Positions in Go files start at one.
---
 pkg/go/parse/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..9d73b46 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -64,7 +64,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +137,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: util.FindLineFromReader(f.reader, arg.pos-1),
 				},
 			)
 			fallthrough
-- 
2.43.0


From 2147e488b659d274e452a8888a1b0035142f1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 40/87] fix: do not drop all messages of a Go file with one
 malformed call

---
 pkg/go/parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..9b038fc 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -204,7 +204,7 @@ func (p *Parser) Parse() (file *po.File) {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
 		if err := f.Error(); err != nil {
-			continue
+			p.info("some calls of %s were skipped: %s", f.name, err)
 		}
 		file.Entries = append(file.Entries, entries...)
 	}
-- 
2.43.0


From a74300e3c42896e392e9b3ce66e31b39abcd83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 41/87] fix: extract all literals of calls without message, and
 no empty raw strings

---
 pkg/go/parse/process.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 9d73b46..f22c9f2 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -75,7 +75,7 @@ type argumentData struct {
 	str   string
 	valid bool
 	err   error
-	pos   token.Pos
+	lit   *ast.BasicLit
 }
 
 // extractArg extracts a string argument from a function call at the specified index.
@@ -97,19 +97,16 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
-		return
-	}
-
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
+	if str == "" {
+		return
+	}
 
-	return argumentData{str, true, err, lit.Pos()}
+	return argumentData{str, true, err, lit}
 }
 
 // processPoCall processes a gotext function call and extracts translation entries.
@@ -133,11 +130,14 @@ func (f *File) processPoCall(
 		switch i {
 		case 0:
 			valid = arg.valid
+			if !valid {
+				return
+			}
 			entry.ID = arg.str
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos-1),
+					Line: util.FindLineFromReader(f.reader, arg.lit.Pos()-1),
 				},
 			)
 			fallthrough
@@ -148,6 +148,11 @@ func (f *File) processPoCall(
 			entry.Plural = arg.str
 		}
 	}
+	for _, arg := range args {
+		if arg.valid {
+			f.seenNodes[arg.lit] = struct{}{}
+		}
+	}
 
 	return
 }
@@ -187,7 +192,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok || t.Value == `""` || t.Value == "``" {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
-- 
2.43.0


From 8d3d1eb0b45534ba537c6b21dfcbccc2c30a2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 42/87] fix: report paths that cannot be read when extracting
 from Go files

---
 pkg/go/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 9b038fc..ea29353 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,6 +58,10 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				p.error("error reading path %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
-- 
2.43.0


From e4b4668bf8d2376de674202b3ae9ca5e62e26c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 43/87] fix: do not write into the template's plural forms when
 merging

---
 pkg/po/entry.go        | 2 +-
 pkg/po/merge.go        | 7 +++++--
 pkg/po/msgcat_merge.go | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 8d3b1f7..b56d1b4 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,7 +36,7 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index e5737a8..ddbf78b 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -130,7 +132,7 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 			best := def[bestID]
 			mergeEntryStrings(entry, best)
 		}
-	} else if entry.IsPlural() {
+	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
 		}
@@ -165,8 +167,9 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 func mergeEntryStrings(target *Entry, source Entry) {
 	switch {
 	case target.IsPlural() && source.IsPlural():
-		target.Plurals = source.Plurals
+		target.Plurals = slices.Clone(source.Plurals)
 	case target.IsPlural() && !source.IsPlural():
+		target.Plurals = slices.Clone(target.Plurals)
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 62b37d7..d0f935e 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -180,7 +180,7 @@ func msgcatMergeEntry(
 	}
 
 	if !mergedEntry.IsFuzzy() && conflict {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+		mergedEntry.markAsFuzzy()
 	}
 
 	return mergedEntry
-- 
2.43.0


From a73d03465af3ea6240ea326f586738c3b869e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 44/87] fix: merge every template message once, with its
 references and identity

Obsolete entries of messages that came back stayed obsolete, references and
extracted comments were never updated, several entries could take over the same
message, and an entry that took over a message kept its own context and plural.
---
 pkg/po/merge.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index ddbf78b..0af2074 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -99,9 +99,15 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 
 	nplurals := int(ref.Header().Nplurals())
 	def = def.Solve()
+	ref = slices.DeleteFunc(slices.Clone(ref), func(e Entry) bool { return e.Obsolete })
+
+	claimed := make(map[string]bool) // The messages of ref that have an entry in def.
+	for _, entry := range def {
+		claimed[entry.UnifiedID()] = true
+	}
 
 	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
+		if mergeDef(config, &entry, ref, claimed) {
 			continue
 		}
 		def[i] = entry
@@ -140,15 +146,28 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 	return false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
+func mergeDef(config MergeConfig, e *Entry, ref Entries, claimed map[string]bool) bool {
+	if e.IsHeader() {
 		return true
 	}
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		mergeExact(e, ref[i])
+		return false
+	}
 	switch {
+	case e.Obsolete:
+		return true
 	case config.FuzzyMatch:
+		// Only messages that have no entry yet can be taken over, and only those
+		// for which no translation gets lost.
+		ref = slices.DeleteFunc(slices.Clone(ref), func(r Entry) bool {
+			return r.IsHeader() || claimed[r.UnifiedID()] || r.IsPlural() != e.IsPlural()
+		})
 		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
 			e.markAsFuzzy()
-			e.ID = ref[bestID].ID
+			e.ID, e.Context = ref[bestID].ID, ref[bestID].Context
+			mergeExact(e, ref[bestID])
+			claimed[e.UnifiedID()] = true
 		} else {
 			e.markAsObsolete()
 		}
@@ -160,6 +179,20 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 	return false
 }
 
+// mergeExact updates an entry with its message in the template.
+func mergeExact(e *Entry, ref Entry) {
+	if e.IsPlural() != ref.IsPlural() {
+		old := *e
+		e.Str, e.Plurals, e.Plural = "", nil, ref.Plural
+		mergeEntryStrings(e, old)
+		e.markAsFuzzy()
+	}
+	e.Obsolete = false
+	e.Plural = ref.Plural
+	e.Locations = ref.Locations
+	e.ExtractedComments = ref.ExtractedComments
+}
+
 // mergeEntryStrings copies translation strings from source to target.
 //
 // If both entries are plural, plural forms are copied.
-- 
2.43.0


From 91d453cae82c7a469b3a0bc316fc2788c3cc8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 45/87] fix: split header fields at the first colon

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..3ba9337 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
-- 
2.43.0


From ff305ac5d78434fd25ffcdd4fd0d9c6399b19553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 46/87] fix: keep the template mark of the managed header

---
 pkg/po/compile/po_compiler_format.go | 8 ++++++--
 pkg/po/compile/po_compiler_util.go   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 94cb604..0977b45 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -104,6 +104,11 @@ func (eb *entryBuilder) BuildEntry() []byte {
 func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	var buf bytes.Buffer
 
+	entryFormat := headerEntry
+	if header.Template {
+		entryFormat = "#, fuzzy\n" + headerEntry
+	}
+
 	if eb.Config.HeaderComments {
 		copyright := fmt.Sprintf(copyrightFormat, eb.Config.CopyrightHolder, eb.Config.PackageName)
 		if eb.Config.ForeignUser {
@@ -111,9 +116,8 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 		}
 
 		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
-	} else {
-		fmt.Fprint(&buf, headerEntry)
 	}
+	fmt.Fprint(&buf, entryFormat)
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 2439808..9c6d6a9 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -19,7 +19,7 @@ const (
 	headerFormat           = `# %s
 %s
 #
-` + headerEntry
+`
 	headerEntry = `msgid ""
 msgstr ""
 `
-- 
2.43.0


From 43814c743dfe320773224af187f79d7822294dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 47/87] fix: read the input files listed with --files-from in
 msgocat

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..c2be639 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, line := range strings.Split(string(filesFromBinContent), "\n") {
+		if line != "" {
+			filesFromContent = append(filesFromContent, line)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 4b34de235ec389dc966cc2e58e6933c41a060bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 48/87] fix: write to standard output in msgofmt when it is
 asked for

---
 cli/msgofmt/cmd/root.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..393ba75 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,7 +38,9 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
@@ -105,6 +107,10 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
+
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From c4d0ed965b7a41172a750b8647827436d5875e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 49/87] fix: compile the right files of a directory in msgofmt

The files named as arguments were compiled together with all PO files of the
directory, themselves included, and compiling a whole directory ignored all
other options and tried to read files other than PO files.
---
 cli/msgofmt/cmd/root.go | 59 ++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 393ba75..71e706d 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -47,42 +47,47 @@ If input file is -, standard input is read.`,
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
+			if len(args) == 0 {
 				var entries []os.DirEntry
 				entries, err = os.ReadDir(directory)
 				if err != nil {
 					return
 				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
+
+				// Read everything first, to write nothing if some file is not valid.
+				var names []string
+				var files []*po.File
+				for _, de := range entries {
+					if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+						continue
 					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
 
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
+					var poFile *po.File
+					poFile, err = parse.Po(
+						filepath.Join(directory, de.Name()),
+						parse.PoWithCleanDuplicates(false),
+					)
+					if err != nil {
+						return
 					}
-					return
+					if errs := poFile.Validate(); len(errs) > 0 {
+						err = errs[0]
+						return
+					}
+					names = append(names, strings.TrimSuffix(de.Name(), ".po")+".mo")
+					files = append(files, poFile)
 				}
+				for i, poFile := range files {
+					err = compile.MoToFile(
+						poFile,
+						filepath.Join(directory, names[i]),
+						compile.MoWithConfig(compilerCfg),
+					)
+					if err != nil {
+						return
+					}
+				}
+				return
 			}
 		}
 
-- 
2.43.0


From c8efee738a34d7daa60d349d0fb7dacc545e6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 50/87] fix: report missing arguments in msgomerge when a
 compendium is given

---
 cli/msgomerge/cmd/root.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..cd1fbb7 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
-- 
2.43.0


From 9581922351406082553afb8dc6abc7cf482b922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 51/87] fix: keep the header in msgomerge

---
 cli/msgomerge/cmd/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
-- 
2.43.0


From acafafde9bd2bb3d3ffbe3df441fd8701a710325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 52/87] fix: do not destroy existing files when msgomerge fails

The output file was truncated before the input files were read, which also
destroyed the input if it was the output file.
---
 cli/msgomerge/cmd/root.go | 53 +++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index cd1fbb7..ede2dc9 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -48,28 +48,15 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 		}
 
 		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
+		if defFile, err = os.Open(defPath); err != nil {
 			return err
 		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
+		defer defFile.Close()
+		if refFile, err = os.Open(refPath); err != nil {
 			return err
 		}
-		defer defFile.Close()
 		defer refFile.Close()
 
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
 		var def, ref *po.File
 		if def, err = parse.PoFromFile(defFile); err != nil {
 			return err
@@ -91,21 +78,37 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		// Open and truncate files only now that nothing else can fail.
+		var outWriter io.Writer
+		var updateFile *os.File
 		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
+			updateFile, err = os.OpenFile(defPath, os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-			if err := defFile.Truncate(0); err != nil {
+			defer updateFile.Close()
+		}
+		if outputPath == "-" {
+			outWriter = os.Stdout
+		} else {
+			var file *os.File
+			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-
-			outWriter = io.MultiWriter(defFile, outWriter)
+			defer file.Close()
+			outWriter = file
 		}
-
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		if update {
+			if err = updateFile.Truncate(0); err != nil {
+				return err
+			}
+			outWriter = io.MultiWriter(updateFile, outWriter)
 		}
 
 		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
-- 
2.43.0


From c57aceaf10286745d9a6189f1be295e8e7293113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 53/87] fix: do not write log messages of xgotext into its
 output

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..42ca0e0 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0


From 03191aef569b8385dc291c7dd48d336773fdd85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 54/87] fix: report missing input files in xgotext

---
 cli/xgotext/cmd/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..3f0a92f 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,6 +73,9 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
-- 
2.43.0


From e285fd2f824f903c4fba248c4511c1a56f0d943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 55/87] fix: read exactly the named input files in xgotext

Arguments were ignored together with --files-from, an empty line in that list
named the whole directory, and - was not standard input with --directory.
---
 cli/xgotext/cmd/input.go | 6 ++++--
 cli/xgotext/cmd/root.go  | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 3f0a92f..17b954c 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -17,7 +17,7 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error reading file %s: %w", filesFrom, err)
 		}
-		inputFiles = files
+		inputFiles = append(inputFiles, files...)
 	}
 
 	if excludeFile != "" {
@@ -31,7 +31,9 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 	if directory != "" {
 		for i, file := range inputFiles {
-			inputFiles[i] = filepath.Join(directory, file)
+			if file != "-" { // Standard input is in no directory.
+				inputFiles[i] = filepath.Join(directory, file)
+			}
 		}
 		for i, file := range exclude {
 			exclude[i] = filepath.Join(directory, file)
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 42ca0e0..5c2a18c 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
-- 
2.43.0


From 97d4238228caaba79d06c04fd3652f826bc648de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 56/87] fix: apply the header options of xgotext

---
 cli/xgotext/cmd/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..e1065dd 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -44,6 +44,7 @@ func initConfig() {
 		MsgstrPrefix:    msgstrPrefix,
 		MsgstrSuffix:    msgstrSuffix,
 		Verbose:         verbose,
+		ManageHeader:    !joinExisting, // An existing header is kept as it is.
 		HeaderComments:  true,
 		HeaderFields:    true,
 		WordWrap:        wordWrap,
-- 
2.43.0


From 6d42b637a76cbddc4a4dfdcd08f77bb1aafaba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 57/87] fix: read the existing file before truncating it when
 joining in xgotext

The file was emptied before it was read, so that all its translations were
lost. Joining with standard output now is an error instead of reading it.
---
 cli/xgotext/cmd/config.go |  3 ++-
 cli/xgotext/cmd/join.go   | 46 +++++++++++++++------------------------
 cli/xgotext/cmd/output.go | 22 ++++++++-----------
 cli/xgotext/cmd/root.go   | 12 ++++++----
 4 files changed, 36 insertions(+), 47 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index e1065dd..a565bb3 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -61,6 +61,7 @@ func initConfig() {
 	}
 
 	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
+		Logger:         logger,
+		ParseObsoletes: true,
 	}
 }
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..a566a4d 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -1,48 +1,36 @@
 package cmd
 
 import (
+	"errors"
 	"os"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
-	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
-	baseParse, err := poparse.NewPoFromReader(
-		rawfile,
-		rawfile.Name(),
-		poparse.PoWithConfig(PoParserCfg),
-	)
-	if err != nil {
-		return err
+// join merges the extracted messages into those of the existing output file.
+func join(goParsed *po.File) (*po.File, error) {
+	if output == "-" {
+		return nil, errors.New("--join-existing cannot be used when output is written to stdout")
 	}
 
-	poParsed := baseParse.Parse()
-	if len(baseParse.Errors()) > 0 {
-		return baseParse.Errors()[0]
+	path := outputFilePath()
+	content, err := os.ReadFile(path)
+	if os.IsNotExist(err) {
+		return goParsed, nil
 	}
-
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
+	if err != nil {
+		return nil, err
 	}
 
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
-
-	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
+	baseParse := poparse.NewPoFromBytes(content, path, poparse.PoWithConfig(PoParserCfg))
 
-	// Truncate file.
-	rawfile, err = os.Create(rawfile.Name())
-	if err != nil {
-		return err
+	poParsed := baseParse.Parse()
+	if len(baseParse.Errors()) > 0 {
+		return nil, baseParse.Errors()[0]
 	}
 
-	err = compiler.ToWriter(rawfile)
-	if err != nil {
-		return err
-	}
+	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
 
-	return nil
+	return poParsed, nil
 }
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..9f1bf56 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -1,27 +1,23 @@
 package cmd
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 )
 
-func processOutput() (*os.File, error) {
-	if output == "-" {
-		return os.Stdout, nil
+func outputFilePath() string {
+	if output != "" {
+		return filepath.Join(outputDir, output)
 	}
 
-	customOutput := output != ""
-	outputFilePath := filepath.Join(outputDir, defaultDomain+".pot")
-	if customOutput {
-		outputFilePath = filepath.Join(outputDir, output)
-	}
+	return filepath.Join(outputDir, defaultDomain+".pot")
+}
 
-	_, err := os.OpenFile(outputFilePath, os.O_RDWR, os.ModePerm)
-	if os.IsExist(err) && !forcePo && customOutput {
-		return nil, fmt.Errorf("file %s already exists", outputFilePath)
+func processOutput() (*os.File, error) {
+	if output == "-" {
+		return os.Stdout, nil
 	}
 
 	// Truncate file.
-	return os.Create(outputFilePath)
+	return os.Create(outputFilePath())
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 5c2a18c..9dcbbab 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,6 +44,14 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		if joinExisting {
+			parsedFile, err = join(parsedFile)
+			if err != nil {
+				return fmt.Errorf("error joining messages: %w", err)
+			}
+		}
+
+		// The output is truncated only now that nothing else can fail.
 		out, err := processOutput()
 		if err != nil {
 			return err
@@ -54,10 +62,6 @@ Similarly for optional arguments.`,
 			}
 		}()
 
-		if joinExisting {
-			return join(parser, out)
-		}
-
 		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
 		if err != nil {
 			return fmt.Errorf("error compiling translations: %w", err)
-- 
2.43.0


From b7d24ff6c37b395f32fbe00b491a111d91f95ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 58/87] fix: do not extract the messages of --exclude-file in
 xgotext

The file, documented as a PO file, was read as a list of paths.
---
 cli/xgotext/cmd/input.go | 27 ++++++++++++++++++---------
 cli/xgotext/cmd/root.go  |  5 +++++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17b954c..15289b0 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -8,6 +8,8 @@ import (
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
+	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 	krfs "github.com/kr/fs"
 )
 
@@ -20,15 +22,6 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		inputFiles = append(inputFiles, files...)
 	}
 
-	if excludeFile != "" {
-		var files []string
-		files, err := readFilesFrom(excludeFile)
-		if err != nil {
-			return nil, fmt.Errorf("error reading file %s: %w", excludeFile, err)
-		}
-
-		exclude = append(exclude, files...)
-	}
 	if directory != "" {
 		for i, file := range inputFiles {
 			if file != "-" { // Standard input is in no directory.
@@ -68,6 +61,22 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	return parser, nil
 }
 
+// excludeMessages removes the messages of the file given with --exclude-file.
+func excludeMessages(entries po.Entries) (po.Entries, error) {
+	if excludeFile == "" {
+		return entries, nil
+	}
+
+	excluded, err := poparse.Po(excludeFile, poparse.PoWithConfig(PoParserCfg))
+	if err != nil {
+		return nil, err
+	}
+
+	return slices.DeleteFunc(entries, func(e po.Entry) bool {
+		return !e.IsHeader() && excluded.Index(e.ID, e.Context) != -1
+	}), nil
+}
+
 func readFiles(paths []string) ([]*os.File, error) {
 	seenFiles := make(map[string]struct{})
 
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 9dcbbab..2321d61 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,6 +44,11 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		parsedFile.Entries, err = excludeMessages(parsedFile.Entries)
+		if err != nil {
+			return fmt.Errorf("error reading file %s: %w", excludeFile, err)
+		}
+
 		if joinExisting {
 			parsedFile, err = join(parsedFile)
 			if err != nil {
-- 
2.43.0


From 373349720bc85acb3f3310b946f07604342bd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 59/87] fix: recognise the gotext library under every name a Go
 file imports it by

---
 pkg/go/parse/file.go    | 37 ++++++++++++++++++++++---------------
 pkg/go/parse/process.go |  5 ++++-
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 9f3fce4..2428982 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"strconv"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -30,9 +31,9 @@ type File struct {
 	seenNodes map[ast.Node]struct{}
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
-	name      string // The path to the file.
-	pkgName   string // The name of the package declared in the file.
-	hasGotext bool   // Indicates if the file imports the desired "gotext" package.
+	name      string              // The path to the file.
+	pkgNames  map[string]struct{} // The names under which the file imports the "gotext" package.
+	hasGotext bool                // Indicates if the file imports the desired "gotext" package.
 
 	errors []error
 }
@@ -58,7 +59,7 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
-	f.pkgName = DefaultPackageName
+	f.pkgNames = nil
 	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
@@ -89,10 +90,9 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 	file := &File{
-		reader:  bytes.NewReader(b),
-		name:    name,
-		pkgName: DefaultPackageName,
-		config:  config,
+		reader: bytes.NewReader(b),
+		name:   name,
+		config: config,
 	}
 
 	if err := file.parse(); err != nil {
@@ -135,16 +135,23 @@ func (f *File) parse() error {
 }
 
 // determinePackageInfo analyzes the file's AST to extract package-related information.
-// It determines the package name and checks if the desired "gotext" package is imported.
+// It determines the package names and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
+	f.pkgNames = make(map[string]struct{})
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
-			f.hasGotext = true
-			if imp.Name != nil {
-				f.pkgName = imp.Name.String()
-			}
-			break
+		path, err := strconv.Unquote(imp.Path.Value)
+		if err != nil || strconv.Quote(path) != WantedImport {
+			continue
 		}
+		f.hasGotext = true
+		name := DefaultPackageName
+		if imp.Name != nil {
+			name = imp.Name.String()
+		}
+		f.pkgNames[name] = struct{}{}
+	}
+	if !f.hasGotext {
+		f.pkgNames[DefaultPackageName] = struct{}{}
 	}
 }
 
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index f22c9f2..1a837b0 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -46,7 +46,10 @@ func (f *File) isGotextCall(n ast.Node) bool {
 	}
 
 	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName {
+	if !ok {
+		return false
+	}
+	if _, ok = f.pkgNames[ident.Name]; !ok {
 		return false
 	}
 
-- 
2.43.0


From a386f1fc3ba0abbf707df6b07bf6daad82d8769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 60/87] fix: count lines from where the content of a reused Go
 file object begins

---
 pkg/go/parse/file.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 2428982..a43b84f 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -62,15 +62,11 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.pkgNames = nil
 	f.hasGotext = false
 
-	if r, ok := d.(*bytes.Reader); ok {
-		f.reader = r
-	} else {
-		b, err := io.ReadAll(d)
-		if err != nil {
-			return err
-		}
-		f.reader = bytes.NewReader(b)
+	b, err := io.ReadAll(d)
+	if err != nil {
+		return err
 	}
+	f.reader = bytes.NewReader(b)
 	f.name = name
 
 	if config != nil {
-- 
2.43.0


From 18d7704e8ac931e2600618aa02f01e992d4b686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 61/87] fix: leave out the files below excluded directories
 when extracting

---
 internal/util/skip.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..39efe1c 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -3,6 +3,7 @@ package util
 import (
 	"log"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
@@ -40,11 +41,16 @@ func ShouldSkipFile(
 	return isExcludedPath(w.Path(), excludedPaths)
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
+// isExcludedPath checks if a path is in the exclude list defined in the configuration,
+// or below a directory in it.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
+		if err1 != nil || err2 != nil {
+			return false
+		}
+		rel, err := filepath.Rel(abs1, abs2)
+		return err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
 	})
 }
-- 
2.43.0


From e123d5750461caf5c9975ea72bae669fbdcb02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 62/87] fix: do not write into the template's spare plural
 forms when merging

---
 pkg/po/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 0af2074..de214ee 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -140,7 +140,7 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 		}
 	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
+			entry.Plurals = append(slices.Clip(entry.Plurals), PluralEntry{ID: i})
 		}
 	}
 	return false
-- 
2.43.0


From c37b7dd33d63d7f070db1b5c3e8bfff922b94889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 63/87] fix: do not colour the PO output with NoColor

---
 pkg/po/compile/po_compiler_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 0977b45..f602599 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -16,7 +16,7 @@ type entryBuilder struct {
 }
 
 func (eb *entryBuilder) applyStyle(str string, names ...string) string {
-	if eb.Config.Highlight == nil {
+	if eb.Config.Highlight == nil || eb.Config.NoColor {
 		return str
 	}
 
-- 
2.43.0


From 9a8011e65733ec68edd556c1d660d4580893555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 64/87] fix: write the header comments when there is no file to
 join yet

---
 cli/xgotext/cmd/config.go | 2 +-
 cli/xgotext/cmd/join.go   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index a565bb3..744b9b7 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -44,7 +44,7 @@ func initConfig() {
 		MsgstrPrefix:    msgstrPrefix,
 		MsgstrSuffix:    msgstrSuffix,
 		Verbose:         verbose,
-		ManageHeader:    !joinExisting, // An existing header is kept as it is.
+		ManageHeader:    true,
 		HeaderComments:  true,
 		HeaderFields:    true,
 		WordWrap:        wordWrap,
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index a566a4d..8fee47e 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -30,6 +30,9 @@ func join(goParsed *po.File) (*po.File, error) {
 		return nil, baseParse.Errors()[0]
 	}
 
+	// An existing header is kept as it is.
+	CompilerCfg.ManageHeader = false
+
 	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
 
 	return poParsed, nil
-- 
2.43.0


From f3a75e063b310e50da9a5e34acc0be30872bdd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 65/87] fix: leave existing translations without prefix and
 suffix when joining

---
 cli/xgotext/cmd/join.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 8fee47e..f8f6162 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -30,10 +30,32 @@ func join(goParsed *po.File) (*po.File, error) {
 		return nil, baseParse.Errors()[0]
 	}
 
-	// An existing header is kept as it is.
+	// An existing header and existing translations are kept as they are.
 	CompilerCfg.ManageHeader = false
-
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
+	CompilerCfg.MsgstrPrefix, CompilerCfg.MsgstrSuffix = "", ""
+
+	existing := poParsed.Entries
+	poParsed.Entries = po.Merge(existing, goParsed.Entries)
+	for i, e := range poParsed.Entries {
+		if !e.IsHeader() && existing.Index(e.ID, e.Context) == -1 {
+			poParsed.Entries[i] = fillNew(e)
+		}
+	}
 
 	return poParsed, nil
 }
+
+// fillNew gives a message without translation the prefix and suffix of new messages.
+func fillNew(e po.Entry) po.Entry {
+	value := msgstrPrefix + msgstrSuffix
+	if e.Str != "" || len(e.Plurals) > 0 || value == "" {
+		return e
+	}
+	if !e.IsPlural() {
+		e.Str = value
+		return e
+	}
+	e.Plurals = po.PluralEntries{{ID: 0, Str: value}, {ID: 1, Str: value}}
+
+	return e
+}
-- 
2.43.0


From 86f7422d20341130d29009c9d544b22625cab82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 66/87] fix: EntryStrMatchRatio compared the ids instead of the
 translations

---
 pkg/po/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index d875e8a..b8f1b0d 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From da935cdcd364ca129560ebf2ddad3613d37ec1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 67/87] fix: a small MO file with overlapping strings could use
 unbounded memory

---
 pkg/po/parse/mo_parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 70626ce..0c0646c 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -263,6 +263,11 @@ func (m *MoParser) makeEntries(
 	msgIDStart, msgIDLen []u32,
 	msgStrStart, msgStrLen []i32,
 ) (entries po.Entries) {
+	// Strings may share bytes of the file, but a small file whose strings all
+	// point to the same bytes must not expand to a huge catalog.
+	maxTotal := u64(1<<16) + 32*u64(len(m.data))
+	var total u64
+
 	for i := u32(0); i < header.Nstrings; i++ {
 		idStart := i64(msgIDStart[i])
 		idLen := msgIDLen[i]
@@ -277,6 +282,10 @@ func (m *MoParser) makeEntries(
 			m.error("msgstr data out of range[start: %d len: %d]", strStart, strLen)
 			return
 		}
+		if total += u64(idLen) + u64(u32(strLen)); total > maxTotal {
+			m.error("too many overlapping strings")
+			return
+		}
 
 		// Read message ID data
 		_, err := r.Seek(idStart, 0)
-- 
2.43.0


From 53ba447c15b5fab75dc4470a4a480cbfc495275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 68/87] fix: msgocat --lang dropped the references of the
 header

---
 cli/msgocat/cmd/run.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..9cd6337 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -54,11 +54,8 @@ func run(cmd *cobra.Command, args []string) error {
 			header := mergedFiles.HeaderFromIndex(hindex)
 			header.Set("Language", lang)
 
-			newHeader := header.ToEntry()
-			newHeader.Flags = oldHeader.Flags
-			newHeader.Comments = oldHeader.Comments
-			newHeader.ExtractedComments = oldHeader.ExtractedComments
-			newHeader.Previous = oldHeader.Previous
+			newHeader := oldHeader
+			newHeader.Str = header.ToEntry().Str
 
 			mergedFiles[hindex] = newHeader
 		}
-- 
2.43.0


From 7627207fcb7e2f005ebc0c7019459c1e12d70899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 69/87] fix: write the flags of an entry on one line

---
 pkg/po/compile/po_compiler_format.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index f602599..c4a2474 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -265,13 +265,12 @@ func (eb *entryBuilder) referenceComment() string {
 }
 
 func (eb *entryBuilder) flagComment() string {
-	var comments string
-	for _, f := range eb.Flags {
-		comment := fmt.Sprintf("#, %s\n", f)
-		comments += comment
+	if len(eb.Flags) == 0 {
+		return ""
 	}
 
-	return comments
+	// Other tools look at one line of flags only.
+	return "#, " + strings.Join(eb.Flags, ", ") + "\n"
 }
 
 func (eb *entryBuilder) previousComment() string {
-- 
2.43.0


From 907022256b44f612b000f7594f07420eaba912f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 70/87] fix: previous message lines of obsolete entries are
 marked obsolete

---
 pkg/po/compile/po_compiler_format.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index c4a2474..db7ddd0 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -75,15 +75,10 @@ func (eb *entryBuilder) BuildEntry() []byte {
 	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
 
 	if eb.Obsolete || commentFuzzy {
-		prefix := "#"
+		prefix := "# "
 		if eb.Obsolete {
-			if eb.Config.UseCustomObsoletePrefix {
-				prefix += string(eb.Config.CustomObsoletePrefixRune)
-			} else {
-				prefix += "~"
-			}
+			prefix = eb.obsoletePrefix() + " "
 		}
-		prefix += " "
 
 		for _, line := range strings.Split(entry, "\n") {
 			if line == "" {
@@ -101,6 +96,14 @@ func (eb *entryBuilder) BuildEntry() []byte {
 	return buf.Bytes()
 }
 
+// obsoletePrefix is what the lines of an obsolete entry begin with.
+func (eb *entryBuilder) obsoletePrefix() string {
+	if eb.Config.UseCustomObsoletePrefix {
+		return "#" + string(eb.Config.CustomObsoletePrefixRune)
+	}
+	return "#~"
+}
+
 func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	var buf bytes.Buffer
 
@@ -275,8 +278,12 @@ func (eb *entryBuilder) flagComment() string {
 
 func (eb *entryBuilder) previousComment() string {
 	var b strings.Builder
+	prefix := "#"
+	if eb.Obsolete {
+		prefix = eb.obsoletePrefix()
+	}
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		fmt.Fprintf(&b, "%s| %s\n", prefix, p)
 	}
 	return b.String()
 }
-- 
2.43.0


From 7215dc679858b0fde2e7b8faa37183aa127d312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 71/87] fix: hexadecimal and octal escapes in PO strings are
 single bytes

---
 internal/util/po_parse.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 9ada1af..5ea7c89 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -1,6 +1,10 @@
 package util
 
 import (
+	"strconv"
+	"strings"
+	"unicode/utf8"
+
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 )
@@ -53,10 +57,31 @@ var (
 	PoLexer  = lexer.MustSimple(PoRules)
 	PoParser = participle.MustBuild[poFile](
 		participle.Lexer(PoLexer),
-		participle.Unquote("String"),
+		participle.Map(unquote, "String"),
 		participle.Elide(
 			"WS",
 			"Comment",
 		),
 	)
 )
+
+// unquote decodes the escapes of a string; \x and octal ones are single bytes.
+func unquote(t lexer.Token) (lexer.Token, error) {
+	var buf strings.Builder
+
+	for s := t.Value[1 : len(t.Value)-1]; s != ""; {
+		value, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err.Error())
+		}
+		s = tail
+		if value < utf8.RuneSelf || !multibyte {
+			buf.WriteByte(byte(value))
+		} else {
+			buf.WriteRune(value)
+		}
+	}
+	t.Value = buf.String()
+
+	return t, nil
+}
-- 
2.43.0


From 4b830475d6f84da54b2928aceb6327255c2f427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 72/87] fix: control characters are written so that no other
 tool misreads them

---
 pkg/po/compile/po_compiler_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 9c6d6a9..02b0811 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -55,11 +55,12 @@ func escapePOString(s string) string {
 		case '\r':
 			buf.WriteString(`\r`)
 		default:
-			// The \x escape can only hold one byte, so it's limited to ASCII.
+			// An escape can only hold one byte, so it's limited to ASCII. Unlike
+			// a hexadecimal one, an octal one never takes in what follows it.
 			if strconv.IsPrint(r) || r >= utf8.RuneSelf {
 				buf.WriteRune(r)
 			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
+				fmt.Fprintf(&buf, `\%03o`, r)
 			}
 		}
 	}
-- 
2.43.0


From 293a7c6c1d63d85208b992bd8d193ae370cf13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 73/87] fix: messages without context are found by FuzzyFind

---
 internal/util/equal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index b74200a..e3b80c8 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -8,7 +8,7 @@ import (
 )
 
 func FuzzyEqual(x, y string) bool {
-	return fuzzy.Ratio(x, y) >= 80
+	return x == y || fuzzy.Ratio(x, y) >= 80 // Empty strings have no ratio.
 }
 
 type visitedPair struct {
-- 
2.43.0


From eb917f775d3160c39af4db58f94ba41d6fd96a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 74/87] fix: msgomerge --update run in a terminal writes no
 colours into the file

---
 cli/msgomerge/cmd/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 2a83ff3..5dad4e1 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -28,7 +28,8 @@ func initConfig(cmd *cobra.Command, args []string) {
 
 	switch color {
 	case "auto":
-		if !term.IsTerminal(int(os.Stdout.Fd())) || outputPath != "-" {
+		// The updated file gets what is written to the terminal.
+		if !term.IsTerminal(int(os.Stdout.Fd())) || outputPath != "-" || update {
 			break
 		}
 		fallthrough
-- 
2.43.0


From ee70599130459ca70e866e06baed0f62fb7920f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 75/87] fix: a message that is no longer plural keeps its first
 form, in whatever order they come

---
 pkg/po/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index de214ee..af2376a 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -209,7 +209,7 @@ func mergeEntryStrings(target *Entry, source Entry) {
 		target.Plurals[0].Str = source.Str
 	case !target.IsPlural() && source.IsPlural():
 		if len(source.Plurals) > 0 {
-			target.Str = source.Plurals[0].Str
+			target.Str = slices.Clone(source.Plurals).Sort()[0].Str // The forms come in any order.
 		}
 	case !target.IsPlural() && !source.IsPlural():
 		target.Str = source.Str
-- 
2.43.0


From adfac6e1ff9ae18d208ec1925b3aa87ac936ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 76/87] fix: errors in obsolete entries name the file and the
 place in it

---
 pkg/po/parse/po_parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index fd0af94..ce3d247 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
@@ -176,7 +177,9 @@ func splitObsoletes(comp *regexp.Regexp, tokens []lexer.Token) (live, obsolete [
 func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	comp := p.obsoleteRegex()
 
-	cleanedLines := make([]string, 0, len(tokens))
+	// Every line stays at its place, so that errors tell where it is in the file.
+	var fullFile strings.Builder
+	lineno := 1
 	for _, token := range tokens {
 		if token.Type != util.PoSymbols["Comment"] {
 			continue
@@ -189,14 +192,20 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 			}
 		}
 
-		cleanedLines = append(cleanedLines, line)
+		for ; lineno < token.Pos.Line; lineno++ {
+			fullFile.WriteByte('\n')
+		}
+		indent := token.Pos.Column - 1 +
+			utf8.RuneCountInString(token.String()) - utf8.RuneCountInString(line)
+		if indent > 0 {
+			fullFile.WriteString(strings.Repeat(" ", indent))
+		}
+		fullFile.WriteString(line)
 	}
 
-	fullFile := strings.Join(cleanedLines, "\n")
-
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		fullFile.String(),
+		p.filename,
 		PoWithConfig(p.Config),
 		PoWithParseObsolete(false),
 		poWithMarkAllAsObsolete(true),
-- 
2.43.0


From 44f0ae29d2bf55578887120c63900e95a11a7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 77/87] fix: an error in a reference comment names the file and
 the line

---
 pkg/po/parse/po_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index ce3d247..e3abfd1 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -258,7 +258,7 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 			matches := locationRegex.FindStringSubmatch(t.String())
 			locs, err := parseLocations(matches[1])
 			if err != nil {
-				return err
+				return fmt.Errorf("%s: %w", t.Pos, err)
 			}
 			entry.Locations = append(entry.Locations, locs...)
 		case extractedRegex.MatchString(t.String()):
-- 
2.43.0


From db12bde0d665cc88131e395f9bc18b216e6b55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 78/87] fix: errors of the MO reader name the file

---
 pkg/po/parse/mo_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 0c0646c..82d0c1c 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -48,6 +48,9 @@ func (m *MoParser) error(format string, a ...any) {
 	} else {
 		err = fmt.Errorf(format, a...)
 	}
+	if m.filename != "" {
+		err = fmt.Errorf("%s: %w", m.filename, err)
+	}
 
 	if m.Config.Logger != nil {
 		m.Config.Logger.Println("ERROR:", err)
-- 
2.43.0


From cc9f4f03afd4e6a7aa5f92311fc7e7b28cc81745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 79/87] fix: msgofmt names the input file that is not valid

---
 cli/msgofmt/cmd/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 71e706d..4a61597 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -103,6 +103,10 @@ If input file is -, standard input is read.`,
 			if err != nil {
 				return
 			}
+			if errs := poFile.Validate(); len(errs) > 0 {
+				err = errs[0]
+				return
+			}
 
 			allEntries = append(allEntries, poFile.Entries...)
 		}
-- 
2.43.0


From 25dcc5fd3377210e280359ef4fd513feb8656d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 80/87] fix: what extraction says about a call names the file
 and the line

---
 pkg/go/parse/process.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 1a837b0..a366a65 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -1,6 +1,7 @@
 package parse
 
 import (
+	"fmt"
 	"go/ast"
 	"go/token"
 	"strconv"
@@ -81,13 +82,18 @@ type argumentData struct {
 	lit   *ast.BasicLit
 }
 
+// place tells where a node is in its file.
+func (f *File) place(n ast.Node) string {
+	return fmt.Sprintf("%s:%d", f.name, util.FindLineFromReader(f.reader, n.Pos()-1))
+}
+
 // extractArg extracts a string argument from a function call at the specified index.
 func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	if index == -1 {
 		return
 	}
 	if index < 0 || index >= len(call.Args) {
-		a.err = f.error("index (%d) out of range", index)
+		a.err = f.error("%s: index (%d) out of range", f.place(call), index)
 		return
 	}
 	lit, ok := call.Args[index].(*ast.BasicLit)
@@ -96,7 +102,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	}
 
 	if lit.Kind != token.STRING {
-		a.err = f.error("the specified argument (%d) is not a string", index)
+		a.err = f.error("%s: the specified argument (%d) is not a string", f.place(lit), index)
 		return
 	}
 
-- 
2.43.0


From be5c98f932637474957c4a0e7ba56b62482ab63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 81/87] fix: texts in other character sets than UTF-8 are read
 and written as they are

---
 internal/util/po_parse.go          | 5 +++++
 pkg/po/compile/po_compiler_util.go | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 5ea7c89..a84d616 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -70,6 +70,11 @@ func unquote(t lexer.Token) (lexer.Token, error) {
 	var buf strings.Builder
 
 	for s := t.Value[1 : len(t.Value)-1]; s != ""; {
+		if s[0] >= utf8.RuneSelf { // Text may be in another character set than UTF-8.
+			buf.WriteByte(s[0])
+			s = s[1:]
+			continue
+		}
 		value, multibyte, tail, err := strconv.UnquoteChar(s, '"')
 		if err != nil {
 			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err.Error())
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 02b0811..24dd9b3 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -42,8 +42,11 @@ func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries p
 
 func escapePOString(s string) string {
 	var buf strings.Builder
-	for _, r := range s {
+	for i, r := range s {
 		switch r {
+		case utf8.RuneError: // Text may be in another character set than UTF-8.
+			_, size := utf8.DecodeRuneInString(s[i:])
+			buf.WriteString(s[i : i+size])
 		case '"':
 			buf.WriteString(`\"`)
 		case '\\':
-- 
2.43.0


From 864b98e7b5d463173ed6575a31ac52da55b92934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 82/87] fix: the name of a character set is recognised in small
 letters

---
 pkg/po/header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 3ba9337..7271cb8 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -95,7 +95,7 @@ func (h Header) ToConfig() HeaderConfig {
 	if err == nil {
 		mediatype = mtype
 		chset := params["charset"]
-		if util.SupportedCharsets[chset] {
+		if util.SupportedCharsets[strings.ToUpper(chset)] {
 			charset = chset
 		}
 	}
@@ -219,7 +219,7 @@ func (cfg HeaderConfig) Validate() []error {
 			fmt.Errorf("content-transfer-encoding(%s) must be 8bit", cfg.ContentTransferEncoding),
 		)
 	}
-	if !util.SupportedCharsets[cfg.Charset] && cfg.Charset != "" {
+	if !util.SupportedCharsets[strings.ToUpper(cfg.Charset)] && cfg.Charset != "" {
 		errs = append(errs, fmt.Errorf("%q isn't a supported charset", cfg.Charset))
 	}
 
-- 
2.43.0


From 97dedf18ed0b36f0e1330f466e8d866f82e73c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 83/87] fix: combined translations are headed with the file
 that has them

---
 pkg/po/msgcat_merge.go | 53 +++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index d0f935e..ee11e38 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -88,6 +88,32 @@ type msgcatEntryInfo struct {
 	index      int    // Index in the entries slice
 	file       string // First file where the entry was found
 	timesFound uint
+	filled     map[int]string // Files of the translations that the first file lacks, by plural form.
+}
+
+// translatedIn returns the file in which the form was first translated.
+func (i msgcatEntryInfo) translatedIn(form int) string {
+	if file, ok := i.filled[form]; ok {
+		return file
+	}
+	return i.file
+}
+
+// fill notes which translations of newEntry the original entry lacks.
+func (i *msgcatEntryInfo) fill(originalEntry, newEntry Entry, newFilename string) {
+	msgcatToPlural(&originalEntry, originalEntry.ID)
+	msgcatToPlural(&newEntry, newEntry.ID)
+
+	for _, form := range newEntry.Plurals {
+		o := originalEntry.Plurals.indexByID(form.ID)
+		if form.Str == "" || o != -1 && originalEntry.Plurals[o].Str != "" {
+			continue
+		}
+		if i.filled == nil {
+			i.filled = map[int]string{}
+		}
+		i.filled[form.ID] = newFilename
+	}
 }
 
 // handleEntry handles an individual PO entry including merging logic.
@@ -102,12 +128,10 @@ func (m *msgcatMergeProcess) handleEntry(entry Entry, filename string) {
 		if m.config.UseFirst {
 			return
 		}
-		m.entriesSlice[original.index] = msgcatMergeEntry(
-			m.entriesSlice[original.index],
-			entry,
-			original.file,
-			filename,
-		)
+		merged := m.entriesSlice[original.index]
+		m.entriesSlice[original.index] = msgcatMergeEntry(merged, entry, original, filename)
+		original.fill(merged, entry, filename)
+		m.entriesMap[uid] = original
 		return
 	}
 
@@ -123,17 +147,18 @@ func (m *msgcatMergeProcess) handleEntry(entry Entry, filename string) {
 func msgcatMergeEntry(
 	originalEntry Entry,
 	newEntry Entry,
-	originalFilename, newFilename string,
+	original msgcatEntryInfo, newFilename string,
 ) Entry {
+	originalFilename := original.file
 	conflict := originalEntry.FullUnifiedID() != newEntry.FullUnifiedID()
 	if originalEntry.IsPlural() != newEntry.IsPlural() {
 		msgcatToPlural(&originalEntry, newEntry.Plural)
 		msgcatToPlural(&newEntry, originalEntry.Plural)
 	}
 	conflict = conflict || msgcatConflict(originalEntry.Str, newEntry.Str)
-	for _, original := range originalEntry.Plurals {
-		i := newEntry.Plurals.indexByID(original.ID)
-		conflict = conflict || i != -1 && msgcatConflict(original.Str, newEntry.Plurals[i].Str)
+	for _, form := range originalEntry.Plurals {
+		i := newEntry.Plurals.indexByID(form.ID)
+		conflict = conflict || i != -1 && msgcatConflict(form.Str, newEntry.Plurals[i].Str)
 	}
 
 	mergedEntry := Entry{
@@ -163,13 +188,13 @@ func msgcatMergeEntry(
 		Plurals: msgcatMergePlurals(
 			originalEntry,
 			newEntry,
-			originalFilename,
+			original,
 			newFilename,
 		),
 		Str: msgcatMergeStrings(
 			originalEntry.Str,
 			newEntry.Str,
-			originalFilename,
+			original.translatedIn(0),
 			newFilename,
 		),
 		Locations: append(
@@ -205,7 +230,7 @@ func msgcatToPlural(entry *Entry, plural string) {
 // msgcatMergePlurals handles merging of plural form strings.
 func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
-	originalFilename, newFilename string,
+	info msgcatEntryInfo, newFilename string,
 ) PluralEntries {
 	if !originalEntry.IsPlural() {
 		return originalEntry.Plurals
@@ -225,7 +250,7 @@ func msgcatMergePlurals(
 			ID: original.ID,
 			Str: msgcatMergeStrings(
 				original.Str, newPlural.Str,
-				originalFilename, newFilename,
+				info.translatedIn(original.ID), newFilename,
 			),
 		})
 	}
-- 
2.43.0


From a2a01281afe4857ac9794a2d82a179669f9a6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 84/87] fix: numbers of plural forms are decimal

---
 internal/util/po_parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index a84d616..e4fefe2 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -58,6 +58,7 @@ var (
 	PoParser = participle.MustBuild[poFile](
 		participle.Lexer(PoLexer),
 		participle.Map(unquote, "String"),
+		participle.Map(decimal, "Integer"),
 		participle.Elide(
 			"WS",
 			"Comment",
@@ -65,6 +66,16 @@ var (
 	)
 )
 
+// decimal drops leading zeros, which would make the number an octal one.
+func decimal(t lexer.Token) (lexer.Token, error) {
+	if v := strings.TrimLeft(t.Value, "0"); v != "" {
+		t.Value = v
+	} else {
+		t.Value = "0"
+	}
+	return t, nil
+}
+
 // unquote decodes the escapes of a string; \x and octal ones are single bytes.
 func unquote(t lexer.Token) (lexer.Token, error) {
 	var buf strings.Builder
-- 
2.43.0


From 0ccf93235c92855862ed411279927c60f08f5a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 85/87] fix: take the lines of Go literals from the file set,
 which makes extraction linear in the size of a source

---
 pkg/go/parse/file.go    |  4 +++-
 pkg/go/parse/process.go | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index a43b84f..effe1d3 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -30,6 +30,7 @@ type File struct {
 	config    *Config
 	seenNodes map[ast.Node]struct{}
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
+	fset      *token.FileSet
 	reader    *bytes.Reader
 	name      string              // The path to the file.
 	pkgNames  map[string]struct{} // The names under which the file imports the "gotext" package.
@@ -123,7 +124,8 @@ func NewFile(b io.Reader, name string, config *Config) (*File, error) {
 // parse parses the file content into an AST.
 func (f *File) parse() error {
 	var err error
-	f.file, err = parser.ParseFile(token.NewFileSet(), f.name, f.reader, 0)
+	f.fset = token.NewFileSet()
+	f.file, err = parser.ParseFile(f.fset, f.name, f.reader, 0)
 	if err != nil {
 		return fmt.Errorf("failed to parse the file: %w", err)
 	}
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index a366a65..98f8190 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -6,7 +6,6 @@ import (
 	"go/token"
 	"strconv"
 
-	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
 
@@ -68,7 +67,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
+			Line: f.line(n),
 			File: f.name,
 		}},
 	}, nil
@@ -82,9 +81,14 @@ type argumentData struct {
 	lit   *ast.BasicLit
 }
 
+// line is the line of a node in its file, whatever //line directives say.
+func (f *File) line(n ast.Node) int {
+	return f.fset.PositionFor(n.Pos(), false).Line
+}
+
 // place tells where a node is in its file.
 func (f *File) place(n ast.Node) string {
-	return fmt.Sprintf("%s:%d", f.name, util.FindLineFromReader(f.reader, n.Pos()-1))
+	return fmt.Sprintf("%s:%d", f.name, f.line(n))
 }
 
 // extractArg extracts a string argument from a function call at the specified index.
@@ -146,7 +150,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.lit.Pos()-1),
+					Line: f.line(arg.lit),
 				},
 			)
 			fallthrough
-- 
2.43.0


From 2105ad216c8d22d49793d00bc6293218297da4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 86/87] fix: an empty copyright holder puts the output in the
 public domain, as the help says

---
 cli/xgotext/cmd/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index 744b9b7..5f927ae 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -37,7 +37,7 @@ func initConfig() {
 		OmitHeader:      omitHeader,
 		PackageName:     packageName,
 		CopyrightHolder: copyrightHolder,
-		ForeignUser:     foreignUser,
+		ForeignUser:     foreignUser || copyrightHolder == "",
 		Title:           title,
 		NoLocation:      noLocation,
 		AddLocation:     compile.PoLocationMode(addLocation),
-- 
2.43.0


From e46b9cca36e2758e9d950339bb06dd4d7cc7eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 87/87] fix: cleaning duplicates copies the references of a
 message once, not for every duplicate

---
 pkg/po/entries.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 600e05e..d98334d 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -139,8 +139,13 @@ func (e Entries) CleanObsoletes() Entries {
 
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
+	copied := make(map[string]bool) // The messages whose locations are not the ones of e.
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+		if uid := a.UnifiedID(); !copied[uid] {
+			copied[uid] = true
+			a.Locations = slices.Clip(a.Locations)
+		}
+		a.Locations = append(a.Locations, b.Locations...)
 		return &a
 	})
 }
-- 
2.43.0

