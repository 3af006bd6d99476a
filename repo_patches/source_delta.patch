From b49d396d3d8d0683745bbd58797aec951b69a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 01/58] fix: compare lines and plural IDs without integer
 overflow

---
 pkg/po/cmp.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..047f392 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -142,7 +142,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -160,7 +160,19 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
+}
+
+// compareInt compares two integers without the overflow a subtraction can cause.
+func compareInt(a, b int) int {
+	switch {
+	case a < b:
+		return -1
+	case a > b:
+		return 1
+	default:
+		return 0
+	}
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 219ed9fe9332b6ca669551a85ca34bc976ff1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 02/58] fix: make CompareEntryByStr transitive when singular
 and plural entries are mixed

---
 pkg/po/cmp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 047f392..ed2c863 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -99,10 +99,8 @@ func CompareEntryByLocation(a, b Entry) int {
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
-		}
+	if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
+		return i
 	}
 	return strings.Compare(a.Str, b.Str)
 }
-- 
2.43.0


From a1677a93e2424295d4533bb1df33eb26b8e6d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 03/58] fix: do not divide by zero when averaging no values

---
 internal/util/average.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..5742920 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -9,6 +9,10 @@ type Number interface {
 func Average[T Number](values ...T) T {
 	var total T
 
+	if len(values) == 0 {
+		return total
+	}
+
 	for _, v := range values {
 		total += v
 	}
-- 
2.43.0


From b7232cb532ef1a5f47b03fcaa2b6530fc5aead3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 04/58] fix: EntryStrMatchRatio compared identifiers instead of
 translations

---
 pkg/po/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index ed2c863..43682aa 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From 72ea1cfdb1d3ff4bf9b7595ac7db01d663b1a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 05/58] fix: Entry.Equal reported identical non-obsolete
 entries as different

---
 pkg/po/entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..51cc03f 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -139,9 +139,10 @@ func (e Entry) Hash() uint32 {
 //
 // It compares ID, context, translation string, flags, and obsolete status.
 func (e Entry) Equal(x Entry) bool {
-	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
+	ok1 := e.ID == x.ID && e.Context == x.Context && e.Plural == x.Plural &&
+		e.Str == x.Str && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From 9ce52313f6994e744cc8ae5c5b84b90dbbb42020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 06/58] fix: merging duplicates wrote into the spare capacity
 of the caller's locations

---
 pkg/po/entries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
-- 
2.43.0


From c67069b3b322531e08cb0c90a8a609ea0ab38686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 07/58] fix: merging modified flags and plural forms of the
 reference entries

---
 pkg/po/entry.go | 2 +-
 pkg/po/merge.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 51cc03f..bcfbe85 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,7 +36,7 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..1349f97 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -132,7 +134,7 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 		}
 	} else if entry.IsPlural() {
 		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
+			entry.Plurals = append(slices.Clip(entry.Plurals), PluralEntry{i, entry.ID})
 		}
 	}
 	return false
@@ -169,6 +171,8 @@ func mergeEntryStrings(target *Entry, source Entry) {
 	case target.IsPlural() && !source.IsPlural():
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
+		} else {
+			target.Plurals = slices.Clone(target.Plurals)
 		}
 		target.Plurals[0].Str = source.Str
 	case !target.IsPlural() && source.IsPlural():
-- 
2.43.0


From cb17c364bec9314a64ece815168a115edd6c5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 08/58] fix: concatenating wrote into the spare capacity of the
 caller's lists

---
 pkg/po/msgcat_merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..1e4bd3e 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -167,7 +167,7 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
 	}
@@ -175,7 +175,7 @@ func msgcatMergeEntry(
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
 			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+		mergedEntry.Flags = append(slices.Clip(mergedEntry.Flags), "fuzzy")
 	}
 
 	return mergedEntry
-- 
2.43.0


From 5594392beaabc03d6f0bf0f50d1b0a0d6faaa7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 09/58] fix: writing a PO file removed the header from the
 caller's entries

---
 pkg/po/compile/po_compiler.go      | 2 +-
 pkg/po/compile/po_compiler_util.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..53b3807 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -107,7 +107,7 @@ func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
 	if c.Config.OmitHeader {
 		i := c.File.Index("", "")
 		if i != -1 {
-			entries = slices.Delete(entries, i, i+1)
+			entries = slices.Delete(slices.Clone(entries), i, i+1)
 		}
 	}
 
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..68e0428 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -91,7 +91,7 @@ func (c PoCompiler) writeHeader(writer io.Writer, entries *po.Entries, eb *entry
 		return nil
 	}
 	header := c.File.HeaderFromIndex(i)
-	*entries = slices.Delete(*entries, i, i+1)
+	*entries = slices.Delete(slices.Clone(*entries), i, i+1)
 
 	if c.Config.HeaderConfig != nil {
 		header = c.Config.HeaderConfig.ToHeader()
-- 
2.43.0


From b36970fbf3da69c4c9f5fced23b73bad74d8c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 10/58] fix: writing a MO file sorted the caller's entries in
 place

---
 pkg/po/compile/mo_compile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..75ac49c 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -61,7 +62,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-		entries = entries.SortFunc(po.CompareEntryByID)
+		entries = slices.Clone(entries).SortFunc(po.CompareEntryByID)
 	}
 	mc.info("creating header...")
 	var hashTabSize u32
-- 
2.43.0


From b0767ebe0c2733127dde173a0d4d283801d5864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 11/58] fix: PO parsing wrote into the caller's buffer and lost
 a final comment without newline

---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..d96dd82 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -249,8 +250,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	p.data = append(slices.Clone(p.originalData), []byte(safeTemplate)...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
-- 
2.43.0


From 88b25bc3f815c0460a15138ccf0efe87a75f7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 12/58] fix: comment markers were recognised anywhere in a
 comment line

---
 pkg/po/parse/po_parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index d96dd82..8a52c06 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,12 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From 0e7b098e6b31349a0a0ed354e041b2f61fa498de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 13/58] fix: a reference without a line number made the PO
 parser panic

---
 pkg/po/parse/po_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 8a52c06..2fa06a9 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -193,7 +193,7 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 			matches := locationRegex.FindStringSubmatch(t.String())
 			parts := strings.SplitN(matches[1], ":", 2)
 			line := -1
-			if parts[1] != "" {
+			if len(parts) > 1 && parts[1] != "" {
 				line, err = strconv.Atoi(parts[1])
 				if err != nil {
 					return fmt.Errorf("error parsing integer: %w", err)
-- 
2.43.0


From 6a6e645999bdb63b4f897da1b6398e04559ec48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 14/58] fix: several flags on one comment line were read as a
 single flag

---
 pkg/po/parse/po_parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 2fa06a9..e7014e7 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -210,9 +210,12 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 				extractedRegex.FindStringSubmatch(t.String())[1],
 			)
 		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
+			flags := flagRegex.FindStringSubmatch(t.String())[1]
+			for _, flag := range strings.Split(flags, ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
 		case previousRegex.MatchString(t.String()):
 			entry.Previous = append(entry.Previous,
 				previousRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From 43aa5e16c1d44a8f5712fa039cf0a3957fb7ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 15/58] fix: a PO string ending in a backslash was read past
 its closing quote

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 70bde3602537197b77ead9b22673489d595b4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 16/58] fix: non-printable characters were escaped to something
 else

---
 pkg/po/compile/po_compiler_util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 68e0428..70cf50d 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
@@ -54,10 +53,10 @@ func escapePOString(s string) string {
 		case '\r':
 			buf.WriteString(`\r`)
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
+			if r < ' ' || r == 0x7f {
+				fmt.Fprintf(&buf, "\\%03o", r)
 			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
+				buf.WriteRune(r)
 			}
 		}
 	}
-- 
2.43.0


From 8a056ccdd3cb0c6548d5a063e4807db653fc6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 17/58] fix: errors in obsolete entries were dropped together
 with the entries

---
 pkg/po/parse/po_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index e7014e7..a3df4e6 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -170,8 +170,8 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	p.errors = append(p.errors, parser.Errors()...)
+	if f == nil {
 		return nil
 	}
 
-- 
2.43.0


From 471784ddd36a74411acb6551b8591cb35e8f8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 18/58] fix: nested obsolete markers made the PO parser recurse
 without bound

---
 pkg/po/parse/po_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index a3df4e6..d028dcc 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -167,6 +167,7 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 		"tmp",
 		PoWithConfig(p.Config),
 		poWithMarkAllAsObsolete(true),
+		PoWithParseObsolete(false),
 	)
 
 	f := parser.Parse()
-- 
2.43.0


From b1aeae2838b9b7a13e59d73483bc87b3b102d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 19/58] fix: the custom obsolete prefix was ignored unless the
 file also used #~

---
 pkg/po/parse/po_parser.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index d028dcc..faa3335 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -134,17 +134,18 @@ var (
 	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
+// obsoleteMarker returns the expression that matches the configured obsolete entry marker.
+func (p *PoParser) obsoleteMarker() *regexp.Regexp {
+	if !p.Config.UseCustomObsoletePrefix {
+		return obsoleteRegex
+	}
+	prefix := regexp.QuoteMeta(string(p.Config.CustomObsoletePrefix))
+	return regexp.MustCompile(`^#` + prefix + ` *(.*)`)
+}
+
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
 func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
-	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
-	}
+	comp := p.obsoleteMarker()
 
 	cleanedLines := make([]string, 0, len(tokens))
 	for _, token := range tokens {
@@ -181,12 +182,12 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+func parseComments(entry *po.Entry, tokens []lexer.Token, obsolete *regexp.Regexp) (err error) {
 	for _, t := range tokens {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if obsoleteRegex.MatchString(t.String()) {
+		if obsolete.MatchString(t.String()) {
 			continue
 		}
 		switch {
@@ -273,6 +274,8 @@ func (p *PoParser) Parse() *po.File {
 		})
 	}
 
+	obsolete := p.obsoleteMarker()
+
 	// Process each entry in the parsed file
 	for _, e := range pFile.Entries {
 		if p.Config.IgnoreAllComments {
@@ -301,7 +304,7 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
+		err = parseComments(&newEntry, e.Tokens, obsolete)
 		if err != nil {
 			p.error(err.Error())
 		}
@@ -318,7 +321,7 @@ func (p *PoParser) Parse() *po.File {
 
 	// Process obsolete entries if configured to do so
 	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
+		return t.Type == util.PoSymbols["Comment"] && obsolete.MatchString(t.String())
 	}) && p.Config.ParseObsoletes {
 		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
 	}
-- 
2.43.0


From 2974f9d75a503c8bc1487a8d13528ac9a6202ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 20/58] fix: an unknown location mode made the PO compiler
 panic

---
 pkg/po/compile/po_compiler_format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..a3570d4 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -221,15 +221,15 @@ func (eb *entryBuilder) referenceComment() string {
 
 	var writeRef func(id int)
 	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
+	case PoLocationModeFile:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+			fmt.Fprintf(&b, "%s\n", l.File)
 		}
-	case PoLocationModeFile:
+	default: // PoLocationModeFull
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
+			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	}
 
-- 
2.43.0


From 3dff2519fc0e7338f2a75be4eedf6398ffd8f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 21/58] fix: PoConfig.RestoreLastCfg panicked when nothing was
 saved

---
 pkg/po/compile/po_config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..8e7d8bc 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -73,7 +73,9 @@ func (c *PoConfig) ApplyOptions(opts ...PoOption) {
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
-- 
2.43.0


From cf49faf4e043a8f6b97b48bf143555d0d25ed4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 22/58] fix: a whole-configuration option destroyed the
 configuration saved by ApplyOptions

---
 pkg/go/parse/config.go      | 3 ++-
 pkg/po/compile/mo_config.go | 3 ++-
 pkg/po/compile/po_config.go | 3 ++-
 pkg/po/parse/mo_config.go   | 3 ++-
 pkg/po/parse/po_config.go   | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..2f8208b 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,12 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	last := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+	c.lastCfg = last
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..4b777a3 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,12 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+	mc.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index 8e7d8bc..bd888af 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,10 +64,11 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	last := *c
 	for _, po := range opts {
 		po(c)
 	}
+	c.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..f7d24b4 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,12 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+	mc.lastCfg = last
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..b41b486 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,11 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	last := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+	p.lastCfg = last
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From 7bdec6b7a5a3c68986511f48a128a6eee701ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 23/58] fix: a line break in a comment, reference, flag or
 title broke out of the comment

---
 pkg/po/compile/po_compiler_format.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index a3570d4..e058e89 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -107,12 +107,14 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	var buf bytes.Buffer
 
 	if eb.Config.HeaderComments {
-		copyright := fmt.Sprintf(copyrightFormat, eb.Config.CopyrightHolder, eb.Config.PackageName)
+		copyright := fmt.Sprintf(copyrightFormat,
+			continueComment("# ", eb.Config.CopyrightHolder),
+			continueComment("# ", eb.Config.PackageName))
 		if eb.Config.ForeignUser {
 			copyright = foreignCopyrightFormat
 		}
 
-		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
+		fmt.Fprintf(&buf, headerFormat, continueComment("# ", eb.Config.Title), copyright)
 	} else {
 		fmt.Fprint(&buf, headerEntry)
 	}
@@ -186,6 +188,11 @@ func (eb *entryBuilder) msgstr() string {
 	return msgstr.String()
 }
 
+// continueComment starts every further line of a comment text with the comment's marker.
+func continueComment(marker, text string) string {
+	return strings.ReplaceAll(text, "\n", "\n"+marker)
+}
+
 func (eb *entryBuilder) comment() string {
 	var b strings.Builder
 	b.WriteString(eb.translatorComment())
@@ -200,7 +207,7 @@ func (eb *entryBuilder) comment() string {
 func (eb *entryBuilder) translatorComment() string {
 	var b strings.Builder
 	for _, comment := range eb.Comments {
-		fmt.Fprintf(&b, "# %s\n", comment)
+		fmt.Fprintf(&b, "# %s\n", continueComment("# ", comment))
 	}
 	return b.String()
 }
@@ -208,7 +215,7 @@ func (eb *entryBuilder) translatorComment() string {
 func (eb *entryBuilder) extractedComment() string {
 	var b strings.Builder
 	for _, comment := range eb.ExtractedComments {
-		fmt.Fprintf(&b, "#. %s\n", comment)
+		fmt.Fprintf(&b, "#. %s\n", continueComment("#. ", comment))
 	}
 	return b.String()
 }
@@ -224,12 +231,12 @@ func (eb *entryBuilder) referenceComment() string {
 	case PoLocationModeFile:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
+			fmt.Fprintf(&b, "%s\n", continueComment("#: ", l.File))
 		}
 	default: // PoLocationModeFull
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+			fmt.Fprintf(&b, "%s:%d\n", continueComment("#: ", l.File), l.Line)
 		}
 	}
 
@@ -244,7 +251,7 @@ func (eb *entryBuilder) referenceComment() string {
 func (eb *entryBuilder) flagComment() string {
 	var comments string
 	for _, f := range eb.Flags {
-		comment := fmt.Sprintf("#, %s\n", f)
+		comment := fmt.Sprintf("#, %s\n", continueComment("#, ", f))
 		comments += comment
 	}
 
@@ -254,7 +261,7 @@ func (eb *entryBuilder) flagComment() string {
 func (eb *entryBuilder) previousComment() string {
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		fmt.Fprintf(&b, "#| %s\n", continueComment("#| ", p))
 	}
 	return b.String()
 }
-- 
2.43.0


From c81f0671b5967dd3f76ee8490128e1a0f125bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 24/58] fix: managed header fields were written without
 escaping

---
 pkg/po/compile/po_compiler_format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index e058e89..dd65dcd 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -121,7 +121,8 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
+			fmt.Fprintf(&buf, headerFieldFormat,
+				escapePOString(field.Key), escapePOString(field.Value))
 
 			if i != len(header.Fields) {
 				fmt.Fprint(&buf, "\n")
-- 
2.43.0


From 6e0293ec325d828807785a17280f81d58b721d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 25/58] fix: a managed header was followed by a second, empty
 header entry

---
 pkg/po/compile/po_compiler_format.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index dd65dcd..fd5fa98 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -132,9 +132,6 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
-- 
2.43.0


From e357c8c187a25c15012e1a30c4441b58c1a81c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 26/58] fix: header values containing a colon were split at the
 wrong place

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..3ba9337 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
-- 
2.43.0


From 4a8b890d5ce9f2817ebb3f7f3fc518799d302535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 27/58] fix: header conversion dropped creation date, plural
 forms and transfer encoding

---
 pkg/po/header.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 3ba9337..56b5d9d 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -100,6 +100,11 @@ func (h Header) ToConfig() HeaderConfig {
 		}
 	}
 
+	encoding := h.Load("Content-Transfer-Encoding")
+	if encoding == "" {
+		encoding = "8bit"
+	}
+
 	var nplurals uint = 2
 	var plural string
 	{
@@ -138,7 +143,7 @@ func (h Header) ToConfig() HeaderConfig {
 		MimeVersion:             mimeVersion,
 		MediaType:               mediatype,
 		Charset:                 charset,
-		ContentTransferEncoding: "8bit",
+		ContentTransferEncoding: encoding,
 		Plural:                  plural,
 		Nplurals:                nplurals,
 		XGenerator:              h.Load("X-Generator"),
@@ -230,9 +235,7 @@ func (cfg HeaderConfig) ToHeader() (h Header) {
 	h.Template = cfg.Template
 	h.sSet("Project-Id-Version", cfg.ProjectIDVersion)
 	h.sSet("Report-Msgid-Bugs-To", cfg.ReportMsgidBugsTo)
-	if cfg.Template {
-		h.sSet("POT-Creation-Date", cfg.POTCreationDate)
-	}
+	h.sSet("POT-Creation-Date", cfg.POTCreationDate)
 	h.sSet("PO-Revision-Date", cfg.PORevisionDate)
 	h.sSet("Last-Translator", cfg.LastTranslator)
 	h.sSet("Language-Team", cfg.LanguageTeam)
@@ -245,7 +248,7 @@ func (cfg HeaderConfig) ToHeader() (h Header) {
 		)
 	}
 	h.sSet("Content-Transfer-Encoding", cfg.ContentTransferEncoding)
-	if cfg.Nplurals != 0 && cfg.Plural != "" && !cfg.Template {
+	if cfg.Nplurals != 0 && cfg.Plural != "" {
 		h.sSet(
 			"Plural-Forms",
 			fmt.Sprintf("nplurals=%d; plural=%s;", cfg.Nplurals, cfg.Plural),
-- 
2.43.0


From d68ef3f7351c8aa08cb2c279483ec4621754e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 28/58] fix: a header with a huge nplurals made merging run out
 of memory

---
 pkg/po/header.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 56b5d9d..34ac94a 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -151,13 +151,16 @@ func (h Header) ToConfig() HeaderConfig {
 	}
 }
 
+// maxNplurals bounds the number of plural forms a header can ask for.
+const maxNplurals = 1000
+
 func (h Header) Nplurals() (nplurals uint) {
 	nplurals = 2
 	value := h.Load("Plural-Forms")
 
 	if np, ok := parseAdvHeaderField(value)["nplurals"]; ok {
 		n, err := strconv.ParseUint(np, 10, 64)
-		if err != nil {
+		if err != nil || n > maxNplurals {
 			return nplurals
 		}
 
-- 
2.43.0


From acb23639541e518ef0aaa80a73b9bab665290b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 29/58] fix: concatenation never applied the less-than and
 more-than selection

---
 pkg/po/msgcat_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 1e4bd3e..bcc7f62 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,7 +64,7 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
+		return info.timesFound >= process.config.LessThan ||
 			info.timesFound <= process.config.MoreThan
 	})
 }
-- 
2.43.0


From b178a43ffdb95f7fb0e222ef7666cfaf684b3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 30/58] fix: concatenation lost the obsolete status and plural
 forms of duplicated messages

---
 pkg/po/msgcat_merge.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index bcc7f62..f160729 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -151,6 +151,8 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
+
 		ID:      originalEntry.ID,
 		Context: originalEntry.Context,
 		Plural:  originalEntry.Plural,
@@ -172,6 +174,10 @@ func msgcatMergeEntry(
 		),
 	}
 
+	if mergedEntry.Plural == "" {
+		mergedEntry.Plural = newEntry.Plural
+	}
+
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
 			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
@@ -186,8 +192,8 @@ func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
 	originalFilename, newFilename string,
 ) PluralEntries {
-	if !originalEntry.IsPlural() {
-		return originalEntry.Plurals
+	if len(originalEntry.Plurals) == 0 {
+		return newEntry.Plurals
 	}
 
 	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
@@ -208,6 +214,10 @@ func msgcatMergePlurals(
 		})
 	}
 
+	if len(newEntry.Plurals) > len(originalEntry.Plurals) {
+		mergedEntries = append(mergedEntries, newEntry.Plurals[len(originalEntry.Plurals):]...)
+	}
+
 	return mergedEntries
 }
 
-- 
2.43.0


From 9dd61d31ddc22dd534f0af9f82a4d163a17924a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 31/58] fix: the MO hash was computed over code points instead
 of bytes

---
 internal/util/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..91e304f 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -4,8 +4,8 @@ package util
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From 493f861a601d5a008be8c967ac512561e12be156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 32/58] fix: big-endian MO files carried, and were expected to
 carry, the wrong magic number

---
 internal/util/bytes.go    | 22 +++++++---------------
 pkg/po/parse/mo_parser.go |  6 +++---
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..13f5681 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -7,8 +7,10 @@ import (
 )
 
 const (
-	BigEndianMagicNumber    uint32 = 0xde120495
-	LittleEndianMagicNumber uint32 = 0x950412de
+	// MagicNumber is the magic number of a MO file, read in the byte order of the file.
+	MagicNumber uint32 = 0x950412de
+	// SwappedMagicNumber is the magic number read in the opposite byte order.
+	SwappedMagicNumber uint32 = 0xde120495
 )
 
 var IsBigEndian = cpu.IsBigEndian
@@ -41,20 +43,10 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the value the magic number field has in the byte order of the file,
+// which is the same for all of them.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return MagicNumber
 }
 
 func (e Endianness) String() string {
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..d704871 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -108,15 +108,15 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	var magic u32
 
 	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
+		err := bin.Read(reader, bin.LittleEndian, &magic)
 		if err != nil {
 			m.error("error reading magic number: %w", err)
 			return
 		}
 		switch magic {
-		case util.LittleEndianMagicNumber:
+		case util.MagicNumber:
 			order = bin.LittleEndian
-		case util.BigEndianMagicNumber:
+		case util.SwappedMagicNumber:
 			order = bin.BigEndian
 		default:
 			m.error("invalid magic number, this isn't a MO file")
-- 
2.43.0


From 1574bb0030afa23d9cd208802820748005e17038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 33/58] fix: parsing a MO file again kept the errors of the
 earlier run

---
 pkg/po/parse/mo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d704871..e66087e 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -152,6 +152,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
-- 
2.43.0


From 47a08e70b48d59f9be071334306fb1cf1d86e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 34/58] fix: hostile counts and lengths in a MO file caused
 panics and huge allocations

---
 pkg/po/parse/mo_parser.go | 45 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index e66087e..36d21cf 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -16,7 +16,6 @@ import (
 type (
 	u32 = uint32
 	i64 = int64
-	i32 = int32
 )
 
 // Common byte sequences used in MO file parsing.
@@ -175,6 +174,12 @@ func (m *MoParser) Parse() (file *po.File) {
 		m.error("invalid minor version number (%d)", v)
 	}
 
+	// Every string needs at least one 8 byte descriptor per table.
+	if i64(header.Nstrings) > i64(len(m.data))/8 {
+		m.error("invalid number of strings (%d)", header.Nstrings)
+		return
+	}
+
 	// Read message ID table
 	msgIDStart := make([]u32, header.Nstrings)
 	msgIDLen := make([]u32, header.Nstrings)
@@ -196,8 +201,8 @@ func (m *MoParser) Parse() (file *po.File) {
 	}
 
 	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
+	msgStrStart := make([]u32, header.Nstrings)
+	msgStrLen := make([]u32, header.Nstrings)
 	_, err = r.Seek(i64(header.TransTabOffset), 0)
 	if err != nil {
 		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
@@ -244,7 +249,7 @@ func (m *MoParser) makeEntries(
 	r *bytes.Reader,
 	header *util.MoHeader,
 	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
+	msgStrStart, msgStrLen []u32,
 ) (entries po.Entries) {
 	for i := u32(0); i < header.Nstrings; i++ {
 		idStart := i64(msgIDStart[i])
@@ -253,13 +258,7 @@ func (m *MoParser) makeEntries(
 		strLen := msgStrLen[i]
 
 		// Read message ID data
-		_, err := r.Seek(idStart, 0)
-		if err != nil {
-			m.error("bad msgid start[%d]: %w", idStart, err)
-		}
-
-		msgIDData := make([]byte, idLen)
-		_, err = r.Read(msgIDData)
+		msgIDData, err := m.readString(r, idStart, idLen)
 		if err != nil {
 			m.error(
 				"error reading msgid data[start: %d len: %d]: %w",
@@ -267,21 +266,18 @@ func (m *MoParser) makeEntries(
 				idLen,
 				err,
 			)
+			return
 		}
 
 		// Read message string data
-		_, err = r.Seek(strStart, 0)
-		if err != nil {
-			m.error("bad msgstr start[%d]: %w", strStart, err)
-		}
-		msgStrData := make([]byte, strLen)
-		_, err = r.Read(msgStrData)
+		msgStrData, err := m.readString(r, strStart, strLen)
 		if err != nil {
 			m.error("error reading msgstr data[start: %d len: %d]: %w",
 				strStart,
 				strLen,
 				err,
 			)
+			return
 		}
 
 		entries = append(entries, makeEntry(msgIDData, msgStrData))
@@ -290,6 +286,21 @@ func (m *MoParser) makeEntries(
 	return
 }
 
+// readString reads a string of the given length, which must lie within the data.
+func (m *MoParser) readString(r *bytes.Reader, start i64, length u32) ([]byte, error) {
+	if i64(length) > i64(len(m.data))-start {
+		return nil, io.ErrUnexpectedEOF
+	}
+	if _, err := r.Seek(start, 0); err != nil {
+		return nil, err
+	}
+	data := make([]byte, length)
+	if _, err := io.ReadFull(r, data); err != nil {
+		return nil, err
+	}
+	return data, nil
+}
+
 // Is there a way to make this code more... clean? maybe...
 
 // makeEntry creates a single po.Entry from raw message ID and string data.
-- 
2.43.0


From 4b0d7d727b09295fdd7aeb0760a783f2ce8ed9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 35/58] fix: report the errors of the Go files being extracted

---
 pkg/go/parse/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..2251c2c 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -203,7 +203,8 @@ func (p *Parser) Parse() (file *po.File) {
 	for _, f := range p.files {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
-		if err := f.Error(); err != nil {
+		if f.Error() != nil {
+			p.errors = append(p.errors, f.Errors()...)
 			continue
 		}
 		file.Entries = append(file.Entries, entries...)
-- 
2.43.0


From d95c02f6cc13131933f358f421a267f761e0a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 36/58] fix: File.Reset forgets the imports of the previous
 source

---
 pkg/go/parse/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..9e44075 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,6 +58,8 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.hasGotext = false
+	f.pkgName = DefaultPackageName
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
-- 
2.43.0


From 66ca3cdf022775433a48071bdb0fab4b74ff592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 37/58] fix: NewFile uses the default configuration when given
 none, like Reset

---
 pkg/go/parse/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 9e44075..f92934c 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -88,6 +88,10 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 }
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
+	if config == nil {
+		config = &[]Config{DefaultConfig()}[0]
+	}
+
 	file := &File{
 		reader:  bytes.NewReader(b),
 		name:    name,
-- 
2.43.0


From aa981d786ae88b8a2cb54ec6d64fedf3472a29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 38/58] fix: generic type aliases need Go 1.24, not 1.23

---
 pkg/po/types_go1.23.go | 4 ++--
 pkg/po/types_legacy.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/po/types_go1.23.go b/pkg/po/types_go1.23.go
index 9d54e61..efc3454 100644
--- a/pkg/po/types_go1.23.go
+++ b/pkg/po/types_go1.23.go
@@ -1,5 +1,5 @@
-//go:build go1.23
-// +build go1.23
+//go:build go1.24
+// +build go1.24
 
 package po
 
diff --git a/pkg/po/types_legacy.go b/pkg/po/types_legacy.go
index 632fbbb..d5b1f62 100644
--- a/pkg/po/types_legacy.go
+++ b/pkg/po/types_legacy.go
@@ -1,5 +1,5 @@
-//go:build !go1.23
-// +build !go1.23
+//go:build !go1.24
+// +build !go1.24
 
 package po
 
-- 
2.43.0


From 2a6ac3a54d16fea3bd0921ebd9a19df65f3ea73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 39/58] fix: report the failure of closing a compiled file

---
 pkg/po/compile/mo_compiler.go | 8 ++++++--
 pkg/po/compile/po_compiler.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/mo_compiler.go b/pkg/po/compile/mo_compiler.go
index 57f64c1..bb8e3a4 100644
--- a/pkg/po/compile/mo_compiler.go
+++ b/pkg/po/compile/mo_compiler.go
@@ -96,10 +96,14 @@ func (mc MoCompiler) ToFile(f string) error {
 		err = mc.error("error opening file: %w", err)
 		return err
 	}
-	defer file.Close()
 
 	// Write compiled translations to the file.
-	return mc.ToWriter(file)
+	err = mc.ToWriter(file)
+	if closeErr := file.Close(); err == nil && closeErr != nil {
+		err = mc.error("error closing file: %w", closeErr)
+	}
+
+	return err
 }
 
 // ToBytes returns the compiled MO data as a byte slice.
diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index 53b3807..f831efc 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -155,9 +155,13 @@ func (c PoCompiler) ToFile(f string) error {
 	if err != nil {
 		return c.error("error opening file: %w", err)
 	}
-	defer file.Close()
 
-	return c.ToWriter(file)
+	err = c.ToWriter(file)
+	if closeErr := file.Close(); err == nil && closeErr != nil {
+		err = c.error("error closing file: %w", closeErr)
+	}
+
+	return err
 }
 
 // ToString returns the compiled output as a string.
-- 
2.43.0


From bc0f0e25c45bc15bdb7845cc6180c43919752807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 40/58] fix: do not go on compiling to a MO file that could not
 be opened

---
 pkg/po/compile/mo_compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/mo_compiler.go b/pkg/po/compile/mo_compiler.go
index bb8e3a4..bc28e6b 100644
--- a/pkg/po/compile/mo_compiler.go
+++ b/pkg/po/compile/mo_compiler.go
@@ -92,9 +92,8 @@ func (mc MoCompiler) ToFile(f string) error {
 	}
 	mc.info("opening file...")
 	file, err := os.OpenFile(f, flags, 0o600)
-	if err != nil && !mc.Config.IgnoreErrors {
-		err = mc.error("error opening file: %w", err)
-		return err
+	if err != nil {
+		return mc.error("error opening file: %w", err)
 	}
 
 	// Write compiled translations to the file.
-- 
2.43.0


From 31804dab135decef522d0d0d27f6858d6cff76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 41/58] fix: report the source files and directories that
 cannot be read

---
 cli/xgotext/cmd/input.go |  6 +++++-
 internal/util/skip.go    | 40 +++++++++++++++++++++++-----------------
 pkg/go/parse/parser.go   |  7 ++++++-
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..cb9b2a1 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,7 +73,11 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
-			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
+			skip, err := util.ShouldSkipFile(walker, exclude, &seenFiles, logger)
+			if err != nil {
+				return nil, err
+			}
+			if skip {
 				continue
 			}
 			file, err := os.Open(walker.Path())
diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..c97693e 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -4,28 +4,28 @@ import (
 	"log"
 	"path/filepath"
 
-	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
 )
 
-// ShouldSkipFile determines if a file should be skipped during processing.
+// ShouldSkipFile determines if a file should be skipped during processing,
+// it reports the errors found when walking to it.
 func ShouldSkipFile(
 	w *krfs.Walker,
 	excludedPaths []string,
 	seenMap *map[string]struct{},
 	logger *log.Logger,
-) bool {
-	if w.Err() != nil || w.Stat().IsDir() {
-		return true
+) (bool, error) {
+	if w.Err() != nil {
+		return true, w.Err()
 	}
 
-	if filepath.Ext(w.Path()) != ".go" {
-		return true
+	if w.Stat().IsDir() || filepath.Ext(w.Path()) != ".go" {
+		return true, nil
 	}
 
 	abs, err := filepath.Abs(w.Path())
 	if err != nil {
-		return true
+		return true, err
 	}
 
 	_, seen := (*seenMap)[abs]
@@ -33,18 +33,24 @@ func ShouldSkipFile(
 		if logger != nil {
 			logger.Printf("skipping duplicated file: %s\n", w.Path())
 		}
-		return true
+		return true, nil
 	}
 	(*seenMap)[abs] = struct{}{}
 
-	return isExcludedPath(w.Path(), excludedPaths)
+	return isExcludedPath(abs, excludedPaths)
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
-func isExcludedPath(path string, exclude []string) bool {
-	return slices.ContainsFunc(exclude, func(s string) bool {
-		abs1, err1 := filepath.Abs(s)
-		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
-	})
+// isExcludedPath checks if an absolute path is in the exclude list defined in the configuration.
+func isExcludedPath(path string, exclude []string) (bool, error) {
+	for _, s := range exclude {
+		abs, err := filepath.Abs(s)
+		if err != nil {
+			return false, err
+		}
+		if abs == path {
+			return true, nil
+		}
+	}
+
+	return false, nil
 }
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 2251c2c..c0fa014 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,7 +58,12 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
-			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
+			skip, err := util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger)
+			if err != nil {
+				p.error("error reading file %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
+			if skip {
 				continue
 			}
 
-- 
2.43.0


From 8d7d2e4462c353b3397e15876ebd46e6efbe9fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 42/58] fix: xgotext skips the blank lines of file lists

---
 cli/xgotext/cmd/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..609d32b 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if line = bytes.TrimSpace(line); len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
-- 
2.43.0


From 9ac2375a649153bea19c768832c5e2cae831fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 43/58] fix: xgotext -D keeps '-' as the standard input

---
 cli/xgotext/cmd/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index cb9b2a1..ed283d8 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -31,6 +31,9 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 	if directory != "" {
 		for i, file := range inputFiles {
+			if file == "-" {
+				continue
+			}
 			inputFiles[i] = filepath.Join(directory, file)
 		}
 		for i, file := range exclude {
-- 
2.43.0


From cbfad5a1f65fce34b256a405afab383155b1f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 44/58] fix: xgotext closes the source files it opens

---
 cli/xgotext/cmd/input.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index ed283d8..0d23cf0 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -49,6 +49,8 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 
 	files, err := readFiles(inputFiles)
+	// The parser reads the files when it is made.
+	defer closeFiles(files)
 	if err != nil {
 		return nil, fmt.Errorf("error reading files: %w", err)
 	}
@@ -69,6 +71,14 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	return parser, nil
 }
 
+func closeFiles(files []*os.File) {
+	for _, file := range files {
+		file.Close()
+	}
+}
+
+// readFiles opens the files of the given paths. The caller must close the returned files,
+// even when there is an error.
 func readFiles(paths []string) ([]*os.File, error) {
 	seenFiles := make(map[string]struct{})
 
@@ -78,14 +88,14 @@ func readFiles(paths []string) ([]*os.File, error) {
 		for walker.Step() {
 			skip, err := util.ShouldSkipFile(walker, exclude, &seenFiles, logger)
 			if err != nil {
-				return nil, err
+				return files, err
 			}
 			if skip {
 				continue
 			}
 			file, err := os.Open(walker.Path())
 			if err != nil {
-				return nil, err
+				return files, err
 			}
 
 			files = append(files, file)
-- 
2.43.0


From 1cb68503892d22f655dca87b186610b353f00cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 45/58] fix: xgotext writes the title, copyright and package
 comments of the header

---
 cli/xgotext/cmd/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..46278ae 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -44,6 +44,7 @@ func initConfig() {
 		MsgstrPrefix:    msgstrPrefix,
 		MsgstrSuffix:    msgstrSuffix,
 		Verbose:         verbose,
+		ManageHeader:    !joinExisting,
 		HeaderComments:  true,
 		HeaderFields:    true,
 		WordWrap:        wordWrap,
-- 
2.43.0


From 2c7a6de9907d3575f2d7b5aa44226a376e13ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 46/58] fix: xgotext writes the number of plural forms asked
 for

---
 cli/xgotext/cmd/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index 46278ae..310946d 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -19,6 +19,7 @@ var (
 
 func initConfig() {
 	HeadersCfg.Nplurals = nplurals
+	HeadersCfg.Plural = "EXPRESSION"
 	HeadersCfg.ProjectIDVersion = packageVersion
 	HeadersCfg.ReportMsgidBugsTo = msgidBugsAddress
 	HeadersCfg.Language = lang
-- 
2.43.0


From 98e8e1df5a0253b1b8943130364d55c1d27da550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 47/58] fix: xgotext --join-existing reads the existing file
 before truncating it

---
 cli/xgotext/cmd/config.go |  4 +---
 cli/xgotext/cmd/join.go   | 38 +++++++-------------------------------
 cli/xgotext/cmd/output.go | 23 ++++++++++-------------
 cli/xgotext/cmd/root.go   | 17 +++++++++++------
 4 files changed, 29 insertions(+), 53 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index 310946d..2dd2a18 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -61,7 +61,5 @@ func initConfig() {
 		CompilerCfg.Highlight = compile.DefaultHighlight
 	}
 
-	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
-	}
+	PoParserCfg = poparse.DefaultPoConfig(poparse.PoWithLogger(logger))
 }
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..7d59ced 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -1,48 +1,24 @@
 package cmd
 
 import (
-	"os"
+	"errors"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
-	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
-	baseParse, err := poparse.NewPoFromReader(
-		rawfile,
-		rawfile.Name(),
-		poparse.PoWithConfig(PoParserCfg),
-	)
-	if err != nil {
-		return err
-	}
-
-	poParsed := baseParse.Parse()
-	if len(baseParse.Errors()) > 0 {
-		return baseParse.Errors()[0]
-	}
-
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
+// join merges the extracted entries into the ones of the existing output file.
+func join(extracted *po.File) error {
+	if output == "-" {
+		return errors.New("--join-existing cannot be used when the output is the standard output")
 	}
 
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
-
-	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
-
-	// Truncate file.
-	rawfile, err = os.Create(rawfile.Name())
+	existing, err := poparse.Po(outputPath(), poparse.PoWithConfig(PoParserCfg))
 	if err != nil {
 		return err
 	}
 
-	err = compiler.ToWriter(rawfile)
-	if err != nil {
-		return err
-	}
+	extracted.Entries = po.Merge(existing.Entries, extracted.Entries)
 
 	return nil
 }
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..269a1b0 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -1,27 +1,24 @@
 package cmd
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 )
 
-func processOutput() (*os.File, error) {
-	if output == "-" {
-		return os.Stdout, nil
+// outputPath returns the path of the output file.
+func outputPath() string {
+	if output != "" {
+		return filepath.Join(outputDir, output)
 	}
 
-	customOutput := output != ""
-	outputFilePath := filepath.Join(outputDir, defaultDomain+".pot")
-	if customOutput {
-		outputFilePath = filepath.Join(outputDir, output)
-	}
+	return filepath.Join(outputDir, defaultDomain+".pot")
+}
 
-	_, err := os.OpenFile(outputFilePath, os.O_RDWR, os.ModePerm)
-	if os.IsExist(err) && !forcePo && customOutput {
-		return nil, fmt.Errorf("file %s already exists", outputFilePath)
+func processOutput() (*os.File, error) {
+	if output == "-" {
+		return os.Stdout, nil
 	}
 
 	// Truncate file.
-	return os.Create(outputFilePath)
+	return os.Create(outputPath())
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 609d32b..01afb05 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,20 +44,25 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		if joinExisting {
+			if err = join(parsedFile); err != nil {
+				return err
+			}
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
 		}
 		defer func() {
-			if out != os.Stdout {
-				out.Close()
+			if out == os.Stdout {
+				return
+			}
+			if closeErr := out.Close(); err == nil {
+				err = closeErr
 			}
 		}()
 
-		if joinExisting {
-			return join(parser, out)
-		}
-
 		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
 		if err != nil {
 			return fmt.Errorf("error compiling translations: %w", err)
-- 
2.43.0


From 3b29a4d72e10e5c7a1ab347a5a5da9a4b49cd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 48/58] fix: xgotext writes an output without messages only
 with --force-po

---
 cli/xgotext/cmd/root.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 01afb05..e5f4abf 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	"github.com/spf13/cobra"
 )
@@ -50,6 +51,11 @@ Similarly for optional arguments.`,
 			}
 		}
 
+		hasMessages := parsedFile.ContainsFunc(func(e po.Entry) bool { return !e.IsHeader() })
+		if !hasMessages && !forcePo {
+			return nil
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
-- 
2.43.0


From f8c86cadf9dfcd56f4ea18d123590bd6e7976e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 49/58] fix: msgomerge needs its two files also with
 --compendium

---
 cli/msgomerge/cmd/root.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..cd1fbb7 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
-- 
2.43.0


From d6d7234ea5ce4673051f93ca08cb39855f52d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 50/58] fix: msgomerge opens its outputs after reading all its
 inputs

---
 cli/msgomerge/cmd/root.go | 63 ++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index cd1fbb7..ac1ce96 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -47,34 +47,11 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			refPath = filepath.Join(directory, refPath)
 		}
 
-		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		defer defFile.Close()
-		defer refFile.Close()
-
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
 		var def, ref *po.File
-		if def, err = parse.PoFromFile(defFile); err != nil {
+		if def, err = parse.Po(defPath); err != nil {
 			return err
 		}
-		if ref, err = parse.PoFromFile(refFile); err != nil {
+		if ref, err = parse.Po(refPath); err != nil {
 			return err
 		}
 
@@ -91,27 +68,45 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
-		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		// The outputs may be one of the inputs, open them when everything was read.
+		var outWriter io.Writer = os.Stdout
+		if outputPath != "-" {
+			var file *os.File
+			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-			if err := defFile.Truncate(0); err != nil {
+			defer closeOutput(file, &err)
+			outWriter = file
+		}
+
+		if update {
+			var defFile *os.File
+			defFile, err = os.OpenFile(defPath, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
+			defer closeOutput(defFile, &err)
 
 			outWriter = io.MultiWriter(defFile, outWriter)
 		}
 
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
-		}
-
 		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
 	},
 }
 
+// closeOutput closes an output file, setting err when it fails and there was no other error.
+func closeOutput(file *os.File, err *error) {
+	if closeErr := file.Close(); *err == nil {
+		*err = closeErr
+	}
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From fb8f20d9938513c48fba4fe8766567dac2853b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 51/58] fix: msgomerge keeps the header

---
 cli/msgomerge/cmd/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
-- 
2.43.0


From 8a5e144730983313df3e5d60a156b6c7dcff3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 52/58] fix: msgomerge --lang sets the Language field

---
 cli/msgomerge/cmd/root.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index ac1ce96..ead4592 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -73,6 +73,10 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
 		}
 
+		if cmd.Flags().Changed("lang") {
+			setLanguage(out.Entries, lang)
+		}
+
 		// The outputs may be one of the inputs, open them when everything was read.
 		var outWriter io.Writer = os.Stdout
 		if outputPath != "-" {
@@ -100,6 +104,17 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 	},
 }
 
+// setLanguage sets the 'Language' field of the header entry, if there is one.
+func setLanguage(entries po.Entries, language string) {
+	i := entries.Index("", "")
+	if i == -1 {
+		return
+	}
+	header := entries.HeaderFromIndex(i)
+	header.Set("Language", language)
+	entries[i].Str = header.ToEntry().Str
+}
+
 // closeOutput closes an output file, setting err when it fails and there was no other error.
 func closeOutput(file *os.File, err *error) {
 	if closeErr := file.Close(); *err == nil {
-- 
2.43.0


From 4767d14732f24fbeb3532aa177979e5af01b8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 53/58] fix: msgomerge writes an output without messages only
 with --force-po

---
 cli/msgomerge/cmd/root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index ead4592..5362341 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -77,6 +77,11 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			setLanguage(out.Entries, lang)
 		}
 
+		hasMessages := out.ContainsFunc(func(e po.Entry) bool { return !e.IsHeader() })
+		if !hasMessages && !forcePo {
+			return nil
+		}
+
 		// The outputs may be one of the inputs, open them when everything was read.
 		var outWriter io.Writer = os.Stdout
 		if outputPath != "-" {
-- 
2.43.0


From baaa12d34b36429d01fa39e40a01d759fa92d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 54/58] fix: msgocat --files-from reads the files of the list

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..466f9c5 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, line := range strings.Split(string(filesFromBinContent), "\n") {
+		if line = strings.TrimSpace(line); line != "" {
+			filesFromContent = append(filesFromContent, line)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 7e56dde552d1191a657778974c87309fa81d0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 55/58] fix: report the failure of closing the outputs of the
 tools

---
 cli/gotext-tools/cmd/doc.go | 15 +++++++++++----
 cli/msgocat/cmd/run.go      | 10 +++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cli/gotext-tools/cmd/doc.go b/cli/gotext-tools/cmd/doc.go
index 667dc78..6e15a3f 100644
--- a/cli/gotext-tools/cmd/doc.go
+++ b/cli/gotext-tools/cmd/doc.go
@@ -64,18 +64,25 @@ func genRunners(cmd *cobra.Command) (*os.File, *cobra.Command, error) {
 	return file, toDescribe, err
 }
 
+// closeOutput closes an output file, setting err when it fails and there was no other error.
+func closeOutput(file *os.File, err *error) {
+	if closeErr := file.Close(); *err == nil {
+		*err = closeErr
+	}
+}
+
 var (
 	markdown = &cobra.Command{
 		Use:   "markdown",
 		Short: "Generate documentation in markdown.",
 		Args:  cobra.NoArgs,
-		RunE: func(cmd *cobra.Command, args []string) error {
+		RunE: func(cmd *cobra.Command, args []string) (err error) {
 			file, d, err := genRunners(cmd)
 			if err != nil {
 				return err
 			}
 			if file != os.Stdout {
-				defer file.Close()
+				defer closeOutput(file, &err)
 			}
 
 			return doc.GenMarkdown(d, file)
@@ -85,14 +92,14 @@ var (
 		Use:   "man",
 		Short: "Generate documentation for man.",
 		Args:  cobra.NoArgs,
-		RunE: func(cmd *cobra.Command, args []string) error {
+		RunE: func(cmd *cobra.Command, args []string) (err error) {
 			file, d, err := genRunners(cmd)
 			if err != nil {
 				return err
 			}
 
 			if file != os.Stdout {
-				defer file.Close()
+				defer closeOutput(file, &err)
 			}
 
 			return doc.GenMan(d, nil, file)
diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..38e65da 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -12,8 +12,8 @@ import (
 )
 
 // run is the main execution function for the command.
-func run(cmd *cobra.Command, args []string) error {
-	args, err := expandArgsWithFiles(args)
+func run(cmd *cobra.Command, args []string) (err error) {
+	args, err = expandArgsWithFiles(args)
 	if err != nil {
 		return err
 	}
@@ -80,7 +80,11 @@ func run(cmd *cobra.Command, args []string) error {
 		if err != nil {
 			return fmt.Errorf("error openning output file %s: %w", output, err)
 		}
-		defer fileRef.Close()
+		defer func() {
+			if closeErr := fileRef.Close(); err == nil {
+				err = closeErr
+			}
+		}()
 		out = fileRef
 	}
 
-- 
2.43.0


From a432fdeb14f573ef9dbf4c18ad616d9c611cf82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 56/58] fix: msgofmt -D reads every PO file before writing with
 the settings given

---
 cli/msgofmt/cmd/root.go | 86 +++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..c60a57e 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,50 +38,19 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if len(args) == 0 {
+				return compileDirectory(directory)
+			}
+
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
-				var entries []os.DirEntry
-				entries, err = os.ReadDir(directory)
-				if err != nil {
-					return
-				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
-					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
-
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
-					}
-					return
-				}
-			}
 		}
 
 		var allEntries po.Entries
@@ -109,6 +78,47 @@ If input file is -, standard input is read.`,
 	},
 }
 
+// compileDirectory compiles each PO file of the directory into a MO file next to it,
+// after having read all of them.
+func compileDirectory(directory string) error {
+	entries, err := os.ReadDir(directory)
+	if err != nil {
+		return err
+	}
+
+	type job struct {
+		file *po.File
+		path string
+	}
+	var jobs []job
+
+	for _, de := range entries {
+		if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+			continue
+		}
+
+		poFile, err := parse.Po(filepath.Join(directory, de.Name()))
+		if err != nil {
+			return err
+		}
+		if errs := poFile.Validate(); len(errs) > 0 {
+			return errs[0]
+		}
+
+		basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
+		jobs = append(jobs, job{poFile, filepath.Join(directory, basename+".mo")})
+	}
+
+	for _, j := range jobs {
+		err = compile.MoToFile(j.file, j.path, compile.MoWithConfig(compilerCfg))
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From fb297b95ef94fb19dee47bb22a6d64f026d22614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 57/58] fix: msgofmt -o - writes to the standard output

---
 cli/msgofmt/cmd/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index c60a57e..ed99123 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -74,6 +74,10 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
+
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From 24a9f0d4fb8ce6e21c2c34e16087bdbaf5670de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 58/58] fix: an empty raw string is not a message either

---
 pkg/go/parse/process.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..2bee955 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -54,6 +54,11 @@ func (f *File) isGotextCall(n ast.Node) bool {
 	return ok
 }
 
+// isEmptyString determines if a literal is the empty string, which identifies the header.
+func isEmptyString(n *ast.BasicLit) bool {
+	return n.Value == `""` || n.Value == "``"
+}
+
 // basicLitToEntry converts a basic literal AST node to a translation entry.
 func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	str, err := strconv.Unquote(n.Value)
@@ -97,7 +102,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
+	if isEmptyString(lit) {
 		return
 	}
 
@@ -187,7 +192,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok || isEmptyString(t) {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
-- 
2.43.0

