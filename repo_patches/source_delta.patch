From 6b75ad2b3f5503be2e0e4fa09b79c6d0b51be1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 01/18] fix: keep quotes inside regular expressions and
 selectors when indenting

---
 ast/ast_helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..a9225f8 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -10,9 +10,11 @@ import (
 // This regular expression splits the config into indentable chunks that are:
 // * empty line
 // * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
+// * line(s) of configuration, where quoted strings, regular expressions and
+//   selectors are kept together, because quotes inside of them do not start a
+//   new quoted string and newlines inside of them do not end the line. A quote,
+//   slash or opening square bracket without its counterpart is kept as is.
+var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|([^"'/\[\n]|"(\\"|[^"])*"|'(\\'|[^'])*'|/(\\/|[^/])*/|\[[^\],\n][^\],]*\]|["'/\[])*\n)`)
 
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
-- 
2.43.0


From c29107797bda7e59579b000e3a271b5c1d290f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 02/18] fix: print each plugin section's own comment

---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..e53dcf8 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From 60d247f4533643857f774f396ea7bd2aa67552c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 03/18] fix: keep plugins used as array elements or hash values

---
 logstash_config_helper.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..af5a886 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -201,7 +201,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
@@ -236,6 +239,12 @@ func (c *current) attributeComment(attribute1, comment1 interface{}, spaceBefore
 	case ast.PluginAttribute:
 		attr.Comment = c.commentBlock(comment1, spaceBefore, false)
 		attribute = attr
+	case ast.Plugin:
+		// A plugin as array element or as value of a hash entry.
+		pa := ast.NewPluginAttribute("", attr)
+		pa.Start = attr.Pos()
+		pa.Comment = c.commentBlock(comment1, spaceBefore, false)
+		attribute = pa
 	default:
 		return nil, fmt.Errorf("Unsupported attribute type %#v", attribute1)
 	}
@@ -361,7 +370,12 @@ func (c *current) hashentries(attribute, attributes1 interface{}) ([]ast.HashEnt
 func (c *current) hashentry(name, value, comment interface{}) (ast.HashEntry, error) {
 	key := name.(ast.HashEntryKey)
 
-	he := ast.NewHashEntry(key, value.(ast.Attribute))
+	attribute, err := c.attributeComment(value, nil, false)
+	if err != nil {
+		return ast.HashEntry{}, err
+	}
+
+	he := ast.NewHashEntry(key, attribute)
 	he.Start = c.astPos()
 	he.Comment = c.commentBlock(comment, true, false)
 
-- 
2.43.0


From a279114bb3e43b98ac11c396e0e8655794057bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 04/18] fix: record the position of numbers, arrays and hashes

---
 logstash_config_helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index af5a886..9a7fb54 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -316,7 +316,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	na := ast.NewNumberAttribute("", f)
+	na.Start = c.astPos()
+	return na, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -326,6 +328,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
@@ -339,6 +342,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
-- 
2.43.0


From 5f228c747828401ce016d493d017bfc2d61726cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 05/18] fix: print numbers without loss of precision

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index e53dcf8..0f57dd9 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -481,7 +482,11 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if f, err := strconv.ParseFloat(value, 64); err != nil || f != na.Value() || strings.HasSuffix(value, ".") {
+			// Ten digits after the decimal point are not enough or not needed.
+			value = strconv.FormatFloat(na.Value(), 'f', -1, 64)
+		}
 	}
 	return value
 }
-- 
2.43.0


From 2316268fd67e2628788e52ef7440bdb2a8967b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/18] fix: check and lint report a missing file instead of
 crashing

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 3d4d6e8c05117540ca443a0fc9675926da6cc6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 07/18] fix: lint auto-fix does not add a second id attribute
 on each run

---
 internal/app/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..61176a6 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -124,7 +124,9 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		// Do not add a second id attribute, if there is already one with an
+		// unsupported value.
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-- 
2.43.0


From c2a96526b3885cabee2b99771797e13d9e9dc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 08/18] fix: lint auto-fix generates ids not yet used in the
 file

---
 internal/app/lint/lint.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 61176a6..f91634d 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -55,6 +55,13 @@ func (l Lint) Run(args []string) error {
 		v := validator{
 			autoFixID: l.autoFixID,
 			allIDs:    map[string]struct{}{},
+			usedIDs:   map[string]struct{}{},
+		}
+
+		for _, sections := range [][]ast.PluginSection{conf.Input, conf.Filter, conf.Output} {
+			for i := range sections {
+				astutil.ApplyPlugins(sections[i].BranchOrPlugins, v.collectIDs)
+			}
 		}
 
 		for i := range conf.Input {
@@ -117,6 +124,25 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+	usedIDs      map[string]struct{}
+}
+
+// collectIDs remembers the ids already used in the file.
+func (v *validator) collectIDs(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
+}
+
+// newID returns an id for the current plugin, that is not yet used in the file.
+func (v *validator) newID(name string) string {
+	for n := v.count; ; n++ {
+		id := fmt.Sprintf("%s-%d", name, n)
+		if _, ok := v.usedIDs[id]; !ok {
+			v.usedIDs[id] = struct{}{}
+			return id
+		}
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -130,7 +156,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(c.Plugin().Name()), ast.DoubleQuoted))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From ccf1085cd6d3363b07e2aee1ec8c11ee5759d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 09/18] fix: lint auto-fix generates a valid id for plugins
 with a quoted name

---
 internal/app/lint/lint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index f91634d..85f877d 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -156,7 +156,13 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(c.Plugin().Name()), ast.DoubleQuoted))
+			// The name of a plugin may be a quoted string.
+			name, quote := c.Plugin().Name(), ast.StringAttributeType(ast.DoubleQuoted)
+			if strings.HasPrefix(name, "'") {
+				quote = ast.SingleQuoted
+			}
+			name = strings.TrimSuffix(strings.TrimPrefix(name, quote.String()), quote.String())
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(name), quote))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From de08047800476a58103a3a604b4741a6b69dfffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 10/18] fix: do not report the parse error of another file for
 an unreadable file

---
 internal/app/check/check.go   | 4 +++-
 internal/app/format/format.go | 4 +++-
 internal/app/lint/lint.go     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..fb9740c 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,9 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			// If the file could not be read, there is no parse error to report for it.
+			_, isPathErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isPathErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..6a27b47 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -36,7 +36,9 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			// If the file could not be read, there is no parse error to report for it.
+			_, isPathErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isPathErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 85f877d..e4cc43b 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -39,7 +39,9 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			// If the file could not be read, there is no parse error to report for it.
+			_, isPathErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isPathErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0


From 3ac751e25b8c101093ef26860b4817df918f5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 11/18] fix: Quote rejects values with unescaped quotes at the
 start or a final backslash

---
 ast/astutil/quote.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..64b107e 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"regexp"
+	"strings"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -19,11 +20,15 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
 		}
+		// A final backslash would escape the closing quote.
+		if strings.HasSuffix(value, `\`) {
+			hasQuote = true
+		}
 
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
-- 
2.43.0


From afeb2002b0a1722e6bc1a2e6a010311f8021aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 12/18] fix: QuoteWithEscape escapes a quote at the second
 position

---
 ast/astutil/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 64b107e..7d940f6 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -72,7 +72,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From 32b81b15b743807bb2ae3f998e6ec52da8e23062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 13/18] fix: the current plugin stays current after
 InsertBefore

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From 8d21658dbe8f3e4d776c1712e4a2a70fd6f82751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 14/18] fix: inserting a plugin does not write into storage of
 other lists

---
 ast/astutil/apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 479ed9a..96bc4f8 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -122,7 +122,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 	if i < 0 {
 		panic("InsertBefore plugin not contained in slice")
 	}
-	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
+	c.parent = append(c.parent[:i:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
 	c.iter.index++
 }
 
@@ -134,6 +134,6 @@ func (c *Cursor) InsertAfter(p ast.BranchOrPlugin) {
 	if i < 0 {
 		panic("InsertAfter plugin not contained in slice")
 	}
-	c.parent = append(c.parent[:i+1], append([]ast.BranchOrPlugin{p}, c.parent[i+1:]...)...)
+	c.parent = append(c.parent[:i+1:i+1], append([]ast.BranchOrPlugin{p}, c.parent[i+1:]...)...)
 	c.iter.step++
 }
-- 
2.43.0


From eee46858d34ff2968deba361b97347cf4b9df121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 15/18] fix: print in expressions with missing operands like
 all others

---
 ast/ast.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0f57dd9..166ed1b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -1001,7 +1001,15 @@ func NewInExpression(boolOperator BooleanOperator, lvalue Rvalue, rvalue Rvalue)
 
 // String returns a string representation of an in expression.
 func (ie InExpression) String() string {
-	return fmt.Sprintf("%v%v in %v", ie.BoolExpression, ie.LValue.ValueString(), ie.RValue.ValueString())
+	var lvalue string
+	var rvalue string
+	if ie.LValue != nil {
+		lvalue = ie.LValue.ValueString()
+	}
+	if ie.RValue != nil {
+		rvalue = ie.RValue.ValueString()
+	}
+	return fmt.Sprintf("%v%v in %v", ie.BoolExpression, lvalue, rvalue)
 }
 
 // A NotInExpression node defines a not in expression.
-- 
2.43.0


From b84de54f3c86e71cdcaed34b3e80554c3000cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 16/18] fix: keep the blank line after the comment of every
 plugin section

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 9a7fb54..27fecc3 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -74,7 +74,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
-- 
2.43.0


From 8eb1d2147039cd45d34579f92ea50761c24ae6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 17/18] fix: blank lines before a comment are recognized
 independent of leading blanks

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 27fecc3..24fb937 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -143,7 +143,7 @@ func (c *current) comment() ([]ast.Comment, error) {
 		return nil, nil
 	}
 
-	lines := strings.Split(strings.Trim(strings.ReplaceAll(string(c.text), "\r", ""), "\n"), "\n")
+	lines := strings.Split(strings.TrimLeft(strings.ReplaceAll(string(c.text), "\r", ""), " \t\n"), "\n")
 
 	var commentLines []ast.Comment
 	var space bool
-- 
2.43.0


From 3fb36e26daddf87856684f6eeddb87828b5752fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 18/18] fix: keep an empty else block of the parsed source

---
 ast/ast.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 166ed1b..aac9c36 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -813,7 +813,8 @@ func NewElseBlock(block ...BranchOrPlugin) ElseBlock {
 
 // String returns a string representation of an else block.
 func (eb ElseBlock) String() string {
-	if len(eb.Block) == 0 && len(eb.Comment) == 0 && len(eb.FooterComment) == 0 {
+	// An empty else block is only kept, if it is present in the parsed source.
+	if len(eb.Block) == 0 && len(eb.Comment) == 0 && len(eb.FooterComment) == 0 && eb.Start == (Pos{}) {
 		return ""
 	}
 
-- 
2.43.0

