From 32f09f731f5b564e7edd5ca5a7514958bfe016f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 01/45] fix: do not panic on an empty "if ()" condition outside
 a validated context

prepareIfArgs trimmed a lone "()" argument from both ends, which sliced
d.Args[1:0] and panicked when the arguments check had not run (unknown
context, unknown directive or SkipDirectiveArgsCheck).
---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b7af673..373b6a8 100644
--- a/util.go
+++ b/util.go
@@ -77,7 +77,8 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		// a lone "()" argument has already been dropped from the front
+		if e >= b && len(d.Args[e]) == 0 {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From e06de0c9a0e72666a9b1a80d0c90c11e7f8edc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 02/45] fix: quote arguments that start with "#" when building

An argument such as "#foo" (parsed from a quoted string) was written bare
and turned the rest of its line, including the ";", into a comment.
---
 build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 0544817..2b95850 100644
--- a/build.go
+++ b/build.go
@@ -259,8 +259,8 @@ func needsQuote(s string) bool {
 	// get first rune
 	char, off := utf8.DecodeRuneInString(chars)
 
-	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// arguments can't start with variable expansion syntax, nor look like a comment
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From 2484150cb11ae189d4d5c77bf34ec2ef9862e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 03/45] fix: track a leading backslash when deciding whether to
 quote

The first character was not remembered, so in an argument starting with
an escaped backslash the third character was taken to be escaped: "\\\\;x"
was written bare and its ";" ended the statement.
---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 2b95850..69d0793 100644
--- a/build.go
+++ b/build.go
@@ -267,7 +267,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0


From 567b9890e58ccd561dc419f32afbabbeb922e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 04/45] fix: quote arguments without corrupting them or letting
 them break out of the quotes

---
 build.go |  5 +++--
 util.go  | 54 +++++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/build.go b/build.go
index 69d0793..1f66944 100644
--- a/build.go
+++ b/build.go
@@ -238,12 +238,13 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return quote(arg)
 }
 
 //nolint:gocyclo
 func needsQuote(s string) bool {
-	if s == "" {
+	// carriage returns are dropped by the lexer unless they are written as an escape
+	if s == "" || strings.Contains(s, "\r") {
 		return true
 	}
 
diff --git a/util.go b/util.go
index 373b6a8..ffd5f1d 100644
--- a/util.go
+++ b/util.go
@@ -35,17 +35,53 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
-func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
-	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+// quote returns s in quotes, so that it is read back as one token with the value of s.
+// Escape sequences in s are kept as they are.
+func quote(s string) string {
+	q := byte('"')
+	if strings.Contains(s, `"`) && (!hasEscaped(s, '\'') || hasEscaped(s, '"')) {
+		q = '\''
+	}
+
+	sb := strings.Builder{}
+	sb.WriteByte(q)
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\\' && (i+1 == len(s) || s[i+1] == '\r'):
+			// it escapes nothing, and must not escape what is written next
+			sb.WriteString(`\\`)
+		case c == '\\':
+			i++
+			sb.WriteByte(c)
+			sb.WriteByte(s[i])
+		case c == q:
+			sb.WriteByte('\\')
+			sb.WriteByte(c)
+		case c == '\n':
+			sb.WriteString(`\n`)
+		case c == '\r':
+			sb.WriteString(`\r`)
+		case c == '\t':
+			sb.WriteString(`\t`)
+		default:
+			sb.WriteByte(c)
+		}
+	}
+	sb.WriteByte(q)
+	return sb.String()
+}
+
+// hasEscaped returns true if s contains c preceded by a backslash that is not itself escaped.
+func hasEscaped(s string, c byte) bool {
+	for i := 0; i+1 < len(s); i++ {
+		if s[i] == '\\' {
+			i++
+			if s[i] == c {
+				return true
+			}
 		}
 	}
-	return q
+	return false
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From c5442162646b2cfe7b04c845c7d4e31e913c7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 05/45] fix: quote arguments that end in an escaped space

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 1f66944..5af0194 100644
--- a/build.go
+++ b/build.go
@@ -291,7 +291,7 @@ func needsQuote(s string) bool {
 		prev = char
 	}
 
-	return expanding || char == '\\' || char == '$'
+	return expanding || char == '\\' || char == '$' || unicode.IsSpace(char)
 }
 
 func escape(s string) string {
-- 
2.43.0


From 1da3ee4043348ca5f57dbee4dd5e22a8ac79c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/45] fix: do not build map parameters as if or extension
 directives

---
 build.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/build.go b/build.go
index 5af0194..eadcfe2 100644
--- a/build.go
+++ b/build.go
@@ -173,8 +173,9 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 
 		_, _ = sb.WriteString(margin(options, depth))
 
-		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+		// parameters of map-like blocks are data, even if they are spelled like a directive
+		if options.extBuilders != nil && !stmt.IsMapBlockParameter {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
@@ -187,7 +188,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			_, _ = sb.WriteString(directive)
 
 			// special handling for if statements
-			if directive == "if" {
+			if stmt.Directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					if i > 0 {
-- 
2.43.0


From f53ea3d09536ad47d5af733eb8c2df9cd630f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 07/45] fix: separate a quoted first condition argument from
 the parenthesis

---
 build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index eadcfe2..8efa514 100644
--- a/build.go
+++ b/build.go
@@ -191,7 +191,8 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if stmt.Directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					// a quote directly after the parenthesis would not start a quoted argument
+					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(Enquote(arg))
-- 
2.43.0


From 6aa565cf3822cf50721d52a8d77471393259efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 08/45] fix: report a lexer error found among the arguments of
 a statement

---
 lex.go   |  7 ++++++-
 parse.go | 63 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/lex.go b/lex.go
index 4b69cbe..1299607 100644
--- a/lex.go
+++ b/lex.go
@@ -331,7 +331,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index 58302d3..48f6abc 100644
--- a/parse.go
+++ b/parse.go
@@ -208,6 +208,23 @@ func (p *parser) openFile(path string) (io.ReadCloser, error) {
 	return open(path)
 }
 
+// lexError returns the error for a token that the lexer could not read.
+func (p *parser) lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // parse Recursively parses directives from an nginx config context.
 //
 //nolint:gocyclo,funlen,gocognit,maintidx,nonamedreturns
@@ -216,19 +233,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, p.lexError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -272,24 +277,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		}
 
 		// parse arguments by reading tokens
-		t, tokenOk = <-tokens
-		if !tokenOk {
-			return nil, &ParseError{
-				What:        ErrPrematureLexEnd.Error(),
-				File:        &parsing.File,
-				Line:        &stmt.Line,
-				originalErr: ErrPrematureLexEnd,
-				BlockCtx:    ctx.getLastBlock(),
-			}
-		}
-		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
-			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
-				stmt.Args = append(stmt.Args, t.Value)
-			} else if p.options.ParseComments {
-				commentsInArgs = append(commentsInArgs, t.Value[1:])
-			}
-			t, tokenOk = <-tokens
-			if !tokenOk {
+		for t, tokenOk = <-tokens; ; t, tokenOk = <-tokens {
+			// the lexer reports an unclosed block when the text ends, but it is the statement that comes first
+			if !tokenOk || errors.Is(t.Error, ErrPrematureLexEnd) {
 				return nil, &ParseError{
 					What:        ErrPrematureLexEnd.Error(),
 					File:        &parsing.File,
@@ -298,6 +288,17 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					BlockCtx:    ctx.getLastBlock(),
 				}
 			}
+			if t.Error != nil {
+				return nil, p.lexError(parsing, t, ctx)
+			}
+			if !t.IsQuoted && (t.Value == "{" || t.Value == ";" || t.Value == "}") {
+				break
+			}
+			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
+				stmt.Args = append(stmt.Args, t.Value)
+			} else if p.options.ParseComments {
+				commentsInArgs = append(commentsInArgs, t.Value[1:])
+			}
 		}
 
 		// if inside "map-like" block - add contents to payload, but do not parse further
-- 
2.43.0


From 721c57865b3ecac2df26a0e8da1f566330190a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 09/45] fix: report lexer errors found inside a skipped block

---
 parse.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 48f6abc..d8759ca 100644
--- a/parse.go
+++ b/parse.go
@@ -225,6 +225,12 @@ func (p *parser) lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	}
 }
 
+// consumeBlock skips everything up to the end of a block whose opening brace has been read.
+func (p *parser) consumeBlock(parsing *Config, tokens <-chan NgxToken, ctx blockCtx) error {
+	_, err := p.parse(parsing, tokens, ctx, true)
+	return err
+}
+
 // parse Recursively parses directives from an nginx config context.
 //
 //nolint:gocyclo,funlen,gocognit,maintidx,nonamedreturns
@@ -247,7 +253,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -311,7 +319,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+							return nil, err
+						}
 					}
 					continue
 				}
@@ -325,7 +335,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -338,7 +350,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// if it was a block but shouldn"t have been then consume
 			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
 				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
+					if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+						return nil, err
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From 7883787468fcbfeb8e175fca55b27dd60303194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 10/45] fix: skip the block of any rejected directive

---
 parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index d8759ca..9689af1 100644
--- a/parse.go
+++ b/parse.go
@@ -347,16 +347,16 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
-						return nil, err
-					}
-				} else {
-					break
+			// the statement is dropped as a whole: consume its block, if it has one
+			if t.Value == "{" {
+				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+					return nil, err
 				}
 			}
+			// it has no end, so the brace closes the block it is in
+			if t.Value == "}" {
+				break
+			}
 			// keep on parsin'
 			continue
 		} else if err != nil {
-- 
2.43.0


From f1fa2230943faa0de19ba0ef1f8bfa241e4e2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 11/45] fix: reject a statement that is ended by the brace of
 its block

---
 analyze.go | 18 ++++++++++++++++--
 parse.go   |  6 +++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..0eb9b5c 100644
--- a/analyze.go
+++ b/analyze.go
@@ -175,7 +175,7 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 	// if we don't know where this directive is allowed and how
 	// many arguments it can take then don't bother analyzing it
 	if !knownContext || !knownDirective {
-		return nil
+		return analyzeTerminator(fname, stmt, term, ctx)
 	}
 
 	// if this directive can't be used in this context then throw an error
@@ -200,7 +200,7 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 	}
 
 	if options.SkipDirectiveArgsCheck {
-		return nil
+		return analyzeTerminator(fname, stmt, term, ctx)
 	}
 
 	// do this in reverse because we only throw errors at the end if no masks
@@ -250,6 +250,20 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 	}
 }
 
+// analyzeTerminator checks that a statement has an end of its own, and not that of the block it is in.
+func analyzeTerminator(fname string, stmt *Directive, term string, ctx blockCtx) error {
+	if term != "}" {
+		return nil
+	}
+	return &ParseError{
+		What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+		File:      &fname,
+		Line:      &stmt.Line,
+		Statement: stmt.String(),
+		BlockCtx:  ctx.getLastBlock(),
+	}
+}
+
 func unionBitmaskMaps(maps ...map[string][]uint) map[string][]uint {
 	union := make(map[string][]uint)
 
diff --git a/parse.go b/parse.go
index 9689af1..87443c3 100644
--- a/parse.go
+++ b/parse.go
@@ -318,7 +318,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				} else if mapErr != nil {
 					p.handleError(parsing, mapErr)
 					// consume invalid block
-					if t.Value == "{" && !t.IsQuoted {
+					if t.Value == "{" {
 						if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
 							return nil, err
 						}
@@ -332,9 +332,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		}
 
 		// consume the directive if it is ignored and move on
-		if contains(p.options.IgnoreDirectives, stmt.Directive) {
+		if t.Value != "}" && contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
-			if t.Value == "{" && !t.IsQuoted {
+			if t.Value == "{" {
 				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
 					return nil, err
 				}
-- 
2.43.0


From e8bff1cc1d9d93020a46bde69ff35a5b5459f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 12/45] fix: end a map-like block at its brace after an
 unterminated entry

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 87443c3..05e0060 100644
--- a/parse.go
+++ b/parse.go
@@ -323,6 +323,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 							return nil, err
 						}
 					}
+					// the brace closes the map-like block
+					if t.Value == "}" {
+						break
+					}
 					continue
 				}
 				stmt.IsMapBlockParameter = true
-- 
2.43.0


From 427ac0ac1eccb84f8761780061c8b1b5a694d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 13/45] fix: reject a ';' or '{' that starts a file

---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 1299607..1b4c7c0 100644
--- a/lex.go
+++ b/lex.go
@@ -138,7 +138,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // nothing precedes the first token that '{' or ';' could end
 	readNext := true
 	esc := false
 	depth := 0
-- 
2.43.0


From 080a673860aa27c114fbee815328788f90ebdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 14/45] fix: give punctuation after a multi-line word its own
 line

---
 lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex.go b/lex.go
index 1b4c7c0..761b8d2 100644
--- a/lex.go
+++ b/lex.go
@@ -263,6 +263,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				if token.Len() > 0 {
 					emit(tokenStartLine, false, nil)
 				}
+				tokenStartLine = tokenLine // the token before may span lines
 
 				// only '}' can be repeated
 				if dupSpecialChar && la != "}" {
-- 
2.43.0


From 764826ec35caaaf379e03669f0fcca02a3cdcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 15/45] fix: report read errors instead of parsing a part of
 the file

---
 lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lex.go b/lex.go
index 761b8d2..d69975c 100644
--- a/lex.go
+++ b/lex.go
@@ -328,6 +328,14 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		// the text is incomplete, and so is the last token
+		token.Reset()
+		emit(tokenLine, false, err)
+		close(tokenCh)
+		return
+	}
+
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
-- 
2.43.0


From 965cdee5fe29a0bb0b422f918279bd402b0793f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 16/45] fix: do not leave the lexer running when a parse stops
 early

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 05e0060..701ec43 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		// let the lexer finish, so that it does not use the file after it is closed
+		for range tokens { //nolint:revive
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From bc23b506dcb61785e0622afe0456d5b34f8b60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/45] fix: do not write to the caller's parse options

---
 parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 701ec43..672c7a5 100644
--- a/parse.go
+++ b/parse.go
@@ -123,7 +123,10 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
-		options.Glob = filepath.Glob
+		// the caller's options may be in use by other parses
+		opts := *options
+		opts.Glob = filepath.Glob
+		options = &opts
 	}
 
 	handleError := func(config *Config, err error) {
-- 
2.43.0


From 1a04d6607b04406ae996cbd7e521bfb40c2167a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 18/45] fix: do not write to the caller's build options

---
 build.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/build.go b/build.go
index 8efa514..59d1aa0 100644
--- a/build.go
+++ b/build.go
@@ -85,10 +85,6 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
-	for _, o := range options.Builders {
-		o.applyBuildOptions(options)
-	}
-
 	for _, config := range payload.Config {
 		path := config.File
 		if !filepath.IsAbs(path) {
@@ -126,6 +122,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	// the caller's options may be in use by other builds
+	opts := *options
+	options = &opts
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
@@ -137,10 +136,9 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 		}
 	}
 
-	if options.extBuilders == nil { // might be set if using BuildFiles
-		for _, o := range options.Builders {
-			o.applyBuildOptions(options)
-		}
+	options.extBuilders = nil
+	for _, o := range options.Builders {
+		o.applyBuildOptions(options)
 	}
 
 	body := strings.Builder{}
-- 
2.43.0


From 3cf19f6031898e9cd7b593d263e020fdfc328654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 19/45] fix: keep the block context of an included file apart
 from that of later blocks

---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 0eb9b5c..aab10cd 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,7 +136,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// (to a copy, as a file included from this block may still hold on to ctx)
+	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 134248e34cd0a1953aefa3ae41195f0f8f512890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 20/45] fix: do not drop the whole file for an include without
 a file name

---
 parse.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parse.go b/parse.go
index 672c7a5..9c708a0 100644
--- a/parse.go
+++ b/parse.go
@@ -354,6 +354,19 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && !p.options.SingleFile && stmt.Directive == "include" && len(stmt.Args) == 0 {
+			err = &ParseError{
+				What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
+					stmt.Directive,
+					parsing.File,
+					stmt.Line,
+				),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
@@ -380,20 +393,6 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// add "includes" to the payload if this is an include statement
 		if !p.options.SingleFile && stmt.Directive == "include" {
-			if len(stmt.Args) == 0 {
-				return nil, &ParseError{
-					What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
-						stmt.Directive,
-						parsing.File,
-						stmt.Line,
-					),
-					File:      &parsing.File,
-					Line:      &stmt.Line,
-					Statement: stmt.String(),
-					BlockCtx:  ctx.getLastBlock(),
-				}
-			}
-
 			pattern := stmt.Args[0]
 			if !filepath.IsAbs(pattern) {
 				pattern = filepath.Join(p.configDir, pattern)
-- 
2.43.0


From ce3bf45dbc0c97afac304bfc0eb08864d241eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 21/45] fix: attribute a failing include pattern to its
 statement and keep the cause of include errors

---
 parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 9c708a0..a2c828d 100644
--- a/parse.go
+++ b/parse.go
@@ -403,7 +403,18 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			if hasMagic.MatchString(pattern) {
 				fnames, err = p.options.Glob(pattern)
 				if err != nil {
-					return nil, err
+					perr := &ParseError{
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
+					}
+					if p.options.StopParsingOnError {
+						return nil, perr
+					}
+					p.handleError(parsing, perr)
 				}
 				sort.Strings(fnames)
 			} else {
@@ -411,11 +422,12 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// that the included file can be opened and read
 				if f, err := p.openFile(pattern); err != nil {
 					perr := &ParseError{
-						What:      err.Error(),
-						File:      &parsing.File,
-						Line:      &stmt.Line,
-						Statement: stmt.String(),
-						BlockCtx:  ctx.getLastBlock(),
+						What:        err.Error(),
+						File:        &parsing.File,
+						Line:        &stmt.Line,
+						Statement:   stmt.String(),
+						BlockCtx:    ctx.getLastBlock(),
+						originalErr: err,
 					}
 					if !p.options.StopParsingOnError {
 						p.handleError(parsing, perr)
-- 
2.43.0


From b7fbf2e1145c3d776b151b08769b6e0b594b746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 22/45] fix: keep empty blocks in JSON

---
 types.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..742c8e7 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +52,19 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON keeps a block that is empty, which is not the same as having no block.
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type plain Directive
+	v := struct {
+		plain
+		Block *Directives `json:"block,omitempty"`
+	}{plain: plain(d)}
+	if d.Block != nil {
+		v.Block = &d.Block
+	}
+	return json.Marshal(v)
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From 974b001376b478ce8efe8060cf53bb97826f4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 23/45] fix: return an error for a negative include index and
 stop combining at an error

---
 util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index ffd5f1d..b07fd7a 100644
--- a/util.go
+++ b/util.go
@@ -188,7 +188,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				if idx < 0 || idx >= len(old.Config) {
 					c <- included{
 						err: &ParseError{
 							What:      fmt.Sprintf("include config with index: %d", idx),
@@ -201,6 +201,9 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				}
 				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From 3136b4e260dff7bc85dde93983f040d159fba110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 24/45] fix: return an error when a payload made by a program
 has an include cycle

---
 parse.go |  3 ++-
 util.go  | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index a2c828d..9d0ca31 100644
--- a/parse.go
+++ b/parse.go
@@ -23,6 +23,7 @@ var (
 	hasMagic           = regexp.MustCompile(`[*?[]`)
 	osOpen             = func(path string) (io.ReadCloser, error) { return os.Open(path) }
 	ErrPrematureLexEnd = errors.New("premature end of file")
+	errIncludeCycle    = errors.New("configs contain include cycle")
 )
 
 type blockCtx []string
@@ -196,7 +197,7 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 	}
 
 	if p.isAcyclic() {
-		return nil, errors.New("configs contain include cycle")
+		return nil, errIncludeCycle
 	}
 
 	if options.CombineConfigs {
diff --git a/util.go b/util.go
index b07fd7a..6729ead 100644
--- a/util.go
+++ b/util.go
@@ -152,7 +152,7 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
+	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed, []int{0}) {
 		if incl.err != nil {
 			return nil, incl.err
 		}
@@ -166,7 +166,9 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
+// performIncludes expands the includes in a block of the config at the end of path, which lists the indices
+// of the configs being expanded.
+func performIncludes(old *Payload, fromfile string, block Directives, path []int) chan included {
 	c := make(chan included)
 	go func() {
 		defer close(c)
@@ -174,7 +176,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 			dir := *d
 			if dir.IsBlock() {
 				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
+				for incl := range performIncludes(old, fromfile, dir.Block, path) {
 					if incl.err != nil {
 						c <- incl
 						return
@@ -199,7 +201,14 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 					}
 					return
 				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
+				for _, i := range path {
+					if i == idx {
+						c <- included{err: errIncludeCycle}
+						return
+					}
+				}
+				inner := append(path[:len(path):len(path)], idx)
+				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, inner) {
 					c <- incl
 					if incl.err != nil {
 						return
-- 
2.43.0


From 1a1ee3f711d5850abb113b5946930ffd0c0144cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 25/45] fix: do not HTML-escape generated code

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..68e25b2 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From 4dfb6d331e07345b86cdc502592c1a2ead5a599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 26/45] fix: find comments in C sources exactly, and treat them
 and line ends as white space

---
 internal/generator/generator_util.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 68e25b2..87f082a 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,18 +37,17 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\[\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[\s*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Match a comment of either style, or a literal, in which nothing is a comment.
+	commentOrLiteralExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/|//.*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,10 +108,14 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = strings.ReplaceAll(strContent, "\r\n", "")
-	strContent = strings.ReplaceAll(strContent, "\n", "")
+	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
+		if strings.HasPrefix(s, "/") {
+			return " "
+		}
+		return s
+	})
+	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
+	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
 	// Extract directives definition code blocks, each code block contains a list of directives definition
 	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)
-- 
2.43.0


From d363b72845eb11f38f934530b8dfbe1e349adc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 27/45] fix: define ngxConfTake7, which the generator writes

---
 analyze.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/analyze.go b/analyze.go
index aab10cd..bbe7445 100644
--- a/analyze.go
+++ b/analyze.go
@@ -65,13 +65,13 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
-	ngxConfBlock = 0x00000100 // followed by block
-	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
-	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-	ngxConfAny   = 0x00000800 // >=0 args
-	ngxConf1More = 0x00001000 // >=1 args
-	ngxConf2More = 0x00002000 // >=2 args
+	ngxConfTake7  = 0x00000080 // 7 args
+	ngxConfBlock  = 0x00000100 // followed by block
+	ngxConfExpr   = 0x00000200 // directive followed by expression in parentheses `()`
+	ngxConfFlag   = 0x00000400 // 'on' or 'off'
+	ngxConfAny    = 0x00000800 // >=0 args
+	ngxConf1More  = 0x00001000 // >=1 args
+	ngxConf2More  = 0x00002000 // >=2 args
 
 	// some helpful argument style aliases.
 	ngxConfTake12   = ngxConfTake1 | ngxConfTake2
-- 
2.43.0


From 38bb4bf191c0c36892f416ff95967ff9e2914d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 28/45] fix: keep every line of a match function comment a
 comment

---
 internal/generator/generator_util.go      | 2 +-
 internal/generator/tmpl/support_file.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 87f082a..26d1269 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -58,7 +58,7 @@ var supportFileTmplStr string
 
 //nolint:gochecknoglobals
 var supportFileTmpl = template.Must(template.New("supportFile").
-	Funcs(template.FuncMap{"Join": strings.Join}).Parse(supportFileTmplStr))
+	Funcs(template.FuncMap{"Join": strings.Join, "Split": strings.Split}).Parse(supportFileTmplStr))
 
 //nolint:gochecknoglobals
 var ngxVarNameToGo = map[string]string{
diff --git a/internal/generator/tmpl/support_file.tmpl b/internal/generator/tmpl/support_file.tmpl
index 2b74ec9..644e55b 100644
--- a/internal/generator/tmpl/support_file.tmpl
+++ b/internal/generator/tmpl/support_file.tmpl
@@ -25,7 +25,7 @@ var {{.MapVariableName}} = map[string][]uint{
 {{- end}}
 }
 
-{{if ne .MatchFnComment ""}}// {{.MatchFnComment}}{{end}}
+{{if ne .MatchFnComment ""}}// {{Join (Split .MatchFnComment "\n") "\n// "}}{{end}}
 func {{.MatchFnName}}(directive string) ([]uint, bool) {
     m, ok := {{.MapVariableName}}[directive]
     return m, ok
-- 
2.43.0


From 06f7815bdfe0bd429e8f2cdfc3e996119278eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 29/45] fix: hand over to external lexers for complete
 directive names only

---
 lex.go  | 47 +++++++++++++++++++++++++++--------------------
 util.go |  5 +++++
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/lex.go b/lex.go
index d69975c..7e689ae 100644
--- a/lex.go
+++ b/lex.go
@@ -107,11 +107,16 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	unread    bool // the most recent token has yet to be returned by Scan
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
+	if e.unread {
+		e.unread = false
+		return true
+	}
 	if !e.scanner.Scan() {
 		return false
 	}
@@ -163,7 +168,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -183,25 +187,28 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = "\\" + la
 		}
 
-		if token.Len() > 0 {
+		// a directive name that an external lexer is registered for hands over to it once it is complete
+		if nextTokenIsDirective && token.Len() > 0 &&
+			((lexState == inWord && (isSpace(la) || isSpecial(la))) || (lexState == inQuote && la == quote)) {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
-				if ext, ok := options.extLexers[tokenStr]; ok {
-					// saving lex state before emitting tokenStr to know if we encountered start quote
-					lastLexState := lexState
-					emit(tokenStartLine, lexState == inQuote, nil)
-
-					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
-					extTokenCh := ext.Lex(externalScanner, tokenStr)
-					for tok := range extTokenCh {
-						tokenCh <- tok
-					}
-					tokenLine = externalScanner.tokenLine
+			if ext, ok := options.extLexers[tokenStr]; ok {
+				externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
+				// space or a quote ends the name, anything else is the start of what the external lexer reads
+				externalScanner.unread = lexState == inWord && isSpecial(la)
+				emit(tokenStartLine, lexState == inQuote, nil)
 
-					// if we detected a start quote and current char after external lexer processing is end quote we skip it
-					if lastLexState == inQuote && la == quote {
-						continue
-					}
+				dupSpecialChar = false
+				nextTokenIsDirective = false
+				for tok := range ext.Lex(externalScanner, tokenStr) {
+					// the external lexer may end the statement
+					dupSpecialChar = !tok.IsQuoted && isSpecial(tok.Value)
+					nextTokenIsDirective = dupSpecialChar
+					tokenCh <- tok
+				}
+				tokenLine = externalScanner.tokenLine
+
+				if !externalScanner.unread {
+					continue
 				}
 			}
 		}
@@ -220,7 +227,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
@@ -258,7 +264,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			}
 
 			// handle special characters that are treated like full tokens
-			if la == "{" || la == "}" || la == ";" {
+			if isSpecial(la) {
 				// if token complete yield it and reset token buffer
 				if token.Len() > 0 {
 					emit(tokenStartLine, false, nil)
@@ -319,6 +325,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
diff --git a/util.go b/util.go
index 6729ead..7054fdc 100644
--- a/util.go
+++ b/util.go
@@ -35,6 +35,11 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// isSpecial returns true if s is a character that is a token of its own.
+func isSpecial(s string) bool {
+	return s == "{" || s == "}" || s == ";"
+}
+
 // quote returns s in quotes, so that it is read back as one token with the value of s.
 // Escape sequences in s are kept as they are.
 func quote(s string) string {
-- 
2.43.0


From 61ea209acbae2f326804c44618e26c1944ad8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 30/45] fix: do not mistake quotes and braces in Lua comments
 and strings for code

---
 lua.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/lua.go b/lua.go
index dd4a45b..cc9c306 100644
--- a/lua.go
+++ b/lua.go
@@ -60,8 +60,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	go func() {
 		defer close(tokenCh)
 		var tok strings.Builder
-		var inQuotes bool
-		var quoteType string
+		var code luaCode
 
 		// special handling for'set_by_lua_block' directive
 		// ignore potential hardcoded credentials linter warning for "set_by_lua_block"
@@ -119,14 +118,16 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
 			}
 
+			inCode := code.next(next)
+
 			switch {
-			case next == "{" && !inQuotes:
+			case next == "{" && inCode:
 				tokenDepth++
 				if tokenDepth > 1 { // not the first open brace
 					tok.WriteString(next)
 				}
 
-			case next == "}" && !inQuotes:
+			case next == "}" && inCode:
 				tokenDepth--
 				if tokenDepth < 0 {
 					lineno := s.Line()
@@ -145,15 +146,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 					return
 				}
 
-			case next == `"` || next == "'":
-				if !inQuotes {
-					inQuotes = true
-					quoteType = next
-				} else if inQuotes && next == quoteType {
-					inQuotes = false
-				}
-				tok.WriteString(next)
-
 			default:
 				// Expected first token is “{” to open a Lua block. If the first non-whitespace character is not “{”,
 				// we are not starting Lua tokenization. This is crucial for cases like ‘server_name content_by_lua_block;’.
@@ -175,6 +167,65 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	return tokenCh
 }
 
+// luaCode tells Lua code from the strings and comments in it.
+type luaCode struct {
+	quote   string // the quote that ends the string
+	escaped bool   // the next character in the string is escaped
+	comment bool   // in a comment that ends with its line
+	bracket string // the long bracket that ends the string or comment
+	run     string // the start of a comment or of a long bracket
+}
+
+// next advances over one character, and returns true if it is code.
+func (l *luaCode) next(c string) bool {
+	if l.quote != "" {
+		switch {
+		case l.escaped:
+			l.escaped = false
+		case c == `\`:
+			l.escaped = true
+		case c == l.quote:
+			l.quote = ""
+		}
+		return false
+	}
+
+	if l.bracket != "" {
+		switch {
+		case l.run+c == l.bracket:
+			l.bracket, l.run = "", ""
+		case strings.HasPrefix(l.bracket, l.run+c):
+			l.run += c
+		case c == "]":
+			l.run = c
+		default:
+			l.run = ""
+		}
+		return false
+	}
+
+	// a long bracket is opened by "[[", with any number of "=" in between
+	opening := strings.TrimLeft(l.run, "-")
+	switch {
+	case c == "[" && opening != "":
+		l.bracket, l.run, l.comment = "]"+opening[1:]+"]", "", false
+	case c == "=" && opening != "", c == "[" && (l.run == "--" || !l.comment):
+		l.run += c
+	case l.comment:
+		l.run, l.comment = "", c != "\n"
+		return false
+	case c == "-" && l.run == "-":
+		l.run, l.comment = "--", true
+	case c == "-":
+		l.run = c
+	case c == `"` || c == "'":
+		l.run, l.quote = "", c
+	default:
+		l.run = ""
+	}
+	return !l.comment
+}
+
 // RegisterBuilder registers a builder for generating Lua NGINX configuration.
 func (l *Lua) RegisterBuilder() RegisterBuilder { //nolint:ireturn
 	return BuildWithBuilder(l, l.directiveNames()...)
-- 
2.43.0


From 435b7e3f832c1bd8c91175f6aec693ab6d2d9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 31/45] fix: keep comments among the values of a map parameter

---
 parse.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/parse.go b/parse.go
index 9d0ca31..7429212 100644
--- a/parse.go
+++ b/parse.go
@@ -338,6 +338,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				}
 				stmt.IsMapBlockParameter = true
 				parsed = append(parsed, stmt)
+				parsed = appendComments(parsed, commentsInArgs, stmt)
 				continue
 			}
 		}
@@ -470,21 +471,27 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		parsed = append(parsed, stmt)
 
 		// add all comments found inside args after stmt is added
-		for _, comment := range commentsInArgs {
-			comment := comment
-			parsed = append(parsed, &Directive{
-				Directive: "#",
-				Line:      stmt.Line,
-				Args:      []string{},
-				File:      fileName,
-				Comment:   &comment,
-			})
-		}
+		parsed = appendComments(parsed, commentsInArgs, stmt)
 	}
 
 	return parsed, nil
 }
 
+// appendComments adds the comments that were found among the args of stmt.
+func appendComments(parsed Directives, comments []string, stmt *Directive) Directives {
+	for _, comment := range comments {
+		comment := comment
+		parsed = append(parsed, &Directive{
+			Directive: "#",
+			Line:      stmt.Line,
+			Args:      []string{},
+			File:      stmt.File,
+			Comment:   &comment,
+		})
+	}
+	return parsed
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From bb192db84f995064b7d94cd609ff86f085101fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 32/45] fix: only put a comment on the line of a statement that
 ends on the line it starts on

---
 build.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/build.go b/build.go
index 59d1aa0..678cc07 100644
--- a/build.go
+++ b/build.go
@@ -62,6 +62,9 @@ type Builder interface {
 
 const MaxIndent = 100
 
+// noLine is not the line of any statement.
+const noLine = -1
+
 //nolint:gochecknoglobals
 var (
 	marginSpaces = strings.Repeat(" ", MaxIndent)
@@ -175,10 +178,14 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		if options.extBuilders != nil && !stmt.IsMapBlockParameter {
 			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
+				lastLine = noLine
 				continue
 			}
 		}
 
+		// a comment can only share the line of a statement that takes no more than one
+		oneLine := !stmt.IsBlock() && !strings.Contains(directive, "\n")
+
 		if stmt.IsComment() {
 			_, _ = sb.WriteString("#")
 			_, _ = sb.WriteString(*stmt.Comment)
@@ -193,13 +200,17 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
-					_, _ = sb.WriteString(Enquote(arg))
+					arg = Enquote(arg)
+					oneLine = oneLine && !strings.Contains(arg, "\n")
+					_, _ = sb.WriteString(arg)
 				}
 				_, _ = sb.WriteString(")")
 			} else {
 				for _, arg := range stmt.Args {
 					_, _ = sb.WriteString(" ")
-					_, _ = sb.WriteString(Enquote(arg))
+					arg = Enquote(arg)
+					oneLine = oneLine && !strings.Contains(arg, "\n")
+					_, _ = sb.WriteString(arg)
 				}
 			}
 
@@ -215,7 +226,10 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			}
 		}
 
-		lastLine = stmt.Line
+		lastLine = noLine
+		if oneLine {
+			lastLine = stmt.Line
+		}
 	}
 }
 
-- 
2.43.0


From 523c01c5cd1f318d94d69e9956d1abcf2934e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 33/45] fix: do not copy the block context for every block,
 only where it is kept

---
 analyze.go | 3 +--
 parse.go   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/analyze.go b/analyze.go
index bbe7445..c2e9dff 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,8 +136,7 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	// (to a copy, as a file included from this block may still hold on to ctx)
-	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
+	return append(ctx, stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index 7429212..4d99df7 100644
--- a/parse.go
+++ b/parse.go
@@ -447,7 +447,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// TODO: handle files included from multiple contexts
 				if _, ok := p.included[fname]; !ok {
 					p.included[fname] = len(p.included)
-					p.includes = append(p.includes, fileCtx{fname, ctx})
+					// the blocks that follow share the memory of ctx
+					p.includes = append(p.includes, fileCtx{fname, append(blockCtx{}, ctx...)})
 				}
 				stmt.Includes = append(stmt.Includes, p.included[fname])
 				// add edge between the current file and it's included file and
-- 
2.43.0


From a98dd550ab4166eb5fc17069f2bb1d1192919bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 34/45] fix: write tabs and line ends in arguments as they are,
 so that they read back the same

---
 util.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/util.go b/util.go
index 7054fdc..e3d0932 100644
--- a/util.go
+++ b/util.go
@@ -62,12 +62,9 @@ func quote(s string) string {
 		case c == q:
 			sb.WriteByte('\\')
 			sb.WriteByte(c)
-		case c == '\n':
-			sb.WriteString(`\n`)
 		case c == '\r':
+			// the lexer skips it
 			sb.WriteString(`\r`)
-		case c == '\t':
-			sb.WriteString(`\t`)
 		default:
 			sb.WriteByte(c)
 		}
-- 
2.43.0


From 7230c15799b21f92e7c9ee6a1c1d1577356f6d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:20 +0000
Subject: [PATCH 35/45] fix: look up block contexts exactly, and in constant
 time

---
 analyze.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index c2e9dff..1c69e64 100644
--- a/analyze.go
+++ b/analyze.go
@@ -54,6 +54,7 @@ package crossplane
 
 import (
 	"fmt"
+	"strings"
 )
 
 // bit masks for different directive argument styles.
@@ -130,6 +131,24 @@ var contexts = map[string]uint{
 	blockCtx{"http", "oidc_provider"}.key():            ngxHTTPOIDCConf,
 }
 
+// maxContextLen is the length of the longest of the contexts.
+const maxContextLen = 3
+
+// contextMask returns the bitmask of a block context, and false if it isn't one of the contexts.
+func contextMask(ctx blockCtx) (uint, bool) {
+	if len(ctx) > maxContextLen {
+		return 0, false
+	}
+	for _, block := range ctx {
+		// it would read as the key of blocks inside each other
+		if strings.Contains(block, ">") {
+			return 0, false
+		}
+	}
+	mask, known := contexts[ctx.key()]
+	return mask, known
+}
+
 func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	// don't nest because ngxHTTPLocConf just means "location block in http"
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
@@ -144,7 +163,7 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 	var masks []uint
 	knownDirective := false
 
-	currCtx, knownContext := contexts[ctx.key()]
+	currCtx, knownContext := contextMask(ctx)
 	directiveName := stmt.Directive
 
 	// Find all bitmasks from the sources invoker provides.
-- 
2.43.0


From f730ee2c9d57de21c4461141efd0fbabd50b51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 36/45] fix: limit how deep blocks may be nested, as deeper
 input exhausts the stack

---
 parse.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index 4d99df7..a2685ba 100644
--- a/parse.go
+++ b/parse.go
@@ -44,6 +44,10 @@ type fileCtx struct {
 	ctx  blockCtx
 }
 
+// maxBlockDepth is the depth up to which blocks may be nested. It keeps hostile input from exhausting the stack, and
+// every payload within the depth that encoding/json supports.
+const maxBlockDepth = 4096
+
 type parser struct {
 	configDir       string
 	options         *ParseOptions
@@ -52,6 +56,7 @@ type parser struct {
 	included        map[string]int
 	includeEdges    map[string][]string
 	includeInDegree map[string]int
+	depth           int // number of blocks that enclose what is being parsed
 }
 
 // MatchFunc is the signature of the match function used to identify NGINX directives that
@@ -232,9 +237,26 @@ func (p *parser) lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	}
 }
 
-// consumeBlock skips everything up to the end of a block whose opening brace has been read.
-func (p *parser) consumeBlock(parsing *Config, tokens <-chan NgxToken, ctx blockCtx) error {
-	_, err := p.parse(parsing, tokens, ctx, true)
+// parseBlock parses everything up to the end of a block whose opening brace, on the given line, has been read.
+func (p *parser) parseBlock(
+	parsing *Config, tokens <-chan NgxToken, ctx blockCtx, consume bool, line int,
+) (Directives, error) {
+	if p.depth == maxBlockDepth {
+		return nil, &ParseError{
+			What:     "too many nested blocks",
+			File:     &parsing.File,
+			Line:     &line,
+			BlockCtx: ctx.getLastBlock(),
+		}
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+	return p.parse(parsing, tokens, ctx, consume)
+}
+
+// consumeBlock skips everything up to the end of a block whose opening brace, on the given line, has been read.
+func (p *parser) consumeBlock(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, line int) error {
+	_, err := p.parseBlock(parsing, tokens, ctx, true, line)
 	return err
 }
 
@@ -260,7 +282,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+				if err := p.consumeBlock(parsing, tokens, ctx, t.Line); err != nil {
 					return nil, err
 				}
 			}
@@ -326,7 +348,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" {
-						if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+						if err := p.consumeBlock(parsing, tokens, ctx, t.Line); err != nil {
 							return nil, err
 						}
 					}
@@ -347,7 +369,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if t.Value != "}" && contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" {
-				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+				if err := p.consumeBlock(parsing, tokens, ctx, t.Line); err != nil {
 					return nil, err
 				}
 			}
@@ -374,7 +396,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			p.handleError(parsing, perr)
 			// the statement is dropped as a whole: consume its block, if it has one
 			if t.Value == "{" {
-				if err := p.consumeBlock(parsing, tokens, ctx); err != nil {
+				if err := p.consumeBlock(parsing, tokens, ctx, t.Line); err != nil {
 					return nil, err
 				}
 			}
@@ -462,7 +484,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if t.Value == "{" && !t.IsQuoted {
 			stmt.Block = make(Directives, 0)
 			inner := enterBlockCtx(stmt, ctx) // get context for block
-			blocks, err := p.parse(parsing, tokens, inner, false)
+			blocks, err := p.parseBlock(parsing, tokens, inner, false, t.Line)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 15a448d15ccb5704dd6954d181e8614586c29164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 37/45] fix: give a word that starts with an escaped line end
 the line it starts on

---
 lex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lex.go b/lex.go
index 7e689ae..87a58b4 100644
--- a/lex.go
+++ b/lex.go
@@ -220,6 +220,9 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = true
 				readNext = false // re-eval
 				tokenStartLine = tokenLine
+				if isEOL(la) {
+					tokenStartLine-- // the token starts with an escaped line end
+				}
 			}
 			continue
 		case inWord:
-- 
2.43.0


From 910012cd635132eac65b2492dbe154c2b863939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 38/45] fix: read the bodies of all *_by_lua_block directives
 as Lua

precontent_by_lua_block, proxy_ssl_certificate_by_lua_block and
proxy_ssl_verify_by_lua_block are in the Lua table, but their bodies were
read as NGINX configuration.
---
 analyze_lua_directives.gen.go            | 6 +++---
 lua.go                                   | 3 +++
 scripts/generate/configs/lua_config.json | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/analyze_lua_directives.gen.go b/analyze_lua_directives.gen.go
index 424b9dd..3c01a63 100644
--- a/analyze_lua_directives.gen.go
+++ b/analyze_lua_directives.gen.go
@@ -209,7 +209,7 @@ var luaDirectives = map[string][]uint{
         ngxHTTPMainConf | ngxConfTake1,
     },
     "precontent_by_lua_block": {
-        ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "precontent_by_lua_file": {
         ngxHTTPMainConf | ngxHTTPSrvConf | ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
@@ -218,13 +218,13 @@ var luaDirectives = map[string][]uint{
         ngxHTTPMainConf | ngxConfFlag,
     },
     "proxy_ssl_certificate_by_lua_block": {
-        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_certificate_by_lua_file": {
         ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_verify_by_lua_block": {
-        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfBlock | ngxConfNoArgs,
+        ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
     },
     "proxy_ssl_verify_by_lua_file": {
         ngxHTTPLocConf | ngxHTTPLifConf | ngxConfTake1,
diff --git a/lua.go b/lua.go
index cc9c306..eafa948 100644
--- a/lua.go
+++ b/lua.go
@@ -32,6 +32,7 @@ func (l *Lua) directiveNames() []string {
 		"server_rewrite_by_lua_block",
 		"rewrite_by_lua_block",
 		"access_by_lua_block",
+		"precontent_by_lua_block",
 		"header_filter_by_lua_block",
 		"body_filter_by_lua_block",
 		"log_by_lua_block",
@@ -40,6 +41,8 @@ func (l *Lua) directiveNames() []string {
 		"ssl_certificate_by_lua_block",
 		"ssl_session_fetch_by_lua_block",
 		"ssl_session_store_by_lua_block",
+		"proxy_ssl_certificate_by_lua_block",
+		"proxy_ssl_verify_by_lua_block",
 	}
 }
 
diff --git a/scripts/generate/configs/lua_config.json b/scripts/generate/configs/lua_config.json
index f368065..07eeeb7 100644
--- a/scripts/generate/configs/lua_config.json
+++ b/scripts/generate/configs/lua_config.json
@@ -17,7 +17,10 @@
         "access_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
         "balancer_by_lua_block":[["ngxHTTPUpsConf", "ngxConfTake1"]],
         "server_rewrite_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxConfTake1"]],
-        "exit_worker_by_lua_block":[["ngxHTTPMainConf", "ngxConfTake1"]]
+        "exit_worker_by_lua_block":[["ngxHTTPMainConf", "ngxConfTake1"]],
+        "precontent_by_lua_block":[["ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
+        "proxy_ssl_certificate_by_lua_block":[["ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]],
+        "proxy_ssl_verify_by_lua_block":[["ngxHTTPLocConf", "ngxHTTPLifConf", "ngxConfTake1"]]
     },
     "matchFuncComment":"MatchLuaLatest is a MatchFunc for latest version of Lua."
 }
-- 
2.43.0


From d1ee7ea9e0036499f5d98d5adf0b2f2f3668bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 39/45] fix: end the variable of set_by_lua_block at the brace
 of the block

NGINX does not need a space between them.
---
 lua.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lua.go b/lua.go
index eafa948..b9537e0 100644
--- a/lua.go
+++ b/lua.go
@@ -74,6 +74,12 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 					return
 				}
 				next := s.Text()
+				// the block may follow without space, but "${" starts a variable
+				if next == "{" && arg != "" && !strings.HasSuffix(arg, "$") {
+					tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
+					tokenDepth++
+					break
+				}
 				if isSpace(next) {
 					if arg != "" {
 						tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
@@ -92,7 +98,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 		}
 
 		// check that Lua block starts correctly
-		for {
+		for tokenDepth == 0 {
 			if !s.Scan() {
 				return
 			}
@@ -105,7 +111,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 					return
 				}
 				tokenDepth++
-				break
 			}
 		}
 
-- 
2.43.0


From ec1ce46803f715b8eb8aaa76665e5a0f08ddbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 40/45] fix: report a failure to read a Lua block once, as the
 error it is

---
 lua.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lua.go b/lua.go
index b9537e0..22708d1 100644
--- a/lua.go
+++ b/lua.go
@@ -121,11 +121,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 
 			next := s.Text()
-			if err := s.Err(); err != nil {
-				lineno := s.Line()
-				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
-			}
-
 			inCode := code.next(next)
 
 			switch {
-- 
2.43.0


From 8a66c30561f6d74e6c6d2d5d722bb96909fc9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 41/45] fix: a directive with an empty block does not equal one
 without a block

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 742c8e7..82c5d8c 100644
--- a/types.go
+++ b/types.go
@@ -117,7 +117,7 @@ func (d *Directive) Equal(a *Directive) bool {
 		return false
 	case !equals(a.Args, d.Args):
 		return false
-	case len(a.Block) != len(d.Block):
+	case len(a.Block) != len(d.Block) || a.IsBlock() != d.IsBlock():
 		return false
 	case len(a.Includes) != len(d.Includes):
 		return false
-- 
2.43.0


From 07b275498d6a0e22ef3080c30c8c53dfd57c5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 42/45] fix: close each file once it has been read

Every included file was kept open, twice, until all files had been parsed, so that a configuration of more
files than a process may open could not be parsed ("too many open files").
---
 parse.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index a2685ba..d3ba219 100644
--- a/parse.go
+++ b/parse.go
@@ -176,19 +176,13 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			return nil, err
 		}
 
-		defer file.Close()
-
-		tokens := LexWithOptions(file, options.LexOptions)
 		config := Config{
 			File:   incl.path,
 			Status: "ok",
 			Errors: []ConfigError{},
 			Parsed: Directives{},
 		}
-		parsed, err := p.parse(&config, tokens, incl.ctx, false)
-		// let the lexer finish, so that it does not use the file after it is closed
-		for range tokens { //nolint:revive
-		}
+		parsed, err := p.parseFile(&config, file, incl.ctx)
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
@@ -220,6 +214,18 @@ func (p *parser) openFile(path string) (io.ReadCloser, error) {
 	return open(path)
 }
 
+// parseFile parses a file and closes it, so that the number of open files does not grow with the number of includes.
+func (p *parser) parseFile(parsing *Config, file io.ReadCloser, ctx blockCtx) (Directives, error) {
+	defer file.Close()
+
+	tokens := LexWithOptions(file, p.options.LexOptions)
+	parsed, err := p.parse(parsing, tokens, ctx, false)
+	// let the lexer finish, so that it does not use the file after it is closed
+	for range tokens { //nolint:revive
+	}
+	return parsed, err
+}
+
 // lexError returns the error for a token that the lexer could not read.
 func (p *parser) lexError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
@@ -459,7 +465,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 						return nil, perr
 					}
 				} else {
-					defer f.Close()
+					f.Close()
 					fnames = []string{pattern}
 				}
 			}
-- 
2.43.0


From 3acabd41b7b49bdf0b98c8e17eb8fd4fcbf44b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:10 +0000
Subject: [PATCH 43/45] fix: keep a backslash at the end of the text, which was
 dropped without an error

---
 lex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex.go b/lex.go
index 87a58b4..bd8e688 100644
--- a/lex.go
+++ b/lex.go
@@ -346,6 +346,13 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		return
 	}
 
+	if esc && lexState != inComment {
+		// there is nothing left for the backslash to escape
+		if lexState == skipSpace {
+			tokenStartLine = tokenLine
+		}
+		token.WriteString("\\")
+	}
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
-- 
2.43.0


From 83df2b249797caa945f91bb4b879fb76e31e98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:22 +0000
Subject: [PATCH 44/45] fix: building with a negative indentation panicked

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 678cc07..32575a5 100644
--- a/build.go
+++ b/build.go
@@ -128,7 +128,7 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 	// the caller's options may be in use by other builds
 	opts := *options
 	options = &opts
-	if options.Indent == 0 {
+	if options.Indent <= 0 {
 		options.Indent = 4
 	}
 
-- 
2.43.0


From cb236b72ba9582352432dc4682b8f5fb166d1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:49 +0000
Subject: [PATCH 45/45] fix: join lines that end in a backslash before reading
 directive definitions

---
 internal/generator/generator_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 26d1269..1eb1e35 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -50,6 +50,9 @@ var (
 	commentOrLiteralExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/|//.*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
 )
 
+//nolint:gochecknoglobals
+var lineSplices = strings.NewReplacer("\\\n", "", "\\\r\n", "")
+
 // Template of support file. A support file contains a map from
 // diective to its bitmask definitions, and a MatchFunc for it.
 //
@@ -105,7 +108,8 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	if err != nil {
 		return nil, err
 	}
-	strContent := string(byteContent)
+	// A backslash at the end of a line joins it with the next one
+	strContent := lineSplices.Replace(string(byteContent))
 
 	// Remove comments
 	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
-- 
2.43.0

