From 2d477622b4e1a602156dded7db173700cc3680ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 01/34] fix: leave the character after else for the next
 statement

parseIf read one character past 'else' and dropped it, so 'else{', 'else('
and 'else;' lost their punctuation, and an identifier such as else_x was
taken for the keyword.
---
 parser_stmt.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..493a97c 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -400,11 +400,12 @@ func parseIf(l *Lexer, c *Compiler) error {
 	}
 
 	if isElse {
-		// Check that next char is not alphanumeric
+		// Check that "else" is not a prefix of a longer identifier,
+		// and leave the next char for the statement which follows.
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			l.UnreadChar(ch)
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
 			}
 		}
-- 
2.43.0


From e1d962136b66e0d3ce7aa1f75631f93d9ac1ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 02/34] fix: do not run the statements after a return

They were appended to the returned block, so they executed before the
return, and a later return, goto or loop replaced it.
---
 parser_stmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 493a97c..496245e 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,11 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return is unreachable, unless a label follows
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+
 	return nil
 }
 
-- 
2.43.0


From a7481e6340409c311124c98f843df911fcfeeaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 03/34] fix: shifts bind tighter than comparisons on the
 right-hand side

a < b << c was parsed as (a < b) << c, because the right operand of a
comparison is parsed at level 5 and shifts were only recognised from level 6.
---
 expressions.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..c9b4fad 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,8 +352,8 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
-		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// Comparison operators (level 6) and shifts (level 5)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
@@ -362,6 +362,15 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			ch2, err2 := l.ReadChar()
 			var right value.Value
 
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// Not a shift, leave the comparison for an outer level
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
+
 			if ch == '<' {
 				if err2 == nil && ch2 == '<' {
 					// Left shift (level 5)
-- 
2.43.0


From c7891745abc842bd7621ed0fc413dfb29a27ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 04/34] fix: right shift fills the vacated bits with zeros

As doc/bref.pdf 4.5 says: the left operand is a bit pattern, and vacated
bits are filled with zeros. Applies to >> and =>>.
---
 expressions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index c9b4fad..f4f081b 100644
--- a/expressions.go
+++ b/expressions.go
@@ -269,7 +269,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 				case '«': // =<<
 					newVal = c.builder.NewShl(currentVal, right)
 				case '»': // =>>
-					newVal = c.builder.NewAShr(currentVal, right)
+					newVal = c.builder.NewLShr(currentVal, right)
 				case '<': // =<
 					cmp := c.builder.NewICmp(enum.IPredSLT, currentVal, right)
 					newVal = c.builder.NewZExt(cmp, c.WordType())
@@ -415,7 +415,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 						if err != nil {
 							return nil, err
 						}
-						left = c.builder.NewAShr(left, right)
+						left = c.builder.NewLShr(left, right)
 						handled = true
 						continue
 					}
-- 
2.43.0


From 9690a7cba3b70b7d81d2eb165148688e62566bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 05/34] fix: diagnose undefined and duplicate labels, keep
 label names apart

A goto to a label which is never defined made the compiler panic, a label
defined twice merged the two places into one block, and a label or the first
parameter could collide with another name of the LLVM function: label
'entry' jumped to the function entry, parameter 'entry' and a label named as
the first parameter gave invalid IR.
---
 irbuilder.go    | 13 ++++++++++++-
 parser_decls.go |  7 +++++++
 parser_stmt.go  |  9 +++++++--
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..7ffdcdd 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,9 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	// Labels defined and labels used by goto in the current function
+	definedLabels map[string]bool
+	usedLabels    []string
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,7 +318,9 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
-	c.builder = fn.NewBlock("entry")
+	c.definedLabels = make(map[string]bool)
+	c.usedLabels = nil
+	c.builder = fn.NewBlock(".entry")
 
 	// Get the function name to look up original parameters
 	var funcName string
@@ -514,6 +519,12 @@ func (c *Compiler) GetInsertBlock() *ir.Block {
 	return c.builder
 }
 
+// userLabel returns the block name for a label of the source program.
+// The prefix keeps it apart from other names in the function.
+func userLabel(name string) string {
+	return "label." + name
+}
+
 // GetOrCreateLabel gets an existing label block or creates a new one
 func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..9c63abb 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -266,6 +266,13 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		return err
 	}
 
+	// Every label used by goto must be defined in the function
+	for _, label := range c.usedLabels {
+		if !c.definedLabels[label] {
+			return fmt.Errorf("undefined label '%s'", label)
+		}
+	}
+
 	c.EndFunction()
 	return nil
 }
diff --git a/parser_stmt.go b/parser_stmt.go
index 496245e..1150584 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,11 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel(name)
+			if c.definedLabels[name] {
+				return fmt.Errorf("label '%s' already defined in this function", name)
+			}
+			c.definedLabels[name] = true
+			block := c.GetOrCreateLabel(userLabel(name))
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -491,7 +495,8 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.GetOrCreateLabel(userLabel(label))
+	c.usedLabels = append(c.usedLabels, label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From e179e3da84e45e82b02b5ba1a72c9e7e8d6d9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 06/34] fix: diagnose duplicate case values

They gave an LLVM switch with duplicate cases, which clang rejects.
---
 parser_stmt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 1150584..9b419f9 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -609,6 +609,12 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 		return err
 	}
 
+	for _, other := range *cases {
+		if other == value {
+			return fmt.Errorf("duplicate case value %d", value)
+		}
+	}
+
 	// Add to case list
 	*cases = append(*cases, value)
 
-- 
2.43.0


From e522b97f3d517584c2908500bf154140d43474e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 07/34] fix: call through parameters and auto variables

The callee name was only looked up among functions and extrn variables, so
a call through a local function pointer went to a function of that name.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index f4f081b..dce8925 100644
--- a/expressions.go
+++ b/expressions.go
@@ -899,6 +899,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A parameter or auto variable holds a function pointer
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From bcdc7eb7cf4c037d039117987d1ba4eb6090eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 08/34] fix: accept identifiers which start with an underscore

They could be declared, but not used in statements and expressions.
---
 expressions.go  | 2 +-
 parser_decls.go | 2 +-
 parser_stmt.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index dce8925..69a3059 100644
--- a/expressions.go
+++ b/expressions.go
@@ -879,7 +879,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/parser_decls.go b/parser_decls.go
index 9c63abb..da147fe 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -201,7 +201,7 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		return nil, err
 	}
 
-	if unicode.IsLetter(ch) {
+	if unicode.IsLetter(ch) || ch == '_' {
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
 		if err != nil || name == "" {
diff --git a/parser_stmt.go b/parser_stmt.go
index 9b419f9..071ecac 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if unicode.IsLetter(ch) || ch == '_' {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From 4f4c296ac5de47b15c67d7cd67c186d4ee3800c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 09/34] fix: skip white space before and inside parentheses and
 brackets

'main (', 'main( )', 'v [10]' and 'f( )' were rejected.
---
 expressions.go  | 3 +++
 parser_decls.go | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/expressions.go b/expressions.go
index 69a3059..cd87616 100644
--- a/expressions.go
+++ b/expressions.go
@@ -698,6 +698,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index da147fe..5a64214 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +248,10 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
+
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From 00211b28a992a4e0749bc46f7e64817f035c18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 10/34] fix: do not join two adjacent names of an expression
 statement

'x y;' was compiled as 'xy;' instead of being rejected.
---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 071ecac..5de05db 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -126,7 +126,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 
 		// Otherwise it's an expression
+		// Keep a separator, as white space after the name is already skipped
 		l.UnreadChar(ch)
+		l.UnreadChar(' ')
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From 475e792028a6c37771eeeb005bb375b64d69616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 11/34] fix: keep the bytes of string literals above 127

The lexer reads bytes, but String() encoded each byte above 127 in UTF-8, and
char() sign-extended it, so that printf wrote eight bytes for it.
---
 lexer.go       | 5 +++--
 runtime/char.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..1d0c7eb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -245,7 +245,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -267,7 +267,8 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		// The input is read byte by byte
+		result = append(result, byte(c))
 	}
 }
 
diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From f5861f2cc33f3693bcd4eda271774b8a29236949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 12/34] fix: printf %d of the most negative number

It printed the minus sign twice.
---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..85f0c3a 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,11 +22,7 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
-        b_printd(x);
+        b_printd(x); // prints the sign
         goto loop;
 
     case 'o': // octal
-- 
2.43.0


From 5e750e14eee70beeada0f8a877386f6715f4b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 13/34] fix: do not drop initial values past the stated vector
 size

As doc/bref.pdf 7.2 says, the size of the vector is the maximum of the
constant and the number of initial values.
---
 parser_decls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_decls.go b/parser_decls.go
index 5a64214..99735aa 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -189,7 +189,8 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
+	// The vector is as long as its size or its list of values, whichever is longer
+	if nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
-- 
2.43.0


From 1923a9167612c7d0881bed17db1cc0c8f7ae990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 14/34] fix: align the stack before main

_start is entered without a return address, so main was called with a
misaligned stack, and a program compiled with -O2 or -O3 could crash in an
aligned vector store to its stack frame.
---
 runtime/start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..236ce86 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -6,6 +6,10 @@
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
 
+#if defined(__x86_64__) || defined(__i386__)
+// There is no return address on the stack at _start.
+__attribute__((force_align_arg_pointer))
+#endif
 void b_start()
 {
     word_t main(void);
-- 
2.43.0


From e04a9f6501e6e56114ecdcd6558843d04440d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 15/34] fix: provide memset, memcpy and memmove in the runtime

Programs are linked with -nostdlib, but at -O2 and -O3 LLVM replaces loops
which fill or copy a vector by calls of these functions, and the link failed
with undefined references.
---
 runtime/Makefile |  2 ++
 runtime/memory.c | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)
 create mode 100644 runtime/memory.c

diff --git a/runtime/Makefile b/runtime/Makefile
index c7d8117..2f96545 100644
--- a/runtime/Makefile
+++ b/runtime/Makefile
@@ -8,6 +8,7 @@ OBJS    = char.o \
           exit.o \
           flush.o \
           lchar.o \
+          memory.o \
           nread.o \
           nwrite.o \
           printd.o \
@@ -38,6 +39,7 @@ char.o: char.c *.h
 exit.o: exit.c *.h
 flush.o: flush.c *.h
 lchar.o: lchar.c *.h
+memory.o: memory.c
 nread.o: nread.c *.h
 nwrite.o: nwrite.c *.h
 printd.o: printd.c *.h
diff --git a/runtime/memory.c b/runtime/memory.c
new file mode 100644
index 0000000..0ebe089
--- /dev/null
+++ b/runtime/memory.c
@@ -0,0 +1,36 @@
+#include <stddef.h>
+
+//
+// LLVM may replace a loop by a call of one of these functions,
+// even in a program which is linked without the C library.
+//
+void *memset(void *dst, int value, size_t count)
+{
+    volatile unsigned char *d = dst;
+
+    while (count-- > 0)
+        *d++ = value;
+    return dst;
+}
+
+void *memcpy(void *dst, const void *src, size_t count)
+{
+    volatile unsigned char *d = dst;
+    const unsigned char *s    = src;
+
+    while (count-- > 0)
+        *d++ = *s++;
+    return dst;
+}
+
+void *memmove(void *dst, const void *src, size_t count)
+{
+    volatile unsigned char *d = dst;
+    const unsigned char *s    = src;
+
+    if (d <= s)
+        return memcpy(dst, src, count);
+    while (count-- > 0)
+        d[count] = s[count];
+    return dst;
+}
-- 
2.43.0


From 2ac6a140fd9a566cc859d415a916b0bf5395a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 16/34] fix: let extrn refer to a variable of another file

extrn emitted a definition, so a variable shared by two files, or fout of the
runtime together with writeb, was a duplicate symbol for the linker. The
definition is weak now: it gives way to the real one, and a variable defined
nowhere still reads as zero.
---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 5de05db..3315a67 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -323,6 +323,8 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			// The definition may be in another file or in the library
+			g.Linkage = enum.LinkageWeak
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From a69000860e93ecb2adaa50e79c8ecd2a5438a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 17/34] fix: allocate auto variables on entry to the function

An auto declaration inside an if, switch or loop body allocated the variable
there: a use after that block was invalid for LLVM (or crashed), a goto past
a declaration left the variable without storage, and a loop used more stack on
every pass.
---
 irbuilder.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 7ffdcdd..9c83667 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
@@ -26,6 +27,9 @@ type Compiler struct {
 	// Labels defined and labels used by goto in the current function
 	definedLabels map[string]bool
 	usedLabels    []string
+	// Entry block of the current function, and the place in it for auto variables
+	entry    *ir.Block
+	entryPos int
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -321,6 +325,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.definedLabels = make(map[string]bool)
 	c.usedLabels = nil
 	c.builder = fn.NewBlock(".entry")
+	c.entry = c.builder
+	c.entryPos = 0
 
 	// Get the function name to look up original parameters
 	var funcName string
@@ -403,9 +409,21 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// insertAtEntry adds instructions to the beginning of the current function.
+// Auto variables are allocated there, once per call, wherever the declaration is.
+func (c *Compiler) insertAtEntry(insts ...ir.Instruction) {
+	c.entry.Insts = slices.Insert(c.entry.Insts, c.entryPos, insts...)
+	c.entryPos += len(insts)
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := ir.NewAlloca(c.WordType())
+	c.insertAtEntry(alloca)
+	if c.builder != c.entry {
+		// The declaration may be skipped
+		c.insertAtEntry(ir.NewStore(constant.NewInt(c.WordType(), 0), alloca))
+	}
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -425,19 +443,24 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := ir.NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-	firstElemPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstElemPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 1))
 
 	// Convert to i64 and store in the first slot [0][0]
-	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	ptrAsInt := ir.NewPtrToInt(firstElemPtr, c.WordType())
+	firstSlotPtr := ir.NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
+	c.insertAtEntry(alloca, firstElemPtr, ptrAsInt, firstSlotPtr)
+	if c.builder != c.entry {
+		// The declaration may be skipped
+		c.insertAtEntry(ir.NewStore(ptrAsInt, firstSlotPtr))
+	}
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From b596c9e91e9a5128153b7dff33dfb8f1a77dfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 18/34] fix: call a defined function without arguments

If the function has parameters and is already defined, the call did not match
its type and clang rejected it.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index cd87616..2a1fb38 100644
--- a/expressions.go
+++ b/expressions.go
@@ -747,6 +747,11 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					// Bitcast the direct function symbol to the new pointer-to-function type
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
+				} else if len(args) < len(fnDirect.Params) {
+					// Missing arguments: call it as a function without parameters
+					fnType := types.NewFunc(c.WordType())
+					casted := c.builder.NewBitCast(fnDirect, types.NewPointer(fnType))
+					result = c.builder.NewCall(casted, args...)
 				} else {
 					result = c.builder.NewCall(fnDirect, args...)
 				}
-- 
2.43.0


From a77c14ee7e17ca2cbfade5eafae6d7c5ea1f4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 19/34] fix: accept any expression between ? and :

A conditional or an assignment there was rejected.
---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 2a1fb38..f21229e 100644
--- a/expressions.go
+++ b/expressions.go
@@ -66,7 +66,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 			// Then branch
 			c.SetInsertPoint(thenBlock)
-			thenVal, err := parseExpressionWithLevel(l, c, 12)
+			thenVal, err := parseExpressionWithLevel(l, c, 15)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From b749dec408f4ed0f84dffa7097fc16a6a037ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 20/34] fix: accept a function name on the left side of ==

It was taken for an assignment.
---
 expressions.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index f21229e..1bdf347 100644
--- a/expressions.go
+++ b/expressions.go
@@ -937,15 +937,23 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 			return addr, true, nil
 		}
 
-		// If the next non-whitespace character is '=', this identifier is on the
-		// left side of an assignment. Since it's not a variable, report undefined.
+		// If the next non-whitespace character is '=' (but not '=='), this identifier is on
+		// the left side of an assignment. Since it's not a variable, report undefined.
 		if err := l.Whitespace(); err != nil {
 			return nil, false, err
 		}
 		nextCh, err2 := l.ReadChar()
 		if err2 == nil {
+			isAssign := nextCh == '='
+			if isAssign {
+				afterCh, err3 := l.ReadChar()
+				if err3 == nil {
+					l.UnreadChar(afterCh)
+					isAssign = afterCh != '='
+				}
+			}
 			l.UnreadChar(nextCh)
-			if nextCh == '=' {
+			if isAssign {
 				return nil, false, fmt.Errorf("undefined identifier '%s'", name)
 			}
 		}
-- 
2.43.0


From d0f7d9045684aa21c3fc78cd58db65b96175d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 21/34] fix: drop the words of a redefined vector

'v[10]; v[20];' left two definitions of v.data.
---
 irbuilder.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 9c83667..afef891 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -101,13 +101,12 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 // removeGlobalByName removes the global with the given name from the module if present
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
-	for i, g := range c.module.Globals {
-		if g.Name() == full {
-			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
-			return true
-		}
-	}
-	return false
+	n := len(c.module.Globals)
+	c.module.Globals = slices.DeleteFunc(c.module.Globals, func(g *ir.Global) bool {
+		// A vector may keep its words in a separate global
+		return g.Name() == full || g.Name() == full+".data"
+	})
+	return len(c.module.Globals) < n
 }
 
 // GetModule returns the LLVM module
-- 
2.43.0


From fbcf482503e0ff064fe54df3ea129a59636d1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 22/34] fix: diagnose a name used both as variable and as
 function

A variable used in a function without extrn, a variable and a function of the
same name, or extrn of a function defined later gave two LLVM globals of one
name, which clang rejects without a message from blang.
---
 irbuilder.go    |  5 +++++
 parser_decls.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index afef891..0f02991 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -269,6 +269,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable which is not declared in current context is not a function either
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
diff --git a/parser_decls.go b/parser_decls.go
index 99735aa..e996879 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -68,6 +68,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -121,6 +125,10 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -267,6 +275,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable '%s' redeclared as function", name)
+	}
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From 05db1e877b8187ee2588829479858e6c4373e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 23/34] fix: accept a comment right after =

'x =/* c */ 5' was parsed as the operator =/ followed by a dereference.
---
 expressions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expressions.go b/expressions.go
index 1bdf347..a9b6514 100644
--- a/expressions.go
+++ b/expressions.go
@@ -192,6 +192,17 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 				switch ch2 {
 				case '+', '-', '*', '/', '%', '&', '|':
 					compoundOp = ch2
+					if ch2 == '/' {
+						ch3, err3 := l.ReadChar()
+						if err3 == nil {
+							l.UnreadChar(ch3)
+							if ch3 == '*' {
+								// A comment after '='
+								l.UnreadChar(ch2)
+								compoundOp = 0
+							}
+						}
+					}
 				case '<', '>':
 					// Could be =<, =>, =<=, =>>, =>=
 					ch3, err3 := l.ReadChar()
-- 
2.43.0


From 3c18fc3775b24524094e6e6d0e522b3ef5351777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 24/34] fix: reject numbers in place of names

---
 lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lexer.go b/lexer.go
index 1d0c7eb..c256a42 100644
--- a/lexer.go
+++ b/lexer.go
@@ -147,6 +147,12 @@ func (l *Lexer) Identifier() (string, error) {
 			return string(result), nil
 		}
 
+		// A name does not start with a digit
+		if len(result) == 0 && unicode.IsDigit(c) {
+			l.UnreadChar(c)
+			return "", nil
+		}
+
 		result = append(result, c)
 	}
 }
-- 
2.43.0


From 136affd1934148136f9f968a4d2b88d2d4408895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 25/34] fix: reject a comma after the last argument of a call

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index a9b6514..c32ac72 100644
--- a/expressions.go
+++ b/expressions.go
@@ -716,7 +716,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
-- 
2.43.0


From 368dac851dbe7131e90731a047143cb5d43aae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 26/34] fix: reject a missing initial value

---
 parser_decls.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index e996879..a33376b 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -240,6 +240,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		// Convert string pointer to i64 for array storage
 		return constant.NewPtrToInt(gep, c.WordType()), nil
 	} else if ch == '-' {
+		if err := expectDigit(l); err != nil {
+			return nil, err
+		}
 		val, err := l.Number()
 		if err != nil {
 			return nil, fmt.Errorf("unexpected end of file, expect ival")
@@ -247,6 +250,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		return constant.NewInt(c.WordType(), -val), nil
 	} else {
 		l.UnreadChar(ch)
+		if err := expectDigit(l); err != nil {
+			return nil, err
+		}
 		val, err := l.Number()
 		if err != nil {
 			return nil, fmt.Errorf("unexpected end of file, expect ival")
@@ -255,6 +261,22 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 	}
 }
 
+// expectDigit checks that a number follows
+func expectDigit(l *Lexer) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
+	ch, err := l.ReadChar()
+	if err != nil {
+		return fmt.Errorf("unexpected end of file, expect ival")
+	}
+	l.UnreadChar(ch)
+	if !unicode.IsDigit(ch) {
+		return fmt.Errorf("unexpected character '%c', expect ival", ch)
+	}
+	return nil
+}
+
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
 	if err := l.Whitespace(); err != nil {
-- 
2.43.0


From e88c6f6d2dcac667a63d7173de5a7b9dc80e6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 27/34] fix: reject keywords in place of names

---
 expressions.go  | 3 +++
 lexer.go        | 9 +++++++++
 parser_decls.go | 6 ++++++
 parser_stmt.go  | 8 ++++++++
 4 files changed, 26 insertions(+)

diff --git a/expressions.go b/expressions.go
index c32ac72..8f8ece9 100644
--- a/expressions.go
+++ b/expressions.go
@@ -905,6 +905,9 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		if err != nil {
 			return nil, false, err
 		}
+		if isKeyword(name) {
+			return nil, false, fmt.Errorf("unexpected keyword '%s', expect expression", name)
+		}
 
 		// Peek ahead to see if this is a function call
 		if err := l.Whitespace(); err != nil {
diff --git a/lexer.go b/lexer.go
index c256a42..67d88ca 100644
--- a/lexer.go
+++ b/lexer.go
@@ -157,6 +157,15 @@ func (l *Lexer) Identifier() (string, error) {
 	}
 }
 
+// isKeyword tells whether a name is reserved
+func isKeyword(name string) bool {
+	switch name {
+	case "auto", "case", "else", "extrn", "goto", "if", "return", "switch", "while":
+		return true
+	}
+	return false
+}
+
 // Number parses an integer literal (octal if starts with 0)
 func (l *Lexer) Number() (int64, error) {
 	if err := l.Whitespace(); err != nil {
diff --git a/parser_decls.go b/parser_decls.go
index a33376b..28122cb 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -19,6 +19,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 		if name == "" {
 			break
 		}
+		if isKeyword(name) {
+			return fmt.Errorf("unexpected keyword '%s' at top level", name)
+		}
 
 		if err := l.Whitespace(); err != nil {
 			return err
@@ -331,6 +334,9 @@ func parseArguments(l *Lexer) ([]string, error) {
 		if err != nil || name == "" {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
+		if isKeyword(name) {
+			return nil, fmt.Errorf("unexpected keyword '%s', expect argument name", name)
+		}
 
 		params = append(params, name)
 
diff --git a/parser_stmt.go b/parser_stmt.go
index 3315a67..573642d 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -99,6 +99,8 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		return parseCase(l, c, switchID, cases)
 	case "goto":
 		return parseGoto(l, c)
+	case "else":
+		return fmt.Errorf("unexpected 'else' without 'if'")
 	default:
 		// Check if it's a label
 		ch, err := l.ReadChar()
@@ -205,6 +207,9 @@ func parseAuto(l *Lexer, c *Compiler) error {
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'auto'")
 		}
+		if isKeyword(name) {
+			return fmt.Errorf("unexpected keyword '%s' after 'auto'", name)
+		}
 
 		// Duplicate identifier detection: within the same auto statement
 		if _, exists := seen[name]; exists {
@@ -313,6 +318,9 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'extrn'")
 		}
+		if isKeyword(name) {
+			return fmt.Errorf("unexpected keyword '%s' after 'extrn'", name)
+		}
 
 		// extrn declares a reference in the CURRENT declaration context only.
 		// Ensure a module-level global exists (to share storage across functions),
-- 
2.43.0


From fe91a310e7bc04025f14a71d0f30f21fd299ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 28/34] fix: reject duplicate parameter names

---
 parser_decls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 28122cb..20f7ce6 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -337,6 +337,11 @@ func parseArguments(l *Lexer) ([]string, error) {
 		if isKeyword(name) {
 			return nil, fmt.Errorf("unexpected keyword '%s', expect argument name", name)
 		}
+		for _, p := range params {
+			if p == name {
+				return nil, fmt.Errorf("argument '%s' already defined", name)
+			}
+		}
 
 		params = append(params, name)
 
-- 
2.43.0


From ae505a3c12a0d1f5221d85bf6ab134b1d281e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 29/34] fix: report unknown or incomplete options as errors

The usage text was printed and the exit status was 0.
---
 main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..bba03f2 100644
--- a/main.go
+++ b/main.go
@@ -79,7 +79,11 @@ func main() {
 	pflag.BoolVarP(&showHelp, "help", "h", false, "Display this information")
 
 	pflag.Usage = usage
-	pflag.Parse()
+	pflag.CommandLine.Init(os.Args[0], pflag.ContinueOnError)
+	if err := pflag.CommandLine.Parse(os.Args[1:]); err != nil {
+		Eprintf("blang", "%s\n", err)
+		os.Exit(1)
+	}
 
 	if showHelp {
 		usage()
-- 
2.43.0


From 8afd3f76eee551299ba5295686ee6f7ff513a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 30/34] fix: remove an incomplete LLVM IR file after a write
 error

---
 driver.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/driver.go b/driver.go
index 4bbe2d0..d2f2fb9 100644
--- a/driver.go
+++ b/driver.go
@@ -56,11 +56,15 @@ func compileToIR(args *CompileOptions) error {
 			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
 			return err
 		}
-		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
-			outFile.Close()
-			return err
+		_, err = outFile.WriteString(compiler.GetModule().String())
+		if cerr := outFile.Close(); err == nil {
+			err = cerr
 		}
-		if err := outFile.Close(); err != nil {
+		if err != nil {
+			// Do not leave an incomplete file behind
+			if fi, serr := os.Lstat(outputPath); serr == nil && fi.Mode().IsRegular() {
+				os.Remove(outputPath)
+			}
 			return err
 		}
 		if args.Verbose {
-- 
2.43.0


From 1c27f8ee48b604632275d94762b50dd5df7d92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 31/34] fix: link the runtime after the libraries given by -l

A library of B code could not use functions of the runtime which the
program itself does not use.
---
 driver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver.go b/driver.go
index d2f2fb9..9395be6 100644
--- a/driver.go
+++ b/driver.go
@@ -357,11 +357,11 @@ func compileToExecutable(args *CompileOptions) error {
 	for _, libDir := range args.LibraryDirs {
 		cmdArgs = append(cmdArgs, "-L"+libDir)
 	}
-	// Always link the B runtime library
-	cmdArgs = append(cmdArgs, "-lb")
 	for _, lib := range args.Libraries {
 		cmdArgs = append(cmdArgs, "-l"+lib)
 	}
+	// Always link the B runtime library, last as other libraries may need it
+	cmdArgs = append(cmdArgs, "-lb")
 	cmdArgs = append(cmdArgs, "-o", args.OutputFile)
 
 	cmd := exec.Command("clang", cmdArgs...)
-- 
2.43.0


From 40bbe2132f3dde5031bbf0d6f55d05eb62058138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 32/34] fix: do not split -L and -l arguments at commas

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index bba03f2..0b53f1f 100644
--- a/main.go
+++ b/main.go
@@ -71,8 +71,8 @@ func main() {
 	pflag.BoolVarP(&verbose, "verbose", "v", false, "Verbose output")
 
 	// Paths and libraries
-	pflag.StringSliceVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
-	pflag.StringSliceVarP(&libraries, "library", "l", []string{}, "Link with library")
+	pflag.StringArrayVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
+	pflag.StringArrayVarP(&libraries, "library", "l", []string{}, "Link with library")
 
 	// Help and version
 	pflag.BoolVarP(&showVersion, "version", "V", false, "Display compiler version information")
-- 
2.43.0


From 127af8799347b098cd336c2f81487215a46bba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 33/34] fix: keep intermediate files in a private directory

The file NAME.tmp.ll beside the output may belong to the user, or to another
blang that runs at the same time in the same directory.
---
 driver.go | 71 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/driver.go b/driver.go
index 9395be6..5d0a0fd 100644
--- a/driver.go
+++ b/driver.go
@@ -99,6 +99,21 @@ func compileToIR(args *CompileOptions) error {
 	return nil
 }
 
+// tempIRPath returns the path of the intermediate file of the given name and a
+// function which removes it.  With --save-temps that is the name itself, and the
+// file stays.  Otherwise the file gets a private directory, as another file of
+// that name may belong to the user, or to a compiler running at the same time.
+func tempIRPath(args *CompileOptions, name string) (string, func(), error) {
+	if args.SaveTemps {
+		return name, func() {}, nil
+	}
+	dir, err := os.MkdirTemp("", "blang-")
+	if err != nil {
+		return "", nil, err
+	}
+	return filepath.Join(dir, filepath.Base(name)), func() { os.RemoveAll(dir) }, nil
+}
+
 // compileToAssembly generates assembly output
 func compileToAssembly(args *CompileOptions) error {
 	// Validate extensions: only .b and .ll are accepted
@@ -126,7 +141,12 @@ func compileToAssembly(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR, removeTemp, err := tempIRPath(args, out+".tmp.ll")
+			if err != nil {
+				return err
+			}
+			// Clean up temporary IR unless save-temps is specified
+			defer removeTemp()
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -143,17 +163,9 @@ func compileToAssembly(args *CompileOptions) error {
 				fmt.Printf("blang: running %s\n", cmd.String())
 			}
 			if err := cmd.Run(); err != nil {
-				if !args.SaveTemps {
-					os.Remove(tempIR)
-				}
 				return fmt.Errorf("failed to generate assembly: %v", err)
 			}
 
-			// Clean up temporary IR unless save-temps is specified
-			if !args.SaveTemps {
-				os.Remove(tempIR)
-			}
-
 			if args.Verbose {
 				fmt.Printf("blang: generated %s\n", out)
 			}
@@ -220,7 +232,12 @@ func compileToObject(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR, removeTemp, err := tempIRPath(args, out+".tmp.ll")
+			if err != nil {
+				return err
+			}
+			// Clean up temporary IR unless save-temps is specified
+			defer removeTemp()
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -237,17 +254,9 @@ func compileToObject(args *CompileOptions) error {
 				fmt.Printf("blang: running %s\n", cmd.String())
 			}
 			if err := cmd.Run(); err != nil {
-				if !args.SaveTemps {
-					os.Remove(tempIR)
-				}
 				return fmt.Errorf("failed to generate object file: %v", err)
 			}
 
-			// Clean up temporary IR unless save-temps is specified
-			if !args.SaveTemps {
-				os.Remove(tempIR)
-			}
-
 			if args.Verbose {
 				fmt.Printf("blang: generated %s\n", out)
 			}
@@ -296,7 +305,6 @@ func compileToExecutable(args *CompileOptions) error {
 	}
 
 	// Prepare temporary IR files (for .b inputs) and collect inputs for clang
-	temps := []string{}
 	clangInputs := []string{}
 
 	for i, in := range args.InputFiles {
@@ -313,20 +321,21 @@ func compileToExecutable(args *CompileOptions) error {
 				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
 			}
 
+			tmp, removeTemp, err := tempIRPath(args, tmp)
+			if err != nil {
+				return err
+			}
+			// Clean up temporary files unless save-temps is specified
+			defer removeTemp()
+
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
 			irArgs.OutputType = OutputIR
 			irArgs.OutputFile = tmp
 
 			if err := compileToIR(&irArgs); err != nil {
-				if !args.SaveTemps {
-					for _, t := range temps {
-						os.Remove(t)
-					}
-				}
 				return err
 			}
-			temps = append(temps, tmp)
 			clangInputs = append(clangInputs, tmp)
 
 		case ".ll", ".s", ".o", ".a":
@@ -370,21 +379,9 @@ func compileToExecutable(args *CompileOptions) error {
 	}
 
 	if err := cmd.Run(); err != nil {
-		if !args.SaveTemps {
-			for _, t := range temps {
-				os.Remove(t)
-			}
-		}
 		return fmt.Errorf("failed to generate executable: %v", err)
 	}
 
-	// Clean up temporary files unless save-temps is specified
-	if !args.SaveTemps {
-		for _, t := range temps {
-			os.Remove(t)
-		}
-	}
-
 	if args.Verbose {
 		fmt.Printf("blang: generated %s\n", args.OutputFile)
 	}
-- 
2.43.0


From 7ef04d8bf132617e26a9a6e34b3348f1ea74c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 34/34] fix: let extrn find variables in libraries

A weak symbol does not make the linker take a member of an archive, so that a
variable defined in a library by itself stayed undefined (address 0).
---
 parser_stmt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 573642d..a53757c 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -331,8 +331,9 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
-			// The definition may be in another file or in the library
-			g.Linkage = enum.LinkageWeak
+			// The definition may be in another file or in a library.  The linker
+			// takes a member of a library for a common symbol, not for a weak one.
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0

