From c36a0bd997be68590ff82c7afd4a6d7a3adad657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:54 +0000
Subject: [PATCH 01/41] fix: ASC of a character above 127 returned a negative
 number

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..fe001bc 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1008,7 +1008,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
-- 
2.43.0


From a62fad5829bcdf96dbb63682cf576bd05b673b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:54 +0000
Subject: [PATCH 02/41] fix: more than two subscripts aborted the interpreter
 on an assertion

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index fe001bc..7517ead 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1222,7 +1222,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many dimensions: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 6559c08a9a3d6773023bb573f7864be1999c4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:54 +0000
Subject: [PATCH 03/41] fix: DIM with a maximum subscript of 4294967295
 overflowed the array size

---
 Basic/arrays.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..2afea5e 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -14,10 +14,10 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
   for (unsigned i = 0; i < dimensions; i++) {
     if (max[i] < base)
       return false;
-    unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    unsigned last = max[i] - base;
+    if (last >= MAX_ELEMENTS / *elements)
       return false;
-    *elements *= size;
+    *elements *= last + 1;
   }
   return true;
 }
-- 
2.43.0


From 5c2da52d95519b5d16d877948b941eafa48b0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:54 +0000
Subject: [PATCH 04/41] fix: using the name of a built-in function as a
 variable aborted on an assertion

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..f09f391 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -911,6 +911,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "variable expected, found %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 97a9779d918095b50ac7b5f268d02fae55d26b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 05/41] fix: values left on the stacks by run-time errors made
 later statements overflow them

---
 Basic/run.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 7517ead..3240f42 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -151,13 +151,18 @@ void vm_clear_values(VM* vm) {
   clear_symbol_table_values(vm->st);
 }
 
-static void clear_string_stack(VM* vm) {
-  while (vm->ssp > 0) {
+// Discard strings above the given stack level.
+static void drop_strings(VM* vm, unsigned level) {
+  while (vm->ssp > level) {
     vm->ssp--;
     efree(vm->strstack[vm->ssp]);
   }
 }
 
+static void clear_string_stack(VM* vm) {
+  drop_strings(vm, 0);
+}
+
 // Reset control state so that no GOSUB, FOR, function call is in progress.
 static void reset_control_state(VM* vm) {
   clear_string_stack(vm);
@@ -336,12 +341,20 @@ static void report_for_in_progress(VM*);
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
 
+  const unsigned sp = vm->sp;
+  const unsigned ssp = vm->ssp;
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else {
+    // discard the values of the statement that failed
+    if (vm->sp > sp)
+      vm->sp = sp;
+    drop_strings(vm, ssp);
+  }
   untrap_interrupt();
 
   if (interrupted)
-- 
2.43.0


From 88671b52b58f887ffcb015baea610e151688e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 06/41] fix: a run-time error inside a DEF function left its
 parameter changed and its call in progress

---
 Basic/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 3240f42..9552203 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -335,6 +335,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
 // Run the currently selected code from current PC.
@@ -350,6 +351,8 @@ static void run(VM* vm) {
       execute(vm);
   }
   else {
+    if (vm->fn.code_state.code)
+      end_def(vm);
     // discard the values of the statement that failed
     if (vm->sp > sp)
       vm->sp = sp;
-- 
2.43.0


From 622439e7791f8eca58891c79cfbe623705536644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 07/41] fix: a break inside a DEF function left the call in
 progress

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 9552203..cc12bd7 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -347,7 +347,8 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped &&
+           (!interrupted || vm->fn.code_state.code)) // complete any DEF function call
       execute(vm);
   }
   else {
-- 
2.43.0


From fcecc7844786eaccf9905318c5f3ebfb2feba228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 08/41] fix: CONT after a break just before STOP skipped the
 STOP, and at program end read past the code

---
 Basic/run.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index cc12bd7..61c2226 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -377,8 +377,11 @@ static void run(VM* vm) {
   // On normal program end, clear program stopped state.
   // After running immediate code, leave program stopped state alone.
   if (vm->code_state.code == &vm->stored_program) {
-    if (vm->stopped || interrupted)
+    if (vm->stopped || interrupted) {
       vm->stopped_program = vm->code_state;
+      if (vm->stopped)
+        vm->stopped_program.pc++; // continue after STOP
+    }
     else
       clear_code_state(&vm->stopped_program);
   }
@@ -390,10 +393,6 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
-  // If continuing from STOP, continue from PC after STOP.
-  // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
   run(vm);
   return true;
 }
-- 
2.43.0


From 60c1d907d8744bd399177827321d370f51d1bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 09/41] fix: INPUT at end of input looped for ever or reused
 the previous line

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 61c2226..b904272 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -930,6 +930,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+      run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From c9613db1660f6ec72955ea47ddd6c47a8f6d2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 10/41] fix: invalid input for an array element left its
 indexes on the stack

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index b904272..a0b3e8d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -965,6 +965,7 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      vm->sp -= i->u.param.params; // discard array indexes, to be recomputed
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From 66ae8ec65fd953c67f241050d092f60b1a05fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 11/41] fix: a FOR variable read as zero in the iterations
 after CLEAR

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index a0b3e8d..ef2fd97 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1542,6 +1542,7 @@ static void next(VM* vm, int si) {
   }
   else {
     sym->val.num = x;
+    sym->defined = true; // CLEAR might have undefined it
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From 879c4ed58700735de750c148760e2a565f898fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:48 +0000
Subject: [PATCH 12/41] fix: a function used by the program could not be
 defined interactively (Example 3 of the manual)

---
 Basic/parse.c  |  1 -
 Basic/run.c    |  4 ++++
 Basic/symbol.c | 10 ----------
 Basic/symbol.h |  2 --
 4 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index f09f391..0a04f64 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -44,7 +44,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index ef2fd97..42ab300 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -542,6 +542,8 @@ static void execute(VM* vm) {
       assert(sym != NULL && sym->type == TYPE_NUM);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY; // never defined with DIM or DEF: an undeclared array
       if (sym->kind == SYM_ARRAY)
         get_numeric_element(vm, sym, i->u.param.params);
       else {
@@ -666,6 +668,8 @@ static void execute(VM* vm) {
       assert(sym != NULL && sym->type == TYPE_STR);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
+      if (sym->kind == SYM_UNKNOWN)
+        sym->kind = SYM_ARRAY; // never defined with DIM or DEF: an undeclared array
       if (sym->kind == SYM_ARRAY)
         get_string_element(vm, sym, i->u.param.params);
       else {
diff --git a/Basic/symbol.c b/Basic/symbol.c
index d282b96..5360e94 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -156,16 +156,6 @@ const char* sym_name(const SYMTAB* st, SYMID id) {
   return st->psym[id]->name;
 }
 
-// If a symbol remains of UNKNOWN kind after parsing,
-// it has been used with parens but never defined with DIM or DEF,
-// so should be treated as an undeclared array.
-void sym_make_unknown_array(SYMTAB* st) {
-  for (unsigned i = 0; i < st->used; i++) {
-    if (st->psym[i]->kind == SYM_UNKNOWN)
-      st->psym[i]->kind = SYM_ARRAY;
-  }
-}
-
 void print_binst(const BINST* i, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp) {
   assert(fp != NULL);
   fprintf(fp, "%5u %s ", j, bcode_name(i->op));
diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..e1ef4f5 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -64,8 +64,6 @@ SYMBOL* sym_insert_builtin(SYMTAB*, const char* name, int type, const char* args
 SYMBOL* symbol(SYMTAB*, SYMID);
 const char* sym_name(const SYMTAB*, SYMID);
 
-// Turn parenthesised symbols of UNKNOWN kind into ARRAY.
-void sym_make_unknown_array(SYMTAB*);
 
 // in symbol.h because symbol.h depends on bcode.h
 void print_binst(const BINST*, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp);
-- 
2.43.0


From db07fb5b9eabc2999001e3696ab0d2b196bcd838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:48 +0000
Subject: [PATCH 13/41] fix: a break during expression evaluation left values
 on the stacks

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 42ab300..292feea 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -348,7 +348,8 @@ static void run(VM* vm) {
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped &&
-           (!interrupted || vm->fn.code_state.code)) // complete any DEF function call
+           // on break, complete any expression evaluation and DEF function call in progress
+           (!interrupted || vm->sp > sp || vm->ssp > ssp || vm->fn.code_state.code))
       execute(vm);
   }
   else {
-- 
2.43.0


From 221bdcb00e1c7f08ac5e316fa4396f6dabe24388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:37 +0000
Subject: [PATCH 14/41] fix: an invalid character or malformed DATA item
 terminated the interpreter

---
 Basic/lexer.c | 31 ++++++++++++++++++++++++-------
 Basic/lexer.h |  1 +
 Basic/parse.c | 11 +++++++++--
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..aa13ceb 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -23,6 +23,7 @@ LEX* new_lex(const char* name, bool recognise_keyword_prefixes) {
   lex->num = 0;
   lex->word[0] = '\0';
   lex->recognise_keyword_prefixes = recognise_keyword_prefixes;
+  lex->invalid = false;
   return lex;
 }
 
@@ -75,8 +76,9 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
 
 static void validate(LEX* lex, int c) {
   if (c != EOF && (c < 0 || c >= 127)) {
-    lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    if (!lex->invalid)
+      lex_error(lex, "invalid character on line: value %d\n", c);
+    lex->invalid = true; // the current token is an error
   }
 }
 
@@ -176,7 +178,7 @@ static bool append(LEX* lex, unsigned *i, int c, const char* descrip) {
   return true;
 }
 
-int lex_next(LEX* lex) {
+static int next_token(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -311,8 +313,23 @@ int lex_next(LEX* lex) {
   return lex->token = (c == EOF ? TOK_EOF : c);
 }
 
+int lex_next(LEX* lex) {
+  lex->invalid = false;
+  int token = next_token(lex);
+  if (lex->invalid)
+    token = lex->token = TOK_ERROR;
+  return token;
+}
+
+static const char* data_error(LEX* lex) {
+  lex->token = TOK_ERROR;
+  return NULL;
+}
+
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return null on error.
 const char* lex_next_data(LEX* lex) {
+  lex->invalid = false;
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
@@ -327,13 +344,13 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return data_error(lex);
     }
   }
   else {
@@ -341,7 +358,7 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
       c = lex_char(lex);
@@ -353,7 +370,7 @@ const char* lex_next_data(LEX* lex) {
   }
   lex->word[i] = '\0';
 
-  return lex->word;
+  return lex->invalid ? data_error(lex) : lex->word;
 }
 
 int lex_token(LEX* lex) {
diff --git a/Basic/lexer.h b/Basic/lexer.h
index 18432be..a1bb79d 100644
--- a/Basic/lexer.h
+++ b/Basic/lexer.h
@@ -17,6 +17,7 @@ typedef struct {
   int token;
   double num;
   bool recognise_keyword_prefixes;
+  bool invalid;
   char word[MAX_WORD];
 } LEX;
 
diff --git a/Basic/parse.c b/Basic/parse.c
index 0a04f64..33c8ae6 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -211,9 +211,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* s = lex_next_data(parser->lex);
+  if (s == NULL)
+    parse_error(parser, "invalid DATA");
+  emit_str(parser->bcode, B_DATA, s);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From 5f7733e2b8f5b7b9eb4d8a7be1f6d1629fab6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:37 +0000
Subject: [PATCH 15/41] fix: with keywords recognised anywhere, a number before
 ELSE or END was an invalid number

---
 Basic/lexer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index aa13ceb..215ec3f 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -251,7 +251,9 @@ static int next_token(LEX* lex) {
           return lex->token = TOK_ERROR;
       }
     }
-    if (tolower(c) == 'e') {
+    // when keywords are recognised anywhere, 10ELSE is a number and a keyword
+    if (tolower(c) == 'e' &&
+        !(lex->recognise_keyword_prefixes && keyword_prefix(lex->text + lex->pos - 1))) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
       if ((c = lex_char(lex)) == '-') {
-- 
2.43.0


From 8c860817e9263f6df4bc1f2c2ccafcaab31a3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 16/41] fix: loading a malformed program file terminated the
 interpreter

---
 Basic/run.c     |  2 +-
 Basic/source.c  | 64 ++++++++++++++++++++++++++++++++-----------------
 System/lbasic.c | 14 ++++++++---
 3 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 292feea..b30fb11 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -252,7 +252,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..550b0a2 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -80,7 +80,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,19 +90,24 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
@@ -113,8 +117,10 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   const char* s = line;
   for (; isdigit(*s); s++)
     *num = *num * 10 + *s - '0';
-  if (s == line)
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -161,6 +167,25 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+static bool load_line(SOURCE* src, char* buf) {
+  size_t len = strlen(buf);
+  if (len > 0) {
+    if (buf[len-1] != '\n') {
+      source_error(src, "source line is too long\n");
+      return false;
+    }
+    len--;
+    buf[len] = '\0';
+  }
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    return false;
+  }
+  unsigned num;
+  const char* text = parse_line_number(src, buf, &num);
+  return text != NULL && append(src, num, text);
+}
+
 SOURCE* load_source_file(const char* name) {
   FILE* fp = fopen(name, "r");
   if (fp == NULL) {
@@ -170,21 +195,13 @@ SOURCE* load_source_file(const char* name) {
   SOURCE* src = new_source(name);
   char buf[256];
   while (fgets(buf, sizeof buf, fp)) {
-    size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
-      len--;
-      buf[len] = '\0';
+    if (!load_line(src, buf)) {
+      delete_source(src);
+      src = NULL;
+      break;
     }
-    if (len == 0)
-      source_error(src, "source line is empty");
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
   }
+  fclose(fp);
   return src;
 }
 
@@ -213,10 +230,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
+  if (len == 0) {
     source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
     source_error(src, "source line is too long");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -234,9 +255,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..c22731b 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -118,7 +118,9 @@ static void process_file(const Options* opt) {
 
   if (opt->mode == PARSE_MODE || opt->mode == CODE_MODE) {
     SOURCE* source = load_source_file(opt->file_name);
-    if (source) {
+    if (source == NULL)
+      exit(EXIT_FAILURE);
+    else {
       SYMTAB* st = new_symbol_table();
       init_builtins(st);
       BCODE* bcode = parse_source(source, st, opt->keywords_anywhere);
@@ -151,13 +153,17 @@ static void process_file(const Options* opt) {
       printf("Microseconds elapsed: %lld\n", elapsed_usec(&timer));
 #endif
   }
+  else
+    exit(EXIT_FAILURE);
 
   delete_vm(vm);
 }
 
 static void list_file(const char* file_name) {
   SOURCE* source = load_source_file(file_name);
-  if (source) {
+  if (source == NULL)
+    exit(EXIT_FAILURE);
+  else {
     for (unsigned i = 0; i < source_lines(source); i++)
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
     delete_source(source);
@@ -168,7 +174,9 @@ static void print_name(const char* name);
 
 static void list_names(const char* file_name, bool crunched) {
   SOURCE* source = load_source_file(file_name);
-  if (source) {
+  if (source == NULL)
+    exit(EXIT_FAILURE);
+  else {
     LEX* lex = new_lex(file_name, crunched);
     UNIQUE_STRINGS* names = new_unique_strings();
 
-- 
2.43.0


From f739f10f158149b9b2e321e1748559113ff9df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 17/41] fix: a program file whose last line has no newline
 could not be loaded

---
 Basic/source.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 550b0a2..1e87ab5 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -167,16 +167,16 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
-static bool load_line(SOURCE* src, char* buf) {
+static bool load_line(SOURCE* src, char* buf, FILE* fp) {
   size_t len = strlen(buf);
-  if (len > 0) {
-    if (buf[len-1] != '\n') {
-      source_error(src, "source line is too long\n");
-      return false;
-    }
+  if (len > 0 && buf[len-1] == '\n') {
     len--;
     buf[len] = '\0';
   }
+  else if (!feof(fp)) { // the last line need not end in a newline
+    source_error(src, "source line is too long\n");
+    return false;
+  }
   if (len == 0) {
     source_error(src, "source line is empty\n");
     return false;
@@ -195,7 +195,7 @@ SOURCE* load_source_file(const char* name) {
   SOURCE* src = new_source(name);
   char buf[256];
   while (fgets(buf, sizeof buf, fp)) {
-    if (!load_line(src, buf)) {
+    if (!load_line(src, buf, fp)) {
       delete_source(src);
       src = NULL;
       break;
-- 
2.43.0


From 37dea356c8d873467f1f88219864d24fce17c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 18/41] fix: line number 0 typed in terminated the interpreter
 or was inserted, and huge numbers wrapped

---
 Basic/source.c        | 11 +++++++++--
 Monitor/interactive.c |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 1e87ab5..51028c8 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -115,8 +116,14 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - digit) / 10) {
+      source_error(src, "line number is too large\n");
+      return NULL;
+    }
+    *num = *num * 10 + digit;
+  }
   if (s == line) {
     source_error(src, "line has no line number\n");
     return NULL;
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..ff22742 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <math.h>
 #include <assert.h>
@@ -142,7 +143,9 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
-  if (*p == '\0' || *p == '\n')
+  if (num == 0 || num == UINT_MAX)
+    error("Invalid line number");
+  else if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
     if (*p == ' ')
@@ -440,7 +443,8 @@ static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 0107e52aea13caac16da5f63817d56b50a5ab930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 19/41] fix: the last line of input without a newline was
 rejected as too long

---
 Monitor/interactive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index ff22742..354d8d7 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -113,6 +113,8 @@ static bool line_complete(char* cmd) {
     cmd[len-1] = '\0';
     return true;
   }
+  if (feof(stdin)) // the last line need not end in a newline
+    return true;
   error("Command line too long");
   int c;
   while ((c = getchar()) != EOF && c != '\n')
-- 
2.43.0


From f07ebd6dcb870c64c8e397ecd39595f3c3658b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 20/41] fix: RENUM could produce duplicate or unusable line
 numbers, or stop half way

---
 Monitor/interactive.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 354d8d7..3470d4d 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -341,20 +341,18 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -364,6 +362,13 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From de1f13809429ccad219494a7472d24ddf4bc6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 21/41] fix: the program was not recompiled after RENUM

---
 Basic/run.c           | 4 ++++
 Basic/run.h           | 1 +
 Monitor/interactive.c | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index b30fb11..af8bdbf 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -267,6 +267,10 @@ SOURCE* vm_stored_source(VM* vm) {
   return vm->stored_program.source;
 }
 
+void vm_source_changed(VM* vm) {
+  stored_program_changed(vm);
+}
+
 static void run(VM*);
 
 void run_program(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..3b32423 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*); // after editing the stored source directly
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 3470d4d..3651814 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -362,6 +362,8 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  vm_source_changed(vm);
+
   // update the line number of each source line
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned new_basic_line;
-- 
2.43.0


From 8dfd1a984cfab67e71ea2fbf690134d7566d9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:40 +0000
Subject: [PATCH 22/41] fix: RENUM missed line numbers in ON lists and after
 THEN GOTO, and changed DATA and REM text

---
 Monitor/interactive.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 3651814..3264fcf 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -374,10 +374,20 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
+    bool expect = false; // a line number may be next
     while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
-        tok = lex_next(lex);
-        if (tok == TOK_NUM) {
+      if (tok == TOK_REM)
+        break; // the rest of the line is not code
+      if (tok == TOK_DATA) { // items are not code
+        do
+          lex_next_data(lex);
+        while ((tok = lex_next(lex)) == ',');
+        continue;
+      }
+      if (takes_line_number(tok))
+        expect = true;
+      else if (tok != ',') { // ON ... GOTO a, b, c
+        if (tok == TOK_NUM && expect) {
           double x = lex_num(lex);
           if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
             unsigned basic_line = (unsigned) x;
@@ -397,6 +407,7 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
             }
           }
         }
+        expect = tok == TOK_NUM && expect;
       }
       tok = lex_next(lex);
     }
-- 
2.43.0


From e1e29fc361b9de75532ef770a701355ca6590698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 23/41] fix: IF ... THEN line-number did not go to the next
 program line when false

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 33c8ae6..64a1d7b 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -385,6 +385,8 @@ static bool if_statement(PARSER* parser) {
   if (lex_token(parser->lex) == TOK_NUM) {
     unsigned line = line_number(parser);
     emit_basic_line(parser->bcode, B_GOTRUE, line);
+    if (lex_token(parser->lex) != TOK_ELSE)
+      emit(parser->bcode, B_ELSE); // if condition false, go to next program line
     parser->if_then = 0;
     return false;
   }
-- 
2.43.0


From 36350cb003988a1557dddf1300c48199f0f194b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 24/41] fix: the message for an unterminated string in DATA
 printed memory beyond the string

---
 Basic/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 215ec3f..db1a579 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -351,6 +351,7 @@ const char* lex_next_data(LEX* lex) {
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
       return data_error(lex);
     }
-- 
2.43.0


From a9984fcfb3b6869acca6590ed922ea6a46cde8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:55 +0000
Subject: [PATCH 25/41] fix: a DIM statement that failed deleted the existing
 array

---
 Basic/run.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index af8bdbf..5b12351 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -531,12 +531,6 @@ static void execute(VM* vm) {
     case B_DIM_NUM: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
-      if (sym->val.numarr) {
-        assert(sym->defined);
-        delete_numeric_array(sym->val.numarr);
-        sym->val.numarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_numeric(vm, sym, i->u.param.params, max);
@@ -657,12 +651,6 @@ static void execute(VM* vm) {
     case B_DIM_STR: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
-      if (sym->val.strarr) {
-        assert(sym->defined);
-        delete_string_array(sym->val.strarr);
-        sym->val.strarr = NULL;
-        sym->defined = false;
-      }
       unsigned max[MAX_DIMENSIONS];
       pop_indexes(vm, max, i->u.param.params, sym->name);
       dimension_string(vm, sym, i->u.param.params, max);
@@ -1299,11 +1287,11 @@ static void set_numeric_simple(VM* vm, SYMBOL* sym, double val) {
 static void dimension_numeric(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_NUM);
 
-  sym->val.numarr = new_numeric_array(vm->array_base, ndim, max);
-  if (sym->val.numarr == NULL) {
-    sym->defined = false;
+  struct numeric_array * arr = new_numeric_array(vm->array_base, ndim, max);
+  if (arr == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_numeric_array(sym->val.numarr);
+  sym->val.numarr = arr;
   sym->defined = true;
 }
 
@@ -1386,11 +1374,11 @@ static void set_string_simple(VM* vm, SYMBOL* sym, char* val) {
 static void dimension_string(VM* vm, SYMBOL* sym, unsigned ndim, const unsigned max[]) {
   assert(sym != NULL && sym->kind == SYM_ARRAY && sym->type == TYPE_STR);
 
-  sym->val.strarr = new_string_array(vm->array_base, ndim, max);
-  if (sym->val.strarr == NULL) {
-    sym->defined = false;
+  struct string_array * arr = new_string_array(vm->array_base, ndim, max);
+  if (arr == NULL)
     run_error(vm, "invalid dimensions: %s\n", sym->name);
-  }
+  delete_string_array(sym->val.strarr);
+  sym->val.strarr = arr;
   sym->defined = true;
 }
 
-- 
2.43.0


From 13d55184934ef57d498f8aa1113168e4eb1a7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:58 +0000
Subject: [PATCH 26/41] fix: a GOSUB to a missing line left a return address
 behind

---
 Basic/run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 5b12351..3bb9bb9 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -725,6 +725,7 @@ static void execute(VM* vm) {
       }
       break;
     case B_GOSUB:
+      find_basic_line(vm, i->u.basic_line.lineno); // if not found, no GOSUB is in progress
       push_return(vm, vm->code_state.pc + 1);
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
@@ -842,9 +843,11 @@ static void execute(VM* vm) {
       unsigned k = vm->code_state.pc + (unsigned) x;
       if (k >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[k].op != B_ON_LINE)
         run_error(vm, "internal error: ON-LINE expected\n");
+      const unsigned lineno = vm->code_state.code->bcode->inst[k].u.basic_line.lineno;
+      find_basic_line(vm, lineno); // if not found, no GOSUB is in progress
       if (i->op == B_ON_GOSUB)
         push_return(vm, vm->code_state.pc + i->u.count + 1);
-      go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
+      go_to_basic_line(vm, lineno);
       return;
     }
     case B_IF_THEN: // IF ... THEN statements  -- skip to next line if condition false
-- 
2.43.0


From 535ea66124dbdf307ba6dbc2e0c223db7bd9e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 27/41] fix: a line with a syntax error could change what its
 names meant in later lines

---
 Basic/parse.c  |  4 ++++
 Basic/symbol.c | 26 ++++++++++++++++++++++++++
 Basic/symbol.h |  3 +++
 3 files changed, 33 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 64a1d7b..e584319 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -35,6 +35,8 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   parser.bcode = new_bcode();
   parser.st = st;
   parser.if_then = 0;
+  unsigned name_count = 0;
+  char* name_kinds = save_names(st, &name_count);
   if (setjmp(parser.errjmp) == 0) {
     for (unsigned i = 0; i < source_lines(source); i++)
       parse_line(&parser, i, source_linenum(source, i), source_text(source, i));
@@ -42,7 +44,9 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
   else {
     delete_bcode(parser.bcode);
     parser.bcode = NULL;
+    restore_names(st, name_kinds, name_count);
   }
+  efree(name_kinds);
   delete_lex(parser.lex);
   return parser.bcode;
 }
diff --git a/Basic/symbol.c b/Basic/symbol.c
index 5360e94..f80c70d 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -145,6 +145,32 @@ SYMBOL* sym_insert_builtin(SYMTAB* st, const char* name, int type, const char* a
   return sym;
 }
 
+// Record the names and their kinds, in case they must be restored by restore_names.
+// The caller releases the returned block.
+char* save_names(const SYMTAB* st, unsigned *count) {
+  *count = st->used;
+  char* kinds = emalloc(st->used + 1);
+  for (unsigned i = 0; i < st->used; i++)
+    kinds[i] = st->psym[i]->kind;
+  return kinds;
+}
+
+// Remove the names inserted since save_names, which have never had a value,
+// and give the others the kind they had.
+void restore_names(SYMTAB* st, const char* kinds, unsigned count) {
+  while (st->used > count) {
+    SYMBOL* sym = st->psym[--st->used];
+    unsigned h = hashpjw_upper(sym->name) % SYMBOL_HASH_SIZE;
+    assert(st->hash[h] == sym); // latest first
+    st->hash[h] = sym->next;
+    efree(sym->name);
+    efree(sym);
+  }
+  st->next_id = count;
+  for (unsigned i = 0; i < count; i++)
+    st->psym[i]->kind = kinds[i];
+}
+
 SYMBOL* symbol(SYMTAB* st, SYMID id) {
   assert(st != NULL);
   assert(id < st->used);
diff --git a/Basic/symbol.h b/Basic/symbol.h
index e1ef4f5..e9ff721 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -61,6 +61,9 @@ SYMBOL* sym_lookup(SYMTAB*, const char* name, bool paren);
 SYMBOL* sym_insert(SYMTAB*, const char* name, int kind, int type);
 SYMBOL* sym_insert_builtin(SYMTAB*, const char* name, int type, const char* args, int opcode);
 
+char* save_names(const SYMTAB*, unsigned *count);
+void restore_names(SYMTAB*, const char* kinds, unsigned count);
+
 SYMBOL* symbol(SYMTAB*, SYMID);
 const char* sym_name(const SYMTAB*, SYMID);
 
-- 
2.43.0


From 89c38ca54dd85309bcb492f0b38ea15e9c69f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:03 +0000
Subject: [PATCH 28/41] fix: a program with more than 65536 names aborted the
 interpreter

---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index e9ff721..21ef6fb 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0


From 3fa3becd0f8fdcdb848dac83d3a21daaac0ddb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 29/41] fix: --list-names listed words of DATA items as names

---
 System/lbasic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/System/lbasic.c b/System/lbasic.c
index c22731b..c23083d 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -184,6 +184,12 @@ static void list_names(const char* file_name, bool crunched) {
       lex_line(lex, source_linenum(source, i), source_text(source, i));
       int t = lex_token(lex);
       while (t != '\n' && t != TOK_REM) {
+        if (t == TOK_DATA) { // items are not code
+          do
+            lex_next_data(lex);
+          while ((t = lex_next(lex)) == ',');
+          continue;
+        }
         if (t == TOK_ID)
           insert_unique_string(names, lex_word(lex));
         t = lex_next(lex);
-- 
2.43.0


From 2ade318ade1f166262bfe6fd65e6ceb1b44d57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 30/41] fix: SAVE did not report that the file could not be
 written

---
 Basic/source.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 51028c8..4fc0a1d 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -220,8 +220,12 @@ bool save_source_file(const SOURCE* src, const char* name) {
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
-  return true;
+  bool failed = ferror(fp) != 0;
+  if (fclose(fp) != 0)
+    failed = true;
+  if (failed)
+    fprintf(stderr, "cannot write file: %s\n", name);
+  return !failed;
 }
 
 static unsigned line_length(const char* s) {
-- 
2.43.0


From 9ba96a3973832d19c49f1f792561dd45e3250ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:37 +0000
Subject: [PATCH 31/41] fix: a string exponent was accepted in the argument of
 RND

---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index e584319..e0c7f0a 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -819,7 +819,7 @@ static int power_expr(PARSER* parser) {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
     if (type2 != TYPE_NUM)
-      return TYPE_ERR;
+      parse_error_no_token(parser, "Invalid types for power operator");
     emit(parser->bcode, B_POW);
   }
 
-- 
2.43.0


From 8c2917018175ddfe5f3a358c95f825c9dd1e11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:25 +0000
Subject: [PATCH 32/41] fix: NOT NOT accepted a value that is not logical

---
 Basic/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index e0c7f0a..00eb4fd 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -687,8 +687,10 @@ static int NOT_expression(PARSER* parser) {
   if (not) {
     if (type != TYPE_NUM)
       parse_error_no_token(parser, "NOT requires a numeric value");
-    if (not % 2)
+    // a pair of NOTs cancels out but still requires a logical value
+    if (not % 2 == 0)
       emit(parser->bcode, B_NOT);
+    emit(parser->bcode, B_NOT);
   }
 
   return type;
-- 
2.43.0


From 4ee4b34ca34964cda8acf8686ba96bdf18765cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 33/41] fix: VAL, READ and INPUT accepted hexadecimal, infinity
 and NaN as numbers

---
 Basic/run.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 3bb9bb9..9c1724c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1442,6 +1442,10 @@ static char* convert(const char* s, double *val) {
     s++;
 
   if (isdigit(*s) || *s == '.' || *s == '-' || *s == '+') {
+    // strtod() also accepts hexadecimal, infinity and NaN, which are not Basic numbers
+    const char* digits = s + (*s == '-' || *s == '+');
+    if (isalpha(*digits) || *digits == '0' && tolower(digits[1]) == 'x')
+      return NULL;
     char* end = NULL;
     *val = strtod(s, &end);
     while (*end == ' ' || *end == '\t')
-- 
2.43.0


From 8dc9527afe07acb106e7a329842e4fd034f58dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:31 +0000
Subject: [PATCH 34/41] fix: a number constant could not have a plus sign in
 its exponent, as numbers are printed

---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index db1a579..caf09e6 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -256,7 +256,7 @@ static int next_token(LEX* lex) {
         !(lex->recognise_keyword_prefixes && keyword_prefix(lex->text + lex->pos - 1))) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
-      if ((c = lex_char(lex)) == '-') {
+      if ((c = lex_char(lex)) == '-' || c == '+') {
         if (!append(lex, &i, c, NUMBER))
           return lex->token = TOK_ERROR;
         c = lex_char(lex);
-- 
2.43.0


From 3283741824638d723dea13673ba640cc9fa94937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:24 +0000
Subject: [PATCH 35/41] fix: a program that failed or stopped during a break
 was continued as if it had not

---
 Basic/run.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 9c1724c..a06aa5c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -348,6 +348,7 @@ static void run(VM* vm) {
 
   const unsigned sp = vm->sp;
   const unsigned ssp = vm->ssp;
+  volatile bool failed = false;
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
@@ -363,16 +364,19 @@ static void run(VM* vm) {
     if (vm->sp > sp)
       vm->sp = sp;
     drop_strings(vm, ssp);
+    failed = true;
   }
   untrap_interrupt();
+  if (failed)
+    interrupted = false; // a break during the statement that failed: there is nothing to continue
 
-  if (interrupted)
-    puts("Break");
-  else if (vm->stopped) {
+  if (vm->stopped) {
     print_source_line(vm->code_state.code->source, vm->code_state.source_line, stdout);
     putchar('\n');
     puts("Stopped");
   }
+  else if (interrupted)
+    puts("Break");
   else {
     if (vm->strict_for && vm->for_sp != 0)
       report_for_in_progress(vm);
-- 
2.43.0


From 0854888665041ddf34303403677a4a21b782e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 36/41] fix: a function DEFined by an immediate statement made
 the program fail when RUN again

---
 Basic/run.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index a06aa5c..cf0b735 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -66,6 +66,8 @@ struct vm {
   CODE def_code; // does not own its bcode or source: points to DEF code temporarily
   CODE_STATE code_state;
   SYMTAB* st;
+  char* program_names; // kinds of the names in the stored program when it was compiled
+  unsigned program_name_count;
   double stack[MAX_NUM_STACK];
   char* strstack[MAX_STR_STACK];
   CODE_STATE retstack[MAX_RETURN_STACK];
@@ -133,6 +135,7 @@ void delete_vm(VM* vm) {
     clear_string_stack(vm);
     deinit_code(&vm->stored_program);
     deinit_code(&vm->immediate_code);
+    efree(vm->program_names);
     delete_symbol_table(vm->st);
     efree(vm);
   }
@@ -206,6 +209,8 @@ static bool ensure_program_compiled(VM* vm) {
     if (vm->stored_program.bcode == NULL)
       return false;
     vm->stored_program.index = bcode_index(vm->stored_program.bcode, vm->stored_program.source);
+    efree(vm->program_names);
+    vm->program_names = save_names(vm->st, &vm->program_name_count);
     reset_control_state(vm); // resets DATA pointer
   }
 
@@ -281,6 +286,8 @@ void run_program(VM* vm) {
 
   if (ensure_program_compiled(vm)) {
     reset_control_state(vm);
+    // forget what immediate statements made of names: values have been cleared
+    restore_names(vm->st, vm->program_names, vm->program_name_count);
     vm->code_state.code = &vm->stored_program;
     vm->code_state.source_line = 0;
     vm->code_state.pc = 0;
-- 
2.43.0


From 27c3d8301600938450da580436a31dab4bdf5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 37/41] fix: a byte of value 255 was taken for the end of the
 line instead of an invalid character

---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index caf09e6..3c74d4d 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -75,7 +75,7 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
 }
 
 static void validate(LEX* lex, int c) {
-  if (c != EOF && (c < 0 || c >= 127)) {
+  if (c < 0 || c >= 127) {
     if (!lex->invalid)
       lex_error(lex, "invalid character on line: value %d\n", c);
     lex->invalid = true; // the current token is an error
-- 
2.43.0


From 2d74c79ecf1d85282a65d137af00c44a9f977aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 38/41] fix: a run-time error was reported ahead of what the
 program had printed before it

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index cf0b735..c7b72d7 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -424,6 +424,7 @@ static void report_for_in_progress(VM* vm) {
 }
 
 static void run_error(VM* vm, const char* fmt, ...) {
+  fflush(stdout); // what was printed before comes first
   fputs("Runtime error: ", stderr);
   va_list ap;
   va_start(ap, fmt);
-- 
2.43.0


From 380e49d2d4f0c23e9151110444390fcb17cd2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 39/41] fix: CLS cleared the screen before what had been
 printed was on it

---
 Shared/os.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Shared/os.c b/Shared/os.c
index 5317b87..2e8a3da 100644
--- a/Shared/os.c
+++ b/Shared/os.c
@@ -16,6 +16,8 @@ void clear_screen(void) {
   NULL;
 #endif
 
+  fflush(stdout); // clear what was printed before
+
   if (CMD == NULL || system(CMD) != 0) {
     // fake a new screen
     puts("\n----------------------------------------------------------------\n");
-- 
2.43.0


From f34206d7b715203d7b0789c9628dd8ab7c2ec3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 40/41] fix: a file that cannot be read, such as a directory,
 was loaded as an empty program

---
 Basic/source.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Basic/source.c b/Basic/source.c
index 4fc0a1d..3905dbc 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -208,6 +208,11 @@ SOURCE* load_source_file(const char* name) {
       break;
     }
   }
+  if (src && ferror(fp)) {
+    fprintf(stderr, "Cannot read source file: %s\n", name);
+    delete_source(src);
+    src = NULL;
+  }
   fclose(fp);
   return src;
 }
-- 
2.43.0


From 25124854c1ea8892cbca8c7b554491382b7a7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 41/41] fix: a reply too long for the input buffer was split,
 and its rest read as the next reply or command

---
 Basic/run.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index c7b72d7..1086cd5 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -944,6 +944,14 @@ static void execute(VM* vm) {
           run_error(vm, "error reading input\n");
       run_error(vm, "end of input\n");
       }
+      if (strlen(vm->input) == sizeof vm->input - 1 && vm->input[sizeof vm->input - 2] != '\n') {
+        // do not leave the rest of the line to be read as other input
+        int c;
+        while ((c = getchar()) != EOF && c != '\n')
+          ;
+        puts("* Input line is too long *");
+        return; // ask again
+      }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0

