#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))
RUN="Basic/run.c"; PAR="Basic/parse.c"; LEX="Basic/lexer.c"; SYM="Basic/symbol.c"; SRC="Basic/source.c"; MON="Monitor/interactive.c"
OUT=["standard output of a program run", "standard error (run-time error and line)"]

prop("C01","Expressions evaluate by the documented precedence and arithmetic",
 "Every numeric or logical expression evaluates to the value given by IEEE double arithmetic, the mathematical built-in functions and the documented operator precedence and grouping (^, unary minus, * /, + -, comparisons, NOT, AND, OR; left-associative except ^), however parentheses, spacing and constant spellings vary. Comparisons yield -1 or 0, NOT/AND/OR act bitwise on integers, and an operand outside the documented domain (logical operator on a non-integer, LOG of a non-positive number) is a run-time error rather than a value.",
 ["inputs","programs"],"all well-typed numeric expressions within the evaluator's stack depth, over all operator and function combinations and operand values",
 "Tests evaluate a dozen fixed expressions; precedence, associativity and evaluation order interact combinatorially.",
 [PAR,RUN,"Basic/builtin.c"],[("recursive-descent expression grammar","Basic/parse.c OR_expression..primary_expression"),("stack operators","Basic/run.c execute B_ADD..B_NOT, builtins")],OUT)
prop("C02","String functions and comparisons obey their documented definitions",
 "LEFT$, RIGHT$, MID$, LEN, CHR$, ASC, concatenation and string comparison return exactly the documented substring, length, character, code or ordering for every string of 0 to 255 characters and every argument. Arguments outside the documented domain (character codes not an integer in 0..255, MID$ start outside the string, negative or fractional counts, a concatenation over 255 characters) produce a run-time error and never a wrong or truncated string.",
 ["inputs","programs"],"all strings up to the 255-character limit and all numeric arguments, including boundaries and results at the limit",
 "string.bas samples a few short strings; off-by-one and limit behaviour needs lengths and offsets across the range.",
 [RUN],[("string stack and string builtins","Basic/run.c B_CONCAT, B_LEFT, B_MID3, B_RIGHT, B_ASC, B_CHR, compare_strings")],OUT)
prop("C03","Numbers convert the same way wherever text meets number",
 "The same numeral text denotes the same number whether it is a constant in the source, a DATA item that is READ, a reply to INPUT, or an argument of VAL; and PRINT and STR$ show a number with the same digits (six significant), STR$ without surrounding spaces. Converting STR$ of a number back with VAL and again with STR$ gives the same text, and text that is not exactly one number is rejected everywhere (syntax error, run-time error, or a repeated INPUT) instead of being partly used.",
 ["inputs","programs"],"all decimal numerals (signs, fractions, exponents, surrounding blanks), all finite doubles, and malformed variants",
 "Only a handful of numerals appear in the tests, each through one route.",
 [LEX,RUN],[("number lexing","Basic/lexer.c lex_next"),("convert()","Basic/run.c convert, B_VAL, B_STR, B_READ_NUM, B_INPUT_NUM, B_PRINT_NUM")],OUT)
prop("C04","IF selects exactly the documented part of the line",
 "For every IF, a non-zero condition performs the THEN part (or goes to its line) and never the ELSE part; a zero condition performs only the ELSE part, or, without ELSE, performs nothing more of that line. This holds for THEN/ELSE followed by a line number or by any number of statements, for chains such as ELSE IF and for IF nested in THEN, with ELSE belonging to the nearest IF.",
 ["programs","inputs"],"all IF line structures: chained, nested, with other statements before, inside and after, and all condition values",
 "if.bas and else.bas exercise fixed shapes with fixed truth values.",
 [PAR,RUN],[("if_then patching","Basic/parse.c if_statement, else_clause"),("skip to ELSE / next line","Basic/run.c B_GOTRUE, B_IF_THEN, B_IF_ELSE, B_ELSE")],OUT)
prop("C05","FOR and NEXT iterate exactly as documented",
 "A FOR loop runs its body at least once, gives its variable the start value and then start plus successive steps (up or down) while the limit is not passed, and leaves the loop at the statement after NEXT; NEXT without a variable continues the most recently started loop, NEXT with variables continues those loops in order. Starting a loop on a variable that already controls a loop replaces it and makes it innermost, loops may be left and re-entered by GOTO, eight loops can be active at once, and NEXT without a matching loop or a ninth loop is a run-time error.",
 ["programs","inputs","histories"],"all combinations of start/limit/step, nesting and interleaving of up to eight loops, loops abandoned, restarted, or continued out of order",
 "for*.bas cover three fixed nestings; the loop stack's behaviour depends on the whole history of FOR and NEXT.",
 [RUN],[("FOR stack","Basic/run.c B_FOR, B_NEXT_VAR, B_NEXT_IMP, next, find_for")],OUT,[("for_stack","active loops: variable, limit, step, position","Basic/run.c struct vm")])
prop("C06","GOTO, GOSUB, RETURN and ON transfer control to the right place",
 "GOTO, GOSUB and ON...GOTO/GOSUB go to the program line with exactly that number in programs of any size and numbering, and RETURN resumes at the statement after the matching GOSUB, including in the middle of a line and through eight nested calls. ON with an integer outside the list falls through to the next statement; a missing line, a non-integer ON value, RETURN without GOSUB and a ninth nested GOSUB are run-time errors at the statement responsible.",
 ["programs","inputs","histories"],"all line numberings (1..65535), program sizes, call nestings and ON values",
 "The tests use small programs with round line numbers; line lookup is hashed and the return stack is bounded.",
 [RUN,"Basic/linemap.c","Basic/bcode.c"],[("line map","Basic/linemap.c, Basic/bcode.c bcode_index"),("return stack","Basic/run.c push_return, pop_return, B_ON_GOTO")],OUT)
prop("C07","Arrays keep every element separately within documented bounds",
 "An array behaves as a map from subscripts to the last value stored there, zero or empty initially, for one or two dimensions with subscripts from 0 to the declared maximum; DIM of an existing array clears it, and an undeclared array is dimensioned per dimension to the larger of 10 and the first subscript used. A subscript that is negative, fractional, above the maximum or of the wrong count, or a size over 65536 elements, is a run-time error and never touches another element or variable.",
 ["programs","inputs","histories"],"all sequences of DIM, element store, load, READ and INPUT over several numeric and string arrays with all subscripts",
 "dim.bas touches a few elements; aliasing of elements shows only for particular shapes and subscripts.",
 ["Basic/arrays.c",RUN],[("offset computation and size check","Basic/arrays.c compute_element_offset, compute_total_elements"),("auto-dimension","Basic/run.c dimension_*_auto")],OUT)
prop("C08","Every name denotes its own variable, whatever other names exist",
 "Names are case-insensitive and of any length up to the word limit, and a simple variable, an array, their string ($) counterparts and a DEF function are distinct things: assigning one never changes another, in programs with any number of names. A variable not yet assigned is zero or empty, and RUN and CLEAR return every variable, array and function to that initial, undefined state.",
 ["programs","histories","inputs"],"all sets of names (similar, long, colliding, numerous) and all sequences of assignments and CLEAR",
 "Tests use a few short names; collisions in a hashed symbol table need many or adversarial names.",
 [SYM,"Shared/hash.c",RUN],[("symbol table hash chains","Basic/symbol.c sym_lookup, sym_insert, clear_symbol_table_values")],OUT)
prop("C09","READ takes DATA items in program order, and RESTORE repositions",
 "Successive READs deliver the DATA items of the program in line order and item order exactly as written - quoted items verbatim, unquoted items without surrounding blanks - regardless of where DATA statements stand or whether they are executed. RESTORE returns to the first item, RESTORE n to the first item on or after line n; reading past the end, or non-numeric text into a numeric variable, is a run-time error.",
 ["programs","inputs","histories"],"all layouts of DATA over the program, item spellings, and interleavings of READ and RESTORE with control flow",
 "data.bas and restore.bas check one layout each.",
 [RUN,LEX,PAR],[("DATA pointer","Basic/run.c find_data, B_RESTORE, B_RESTORE_LINE"),("lex_next_data","Basic/lexer.c")],OUT)
prop("C10","INPUT assigns exactly what was typed, or asks again",
 "INPUT prints its prompt and a question mark, splits the typed line at commas and assigns the items to its variables or elements in order; LINE INPUT assigns the whole line verbatim. Too few items, an invalid number or a line too long to be held is reported and the INPUT repeated until it succeeds, surplus items are reported and discarded, and end of input ends the program with a run-time error.",
 ["inputs","programs","histories"],"all INPUT and LINE INPUT item lists and all reply lines, valid and invalid, including repeated failures and end of input",
 "Tests run with no standard input, so INPUT is not tested at all.",
 [RUN,PAR],[("input buffer protocol","Basic/run.c B_INPUT_BUF, B_INPUT_NUM, B_INPUT_STR, B_INPUT_SEP, B_INPUT_END, B_INPUT_LINE")],OUT)
prop("C11","PRINT lays output out in the documented columns",
 "PRINT writes its items in order, numbers with one space before and after and strings verbatim; a comma advances at least one column to the start of the next 8-column field, TAB(n) continues at column n (on a new line if already past it), SPC(n) writes n spaces, a semicolon adds nothing, and a line ends unless the list ends in a comma or semicolon. Columns are counted over everything printed since the last newline, across statements.",
 ["programs","inputs"],"all print lists and all starting columns",
 "Expected-output files contain few comma or TAB positions.",
 [RUN,PAR],[("column counter","Basic/run.c B_PRINT_*"),("separator handling","Basic/parse.c print_statement")],OUT)
prop("C12","DEF functions compute their expression without disturbing variables",
 "A call of a DEF function returns the value of its defining expression with the parameter bound to the argument and every other variable at its current value, and afterwards the variable named like the parameter is exactly as before, even when the call ends in a run-time error. Redefinition replaces the function, and calling an undefined function, nesting calls, or passing other than one argument is a run-time error.",
 ["programs","inputs","histories"],"all function bodies, parameters sharing names with program variables, redefinitions, and call positions in expressions and statements",
 "def*.bas define five functions; parameter restoration depends on variable state and error history.",
 [RUN,PAR,"Basic/def.c","Basic/bcode.c"],[("call_def / end_def","Basic/run.c"),("copy of the definition","Basic/bcode.c bcode_copy_def")],OUT)
prop("C13","No program file can crash, corrupt or hang the interpreter",
 "Whatever bytes a program file and its input contain, running, parsing, listing or listing names of it never crashes, aborts, reads or writes outside its memory, or loops without executing the program. It either runs or ends with a reported error.",
 ["inputs","programs"],"all byte strings as program file and standard input, under all run modes",
 "Tests feed only well-formed programs.",
 [LEX,PAR,RUN,SRC,"Basic/arrays.c","System/lbasic.c"],[("bounded buffers, stack limits, run_error","Basic/lexer.c append, Basic/run.c push/push_str/pop_unsigned")],["exit status and signal","sanitizer reports"])
prop("C14","No input line can crash or end an interactive session",
 "In the interactive monitor every typed line - command, program line, statement or garbage, after any history - returns to the prompt, and only BYE or end of input ends the session, with success. The session never crashes or touches memory outside its own, and never loses the stored program because of an error.",
 ["inputs","histories"],"all sequences of input lines, including malformed commands, over-long lines, non-ASCII bytes, failing LOAD and SAVE, and errors at any point",
 "There are no tests of the interactive monitor at all.",
 [MON,RUN,SRC,LEX],[("command loop","Monitor/interactive.c interact, get_line, interpret"),("error recovery by longjmp","Basic/run.c run, run_error")],["prompts on standard output","exit status and signal","sanitizer reports"])
prop("C15","The stored program is what was typed, in line order",
 "Typing numbered lines maintains a program ordered by line number in which a new line is inserted, a retyped line replaces the old text, and a number alone deletes that line; NEW empties it. LIST shows exactly the stored lines with their text unchanged, and LIST with a start, an end or both shows exactly the lines in that inclusive range, and with P the same lines, waiting for ENTER after each page (after 23 lines, then after every 24, while program lines remain) without taking what is typed there as a command. A typed line too long for the monitor is reported and changes nothing.",
 ["histories","inputs"],"all sequences of line entry, replacement, deletion, NEW and LIST with all range forms",
 "Unit tests insert three lines; there is no test through the monitor.",
 [SRC,MON],[("ordered line table","Basic/source.c enter_source_line, spread, delete_source_line"),("LIST ranges","Monitor/interactive.c get_list_numbers, list")],["LIST output"])
prop("C16","SAVE then LOAD gives back the same program",
 "Saving a program and loading the file, in the same session or another, gives a program with the same line numbers and text, which behaves the same; a loaded file replaces the whole previous program. A file that is missing, or whose lines are unnumbered, empty, too long or not in increasing order, is reported and leaves the program in memory unchanged, and a SAVE that cannot be written is reported.",
 ["histories","inputs","programs"],"all programs with lines within the 254-character file limit, all malformed files, all interleavings of SAVE, LOAD and editing",
 "No test saves a program, and none loads one interactively.",
 [SRC,RUN,MON],[("save_source_file, load_source_file","Basic/source.c"),("vm_load_source","Basic/run.c")],["saved file contents","LIST output","program output"])
prop("C17","RENUM changes line numbers and references but not behaviour",
 "RENUM gives the chosen lines new increasing numbers and changes every reference to them (GOTO, GOSUB, THEN, ELSE, every target of ON, RESTORE) and nothing else, so that the program prints the same as before with its line numbers mapped. References to lines that do not exist, strings, REM and DATA text stay as they are, and a renumbering that would break the line order is refused leaving the program unchanged.",
 ["programs","inputs","histories"],"all programs, reference forms and RENUM arguments (new, old, increment)",
 "RENUM is not tested.",
 [MON,SRC,"Basic/linemap.c"],[("renumber","Monitor/interactive.c renumber"),("source_replace","Basic/source.c")],["LIST output","program output before and after"])
prop("C18","A stopped program continues with CONT as if never stopped",
 "After STOP or a break at any moment, CONT resumes so that the complete output and final variables equal those of an uninterrupted run, whatever immediate statements that only inspect values are executed in between. CONT is refused after the program has been edited, has ended, or failed with an error, and STOP reports the line on which it occurred.",
 ["programs","schedules","histories"],"all programs, all break points (each instant of execution) and STOP positions, all inspecting commands in between",
 "stop.bas checks only that STOP prints its line; interruption at arbitrary points cannot be unit-tested.",
 [RUN,"Shared/interrupt.c",MON],[("stopped_program","Basic/run.c run, vm_continue"),("SIGINT flag","Shared/interrupt.c")],["standard output of the session"],[("stopped_program","where CONT resumes","Basic/run.c struct vm")])
prop("C19","Errors leave an interactive session healthy and its state intact",
 "After any run-time or syntax error, from a program or an immediate statement and any number of times, the variables, arrays, functions and stored program keep the values they had (apart from effects completed before the failure, and the DATA item a failed READ has taken), and every later statement behaves exactly as in a session in which the failing statement never occurred.",
 ["histories","inputs"],"all sequences of valid statements interleaved with failing statements of every error kind",
 "Each regression test stops at its first error.",
 [RUN,PAR],[("setjmp/longjmp recovery","Basic/run.c run, run_error"),("parse error recovery","Basic/parse.c parse_source")],["standard output of the session"])
prop("C20","Program and immediate statements share one environment as documented",
 "An immediate statement acts exactly like the same statement in a program: it sees and sets the same variables, arrays and DEF functions, can GOTO or GOSUB into the program, and can continue its FOR loops with NEXT. RUN starts from cleared definitions, editing the program recompiles it and clears loops and calls at the next statement, and loops or calls that refer to an immediate line do not outlive it.",
 ["histories","programs"],"all sequences of immediate statements, program edits, RUN, GOTO/GOSUB into the program, and NEXT",
 "No interactive tests exist.",
 [RUN,MON],[("run_immediate, immediate_state, ensure_program_compiled, reset_control_state","Basic/run.c")],["standard output of the session"])
prop("C21","Crunched keywords mean the same as spaced ones",
 "With keywords recognised anywhere, a program whose blanks around keywords are removed, in whole or in part, behaves identically to the spaced program, provided no name contains a keyword. String constants, DATA items and REM text are unaffected.",
 ["programs","configurations"],"all programs whose names contain no keyword, and all ways of removing blanks",
 "crunch.bas is one program.",
 [LEX,"Basic/token.c"],[("keyword_prefix lexing","Basic/lexer.c lex_next, Basic/token.c keyword_prefix")],OUT)
prop("C22","Layout and letter case of a program do not matter",
 "Changing the letter case of keywords and names, the amount of blank space between tokens, ? for PRINT, optional LET, redundant parentheses, REM lines, or splitting a line at a colon (outside IF) never changes what a program does. Text inside string constants and DATA items is preserved exactly, including case and spaces.",
 ["programs","configurations"],"all programs and all such rewritings",
 "Tests contain one spelling of each program.",
 [LEX,PAR,"Basic/token.c",SYM],[("case-insensitive keyword and symbol lookup","Basic/token.c identifier_token, Basic/symbol.c sym_lookup")],OUT)
prop("C23","Syntax errors are all found before anything runs",
 "If any line of a program violates the grammar or typing rules, running it prints no program output, executes nothing, and reports the first offending line with its text; otherwise no syntax error is reported. The --parse option, COMPILE, RUN and an immediate statement agree on which programs or lines are valid.",
 ["programs","inputs","configurations"],"all programs obtained from valid ones by inserting, deleting or replacing tokens, and all valid programs",
 "Tests contain four erroneous programs.",
 [PAR,LEX,RUN,"System/lbasic.c"],[("parse_source before run","Basic/run.c ensure_program_compiled, Basic/parse.c")],["standard output and error","exit status of --parse"])
prop("C24","A run-time error stops at its statement and names its line",
 "When a statement fails, all output (ahead of the report) and effects of the statements before it have happened and none after it do, and the message is followed by the number and text of the program line containing the failing statement (the DEF line for an error inside a function). Documented error conditions never pass silently.",
 ["programs","inputs"],"all programs with one failing statement of any kind at any position in control flow (subroutine, loop, IF part, DEF body)",
 "Six .err files cover one error each, at top level.",
 [RUN],[("source line tracking and run_error","Basic/run.c B_SOURCE_LINE, run_error, go_to_basic_line, pop_return")],OUT)
prop("C25","Diagnostic options do not change what a program does",
 "Running with any combination of the trace, memory-report and quiet options leaves the program's own output, errors and results unchanged apart from the added diagnostics, and --trace-basic lists exactly the lines executed, in order. After a program ends normally, the number of memory blocks released equals the number allocated.",
 ["programs","configurations"],"all programs and option combinations",
 "Options are never given in the tests.",
 [RUN,"System/options.c","System/lbasic.c","Shared/utils.c"],[("trace flags","Basic/run.c B_SOURCE_LINE, dump_for, print_stack"),("allocation counters","Shared/utils.c")],["standard output and error under options"])
prop("C26","RND is uniform-range, repeatable and seedable",
 "Every value of RND lies in 0 <= x < 1, the sequence is the same each time the interpreter is started, RANDOMIZE n makes the sequence that follows depend only on n, and different positive seeds give different sequences; RANDOMIZE alone and --randomize seed from the time of day. Other statements do not consume or disturb the sequence.",
 ["programs","histories","inputs"],"all seeds and all interleavings of RND, RANDOMIZE and other statements",
 "rand.bas checks one seed.",
 [RUN],[("rand/srand","Basic/run.c B_RND, B_SEED, B_RAND")],OUT)
prop("C27","All ways of running a program agree",
 "A program behaves identically when run from the command line, loaded with LOAD and RUN, typed in line by line in any order and RUN, or RUN again in the same session: same output, same errors. Each RUN starts with empty variables, no active loops or calls and the first DATA item, whatever happened before.",
 ["programs","histories","configurations"],"all programs, entry orders and preceding session histories",
 "Tests only run files from the command line, once.",
 [RUN,MON,SRC,"System/lbasic.c"],[("run_program, reset_control_state","Basic/run.c"),("CMD_RUN","Monitor/interactive.c")],["standard output and error"])
prop("C28","Listing options show the program and its names faithfully",
 "--list prints every line of the file with its number and unchanged text, and --list-names prints each distinct name used in code once, ignoring case, sorted, flagging built-in functions with * and printing operators with =. Keywords and the contents of strings, DATA and REM are not listed as names.",
 ["programs","inputs"],"all programs and sets of names",
 "The listing options are not tested end to end.",
 ["System/lbasic.c","Shared/stringuniq.c",SRC,LEX],[("list_file, list_names","System/lbasic.c"),("unique string tree","Shared/stringuniq.c")],["output of --list and --list-names"])
prop("C29","Only what is addressed to the operating system reaches it",
 "A line typed with an asterisk in front is passed to the operating system's command interpreter once, with exactly the text that follows the asterisk (without leading blanks), and changes nothing in the session; CLS clears the screen after everything printed before it. Nothing else that is typed, stored, run, replied to INPUT, pressed at a page end or printed reaches the operating system, whatever asterisks it contains.",
 ["inputs","histories","programs"],"all command texts and all sessions that mix such lines with statements, programs, INPUT replies and listings",
 "No test can run operating system commands, and none uses the monitor.",
 [MON,"Shared/os.c",RUN],[("oscli","Monitor/interactive.c oscli, interpret"),("clear_screen","Shared/os.c, Basic/run.c B_CLS")],["arguments of system(), with the amount of standard output written before","standard output and error"])
prop("C30","The command line does what it says in any spelling and order",
 "Each option has the same effect in its short and its long form, wherever it stands relative to other options and the file name, and however often it is given; of several modes the last counts. An unknown option, a second file name, or a mode without a file is refused with a message and a failing exit status and nothing is run; help lists every option and, like version, runs nothing. With --parse, --code, --list and --list-names the program is not executed, and the exit status is failing when the file cannot be loaded or, with --parse and --code, has a syntax error, and success otherwise.",
 ["configurations","inputs","programs"],"all sequences of options, valid and invalid, and all kinds of file: valid, erroneous, missing, malformed, unreadable",
 "The tests run the interpreter with one fixed command line.",
 ["System/options.c","System/lbasic.c",SRC],[("parse_options","System/options.c"),("main, process_file","System/lbasic.c")],["exit status","standard output and error"])
prop("C31","Running out of memory is reported, not survived wrongly",
 "When a request for memory is refused at any point of loading, parsing, listing, running or editing, the interpreter reports that it is out of memory and ends with a failing exit status. It never crashes or touches memory it does not own, never goes on with a result that lacks the memory, and what it has printed up to then is exactly what it would have printed.",
 ["fault_sequences","programs","histories"],"all programs and sessions, and every request for memory in them, failing once or from then on",
 "Tests never refuse memory.",
 ["Shared/utils.c","Basic/bcode.c",SRC,SYM],[("emalloc, erealloc, ecalloc, estrdup","Shared/utils.c")],["exit status and signal","standard error","sanitizer reports"])
prop("C32","Whole programs compute the right answers",
 "A complete BASIC program (sorting, searching, text processing, number theory, matrices, simulations, interactive games) prints the results its algorithm has by definition, for all its data and replies, however it is named, numbered, laid out and run; the example programs in EXAMPLES run as the reference interpreter says for every dialogue.",
 ["programs","inputs","configurations"],"all data and replies of a set of program templates, all renamings, numberings, layouts and ways of running them; all dialogues with the example programs",
 "Tests are fixed programs of one feature each, with one input each.",
 [RUN,PAR,LEX,SYM,MON],[("the whole interpreter","Basic/run.c run, Basic/parse.c, Monitor/interactive.c")],["standard output, by the words printed"])
prop("C33","A break leaves the session at one instant of the execution",
 "A break during a program, an immediate statement or a listing takes effect between two operations: what has been printed is exactly what the execution prints up to some instant, the variables, DATA position, loops and calls are those of the same instant, Break is printed once (nothing for a listing), the stored program is unchanged, and the session goes on as usual; CONT resumes a program, and only a program, from that instant. A program file run from the command line ends there, successfully.",
 ["schedules","programs","histories"],"all programs, immediate statements and listings, all instants in them and all sessions before and after",
 "Tests never send a signal and never use the monitor.",
 [RUN,MON,"Shared/interrupt.c"],[("interrupted","Basic/run.c run"),("cmd_list","Monitor/interactive.c"),("trap_interrupt","Shared/interrupt.c")],["standard output and error","exit status"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
