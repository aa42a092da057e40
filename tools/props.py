p("L01", "Expressions evaluate to the value the language defines",
  "Every expression is either rejected at compile time or evaluates to exactly the value, type and error that the language's precedence, associativity, typing and promotion rules define. The outcome does not depend on spacing, on redundant parentheses, or on whether operands are literals, variables or constants.",
  ["programs", "inputs"], "all token sequences up to a bound over operands of every type, all operators and parentheses; all operators over boundary operands",
  "The tests fix a few hundred hand-picked expressions; precedence, promotion and error rules are claims about every combination of operators, operand kinds and boundary values.",
  ["core/src/parser.rs", "core/src/compiler/exprs.rs", "core/src/vm/context.rs", "core/src/ast.rs"],
  [("expression parser", "core/src/parser.rs"), ("expression compiler with type promotion", "core/src/compiler/exprs.rs"), ("arithmetic with overflow checks", "core/src/vm/context.rs")],
  technique="exhaustive enumeration of token sequences and operator/operand combinations compiled and run by the real interpreter against a reference evaluator",
  note="All token sequences of up to 4/5 (quick/thorough) over all tokens, 5/7 over the core ones and 7/9 over parentheses, signs and operands, all operators over boundary operands in literal, variable and constant form.")
p("L02", "Control flow follows the program's structure",
  "A program made of conditionals, multi-way selections, counted and conditional loops, loop exits, gotos and subroutine calls executes exactly the statements, in the order, that the language defines, for every nesting of these constructs. Loops run the prescribed number of times, selections take exactly one branch, and subroutines return to the statement after the call. Leaving a callable from any depth of its own loops and subroutine calls returns to its caller. Conditions, loop ranges, exit codes and guards whose types do not fit, and loop variables that cannot be counted with, are rejected before anything runs.",
  ["programs"], "all programs up to a size bound built from every control-flow statement, including all nestings, with and without single-line forms",
  "Nesting of control structures, jumps out of them and their interaction is unbounded; tests cover one program per construct.",
  ["core/src/parser.rs", "core/src/compiler/top.rs"],
  [("statement compilation and jump fixups", "core/src/compiler/top.rs"), ("block parsing", "core/src/parser.rs")], technique="exhaustive enumeration of programs, each explored over all outcomes of its conditions on the real interpreter, against a structural reference interpreter",
  note="All spines of nested constructs up to depth 3, all pairs, all layouts, all FOR ranges and SELECT cases of numbers, texts and Booleans from boundary sets; values of all types in all places that take one; every outcome sequence of up to 6/7 conditions per program.")
p("L03", "Calls isolate scopes and never disturb the caller",
  "Calling a user-defined function or subroutine from any place where a call is allowed binds arguments by value in order, returns the result assigned to the function's name, and changes nothing of the caller but the shared variables the callee assigns. Local variables of different callables and of the main program never alias, recursion included, and a function that assigns no result returns the default value of its type. Evaluating a statement never changes a variable that it does not assign.",
  ["programs"], "all small programs with user-defined callables placed in every call position, over argument kinds, local variables and recursion depths",
  "Register allocation errors appear only for particular combinations of call positions and live locals.",
  ["core/src/compiler/exprs.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/compiler/top.rs"],
  [("register and frame allocation", "core/src/compiler/codegen.rs"), ("symbol scoping", "core/src/compiler/syms.rs")], technique="exhaustive enumeration of programs with calls in every position run on the real interpreter against an environment-per-activation reference interpreter",
  note="All typed expressions up to 4/5 nodes over locals, shared variables, arrays and eight functions in every position; all small straight-line callables over the same names; recursion; all bodies of up to 3/4 statements that define variables in loops, branches and skipped code.")
p("L04", "Error handling transfers control exactly as configured",
  "When a statement fails at run time with an error handler configured, control continues exactly where the handler says: at the target line or label in the main program's frame, or at the statement after the one that failed; with no handler the program stops with a message naming the position of the failing statement. The reported error message is available until the next error, and no error handler can be entered with the state of a callee.",
  ["programs"], "all programs up to a bound that fail at any statement position, nesting and callable depth, under every sequence of handler configurations",
  "Where an error strikes (which statement, which nesting, which call depth) times which handler is active is a product tests only sample.",
  ["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs"],
  [("exception handling", "core/src/vm/mod.rs")], technique="exhaustive enumeration of programs that fail at every position under every handler sequence on the real interpreter against a reference interpreter",
  note="All main programs of up to 3/4 statements from an alphabet of failing and handler statements, all callable bodies likewise, all nesting shapes around the failure.")
p("L05", "Arrays behave as maps from in-range subscripts to values",
  "An array of any rank and shape keeps, for every subscript tuple within its bounds, the last value stored there (the type's default before any store), and rejects every other subscript with an error that changes nothing. Distinct elements and distinct arrays never alias, and the reported lower and upper bounds are those of its declaration; asking for the bounds of a dimension that it does not have, or without saying which when it has several, is an error. An array whose declaration has not been executed has no elements and no bounds: any use is an error.",
  ["histories", "inputs"], "all declarations over small shapes including invalid and huge ones, all store/load histories up to a bound, all subscripts around the bounds",
  "Index arithmetic is a claim about all shapes and subscripts.",
  ["core/src/vm/context.rs", "core/src/mem.rs", "core/src/compiler/exprs.rs", "std/src/arrays.rs"],
  [("array indexing", "core/src/vm/context.rs")], technique="exhaustive enumeration of array shapes, subscripts and store/load histories on the real interpreter against one map per array",
  note="All shapes of rank up to 3/4, all histories of up to 4/5 accesses over three arrays, all declarations over 17 dimension values, all misuses.")
p("L06", "READ consumes the program's DATA in textual order",
  "The values delivered by successive reads are exactly the program's data literals in textual order, regardless of where the data statements are nested or whether they are executed, converted to the type of each target; restoring restarts at the first one. Reading past the end or into an incompatible variable is an error that assigns nothing for the offending item nor for those after it, and the next read continues after the items delivered or refused so far. Reads into what is not a scalar variable, and data that are not literals, are rejected before running.",
  ["programs", "histories"], "all interleavings up to a bound of DATA, READ, RESTORE over value kinds, target types and placements",
  "The data pointer is state that persists across statements, errors and chunks.",
  ["core/src/compiler/top.rs", "std/src/data.rs"],
  [("data collection", "core/src/compiler/top.rs"), ("read pointer", "std/src/data.rs")], technique="exhaustive enumeration of DATA, READ and RESTORE programs, placements and piece histories on the real machine against a list and an index",
  note="All programs of up to 3/4 items and 3/4 statements, all subsets of 12 DATA placements times three readers, all sequences of up to 4/6 pieces.")
p("L07", "No program text crashes the interpreter",
  "Any text, however malformed, is either rejected with an error that points inside the text or becomes a program; running such a program ends by completing, by a reported error with a position inside the text, or by an orderly stop. The interpreter itself never panics, hangs while compiling, or runs out of native stack.",
  ["inputs", "programs"], "all token sequences up to a bound over the whole token alphabet, all short character sequences, all one- and two-token edits of seed programs, nesting depths",
  "Robustness is about texts nobody wrote down.",
  ["core/src/lexer.rs", "core/src/parser.rs", "core/src/compiler", "core/src/vm"],
  [("lexer, parser and compiler error reporting", "core/src")], technique="exhaustive enumeration of token sequences, character sequences, edits of seed programs and nesting families, each compiled and run on the real machine under a crash and hang monitor",
  note="All sequences of up to 3/4 tokens of 86 and 5/6 of 18, all character strings up to 4/5, all one-token (thorough: two-token) edits of seed programs, nesting families up to tens of thousands of levels.")
p("L08", "Submitting a program in pieces equals submitting it whole",
  "Entering a program piece by piece, as an interactive session does, produces the same outputs, variables and errors as running it in one go, for any split at statement boundaries. A piece that is rejected at compile time leaves variables, callables, data and handlers as they were, and after a piece that fails or is interrupted the session still accepts and correctly runs further input.",
  ["histories", "programs"], "all splits of a family of programs, all sequences up to a bound of good, rejected, failing, ending and stopping pieces",
  "State carried between pieces depends on the history of pieces.",
  ["core/src/compiler/mod.rs", "core/src/vm/mod.rs", "core/src/image.rs", "std/src/lib.rs"],
  [("incremental compilation", "core/src/compiler/mod.rs"), ("parking of the machine between pieces", "core/src/vm/mod.rs")], technique="exhaustive enumeration of programs with all their splits into pieces, compared with the unsplit run, and of histories of pieces against a model of the session, on the real machine",
  note="All splits of all programs of up to 3/4 units over 27 declarations and over 30 actions; all histories of up to 3/4 pieces over 24 kinds and up to 4/5 over 12.")
p("L09", "Interrupts stop a program promptly and leave the session usable",
  "An interrupt delivered at any moment of a program's execution stops the program no later than the end of the loop iteration, the call or the blocking command under way, even if errors are being handled or resumed, reports the interruption, leaves variables with the values of the statements executed so far, and leaves the session able to run more code. Execution that yields to the host at any point resumes with results identical to an uninterrupted run.",
  ["schedules", "fault_sequences"], "an interrupt at every yield point and every blocking call of a family of programs; every pattern of pending/ready responses of asynchronous operations up to a bound",
  "Tests deliver one interrupt at one point.",
  ["core/src/vm/mod.rs", "core/src/compiler/top.rs", "std/src/lib.rs", "std/src/exec.rs"],
  [("yield points and signal draining", "std/src/lib.rs")], technique="exhaustive enumeration of interrupt points (every output and every yield of every nest of loops, every moment of every blocking command) and of pending-poll schedules of asynchronous operations on the real machine",
  note="All nests of up to 2/3 loops over 15 kinds in 3 contexts with an interrupt at every output and every yield; all blocking commands in 8 contexts; all sequences of up to 5/7 keys at INPUT; all programs of up to 3/4 asynchronous operations with all pending patterns, abandoned at every poll.")
p("L10", "Resource limits surface as errors, never as corruption",
  "Exhausting the call stack, the heap entries, the registers or any encoding limit of a program is reported as an error: at run time at the statement responsible, which then has no effect on variables, and at compile time before anything runs. A program within the limits behaves identically whatever the limits are, every limit is usable to the full, and the session stays usable after a limit was hit.",
  ["programs", "configurations"], "families of programs growing in each resource, run under every small limit value and across every encoding boundary",
  "The limits are 2^8, 2^16 and 2^24 boundaries and configuration values that unit tests do not straddle systematically.",
  ["core/src/bytecode.rs", "core/src/compiler/codegen.rs", "core/src/vm/mod.rs", "core/src/mem.rs"],
  [("limit checks", "core/src/vm/mod.rs")],
  technique="exhaustive enumeration of call nests and heap programs under every limit value and of program sizes across every encoding boundary on the real interpreter, against a depth count and the unlimited run",
  note="All nests of up to 5/6 calls and all programs of up to 3/4 heap operations under every limit; recursion under every limit up to 24/40; every register count from 0 to 320 of nine kinds and grids of five pairs; 27 kinds of jumps and 4 of constants at every distance around 2^16.")
p("L11", "Source text means the words, literals and lines that it spells",
  "Programs that differ only in the case of keywords and names, in the spaces, tabs and carriage returns between words, in comments, in whether lines end with a line break or a colon, or in a shebang line behave the same. Each integer literal in any base, each double and each string denotes exactly the value it spells, and malformed or too large ones are rejected before anything runs. Names are the same when they differ in case only; the longest operator is taken. Any character can be in strings and comments. A source that cannot be read in full is rejected, and how it is delivered does not matter.",
  ["inputs", "programs"], "all short texts over the characters of numbers, strings, operators and names; all layouts of a set of programs that use every keyword; all ways to deliver and break a source",
  "The tests of the lexer cover a few dozen words; what every text means, and that layout never matters, are claims about all texts.",
  ["core/src/lexer.rs", "core/src/reader.rs", "core/src/parser.rs", "core/src/compiler/syms.rs"],
  [("words, literals and operators", "core/src/lexer.rs"), ("characters and positions", "core/src/reader.rs"), ("names", "core/src/compiler/syms.rs")],
  technique="exhaustive enumeration of source texts, layouts and deliveries on the real compiler and machine against an independent tokenizer",
  note="All words of up to 5/7 characters over 14 for literals, boundary values in every base and spelling, all texts of up to 5/7 pieces after a quote, all operator runs of up to 5/7 characters, all pairs of names of up to 3, 14 programs with every variation of every gap, of pairs of gaps and of the case of each word, every Unicode character, all 3-part deliveries of a text. Names with letters beyond ASCII are not covered.")
p("L12", "Host callables get exactly the arguments they declare, or are not run",
  "A call of a command or function that the host provides compiles only when the number of its arguments selects one of the declared syntaxes and every argument and separator is what that syntax allows; otherwise it is rejected at the line of the call before anything runs. The callable then receives every argument in order: the value, converted to the declared type, or that it is missing, with the separator that follows and its position in the source. References give the current value, or array, of exactly the variables named, which commands may define, and changes through them affect these variables only. All arguments arrive, however many there are, or the call is rejected.",
  ["programs", "configurations"], "all declarable syntaxes of up to two (thorough: three) single arguments and repeated arguments of every kind, each with all argument lists up to a bound, in commands and in functions, in three scopes",
  "The tests try a dozen callables with a few calls each; what is accepted and how it is laid out depends on every combination of declaration and call.",
  ["core/src/compiler/args.rs", "core/src/callable.rs", "core/src/compiler/exprs.rs", "core/src/parser.rs"],
  [("compilation of arguments", "core/src/compiler/args.rs"), ("declarations and access by the host", "core/src/callable.rs")],
  technique="exhaustive enumeration of declarations and calls on the real compiler and machine against a matcher written from the documentation of the declarations",
  note="11 kinds of single arguments, 5 of separators, 120 of repeated arguments; argument lists of up to 3 over up to 19 things to give; lists of up to 70 arguments; trees of nested calls.")
p("L13", "Host and program see the same values in the variables that they share",
  "Variables that the host defines before compiling have the type, the initial value (or the default one) and the dimensions given, in programs and in their callables; a set of definitions that repeats a name, whatever its case, or whose initial value is of another type is rejected. At any time that the program is not running, asking for a variable by name in any case gives exactly what the program last left in it, in the scope it belongs to (shared or of the program), also after errors, in the middle of loops, after code that did not compile, and when running it all again; asking for what is not there, for an array as a scalar or the reverse, or with subscripts that are not valid, says so.",
  ["configurations", "histories", "programs"], "all sets of definitions up to a bound of every type, initial value and shape, in programs that read or change them in every scope; all histories of pieces of code and host actions up to a bound",
  "What a host gets depends on the combination of the variable's type, scope, shape and the point at which the program stopped; tests look at a few variables after programs that end well.",
  ["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs", "core/src/compiler/syms.rs", "core/src/mem.rs", "core/src/image.rs"],
  [("definitions by the host", "core/src/compiler/top.rs"), ("queries by the host", "core/src/vm/mod.rs")],
  technique="exhaustive enumeration of definitions and of histories of pieces of code on the real compiler and machine against a model of the variables, asked in every way after each step",
  note="All sequences of up to 2/3 of 66 definitions in 5 programs; 1 to 80 variables; all histories of up to 4/5 of 14 pieces and actions.")
p("L14", "Blocks, jumps and names match up, or the program is rejected",
  "A program is accepted exactly when each block that it opens is closed by its own ending, divided only by the branches that belong to it, in their order, and left only by exits of a block that the exit is in; callables are not defined within one another; each label is defined once and each jump goes to one that is; and each variable and callable is declared and defined consistently, once in its scope, before it is used as what it is. Any other program is rejected before anything runs, at the line of one of its mistakes (the line that does not fit or a block that is left open).",
  ["programs"], "all sequences of lines up to a bound that open, divide, close and leave every kind of block, and that define and use a name in every way",
  "What is accepted depends on the whole context that encloses each line; tests try a few mistakes, each on its own.",
  ["core/src/parser.rs", "core/src/compiler/top.rs", "core/src/compiler/syms.rs", "core/src/compiler/codegen.rs"],
  [("parsing of blocks", "core/src/parser.rs"), ("exits, labels and definitions", "core/src/compiler/top.rs")],
  technique="exhaustive enumeration of sequences of lines compiled by the real compiler against an independent pushdown recogniser of the block structure and rules for names",
  note="All sequences of up to 4/5 of 28 lines, up to 6/8 of subsets of 9 or 10, all changes of up to 2/3 lines in 8 nested programs; all sequences of up to 4/5 of 24 definitions and uses of a name.")
p("C01", "The line editor shows and returns exactly the edited line",
  "For any sequence of keys, the line that the prompt editor returns is the one an ideal line editor would produce from the same keys, with recall of earlier lines limited to lines that were entered. Before every key the screen shows the prompt followed by a window of the line that contains the insertion point with the cursor on it, on that screen line alone and with secret input masked, for any prompt, prefilled text and console width that leaves room to type.",
  ["inputs", "configurations"], "all key sequences up to a bound (every key kind, narrow and wide characters) for all combinations of console width, prompt, prefilled text, history and echo",
  "The tests replay a few dozen hand-written key sequences on one or two widths; scrolling, redraw and history interact over every sequence.",
  ["std/src/console/readline.rs", "std/src/console/linebuffer.rs"],
  [("line editing and redraw", "std/src/console/readline.rs"), ("character-indexed buffer", "std/src/console/linebuffer.rs")],
  technique="exhaustive enumeration of key sequences and buffer operations on the real editor against an ideal line editor and a terminal emulator",
  note="All key sequences up to length 3 (quick) or 4 (thorough) over 20 keys, and up to 4/6 over the 10 editing keys, for up to 250 console/prompt/history configurations; all buffer operation sequences up to 4/5.")
p("S01", "Storage commands act on exactly the file they name",
  "Reading, writing, copying, deleting, changing drive, mounting and unmounting affect exactly the file and drive that the given name denotes, with drive names compared without regard to case. Malformed names and names of drives that are not mounted are rejected. An operation that fails changes nothing: neither the files of any drive, nor what is mounted, nor the current drive. Listings, the current-drive report and the list of mounted drives tell the truth.",
  ["histories", "inputs"], "all strings over the path alphabet up to a bound as the name given to every operation; all histories of storage commands over memory and directory drives up to a bound",
  "Tests cover one history per command; aliasing between drives, drive-name parsing and partial effects of failures are claims about every name and history.",
  ["std/src/storage/mod.rs", "std/src/storage/cmds.rs", "std/src/storage/mem.rs", "std/src/storage/fs.rs"],
  [("path parsing and drive dispatch", "std/src/storage/mod.rs"), ("storage commands", "std/src/storage/cmds.rs")],
  technique="exhaustive enumeration of path strings and of histories of storage commands on the real machine and drives against a map of maps",
  note="All paths of up to 6/7 symbols over 7 and 4/5 over 8; all histories of up to 3/4 of 42 operations, and up to 2/3 after two set-ups with several drives.")
p("S02", "A directory drive is the host directory and nothing else",
  "A drive mounted on a host directory contains exactly that directory's own files, byte by byte, with the names and lengths the host reports; what is written there through the drive is what the host holds under that name. No name given to any operation reads, creates, changes or deletes anything outside that directory, nor in directories below it. Mounting creates the directory if it is missing and says so if it cannot be one.",
  ["inputs", "histories"], "all strings up to a bound of path separators, dots, drive separators and letters given to every operation on a real directory; all histories of writes, copies, deletions and remounts up to a bound over directories of every layout",
  "Containment is a claim about every name, and faithfulness one about every content and directory layout; tests use a handful.",
  ["std/src/storage/fs.rs", "std/src/storage/mod.rs"],
  [("directory drive", "std/src/storage/fs.rs")],
  technique="exhaustive enumeration of names and of histories of operations on real scratch directories, comparing the whole surrounding directory tree after each",
  note="All names of up to 5/6 symbols; all histories of up to 2/3 operations over names and contents of every kind in 16 directory layouts. Run without privileges inside scratch directories.")
p("S03", "The stored program is never lost or altered unasked",
  "A stored program with changes that were not saved is only replaced if the user agrees when asked; without unsaved changes nothing is asked. Saving writes exactly the program's text to exactly the file named, or to where it came from, and loading, running, listing and editing act on exactly that text. An operation that fails or that the user declines leaves the program, its name, its modified state, the files and the variables as they were.",
  ["histories", "fault_sequences"], "all histories up to a bound of edits, NEW, LOAD, SAVE, RUN, LIST and deletions with every answer to the question and with drives that work and that fail",
  "Losing a program takes a particular history of edits, saves and failures; tests replay one history per command.",
  ["std/src/program.rs", "repl/src/editor.rs", "std/src/storage/mod.rs"],
  [("program commands", "std/src/program.rs"), ("program editor", "repl/src/editor.rs")],
  technique="exhaustive enumeration of histories of program commands on the real machine, editor and drives against a model of the session",
  note="All histories of up to 3/4 of 45 actions, and of up to 2/3 after two set-ups.")
p("S04", "PRINT and INPUT show and take values exactly",
  "PRINT shows each value in its documented form, with separators that join, align to fields of fourteen columns or suppress the end of the line. INPUT shows its prompt and assigns exactly the value that a typed line denotes for the type of the variable, and asks again after a line that is not such a value. A number shown by PRINT or STR and taken back by INPUT or VAL is the same number.",
  ["inputs", "programs"], "all sequences of values and separators up to a bound; all strings up to a bound typed at an INPUT of every type; boundary values of every type through both directions",
  "Conversions are claims about every value and every typed line; tests list a few.",
  ["std/src/console/cmds.rs", "core/src/ast.rs"],
  [("PRINT and INPUT", "std/src/console/cmds.rs")],
  technique="exhaustive enumeration of PRINT argument sequences and of typed lines on the real machine and console against a reference formatter and parser",
  note="All sequences of up to 4/6 tokens over 16; all typed strings of up to 4/6 characters over 14; 21 kinds of prompts.")
p("S05", "String functions work on characters for every string",
  "Every string function gives its documented result for every string, count and position, counting characters and not bytes: parts of a string, trimming, lengths, searches, case, codes and the number at the beginning of a text. Arguments out of range are rejected, except those that the documentation allows to reach beyond the string.",
  ["inputs"], "all strings up to a bound over characters of one to four bytes with all counts and positions; all code points; all numeric texts up to a bound",
  "Off-by-one and encoding errors hide in combinations of string and position that tests do not list.",
  ["std/src/strings.rs"], [("string functions", "std/src/strings.rs")],
  technique="exhaustive enumeration of strings, positions, needles and code points on the real machine against character vectors",
  note="All strings of up to 3/5 of 9 characters, all of up to 5/7 with all needles, every code point, all numeric texts of up to 5/7 characters.")
p("S06", "Numeric functions and random sequences are as documented",
  "Numeric functions give their documented results, in the angle mode in force where that matters, for every argument including limits, halves and infinities, and reject arguments outside their domain. The numbers drawn after seeding with a value depend only on that value and on how many were drawn, lie between zero and one, and the last one can be asked for again without drawing.",
  ["inputs", "histories"], "functions over a grid of boundary values in both angle modes; all lists of numbers up to a bound for minima and maxima; all histories of seeding and drawing up to a bound",
  "Rounding, limits and the state of the generator are claims about all values and histories.",
  ["std/src/numerics.rs"], [("numeric functions", "std/src/numerics.rs")],
  technique="exhaustive enumeration of function arguments over a boundary grid and of histories of the generator on the real machine against reference functions and a model of streams",
  note="17 functions over 160 values in 3 modes, ROUND with all digit counts from -330 to 330, all lists of up to 4/6 of 9 numbers, all histories of up to 4/6 of 13 uses of the generator.")
p("S08", "Clearing the machine restores a new session's state",
  "After CLEAR, NEW, LOAD or the clearing that RUN performs, at any point of any session, a program behaves as in a new session: variables, arrays, callables, data, error handlers and messages, angle mode, colors, video syncing and pins are as at the beginning, and the variables that the host provides have their initial values again. The stored program (except where replacing it is what was asked) and the files of the drives stay as they were.",
  ["histories"], "all histories up to a bound of pieces that change the state of a session in every way, followed by every way to reset it",
  "What survives a reset by mistake depends on what was done before; tests reset after one kind of change.",
  ["std/src/lib.rs", "std/src/exec.rs", "core/src/vm/mod.rs", "core/src/compiler/mod.rs", "std/src/program.rs"],
  [("clearing of the machine and its clearable commands", "std/src/lib.rs"), ("resets of compiler and virtual machine", "core/src/vm/mod.rs")],
  technique="exhaustive enumeration of histories of state changes and resets on the real machine against a new session asked the same questions",
  note="All sequences of up to 3/4 of 24 pieces, each of 8 ways to reset, 30 questions after each; the virtual machine itself reset within 14 programs.")
p("G01", "GPIO commands reach exactly the pin and mode they name",
  "Every GPIO command passes to the hardware exactly the operation, pin, mode and value that the program gave, in program order, and returns exactly what the hardware reports. Pin numbers and modes that are not valid are rejected, and a command that is rejected or that the hardware fails changes nothing else.",
  ["inputs", "histories"], "all pin numbers around every limit, all mode names and those one edit away from them, all histories of operations up to a bound over pins that work, fail and do not exist",
  "Conversions of pin numbers and modes are claims about every value; the order of operations and their failures about every history.",
  ["std/src/gpio/mod.rs", "std/src/gpio/fakes.rs"], [("GPIO commands", "std/src/gpio/mod.rs"), ("simulated pins", "std/src/gpio/fakes.rs")],
  technique="exhaustive enumeration of arguments and of histories of GPIO operations on the real machine against a map of pins",
  note="650 pin numbers in two forms, all modes in all cases and their one-edit neighbours, all histories of up to 4/5 of 17 operations.")
p("G02", "Graphics commands draw exactly the shapes they name",
  "Lines, rectangles, triangles, polygons, circles and fills color exactly the pixels of the shape given by their coordinates, clipped to the screen, for any coordinates inside or outside of it: outlines and interiors agree, nothing is drawn off the shape, and a fill colors exactly the connected area of the color it starts on. No coordinates crash or hang the program.",
  ["inputs"], "all pairs and triples of points on and around a small screen and at the limits of coordinates, all small polygons, all radii up to a bound, all small pictures to fill",
  "Rasterization errors appear only for particular slopes, sizes and clippings.",
  ["std/src/console/drawing.rs", "std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs"],
  [("rasterization", "std/src/console/drawing.rs"), ("clipping to the display", "std/src/gfx/lcd/buffered/mod.rs")],
  technique="exhaustive enumeration of shapes over grids of coordinates on the real graphical console over a display in memory, against the geometry of each shape",
  note="All point pairs on and around a 12x9 screen, all triangles of a grid, all polygons of 4/5 points of a smaller one, radii up to 140/300, all 4x4 pictures of two colors and 3x3 of three, all pairs of the 256 colors; on a 240x170 screen lines from 56 points, triangles of 30 points, polygons of up to 42/162 points and fills of 28 winding areas.")
p("G03", "The graphical console shows text exactly, pixel by pixel",
  "After any sequence of console operations (writing text of any length, moving, erasing, choosing colors, hiding and showing the cursor, entering and leaving the alternate screen), every pixel of the display is the one of the characters written, in the colors of the time and at the positions where wrapping and scrolling put them, with the cursor drawn on top at the insertion point when it is visible and on the screen, and nowhere else.",
  ["histories", "configurations"], "all sequences up to a bound of console operations on screens of several geometries (exact fits, margins, one line, one cell) and all fonts",
  "Cursor backups, wrapping and scrolling interact over histories; tests compare recorded calls of short ones.",
  ["std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/gfx/lcd/fonts/mod.rs", "std/src/console/drawing.rs"],
  [("text console over pixels", "std/src/console/graphics.rs"), ("frame buffer", "std/src/gfx/lcd/buffered/mod.rs")],
  technique="exhaustive enumeration of console operation sequences on the real graphical console over a display in memory, comparing every pixel with a model after each",
  note="All sequences of up to 3/4 of 29 operations and 4/6 of 12 on six geometries, up to 2/3 with the three real fonts, all characters up to code 300.")
p("G04", "Disabling video syncing defers exactly what is shown",
  "While video syncing is disabled the display does not change; when a sync is requested or syncing is enabled again it shows exactly what it would have shown with syncing always enabled, whatever was drawn, written, scrolled, erased or switched meanwhile. Colors read back from the screen are those drawn, shown or not.",
  ["histories"], "all sequences up to a bound of text, cursor, screen and shape operations interleaved with every change of syncing",
  "Damage tracking errs only for particular sequences of areas and syncs.",
  ["std/src/gfx/lcd/buffered/mod.rs", "std/src/console/graphics.rs"],
  [("damage tracking of the frame buffer", "std/src/gfx/lcd/buffered/mod.rs"), ("syncing of the console", "std/src/console/graphics.rs")],
  technique="exhaustive enumeration of operation sequences on the real graphical console and frame buffer, comparing the display after each with that of an always-synced twin",
  note="All sequences of up to 4/5 of 27 operations, up to 3/4 on three pixel formats and fonts, up to 6/7 of the 9 core ones.")
p("C06", "Console, graphics and sound commands do what they are given",
  "Every command that positions, colors, draws, syncs or plays passes exactly the coordinates, colors, points and durations that the program gave to the console; values out of range, wrong counts of arguments and consoles without the feature are reported as errors and change nothing. The size of the screen and the keys that are polled are reported as they are, each key once and in order.",
  ["inputs", "configurations", "histories"], "all tuples of boundary values for every command, all counts and gaps of arguments, all shapes of polygon arrays, all positions around consoles of many sizes, all keys, all histories of commands up to a bound",
  "Conversions and argument mappings are claims about every value and count; tests use one or two of each.",
  ["std/src/console/cmds.rs", "std/src/gfx/mod.rs", "std/src/sound/cmds.rs"],
  [("console commands", "std/src/console/cmds.rs"), ("graphics commands", "std/src/gfx/mod.rs"), ("sound commands", "std/src/sound/cmds.rs")],
  technique="exhaustive enumeration of argument tuples, argument counts, keys and command histories on the real machine with a recording console against a model of its state",
  note="19 values for up to three arguments, 8 for four, 5/7 for six; arrays of all types and shapes up to rank 3; 40 console sizes; all code points as keys (thorough); histories of up to 4/5 of 14 commands.")
p("S09", "No use of a built-in command or function crashes the session",
  "Whatever values are given to the commands and functions of the standard library, and on consoles of all kinds (of two rows or more), each use completes, reports an error with a position inside the text, or stops in an orderly way; the interpreter never panics or hangs and the session keeps working.",
  ["inputs", "configurations", "histories"], "all commands and functions with all tuples of boundary arguments up to a bound, on text and graphical consoles of several sizes; all sequences of ordinary statements up to a bound",
  "Crashes hide in argument values, console sizes and sequences that nobody wrote a test for.",
  ["std/src", "repl/src/editor.rs"], [("standard library", "std/src/lib.rs"), ("program editor", "repl/src/editor.rs")],
  technique="exhaustive enumeration of commands with boundary arguments, console kinds and statement sequences on the real machine under a crash and hang monitor",
  note="88 names with all tuples of up to 2/3 of 24 arguments in statements and expressions; up to 1/2 on 8 other consoles; 14 actions after every column; sequences of 2/3 of 56 statements.")
p("S10", "Programs see and spend the host's time exactly as they say",
  "SLEEP suspends the program for exactly the number of seconds given, to the nanosecond, and what follows does not run until the host says that the time has passed, however many turns that takes; a time that is negative, not a number or beyond what the host can represent is an error that suspends nothing, and a failure of the host is an error that programs can handle. MONOTONIC gives the host's current timestamp in seconds, read once each time that it is evaluated and in order with the sleeps, and never goes backwards if the host's clock does not. Unless the host brings another clock, it is the system's, and sleeps are never shorter than asked.",
  ["inputs", "programs", "fault_sequences"], "a grid of numbers over every magnitude and all boundaries; pairs of clock values; all sequences of statements that use time up to a bound, with every number of turns and each sleep failing",
  "Tests sleep twice and read the clock once; rounding, overflow, ordering and failures need all magnitudes and histories.",
  ["std/src/datetime.rs", "std/src/lib.rs"],
  [("time functions", "std/src/datetime.rs"), ("waiting for the host", "std/src/lib.rs")],
  technique="exhaustive enumeration of durations, clock values, programs, host delays and host failures on the real machine with a scripted clock, against exact arithmetic over the bits of the doubles and a model of the clock",
  note="81,920 durations and all boundaries; 9,409 pairs of readings; all sequences of up to 3/4 of 13 statements in 3 kinds of error handling, 3 delays and 4 failures; all sequences of up to 3/4 of 5 real sleeps.")
p("S11", "Listings show exactly what there is, and stored programs are kept as they are",
  "DIR shows each file of the drive once, in order, with its modification time and size, their number, the total size and the free space when the drive knows it; on consoles narrower than 50 columns it shows the names and their number. MOUNT shows each drive with its target and their number, and PWD the current one. LIST shows every line of the stored program, and DISASM all of its instructions, in order, or the error that it has, without running it; a program that was loaded is listed, run and saved exactly as it was in the file, and what is not text is not loaded. A listing that cannot be obtained shows nothing but the error.",
  ["histories", "configurations", "inputs"], "all sets of files, quotas, drives and widths up to a bound, and all files made of up to a bound of pieces of text",
  "Totals, columns, empty and odd lines, quotas and narrow consoles combine; tests look at a few listings.",
  ["std/src/storage/cmds.rs", "std/src/program.rs", "std/src/storage/mod.rs", "std/src/console/pager.rs"],
  [("listings of files and drives", "std/src/storage/cmds.rs"), ("listings of programs", "std/src/program.rs")],
  technique="exhaustive enumeration of drive contents, console widths and program files on the real commands against the text that each listing must have",
  note="All sets of up to 3/4 of 7 files, 5 quotas, 7 widths; all sequences of up to 4/5 of 8 drives; all files of up to 4/6 of 14 pieces with two kinds of program storage.")
p("D01", "The demos are always there, cannot be altered, and work",
  "The demos drive always holds the same eight programs, found by name in any case and by no other name, with the lengths and the space that their contents have and none free; nothing can be written to or deleted from it through any operation or command, and it cannot be mounted with a target. Each of the demos loads and runs without errors whatever keys and answers it gets: FIBONACCI, HELLO and PALETTE show what they say; GUESS's replies agree with one secret and with its score; TOUR advances with ENTER and ends with ESC at each page; ALARM sweeps its tones until a key; GPIO waits for the button and blinks; BOUNCE draws as many shapes of the kind selected as it says at 60 frames per second, or tells that there are no graphics. They leave colors, cursor and syncing as they were.",
  ["histories", "inputs"], "all histories of storage operations and commands up to a bound; all sequences of keys and answers up to a bound given to each demo, on consoles of several sizes",
  "Tests only look at the drive's listing and at one file; none runs the demos, which use most of the language and of the library at once.",
  ["repl/src/demos.rs", "std/src/program.rs", "std/src/storage/mod.rs", "core/src/vm/context.rs"],
  [("demos drive", "repl/src/demos.rs")],
  technique="exhaustive enumeration of histories of operations and of interactive sessions on the real interpreter with a scripted console, clock and pins, against models of each demo",
  note="All histories of up to 3/4 of 18 operations; TOUR with up to 5/7 of 4 keys, BOUNCE with up to 2/3 of 13 keys on two sizes, all games of GUESS of up to 3 attempts, ALARM at 170 moments, GPIO at 21.")
p("C02", "Listings pause at every screenful and can be abandoned",
  "On an interactive console, LIST, DIR, DISASM and HELP show exactly what they show on one that is not, in order; no more rows than fit on the screen go by without a pause (unless one line alone is longer), and no pause comes while the next line still fits. Any key goes on; Escape or an interrupt at any pause stops the listing there, with nothing else printed, the colors as they were and the session usable. Without a person there are no pauses.",
  ["inputs", "configurations", "schedules"], "all sequences of line lengths around multiples of the width, on consoles of many sizes; all topics, file counts and programs; stopping at every pause",
  "How lines, widths and heights combine, and where the reader stops, are too many cases for tests.",
  ["std/src/console/pager.rs", "std/src/program.rs", "std/src/storage/cmds.rs", "std/src/help.rs"],
  [("pager", "std/src/console/pager.rs"), ("help", "std/src/help.rs"), ("directory listings", "std/src/storage/cmds.rs")],
  technique="exhaustive enumeration of listings, console sizes and stopping points on the real machine against the listing of a console that is not interactive",
  note="All sequences of up to 4/6 lines of 8 lengths on consoles of 6 widths and heights 1 to 7; DIR and LIST of up to 40, DISASM of 12 programs and every HELP topic on 63 sizes; Escape and interrupts at every pause. The row that the message at the pause itself pushes out is not counted (it is pinned by the existing tests).")
p("H01", "HELP finds every topic by name or by unambiguous prefix",
  "HELP followed by the name of a topic, in any case, or by any prefix that only one topic has, shows that topic; a prefix that several have lists exactly those, and anything else is reported as unknown, showing nothing. Every command and function, those of the host included, can be found and its page gives its syntax and its whole description; every category lists exactly its members, the summary lists exactly the categories, and the text is the same at all widths of the console.",
  ["inputs", "configurations"], "all prefixes of all names with all extensions, all short texts, all console widths, all sets of overlapping host callables",
  "Prefix lookup has to hold for every name against all others, which changes with every callable that is added.",
  ["std/src/help.rs", "std/src/console/format.rs"], [("help topics", "std/src/help.rs"), ("paragraph formatting", "std/src/console/format.rs")],
  technique="exhaustive enumeration of lookups, host callables and console widths on the real HELP against a model of the set of topics",
  note="All names and prefixes in three spellings and with 42 characters after them; all texts of up to 2/3 characters; 256 sets of callables; 140 widths.")
p("E01", "The program editor does what the keys say and shows it as it is",
  "Every sequence of keys in the editor of programs leaves the text that the keys describe (insertion, deletion, joins, indentation, tabs), with the cursor where they put it, vertical moves remembering the column; after every key the screen shows the text around the cursor exactly as it is and the status shows its position. Leaving the editor restores the screen, and changes are noted: a program that differs is never taken as unmodified nor one that nobody changed as modified.",
  ["inputs", "histories", "configurations"], "all sequences of keys up to a bound on texts and consoles of many sizes, and all states of short texts with every key",
  "Incremental repainting and cursor memory depend on the sequence of keys and on where the window is.",
  ["repl/src/editor.rs", "std/src/console/linebuffer.rs"], [("program editor", "repl/src/editor.rs")],
  technique="explicit-state exploration of a model of the editor bound to the real editor by replaying every transition, and exhaustive enumeration of key sequences",
  note="Sequences of 4/5 of 16 keys on 14 programs (3/4 on 9 other sizes), 5/6 of 9 moves on long programs; up to 1200/30000 states per window from 12 starts with 18 keys each. Consoles have two rows or more.")
p("R01", "The interactive session goes on until told to end and asks before losing work",
  "At the interactive prompt, lines that fail to compile or to run, interrupts while typing, while answering, while editing and while a program runs, and programs that end when RUN, all bring the session back to its prompt with its variables, its program and its files as they were. Only END with its code, or the end of the input, finishes it; END, NEW and LOAD ask first when the stored program has changes, and anything but a yes (an interrupt included) keeps them. AUTOEXEC.BAS runs first and whatever happens in it the session starts. Lines that were entered can be recalled, the most recent first.",
  ["histories", "schedules"], "all sequences of things to do at the prompt and of answers to its questions up to a bound, after every kind of AUTOEXEC.BAS",
  "What is kept depends on the order of edits, failures, interrupts and answers.",
  ["repl/src/lib.rs", "std/src/program.rs", "std/src/lib.rs"],
  [("interactive loop", "repl/src/lib.rs"), ("stored program", "std/src/program.rs"), ("machine", "std/src/lib.rs")],
  technique="exhaustive enumeration of session histories on the real loop, machine, editor and storage against a model of the session",
  note="Sequences of 4/5 of 21 actions and 5 answers chosen by the state of the model; 10 AUTOEXEC.BAS by sequences of 2/3; input that is not interactive. Answering END with the end of the input is not specified.")
p("X01", "The cloud commands act within one session and keep drives and permissions right",
  "Whatever sequence of LOGIN, LOGOUT, MOUNT, UNMOUNT, SAVE, LOAD, KILL, DIR and SHARE a user runs, and whichever request to the service fails: commands that need a session refuse without one; a login mounts the user's own drive and moves there only on success; a logout leaves no drive of the session in use behind it; files go to and come from the drive of the user they name; SHARE adds and removes exactly the readers given, shows the readers there are, and prints the address at which a public file can be run; no password is shown; and a failed command changes nothing of the session.",
  ["histories", "fault_sequences", "inputs"], "all sequences of cloud commands up to a bound with each of their requests failing before or after its effect, all permissions and all names up to a bound",
  "The session, the mounts and the service each hold part of the state, and any request of a history can fail.",
  ["client/src/cmds.rs", "client/src/drive.rs"], [("cloud commands", "client/src/cmds.rs"), ("cloud drive", "client/src/drive.rs")],
  technique="exhaustive enumeration of histories of commands and faults on the real commands and drives over a model of the service, against a model of the session",
  note="Sequences of up to 3/4 of 20 commands with every request failing in two ways; permissions of up to 4/5 characters; the service itself is a model (CloudService has X03).")
p("X02", "Signing up creates the account that was confirmed, or none",
  "In every conversation of SIGNUP, one account at most is requested, only after the user confirmed it, with exactly the name, address, password and preferences that were confirmed; a password that is too short, too weak or not repeated the same is never accepted; wrong answers are asked again; an interrupt or the end of the input anywhere requests nothing; a service that fails is reported; and the password never shows.",
  ["histories", "inputs", "fault_sequences"], "all conversations up to a bound over right and wrong answers, interrupts and failures of the service, and all passwords up to a bound over the classes of characters",
  "What is requested depends on the whole conversation.",
  ["client/src/cmds.rs", "std/src/console/readline.rs"], [("sign up", "client/src/cmds.rs")],
  technique="exhaustive enumeration of conversations on the real command against a model of the conversation",
  note="Conversations of up to 8/9 answers, 5 to 8 for each question; passwords of 6 to 9/10 characters of three classes.")
p("X03", "The service's client asks what it was told to and believes no broken answer",
  "Every request to the cloud service is addressed to exactly the user and file given, whatever characters their names have, carries the content and readers given, and is authenticated with the session in force and no other. Every answer is turned into the content it carries or into an error of its kind; an answer that is refused, lost, cut short or malformed is never taken for a success, and leaves the session as it was.",
  ["inputs", "histories", "fault_sequences"], "all names up to a bound over characters that matter in addresses, all statuses by bodies, all histories of exchanges up to a bound, all points at which an answer can be cut",
  "Encodings, statuses and truncations are claims about every name and every byte.",
  ["client/src/cloud.rs", "client/src/lib.rs"], [("cloud service client", "client/src/cloud.rs"), ("wire types", "client/src/lib.rs")],
  technique="exhaustive enumeration of exchanges and faults between the real client and a scripted server on the loopback interface, which decodes what it is sent",
  note="Names of up to 3/4 of 13 characters; 16 statuses by 6 bodies in all requests; sequences of up to 4/5 of 15 exchanges; answers cut at every byte. The server is the check's own, on 127.0.0.1.")
p("X04", "Programs run directly run in full, and alone, and report how they ended",
  "A program run from a file as a script, from a file with the callables of the interpreter, or from the cloud does exactly what it does when run from the prompt, prints nothing else as a script, and ends with its own exit code, 0 at its end, 130 when interrupted, and a failure that names the line when it fails or does not compile, in which case nothing runs. What cannot be read or set up fails before anything runs. After a run from the cloud the session has the program loaded, its variables, its drive, and no handlers left.",
  ["programs", "inputs", "fault_sequences", "configurations"], "all programs up to a bound over ways to end and to fail, all exit codes, all kinds of files, names and faults, in each way of running",
  "How a program ended crosses the machine, the runner and the command line; tests cover one way to end in each.",
  ["cli/src/lib.rs", "repl/src/lib.rs", "std/src/lib.rs"],
  [("runners of programs", "cli/src/lib.rs"), ("programs from the cloud", "repl/src/lib.rs"), ("machine", "std/src/lib.rs")],
  technique="exhaustive enumeration of programs, files and faults run by the real application and its machine, storage and cloud client, against a model of what runs",
  note="Programs of up to 3/5 of 15 statements in 4 ways of running; exit codes in 3 forms; 14 kinds of files; 16 names by faults; what is typed after, up to 2/3 of 8. The cloud is a model and a server on 127.0.0.1.")
p("X05", "The command line does what its arguments, files and input say",
  "Every combination of options and arguments either runs exactly the file or prompt asked for, with the console, pins, drive and service asked for, or fails with a usage error or a failure before running anything. A script's own line chooses its console unless the options do. Console specifications and resolutions are taken apart exactly, and what is not understood in them is refused. Text piped in is what INPUT and the prompt get, line by line; input that ends or cannot be read ends the session. Files saved to the local drive in one session are there for the next, exactly.",
  ["configurations", "inputs", "histories"], "all sequences of arguments, configuration lines, specifications, inputs and sessions up to a bound",
  "Combinations of options, lines and inputs are many and tests cover a dozen.",
  ["cli/src/main.rs", "cli/src/lib.rs", "cli/src/propline.rs", "cli/src/console.rs", "cli/src/storage.rs", "std/src/console/spec.rs", "terminal/src/lib.rs", "std/src/console/mod.rs"],
  [("command line", "cli/src/main.rs"), ("configuration lines", "cli/src/propline.rs"), ("console specifications", "std/src/console/spec.rs"), ("input that is not interactive", "terminal/src/lib.rs")],
  technique="exhaustive enumeration of arguments, inputs and histories of processes of the real interpreter, and of texts for its parsers, against a model",
  note="Sequences of up to 3/4 of 18 arguments; configuration lines of up to 4/5 of 13 pieces in 4 contexts; specifications of up to 4/5 of 12 pieces; inputs of up to 3/4 of 9 pieces; sessions of up to 2/3 commands and then 1/2 more. Text consoles only: the others are not in this build.")


p("X06", "The driver of the ST7735S panel shows every pixel and reads its buttons",
  "After every operation of the console, whatever the bus takes per write, each pixel that the panel shows is the color that the same console shows on a display in memory, as RGB565, and nothing outside of the visible area is written. The settings given choose font and colors or are refused before the hardware is touched. A pin or the bus failing at any point makes that operation (or the start) fail, without panics or hangs, and the backlight is off after the end, where the pins still work. Every time a button is seen as pressed, its key is read once; keys typed on the keyboard all arrive, in order, also when reads are abandoned; a button that cannot be read does not stop the others.",
  ["inputs", "histories", "configurations", "fault_sequences", "schedules"], "all sequences of console operations, bus behaviours, failing operations and schedules of button presses and reads up to a bound",
  "The driver's tests cover seven conversions of colors and three writes; windows, failures and buttons are not tested at all, as they need the hardware.",
  ["st7735s/src/lib.rs", "std/src/gfx/lcd/mod.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/spi.rs"],
  [("windows and pixels", "st7735s/src/lib.rs"), ("partial writes", "st7735s/src/lib.rs"), ("buttons and keyboard", "st7735s/src/lib.rs"), ("clearing on exit", "std/src/gfx/lcd/buffered/mod.rs")],
  technique="exhaustive enumeration of histories, failures and schedules of the real driver against a model of the panel, with virtual time",
  note="A model of the panel decodes what is sent. 256 colors; rectangles over 11 coordinates; sequences of up to 2/3 of 24 operations; 9 bus sizes by 5 ways to take data; 5 kinds of failure at each operation on pins and bus; schedules of up to 3/4 of 16 steps. The voltages, gamma and orientation sent at the start are taken as right.")

p("T01", "A real terminal shows and types what the console interface says",
  "With the text console on an ANSI terminal of at least 20 columns and 6 rows, what the screen shows in the end (text, position and visibility of the cursor, the colors set) is what the console interface defines for the program: prints, colors, positions, erasures, line editing at the prompt and in INPUT, the alternate screen of the editor. Every usual key, however the terminal encodes it, is read as that key, in order. Ctrl+C stops a program, and at the prompt brings the prompt back. However the program ends, the terminal's modes are as they were, the cursor is visible and the alternate screen is left.",
  ["programs", "inputs", "histories"], "all programs, key sequences and sizes up to a bound, on processes of the real interpreter with a pseudo-terminal",
  "The terminal's tests only cover a console without a terminal: nothing tests what a terminal shows, nor what its keys do.",
  ["terminal/src/lib.rs", "std/src/console/mod.rs", "std/src/console/readline.rs", "std/src/console/linebuffer.rs", "cli/src/main.rs"],
  [("what is sent to the terminal", "terminal/src/lib.rs"), ("keys", "terminal/src/lib.rs"), ("line editing", "std/src/console/readline.rs"), ("raw mode and its end", "terminal/src/lib.rs")],
  technique="exhaustive enumeration of programs and key sequences of the real interpreter on pseudo-terminals, decoded by a terminal emulator and compared with a model of the console",
  note="Programs of up to 3/4 of 20 statements; sequences of up to 2/3 of 43 keys; lines of up to 3/4 keys in INPUT, at the prompt and in the editor. Colors stay as the program set them. Keys with modifiers other than those listed are not defined.")
p("W01", "The web page's local drive keeps every program, like any other drive",
  "On the web page, the LOCAL drive behaves through every command (SAVE, LOAD, NEW, KILL, COPY, DIR, EDIT, RUN, CD, MOUNT) as an in-memory drive that keeps programs across visits: same listings, dates, contents and messages, whatever the order in which the browser lists its keys. Each program is stored under its own name as what earlier versions of the page can read; other things in the browser's storage are not touched nor shown. Names in the old format are upgraded with no program lost. When an operation on the storage fails, an error is shown, the other programs stay and the session goes on.",
  ["histories", "fault_sequences"], "all histories of commands and visits up to a bound from many contents of the storage, in any order of keys; a failure of each single operation on the storage",
  "The storage of the page has no tests that run: they need a browser, and none covers orders of keys, failures, old names or visits.",
  ["web/src/store.rs", "web/src/lib.rs", "std/src/storage/mod.rs", "std/src/storage/cmds.rs"],
  [("drive over the local storage", "web/src/store.rs"), ("setup of the session", "web/src/lib.rs")],
  technique="exhaustive enumeration of histories of commands, visits and storage failures on the real web crate over a stand-in browser, compared with a reference drive",
  note="Histories of up to 2/3 of 22 commands and reloads from 8 contents with 3 orders of keys; one failure at each of the first 12/40 operations; all sets of 6 old names.")
p("W02", "The web page shows and types what the interpreter says",
  "What the canvas of the web page shows after any keys, input events, buttons and statements is, pixel by pixel, what the interpreter shows on a plain screen of the same size: text, colors, cursor, scrolling, shapes, pixels read back, the size shown. Each key of a real or on-screen keyboard has its one meaning, and those that mean nothing are left to the browser. SOUND and BEEP play tones with the frequency and length asked, one after the other, and waits last what they say.",
  ["programs", "inputs", "configurations"], "all sequences of presses and of statements up to a bound, on screens of several sizes",
  "The page's tests need a browser and cover the translation of a few keys only.",
  ["web/src/canvas.rs", "web/src/input.rs", "web/src/lib.rs", "web/src/language.rs", "std/src/console/graphics.rs"],
  [("canvas", "web/src/canvas.rs"), ("keys", "web/src/input.rs")],
  technique="exhaustive enumeration of presses and statements on the real web crate over a stand-in browser, compared pixel by pixel with the interpreter on a plain screen",
  note="Sequences of up to 3/4 of 47 presses at the prompt and in the editor, and of up to 2/3 of 37 statements, on several sizes. How a browser smooths lines is not compared.")
p("W03", "The web page always answers, stops on Ctrl+C and keeps time",
  "On the web page, a program that does not end lets the browser draw and take keys about once a second at the least (and after each sleep and tone), however fast the computer is, whatever kind of loop it is; Ctrl+C stops any endless program at the next of those moments, says so, and the session is usable afterwards; each picture that a program presents with GFX_SYNC before a jump is painted by the browser, once and in order; sleeps and tones of any length last what they say, to the millisecond, and what cannot be scheduled is an error.",
  ["schedules", "programs"], "all moments up to a bound at which Ctrl+C may come, for endless programs of every kind, at several speeds of the computer",
  "Needs the events of a browser at every moment; no test runs a program in a page.",
  ["web/src/lib.rs", "web/src/canvas.rs", "web/src/input.rs", "core/src/vm/mod.rs", "std/src/exec.rs"],
  [("giving way to the browser", "web/src/lib.rs"), ("keys", "web/src/input.rs")],
  technique="exhaustive enumeration of moments of interruption and of frames of the real web crate over a stand-in browser with a logical clock",
  note="21 endless programs at 6 speeds with Ctrl+C at each of the first 12/40 events, after up to 4/13 kinds of key.")
p("K01", "The SDL window shows what the console says, takes all keys, ends without crashes",
  "The SDL frontend: after every console operation the window shows what the interpreter's console on a plain screen of that size, font and colors shows, and the operation answers the same; every key, and every character of a text, comes once and in order, with an interruption for each Ctrl+C, whatever the program does then; events that come while the interpreter ends, whenever, do not make it crash and the library is released; if a call to the library fails, the operation that needed it fails (building the console included) and those after it work; a tone has the pitch and the length asked for, without gaps and in bounded memory, also after one that failed; a console specification has the meaning documented or is rejected.",
  ["schedules", "fault_sequences"], "all sequences of operations and of events up to a bound, all moments of the end of a session, each single failure of the library",
  "The two threads and the library's failures need a stand-in for the desktop; the tests draw a few pictures.",
  ["sdl/src/host.rs", "sdl/src/console.rs", "sdl/src/lib.rs", "std/src/console/graphics.rs", "std/src/console/spec.rs"],
  [("the host of the window", "sdl/src/host.rs"), ("the client", "sdl/src/console.rs")],
  technique="exhaustive enumeration of operations, events, ends and failures on the real sdl crate over a stand-in for the desktop library",
  note="Sequences of 2/3 of 53 operations on 4 windows; of 2/3 of 66 events; ends held at the worst moment; 13 calls failing at each of their first 12/30 uses.")
p("Y01", "GPIO commands drive a Raspberry Pi's pins as documented, and release them",
  "With the pins of a Raspberry Pi, GPIO_SETUP, GPIO_READ, GPIO_WRITE and GPIO_CLEAR act on the real lines: an input sees what is connected or its pull, an output drives what was last written, a pin not set up for what is asked is an error, clearing (also CLEAR or ending the interpreter) releases the lines, nothing touches other pins, and unknown pins, pins taken by others and failures of the chip are errors after which everything works again. The bus for displays is opened with the device, clock and mode asked for, or with an error.",
  ["histories", "fault_sequences"], "all sequences of commands, of changes outside and of failures up to a bound",
  "The tests use mock pins, none runs the crate for the hardware.",
  ["rpi/src/gpio.rs", "rpi/src/spi.rs", "std/src/gpio/mod.rs"],
  [("pins", "rpi/src/gpio.rs"), ("bus", "rpi/src/spi.rs")],
  technique="exhaustive enumeration of command and fault sequences on the real rpi crate over a stand-in board",
  note="Sequences of 3/4 of 34 steps.")
