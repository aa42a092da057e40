PREFIX = """
# Design

## What is checked and how

EndBASIC is a BASIC interpreter: a compiler to bytecode and a virtual machine (`core`), a standard library with
consoles, storage, graphics, sound and pins (`std`), an interactive session with an editor (`repl`), a client of a file
sharing service (`client`), a terminal console (`terminal`), a driver of a small LCD (`st7735s`) and the command line
(`cli`). What its users rely on are claims about every program, every sequence of keys, every history of commands and
every fault, and each of those spaces has a natural size parameter. Every property is decided by **bounded exhaustive
exploration of the real code**: all programs, operation sequences, key sequences, schedules or faults up to a size are
generated, each one is executed by the implementation itself, and a monitor compares each observable step with an
independent model (a reference interpreter, a map per array, an ideal line editor, a terminal emulator, a twin console, a
model of the session or of the service). There is no abstraction of the code under test to keep bound to it: the
transitions explored are those of the implementation, and every trace of a model is replayed against it, because the model
and the implementation advance in lockstep through each enumerated history. That is also what the evidence counts: cases,
distinct model states, transitions, and traces validated against the implementation (all of them).

No sampling takes place: cases are numbered by mixed-radix encodings (`engine.rs`: `seq_decode`, `mixed`) and all of
them run; the evidence says `exhaustive: false` if a section could not finish. Nothing depends on a seed.

No hooks are needed in `/repo`: the checks use the public interfaces of the crates (the compiler, the machine, the traits
for consoles, drives, pins, displays and services), the pseudo-terminal and the command line. They only judge what the code
does; nothing looks at the text of the sources, so refactorings stay quiet.

## Machinery

- `run.sh build` compiles the three crates; `run.sh check ID TIER` builds what that check needs from the current tree of
  `/repo` (path dependencies) and runs it. `mc` depends on `core`, `std` and `repl`; `mcx` on `client`, `terminal`, `st7735s`
  and the libraries of `cli` too; `mcw` on `web`, `sdl` and `rpi`. They are compiled with optimizations, debug assertions and overflow checks, so that an
  internal inconsistency is a visible panic.
- `mc/src/engine.rs`: sections of numbered cases run on all cores with a stack of known size, each case within `catch` (a
  panic is a violation) and under a watchdog of 60 s (a hang is a violation; the process reports it and ends). A failure is
  written to `replays/` with the text that reproduces it and printed as `VIOLATION property=<id> replay=<path>`; failures are
  compared by key with `known_findings.jsonl` and printed as `KNOWN-FINDING` if they are listed there.
- `mc/src/lang.rs`: the reference semantics of the language: an independent tokenizer and precedence-climbing parser for
  expressions, a type checker, an evaluator and an interpreter for a syntax tree from which program texts are generated.
- `mc/src/corex.rs`, `machx.rs`: the real virtual machine and the real machine of the standard library with recording
  host functions. Conditions are host functions whose answers are enumerated, so each program is explored over all the paths
  it can take (`explore.rs`).
- `mc/src/scr.rs`: a terminal emulator behind the console trait. `mc/src/gfxx.rs`: the real graphical console on the real
  buffered LCD on a display in memory. `mc/src/gpiox.rs`: pins that record and fail.
- `mcx/src/http.rs`: a recording HTTP server on the loopback interface with scripted answers. `mcx/src/props/svc.rs`: a model of
  the file sharing service with faults before and after each effect. `mcx/src/pty.rs`: pseudo-terminals with an ANSI
  emulator, on which the interpreter runs as a process of its own.
- `mcw/fakes/`: stand-ins for `wasm-bindgen`, `js-sys` and `web-sys` with which the unedited crate `web` builds natively and runs
  in a single thread on a browser in memory: local storage with any order of keys and failures, a canvas that paints pixels,
  an audio device, timers, animation frames, promises and a logical clock. `mcw/fakes/sdl2` and `mcw/fakes/rppal` are the same for the library of the desktop (a window, its
  events, an audio queue, each call of which may fail, and a host that can be held where it looks for events) and for
  that of the Raspberry Pi (a board with its lines and bus). `mcw/src/page.rs` is a visit to the page;
  `refx.rs` is the reference: the interpreter of `std` on a plain in-memory screen.
- `mc/src/scratch.rs`: directories that the checks create and remove; containment checks (S02) run with stand-ins or in a
  scratch directory as an unprivileged user, as what they test is the containment itself.
- `tools/gen.py` writes `properties.jsonl` and `MANIFEST.json` from `tools/props.py`; `tools/design.py` writes this file.
- `known_findings.jsonl`: defects that are listed (JSON lines, with the exact key of the case) and repaired (`fixed:` lines).

## Choice of bounds

The quick tier is the largest bound that stays within seconds (a few tens for the checks that run processes), so that it can
run on every change; the thorough tier is one more level of depth of the same spaces, or more, within 15 minutes on 8 cores. The small
scope is justified per property: defects in this code base that were found (@FIXED@ were repaired, see below) all show within
the quick bounds once the right dimension is enumerated, which is why the effort went into more dimensions rather than more depth.
"""

TEXT = {
"L01": "An independent precedence-climbing parser, type checker and evaluator (`lang.rs`), written from the documentation; the value, its type, the runtime error or the rejection have to agree. Values reach the oracle through a host command that receives any type. Spellings of the same expression have to agree with each other.",
"L02": "A direct interpreter of the syntax tree from which each text was printed. Each condition asks the host, so the order of evaluations is observed as well as the outputs, and every program is explored over every sequence of answers up to the bound, so all of its reachable paths are covered.",
"L03": "A reference interpreter with one environment per activation; after each program all variables that are visible are output and compared.",
"L04": "A reference interpreter with the documented handler rules: outputs, ERRMSG, the line of the last error and how the program ends. The same statement is made to fail in different ways in turn, because a planted bug (l04-stale-errmsg) escaped the first version of the check.",
"L05": "One map per array from subscript tuples to values, plus the declared bounds. All elements are read back after each history, so aliasing shows.",
"L06": "A list of the literals in textual order and an index, with the conversion rules of the targets.",
"L07": "A monitor rather than a model: no panic, no hang, the same verdict twice (the compiler must not depend on hashing), positions within the text. Native stacks are 2 MB so that unbounded recursion shows.",
"L08": "For splits, the unsplit run of the same implementation (a metamorphic oracle), with outputs, ends, positions and variables compared; for histories, a model of the session that knows which declarations and values survive.",
"L09": "An interrupt is delivered at each yield and each blocking call in turn; a monitor bounds the outputs after it; the model knows the variables at each point. Asynchronous operations run under a controlled executor that explores every pattern of pending polls.",
"L10": "The same program without the limit; with it the outputs have to be a prefix followed by the error of the resource, and a handler has to be able to go on.",
"L11": "An independent tokenizer for literals, strings and operators, decimals computed as one exactly rounded quotient; for layouts, the outputs written down for each of the 14 programs.",
"L12": "A matcher of arguments against declarations, written from the documentation of the declarations; it says what the callable must receive (values, separators, positions) and what each variable holds after the callable changed all that it was given references to.",
"L14": "A pushdown automaton over kinds of lines, written from the language's rules and not from the parser: a stack of open blocks with what each already had (guard, ELSE, cases), plus tables of what a name is so far. It says whether the program is right and otherwise which lines can be blamed. The real compiler must agree on both; programs that are accepted and cannot loop for ever are run too, which shows that what was accepted is also executable.",
"L13": "A map of variables per scope with the values that each piece leaves in them; the program shows them with OUT and the host asks for each, by name in several cases, as a scalar and as an array with all subscripts and bad ones, in both scopes.",
"C01": "An ideal line editor (a vector of characters and a position) and a terminal emulator: the returned line, the window shown, the cursor and the history are compared after every key.",
"C02": "The same listing on a console that is not interactive is the expected text; a model counts rows of the real wrapping to decide when a pause is due. The message of the pause itself takes a row, as the tests pin down, so a screenful is one row less than the screen.",
"C06": "A recording console: the calls that it receives are exactly the expected ones, or none and an error.",
"S01": "Drives that record what they are asked for, with an independent parser of paths; and a model of drives, mounts and the current drive, compared as a whole after each operation.",
"S02": "The host's own view of a scratch directory and of everything around it, taken before and after each operation.",
"S03": "A model of the stored program (text, name, modified), of the questions asked and of all files.",
"S04": "A model of PRINT's layout and of INPUT's conversions; and the round trip itself.",
"S05": "Independent definitions over vectors of characters.",
"S06": "Independent definitions (integers in wide arithmetic, elementary functions from the standard library), and for the generator one sequence per seed, learned on first use and required to be the same ever after.",
"S08": "A new session after the same reset answers the same questions: a metamorphic oracle that needs no list of what the state consists of.",
"S09": "A monitor: no panic, no hang, positions inside the text, and the session answers afterwards. Arguments, callables and their syntaxes are read from the metadata of the machine, so new callables are covered.",
"S10": "A scripted clock and host: how long each sleep asks for is compared, as exact integers taken from the bits of the double, with what was written; a model of the clock gives what MONOTONIC must show. The clock that machines have by default is the system's: real sleeps take no less than they say, and the readings span no more than the real time around them.",
"S11": "The exact text of each listing, built from the contents; files before and after.",
"D01": "A model of each demo (the game, the pages, the tones, the pins, the frames and shapes) on a scripted console, clock and pins, with the state of console and pins compared at the end.",
"G01": "Recording pins with a failure mode; a map of pins.",
"G02": "The geometry of each shape: a line has one pixel per step of its longer axis at most half a pixel off; interiors by the scanline definition with the outlines; fills by flood of the picture before. The display in memory is what is compared, so clipping and damage are exercised.",
"G03": "A model that renders cells (character, colors, cursor) to pixels.",
"G04": "A twin console that always syncs, in lockstep.",
"H01": "The metadata of all callables and the texts of the topics, with a model of prefix search.",
"E01": "A model of the editor (lines, cursor, remembered column, view) and a terminal emulator.",
"R01": "A model of the session: code run, variables, stored program and its modified state, files, questions asked, exit code.",
"X01": "A model of the session, of mounted drives and of the service with owners and readers; every request can fail before or after it had its effect.",
"X02": "A model of the conversation.",
"X03": "A recording server on the loopback interface: the request that arrives, decoded independently, and a model of the session; answers of every status and shape, cut at every byte.",
"X04": "The same program at the prompt; exit codes; a server on the loopback interface and a model of the service.",
"X05": "A model of the options, of the console specifications, of the input and of the directory; the interpreter runs as a process.",
"X06": "A model of the panel that decodes the commands on the bus (column and row ranges, memory writes) and the same console on a display in memory.",
"W01": "The same commands in the interpreter with its in-memory drive, dates from the logical clock; what the local storage has to contain is written down in the check, so that a change of the format that loses the programs of today is visible.",
"W02": "The interpreter of `std` on a plain in-memory screen with the fonts, palette and keys of the interface; text is read back from pixels.",
"K01": "For screens: the same console operations on `GraphicsConsole` over an independent plain raster, compared pixel for pixel with what the stand-in window presents. For keys: the documented table of events. For ends and failures: no panic of either thread, the library's objects all released, errors exactly when a call failed. For tones: the square wave of that many samples at 44.1 kHz.",
"Y01": "A board with one line per pin: who holds it, how, what drives it from outside; the model follows the documentation of the commands and every line is compared after each step.",
"W03": "The meaning of time: nothing but the events of a browser with a logical clock drives the page; a stop, a picture or a tone is compared with the moment it was due.",
"T01": "An ANSI terminal emulator behind a pseudo-terminal, compared with the console interface's meaning of the same program.",
}

COST = {
"L14": "quick 6-10 s, thorough 5 min.", "W01": "quick 16 s, thorough 5 min.", "W02": "quick 6 s, thorough 2-3 min.", "W03": "quick 11-30 s, thorough 2 min.", "Y01": "quick 1 s, thorough 26 s.", "D01": "thorough 1 min.",
"X06": "quick 14 s, thorough 30 s.", "T01": "quick 21 s, thorough under 15 min.", "X01": "quick 4 s, thorough 2 min.",
"X02": "quick 8 s.", "X03": "quick 3 s, thorough 31 s.", "X04": "quick 1 s, thorough 5 min.", "X05": "quick 7 s.",
"R01": "thorough 4 min.", "E01": "thorough 8 min.", "L04": "quick 6 s.", "L07": "quick 15 s.", "S05": "quick 6 s.",
}

CAUGHT = {}

SUFFIX = """
## What is not covered, and why

- The SDL console (`sdl`), the web console (`web`) and the pins of the Raspberry Pi (`rpi`) need a display server, a browser
  or hardware that this sandbox does not have; what they share with the rest (the graphical console, the raster
  operations' callers, the pins' callers, the machine) is covered through G01 to G04, C06 and X06. No property is claimed about them.
- Real time (that SLEEP sleeps as long as told, tones) is left to the platform; that the right durations are passed is in S10, and in C06 for sound.
- Crash points of the host: a directory drive writes a file in place, and no claim is made about what a power
  failure leaves. Nothing in the documentation promises more.
- Memory: the heap of the machine is never collected; L10 only says that running out is an error.
- A few behaviours are unspecified and left out of the statements: LOGIN while CLOUD is already mounted by hand, colors of the
  terminal after the interpreter ends, an LCD write that fails in the middle with syncing on, and consoles of a single row in the editor.
- Reading the code also showed things that are suspicious but that no user can observe at present (keywords ignore case over Unicode
  while names do so over ASCII; `nargs()` counts in 8 bits, which the compiler limits first); L10 watches the limits.

## Violations that turned out to be false alarms

While building, several reports were due to the models and not to the code, and the models were corrected: half-open rectangles of
GFX_RECTF; strings that INPUT trims at the end; the END command with a literal code out of range being rejected when compiling;
handlers that stay in force across lines at the prompt; LOAD, CLEAR and NEW ending the piece under way; the terminal's
position after writing into its last column. None of them is listed as a finding.
"""
