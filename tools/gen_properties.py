#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable)."""
import json, os
SD="src/saved_data.rs"; MAIN="src/main.rs"; IH="src/input_history.rs"; VAR="src/variable.rs"; CMD="src/commands.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
        observe_at=observe,hook_needed=None)))
NOTEST="The repository's 66 tests only call the tokenizer, the parser and the number formatting; "
p("H01","A line whose result was shown is saved for good",
  "When a session that uses the saved-data store shows the result or error message of a submitted line (anything but a reported storage failure), that exact line is already saved: every session started later finds it in its backscroll, exactly once and in submission order, until newer lines push it out through the history capacity. This holds whether sessions exit normally, are killed, or the machine loses power at any instant after the result was shown.",
  ["crash_points","histories"],"every sequence of submitted lines (valid, invalid, empty, commands), every kill or power-loss instant after a result is shown, every subset of unsynced writes surviving the power loss",
  NOTEST+"no test opens the store, restarts a session or cuts power; durability quantifies over crash instants and over which unsynced writes survive.",
  [SD,IH,MAIN],[("history append in one transaction, before the result is shown","src/saved_data.rs add_to_input_history; src/main.rs calculate"),("store opened with full syncing","src/saved_data.rs open")],
  ["backscroll (Up key) of a fresh session on the store as it was left by the crash"],
  [("input_history","doubly linked list of saved lines","SQLite table"),("input_history_tags","front and back of that list","SQLite table")])
p("H02","A crash leaves a usable store holding only whole lines",
  "After a kill or power loss at any instant - also during first-time creation of the store, eviction of old lines or a capacity change - the next session starts normally and its backscroll is exactly the previously completed lines in submission order, plus at most the one line each interrupted session had in progress; never a partial, duplicated, reordered or foreign line. Saving, scrolling and evicting then keep working from that state.",
  ["crash_points","histories","fault_sequences"],"every kill / power-loss point inside store creation, line saving, eviction and capacity changes, repeated crashes, and every torn or partial set of unsynced writes",
  NOTEST+"no test exercises the store, let alone stops it between two of its disk operations.",
  [SD],[("all list surgery inside one transaction","src/saved_data.rs add_to_input_history, enforce_history_size_with_transaction, set_max_history_size"),("schema creation inside one transaction","src/saved_data.rs open")],
  ["fresh session after every crash: start-up, backscroll, further lines and evictions"])
p("H03","Saved history keeps exactly the newest lines up to its capacity",
  "The store never holds more saved lines than the history capacity in effect (100 unless changed); when a line would exceed it exactly the oldest lines are dropped, and nothing is dropped while there is room. Changing the capacity takes effect at once and is remembered by later sessions and across crashes, an invalid capacity is refused without any effect, and querying reports the capacity in effect.",
  ["histories","crash_points"],"every sequence of lines and capacity changes (growing, shrinking, invalid, repeated), across sessions and crashes",
  NOTEST+"eviction is never run by a test; it needs long multi-session histories with capacity changes in between.",
  [SD,CMD],[("eviction loop","src/saved_data.rs enforce_history_size_with_transaction"),("capacity setting","src/saved_data.rs set_max_history_size, validate_max_history_size; src/commands.rs HistoryCapacityCommand")],
  ["length and content of a fresh session's backscroll","output of /histcap"])
p("V01","An acknowledged assignment is saved exactly",
  "Once a session using the store shows the result of an assignment, every session started later reads exactly the same rational number for that variable - of any size and denominator, whatever radix, precision or display settings either session uses - until it is reassigned, purged or expires. If a crash or storage failure interrupts the assignment before that, later sessions see completely the old state or completely the new value, never a mixture.",
  ["crash_points","histories","configurations"],"every value (huge, negative, fractional), every combination of radix and display settings in the writing and reading session, every crash or storage-failure point during the assignment",
  NOTEST+"no test stores or reloads a variable.",
  [SD,VAR,"src/syntax_tree.rs"],[("numerator/denominator stored as radix-10 text in one row","src/saved_data.rs set_variable, get_variable"),("assignment written through before the result is shown","src/variable.rs update; src/syntax_tree.rs SyntaxTree::execute")],
  ["value a fresh session prints, in fractional form, for the variable"],
  [("variable_history","saved variables with the line that last used them","SQLite table")])
p("V02","A saved variable lives exactly as long as the last line that used it",
  "A saved variable stays available to later sessions as long as the most recent line that used it (assigned it, mentioned it in an expression, or reloaded it) is still among the saved lines, and is gone once that line has been pushed out (where lines of several sessions overlap, the use that took effect last counts). Purging removes every named variable from the session and from the store before its confirmation is shown, also across crashes, and leaves all other variables alone.",
  ["histories","crash_points"],"every sequence of assigning, using, reloading, purging and unrelated lines around the eviction boundary, with any capacity, across sessions and crashes, and any internal iteration order over the named variables",
  NOTEST+"expiry is an interplay of history eviction, use tracking and the store's cascading deletes that only shows over long multi-session histories.",
  [SD,MAIN,VAR,CMD],[("last_used_by with ON DELETE CASCADE","src/saved_data.rs open"),("use tracking","src/main.rs calculate; src/saved_data.rs touch_variable"),("purge","src/variable.rs purge; src/commands.rs PurgeVarCommand")],
  ["whether fresh sessions know the variable"])
p("V03","A session's variable values change only by its own commands",
  "Once a session has assigned a variable or first read it from the store, every later use in that session gives that same value, whatever other sessions assign, purge or let expire meanwhile, until this session itself assigns, reloads or purges it. Reloading takes the currently saved value of every listed name and leaves names without a saved value unchanged; after a purge the name is unknown to the session unless a value has been saved again since.",
  ["schedules","histories"],"every interleaving of assignments, uses, reloads and purges by several live sessions, any internal iteration order over listed names",
  NOTEST+"no test has two sessions, or even one session with a variable store.",
  [VAR,CMD,"src/syntax_tree.rs"],[("session-local store consulted before the saved one","src/variable.rs get, update, reload, purge"),("/reloadvar, /purgevar","src/commands.rs")],
  ["results of lines that use variables"])
p("M01","Concurrent sessions behave as if steps were applied one at a time",
  "When several sessions use the same store at once then, under every interleaving, saved history, capacity and saved variables evolve as if the lines' steps (save the line, read or write each variable, change capacity) had been applied one at a time in an order consistent with real time. No completed line, assignment, purge or capacity change is lost, duplicated or undone by another session's activity or by another session being killed, and each value read from the store was the saved one at some moment while the reading line ran.",
  ["schedules","histories","crash_points"],"every interleaving, at the level of individual disk and lock operations, of up to four sessions that save lines, set/read/purge variables, change capacity, start, exit and are killed",
  NOTEST+"nothing in the suite runs two sessions; lost updates need particular interleavings.",
  [SD],[("transactions around every read-modify-write","src/saved_data.rs open, add_to_input_history, set_max_history_size"),("SQLite file locking","rusqlite/SQLite pager")],
  ["results shown by all sessions plus fresh sessions afterwards, checked against a sequential model (linearizability search)"])
p("M02","Backscroll: own lines, then the lines saved before the session began",
  "Going back through the history in a session shows, newest first, the lines submitted in that session and then the lines that were saved when the session started; lines that other sessions save later never appear, and going forward again shows the same lines in reverse. If some of the older saved lines are evicted meanwhile the backscroll may end early, but it never skips, repeats or misorders a line.",
  ["schedules","histories"],"every interleaving of scrolling in one session with lines, evictions, capacity changes and crashes in others",
  NOTEST+"no test drives the input history.",
  [IH,SD],[("lazy walk from the list front remembered at start","src/saved_data.rs get_prev_input_history"),("two-part in-memory history","src/input_history.rs")],
  ["line on the screen after each Up/Down key"])
p("M03","Sharing the store never makes a session fail or hang",
  "A session start or a submitted line is never refused merely because other sessions are using the store at that moment: provided each of them finishes its own store access well within five seconds, it succeeds within a bounded time (unless its own freshly saved line was already pushed out by others). A killed session never leaves the store locked or unusable for the others.",
  ["schedules","crash_points"],"every interleaving of starting, working and killed sessions, including simultaneous first-time creation, with bounded per-operation delays",
  NOTEST+"contention needs two processes and a particular overlap of their transactions.",
  [SD],[("lock-waiting (busy timeout) and the transaction mode it applies to","src/saved_data.rs open, add_to_input_history, set_max_history_size")],
  ["start-up and line outcomes and their simulated duration"])
p("E01","A storage failure is reported for its line and contained to it",
  "If anything a line has to save or read cannot be (I/O error, failed sync, full disk, unreadable or unopenable file), the session shows an error for that line and never a normal result; a normal result therefore means everything the line had to save is saved, and a line that could not be saved itself has no other effect. The session then keeps running with its own history, variables and settings, the store stays consistent, and once the storage works again further lines are saved normally.",
  ["fault_sequences","histories"],"every storage operation of every line failing in every way (transient or lasting), and everything done afterwards",
  NOTEST+"no test injects a storage error.",
  [MAIN,SD,VAR,IH],[("errors propagated, shown as a runtime error, loop continues","src/main.rs interactive_calc, calculate"),("save the line first, evaluate afterwards","src/main.rs calculate")],
  ["output of the failing line, of later lines, and fresh sessions afterwards"])
p("E02","Without a store nothing is read or written",
  "With the store disabled by option or not configured in the environment, and whenever a single expression is passed by option, no file or directory is created, read or written. Interactive history and variables then work normally within the session, commands that need the store report it as unavailable without side effects (as /help says of them, and only then), and everything else behaves the same as with a store.",
  ["configurations","histories"],"every session script under every way of having no store, alongside sessions that do use one",
  NOTEST+"tests never start a session in any configuration.",
  [MAIN,SD,CMD,VAR,IH],[("optional store threaded through all calls","src/main.rs; src/commands.rs MissingCapabilityError")],
  ["count of storage operations at the simulated disk and directory calls","session outputs"])
p("T01","The terminal is given back on every exit",
  "However an interactive session ends - exit key, failing store, unusable terminal, too narrow window, or an I/O error at any terminal or storage operation - raw mode is switched off and, if it was entered, the alternate screen is left. An exit key always ends the session with success - the cursor on a row of its own and, after the alternate screen, the normal one as it was - and a failure always ends it with a reported error.",
  ["fault_sequences"],"an error at every single terminal read, write, size or cursor query and storage operation, in both screen modes, at every moment of a session, and every exit key at every moment",
  NOTEST+"the interactive loop is only compiled, never run.",
  [MAIN],[("single exit path around the interactive loop","src/main.rs main, interactive_calc")],
  ["raw-mode switch, alternate-screen sequences and exit status at the simulated terminal"])
p("T02","The evaluated line is exactly what the keystrokes spell",
  "For every sequence of key events, interleaved with window resizes, the line evaluated on Enter is the one the documented editing keys spell: insertion at the cursor, Backspace/Delete, Left/Right by one or (with Control or Shift) by fifteen, Home/End, jump to the matching parenthesis, Shift for upper case, unknown keys and combinations ignored. The cursor never leaves the line, and each line starts empty.",
  ["inputs","histories","schedules"],"every key/resize sequence, in inline and alternate-screen mode and in any window width that is not too narrow",
  NOTEST+"no test sends a key event.",
  [MAIN,IH],[("event loop","src/main.rs interactive_calc"),("line editing","src/input_history.rs insert_char_into_current_line, remove_char_from_current_line")],
  ["the submitted line as echoed, evaluated and saved"])
p("T03","The screen shows the line being edited and the cursor in it",
  "Whenever the session waits for input, the screen shows the current line and the cursor stands on the character it will act on: inline as one row holding a window of the line that contains the cursor, with a mark on each side that has hidden text and only there; in the alternate screen wrapped over as many rows as needed. On Enter the whole line is left on the screen, wrapped, its output beginning on the next row; typing, editing and scrolling leave what is above the line as it was; and this holds after any sequence of keys and resizes that leaves the window wide enough.",
  ["inputs","histories","schedules"],"every key/resize sequence, line length, cursor position and window width that is not too narrow, while the text fits the screen height",
  NOTEST+"no test looks at terminal output.",
  [MAIN],[("redraw with scrolling or wrapping","src/main.rs interactive_calc")],
  ["cells and cursor of a terminal emulator fed with the program's output bytes"])
p("T04","Editing recalled lines never alters the history",
  "A recalled line can be edited and submitted as a new line; edits to recalled lines are kept while moving up and down during the composition of one line, and after Enter every earlier line reads again exactly as it was submitted, both in this session and in later sessions. The submitted text is appended as a new newest line, and composition restarts from an empty line.",
  ["inputs","histories"],"every mix of scrolling, editing any number of recalled lines, and submitting, over own and saved lines, across sessions",
  NOTEST+"the input history type has no tests.",
  [IH,MAIN],[("primary histories plus a sparse editable copy","src/input_history.rs")],
  ["lines shown while scrolling, in this and in later sessions"])
p("T05","No line, key or resize brings the session down",
  "Whatever text is submitted, in whatever settings and after whatever history, the session answers with a result or an error message and prompts again (as far as the numbers it asks for are small enough to be computed and its parentheses are not nested thousands deep); likewise after every key event and every resize that leaves the window wide enough. A session ends only through an exit key, a failing terminal, a failing read of saved lines, or a window that is too narrow, and then in an orderly way.",
  ["inputs","histories","configurations","fault_sequences"],"every submitted line (well-formed or not), all settings allowed by options and commands, all key and resize sequences, with and without storage faults",
  NOTEST+"they sample a few dozen expressions and no commands, settings or events; a crash needs a particular value, setting or width.",
  [MAIN,"src/operations.rs","src/syntax_tree.rs","src/token.rs",CMD],[("errors as values rather than panics","throughout"),("window width checks","src/main.rs interactive_calc")],
  ["session still prompting after every line and event"])
p("C01","Settings last for the session and change only by their own command",
  "Each setting (radix, output radix, fractional, commas, upper case, precision and extra precision) keeps the value given on the command line until this session's matching command changes it; querying reports the value in effect and following lines are read and shown accordingly. Invalid values are refused without effect, a line that could not be saved changes no setting, and settings are neither shared with other sessions nor carried over to later ones.",
  ["histories","schedules","fault_sequences"],"every sequence of setting commands, queries and lines in several interleaved sessions, with storage failures on some lines",
  NOTEST+"no test runs a command or keeps settings over more than one expression.",
  [CMD,MAIN],[("argument struct mutated by commands","src/commands.rs *Command::execute"),("input saved before the command runs","src/main.rs calculate")],
  ["outputs of setting queries and of probe lines"])
p("C02","Stores of newer versions are refused untouched; older ones are kept",
  "A store that declares it needs a newer program version makes start-up fail with an error and is left exactly as it was, under every crash or storage failure as well. A store in the present format written earlier, or by a newer version that declares it usable for this one, is opened and works, with all of its content intact: any history, variables and capacity, and what the other version declared.",
  ["configurations","crash_points","fault_sequences"],"every version declaration, store content and crash or failure point during start-up",
  NOTEST+"no test opens a store.",
  [SD],[("version gate inside the opening transaction","src/saved_data.rs open")],
  ["start-up outcome and store content before and after"])
p("R01","A line's answer depends only on the line, the settings and the variables",
  "In an interactive session the answer shown for a line is the one a new session gives for the same text with the same settings in effect and the same values of the variables the line mentions. Nothing else changes it: not earlier lines (evaluated, refused or failed), recalled or edited history, resizes, the presence of a store, other sessions, or storage failures that the line itself did not meet.",
  ["histories","schedules","fault_sequences"],"every sequence of lines of all kinds, in one or several interleaved sessions, with and without a store, with storage failures on other lines",
  NOTEST+"each of them evaluates single expressions in a new tokenizer and tree; none evaluates a line after other lines.",
  [MAIN,CMD,"src/syntax_tree.rs","src/variable.rs"],[("line evaluated from its text, the argument struct and the variable store only","src/main.rs calculate")],
  ["answers shown, compared with those of reduced sessions"])
p("I01","A single expression is answered as in a session, whatever is around it",
  "With a single expression passed by option, the program prints the answer an interactive session with the same options gives for that text - results on standard output, error messages on standard error, nothing else - and ends with success. It neither uses nor changes the terminal, and the answer does not depend on the terminal, the data directory, the saved data, or sessions running at the same time. (Variables and the commands about saved data may be refused in this mode, and help may list fewer commands.)",
  ["configurations","schedules","fault_sequences"],"every text and option set, under unusable terminals and stores of any kind and next to running sessions",
  NOTEST+"no test runs the program with the option.",
  [MAIN,CMD],[("option handled before any terminal or store access","src/main.rs main")],
  ["standard output, standard error, terminal and storage operations of the process"])
# ---- not decidable by this family (pure functions of their input) ----
p("A01","Exact rational arithmetic",
  "Every expression of + - * / %, integer powers, abs, min and max over finite numbers evaluates to the exact rational value, at any size; division or remainder by zero and zero to a negative power are errors.",
  ["inputs"],"all expressions","They sample a few values; exactness quantifies over all operands.",
  ["src/syntax_tree.rs","src/operations.rs"],[("BigRational arithmetic","src/syntax_tree.rs BinaryNode::execute")],["result of a line"])
p("A02","Roots are accurate to the configured precision",
  "Every real root or fractional power that is not exact differs from the true value by less than one unit of the last digit of precision plus extra precision in the current radix; roots that do not exist over the reals are errors.",
  ["inputs","configurations"],"all radicands, degrees, radixes and precisions","A handful of roots in base 10 are sampled.",
  ["src/operations.rs"],[("Newton iteration with error bound","src/operations.rs exponentiate")],["result of a line"])
p("A03","Number formatting",
  "The printed form of a number is its value rounded half away from zero to the configured digits in the output radix, with trailing zeros shown only when rounded, correct sign, grouping and letter case; fractional mode prints numerator and denominator in lowest terms.",
  ["inputs","configurations"],"all values, radixes, precisions and flags","Sampled values only.",
  ["src/operations.rs"],[("make_decimal_string","src/operations.rs")],["output of a line"])
p("A04","Grammar: precedence, associativity, unary minus, functions",
  "Every token sequence is parsed according to the fixed precedence (power, remainder, multiply/divide, add/subtract; left associative), unary operators bind to the next operand, and malformed input yields an error naming the problem.",
  ["inputs"],"all token sequences","Sampled expressions only.",
  ["src/syntax_tree.rs","src/token.rs"],[("operand/operator list reduction","src/syntax_tree.rs read_expression")],["result or error of a line"])
p("A05","Number literals in every radix",
  "A literal is read in the input radix with optional point and underscores anywhere, digits outside the radix are errors, and the value is exact.",
  ["inputs","configurations"],"all literals and radixes","Sampled literals only.",
  ["src/token.rs"],[("tokenize_on_multichar_end","src/token.rs")],["result or error of a line"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
