#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; `python3 tools/mkprops.py` rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
SI = "ogma-shell/interface/"

prop("C01", "Editing the input line is exact sequence editing at the cursor",
 "For every history of edits the input line equals what ideal sequence editing gives: inserting a character or string puts it at the cursor and leaves the cursor after it, backspace removes exactly the character before the cursor, delete exactly the one after it, both do nothing at the respective end, and clear leaves an empty line with the cursor at 0. No edit alters, reorders or loses any other character, for any Unicode text. The 'changed' mark is set whenever the text has been altered since it was last reset, and a reset line that is not edited stays unmarked.",
 ["histories", "inputs"], "every sequence of insert / insert string / backspace / delete / clear / move / reset-changed operations over any characters",
 "The tests sample one ASCII string and a dozen edits; the property is about every edit history (cursor in the middle, at either end, multi-byte characters, edits after moves).",
 [SI+"input.rs"], [("InputBuffer insert/insert_str/backspace/delete/clear", SI+"input.rs")],
 [("buf", "characters of the line", SI+"input.rs"), ("pos", "cursor, in characters", SI+"input.rs"), ("buf_changed", "text changed since last draw", SI+"input.rs")],
 ["InputBuffer::buffer", "InputBuffer::chars", "InputBuffer::ch_pos", "InputBuffer::buffer_changed"])

prop("C02", "Cursor stays inside the line and moves by exact characters and words",
 "After any history the cursor lies between 0 and the line's length, its byte position is exactly the UTF-8 length of the text before it, and moving never alters the text. Moving by n characters goes exactly n, clamped at the ends; moving by a word, in either direction, first skips characters that are not word characters (alphanumeric, '-' or '_') and then goes past the whole adjacent run of word characters, and no further.",
 ["histories", "inputs"], "every edit/move history, every Unicode line, every step size",
 "Word movement is tested on two ASCII strings forwards only; byte position is not tested at all, and multi-byte lines never appear.",
 [SI+"input.rs"], [("move_left/move_right/move_start/mv_magnitude, buf_pos", SI+"input.rs")],
 [("pos", "cursor, in characters", SI+"input.rs")], ["InputBuffer::ch_pos", "InputBuffer::buf_pos"])

prop("C03", "Command history keeps the latest 100 lines and cycles through them in order",
 "The history always holds the most recent lines entered, in entry order, at most 100 of them with the oldest dropped first. Going back from the resting position offers the newest line, then successively older ones, and past the oldest returns to the resting position where nothing is offered; going forward is the exact inverse, starting from the oldest. Entering a line always returns to the resting position.",
 ["histories"], "every history of add / back / forward, of any length",
 "One test drives three lines by hand and another only counts 1000 identical lines, so it cannot see which lines were kept, their order, or navigation at or beyond the limit.",
 [SI+"history.rs"], [("History::add/back/fwd/current", SI+"history.rs")],
 [("items", "remembered lines", SI+"history.rs"), ("idx", "navigation position", SI+"history.rs")], ["History::current"])

prop("C04", "Suggestions on offer always belong to the current request",
 "Whatever the timing of the suggestion sources, the suggestions on offer only ever come from the most recent request: none computed for a superseded request ever appears, and once the suggestions are dismissed (reset) nothing appears until a new request is made. A new request or a dismissal immediately clears the suggestions and the selection.",
 ["schedules", "histories"], "every interleaving of requests, dismissals, receives and the running times of every suggestion source",
 "The only completion test covers the word splitting helper; the races between the engine thread, the per-source threads and the receiver are never exercised, and shell tests wait 20 ms for a fast source.",
 [SI+"completions.rs"], [("changeset filter in recv; reset", SI+"completions.rs")],
 [("changeset", "number of the current request", SI+"completions.rs"), ("items", "suggestions on offer", SI+"completions.rs")],
 ["Completions::items", "Completions::has", "Completions::highlighted"])

prop("C05", "Cycling suggestions replaces exactly the typed word and can restore it",
 "Selecting suggestions next/previous walks through all of them in order and then the unselected position, cyclically and inversely to each other. At every step, replacing the reported number of characters at the reported word position with the reported text yields the original line with exactly the typed word part (from the word start to the cursor) substituted by the selected suggestion, and at the unselected position the original line is back, for any Unicode text and suggestion lengths.",
 ["histories", "inputs"], "every line, cursor position, list of suggestions and sequence of next/previous, including suggestions that arrive while one is selected",
 "No unit test in the built part touches selection or replacement; shell tests walk one ASCII list in one direction.",
 [SI+"completions.rs", SI+"mod.rs"], [("highlight_next/highlight_prev/replace_with/word_pos", SI+"completions.rs"), ("mv_completions", SI+"mod.rs")],
 [("highlighted", "selected suggestion", SI+"completions.rs"), ("replace/start_pos/ins_len", "typed word, where it starts and the length now in its place, in characters", SI+"completions.rs")],
 ["Completions::highlight_next", "Completions::highlight_prev", "Completions::word_pos", "Completions::highlighted"])

prop("C06", "The latest request is answered by every source, once, with its first ten items",
 "If requests stop, every suggestion source is eventually asked about the latest request exactly once, however slow or fast the sources are, and everything it answers becomes available to the receiver: the first ten of its suggestions, in its order, with their kinds, exactly once. One source being slow, stuck or answering nothing never holds back the answers of another, and no source is ever asked about the same request twice or about an older request after a newer one.",
 ["schedules"], "every schedule of requests against engine and source threads; any number of sources and items",
 "No test covers the engine threads; which request is dropped or forwarded depends on timing the tests do not control.",
 [SI+"completions.rs"], [("run_engine (superseded requests dropped when the queue is not empty), loop_completer (truncate to 10)", SI+"completions.rs")],
 [("request queue / per-source queues / package channel", "messages in flight", SI+"completions.rs")],
 ["Completer::complete calls", "Completions::recv", "Completions::items"])

prop("C07", "Suggestion sources see the current line, cursor and exact word start",
 "Each request hands every source the whole line as it stood at the request, the cursor's byte position and the byte position where the word under the cursor starts. The word start is the position just after the last separator (space, tab, newline, carriage return, '.', '/' or '\\\\') before the cursor, or the start of the line, except that with the cursor directly in front of a separator it is the cursor itself. It is never past the cursor, both positions are valid character boundaries, and the reported word position of the suggestions is that same place counted in characters.",
 ["inputs", "histories"], "every Unicode line and cursor position, reached by any edit history",
 "The word-start test tries seven ASCII pairs and the request path that feeds it is untested.",
 [SI+"completions.rs", SI+"input.rs"], [("request, word_start", SI+"completions.rs")],
 [("Request{input,cursor_pos,word_pos}", "what a source is asked", SI+"completions.rs")],
 ["arguments of Completer::complete", "Completions::word_pos"])

prop("C08", "Terminal input reaches the shell completely, in order, with its modifiers",
 "Every key press and every resize read from the terminal is delivered to the shell exactly once, in the order it happened and with its key and modifiers unchanged, no matter how polls interleave with arrivals; mouse and other terminal reports are skipped without disturbing the events around them. A poll never blocks: it ends the batch when nothing is pending, and later events are still delivered.",
 ["schedules", "inputs", "histories"], "every stream of terminal input and every interleaving of arrival and polling",
 "The file is compiled but has no test.",
 [SI+"events.rs"], [("Events::new reader thread, Event::convert_xt, Iterator::next", SI+"events.rs")],
 [("Events", "channel of pending events", SI+"events.rs")], ["Events iterator fed by a pseudo terminal"])

prop("C09", "Themes recolour only: even themes are identity, odd ones the light palette",
 "For every theme number and style, an even theme returns the style unchanged, and an odd theme only maps foreground and background colours through the fixed light palette (white to black, magenta to light magenta, light cyan to cyan, light red to red, yellow and light yellow to the two dark oranges, the light grey help text to dark grey, every other colour unchanged). Absent colours stay absent, text modifiers are never altered, and foreground and background are treated independently.",
 ["inputs"], "every theme number 0..255, every colour pair (named, indexed, RGB, absent) and every modifier set",
 "The file has no test; a wrong entry only shows on screen in one theme.",
 [SI+"theme.rs"], [("Style::theme, Light::colour", SI+"theme.rs")], (), ["Theme::theme"])

prop("C10", "Command line arguments are understood as documented, whole and in order",
 "For every argument list, the quiet switch is on exactly when -q/--quiet is given, the definition patterns are exactly the --def values in the given order (absent when none), and the files are exactly the remaining arguments in the given order; interleaving them differently never changes each list. Arguments after '--' are files even if they look like options, values are taken verbatim, and unknown options, a repeated quiet switch, and --def when no --def has a value are rejected rather than misread.",
 ["inputs", "programs"], "every argument vector made of the options (in all their spellings), values and files",
 "Seven fixed vectors are tested; none mixes quiet with definitions and files, interleaves them or uses '--'.",
 ["bin/app.rs"], [("clap derive App", "bin/app.rs")], [("App{quiet,def,files}", "parsed command line", "bin/app.rs")], ["App::try_parse_from"])

prop("C11", "Enter evaluates exactly the line shown, once, and records it",
 "Each Enter in the shell evaluates exactly once exactly the text of the selected tab's input line as it stood when Enter was pressed, clears the line and the suggestions, and appends the line to that tab's history. The result's output, prompt, title and completion changes are applied to that tab only; if the evaluation panics the shell survives and the tab is usable again. Keys handed over in the same batch after the Enter act once the evaluation is over; keys pressed while it runs, other than Ctrl+x, may be dropped.",
 ["histories", "schedules"], "every sequence of keys, however it is split into input batches, with any evaluation result",
 "Shell tests press Enter on its own after waiting; typed-ahead input, several Enters in one batch, and several tabs are not exercised.",
 [SI+"mod.rs"], [("events_cycle, process_event, eval, TabState::update", SI+"mod.rs")],
 [("TermState/TabState", "tabs, selection, input, outputs, history", SI+"mod.rs")], ["on_enter_press calls", "terminal screen"])

prop("C12", "Every key acts per the key table and the screen shows the resulting state",
 "After every batch of key events the selected tab's state is the one the documented key table gives for that key sequence (editing, cursor, history, completion, scroll, theme, help and tab keys), independent of how the sequence was split into batches. The screen then shows that tab's prompt and input line with the terminal cursor at the insertion point, its newest outputs first, and the tab strip with the selected tab, as far as the terminal's size allows; on any terminal at least 2 columns wide drawing never crashes.",
 ["histories", "inputs"], "every key sequence and every splitting of it into batches",
 "About twenty golden-screen tests sample a few keys each, one batch per string.",
 [SI+"mod.rs", SI+"input.rs", SI+"history.rs"], [("process_event / mv_cursor / mv_history / mv_completions / draw_frame", SI+"mod.rs")],
 [("EventResult", "what a batch leads to", SI+"mod.rs")], ["backend screen buffer and cursor"])

prop("C13", "Tabs are independent; closing one keeps the rest and closing the last ends",
 "Keys only ever affect the selected tab: every other tab keeps its line, cursor, history, outputs, title and prompt. A new tab starts fresh and is selected, Tab selects the next tab cyclically, closing removes exactly the selected tab and leaves a remaining tab selected, and closing the last one ends the shell without a crash, whatever further events are already pending.",
 ["histories"], "every sequence of tab operations interleaved with any other keys, in any batches",
 "One golden test opens two tabs and switches; closing is never tested.",
 [SI+"mod.rs"], [("new_tab/switch_tab/quit_tab, events_cycle", SI+"mod.rs")],
 [("tabs, tab_selected", "open tabs and the selected one", SI+"mod.rs")], ["backend screen buffer", "run() returning"])

prop("C14", "Output log keeps the newest 100 results, newest first, scroll in bounds",
 "The output area always shows the results of the evaluations of its tab newest first, at most the 100 newest, each complete and in its own line order. Scrolling moves by exactly the documented number of lines and is clamped to the content in both directions, a new result scrolls back to the newest one, and resizing re-wraps every result without losing any text.",
 ["histories", "inputs"], "every history of results, scroll and resize operations",
 "One test scrolls through 13 lines; the limit and resizing are untested.",
 [SI+"outputs.rs", SI+"mod.rs"], [("Outputs::add/scroll/update_width/as_paragraph", SI+"outputs.rs")],
 [("items, scroll", "results and scroll offset", SI+"outputs.rs")], ["backend screen buffer"])

prop("C15", "Cancelling: Ctrl+x reaches exactly the running evaluation",
 "While an evaluation runs, Ctrl+x pressed during it turns on that evaluation's cancel flag; no other key does, and without Ctrl+x the flag stays off (other keys pressed meanwhile may be dropped). The flag of one evaluation never affects a later one, and the shell stays in the evaluating state until the evaluation returns.",
 ["schedules", "histories"], "every sequence of keys during and between evaluations of any duration",
 "No test presses a key during an evaluation.",
 [SI+"mod.rs"], [("eval: break event and switch", SI+"mod.rs")], [("Cancelled switch", "per evaluation", SI+"mod.rs")], ["Cancelled seen by on_enter_press"])
E = "ogma/src/"
prop("C20", "A pipeline's value is that of feeding each block's output to the next",
 "For every well-formed expression the result is the one the language reference gives: blocks run left to right, each on the previous output, sub-expressions (braced, trailing or dotted) see the input of the block they sit in, arithmetic folds left to right over all arguments (with the input first where documented), and trailing shorthand and parenthesised forms of the same expression agree. Evaluating the same expression twice on the same input gives the same result.",
 ["programs", "inputs"], "every expression over the core commands and every input",
 "Command tests fix one expression each; composition, nesting and equivalence of forms are not covered.",
 [E+"eng/eval.rs", E+"eng/step.rs", E+"eng/arg.rs", E+"lang/impls/intrinsics/arithmetic.rs", E+"lang/syntax/parse/mod.rs"], [("Compiled evaluation stack; Context; Step", E+"eng")], (), ["process_w_env / process_w_nil result"])
prop("C21", "Conditionals evaluate only the chosen branch; and/or short-circuit",
 "'if' evaluates its conditions in order and then only the expression of the first true one (or the else expression), and 'and'/'or' stop at the first deciding argument; a branch or argument that is not reached is never evaluated, so its runtime errors never surface. The chosen result is returned unchanged.",
 ["programs", "inputs"], "every nesting of if/and/or over true, false, failing and value-producing sub-expressions",
 "Tests use literal branches without effects or failures.",
 [E+"lang/impls/intrinsics/logic.rs", E+"lang/impls/intrinsics/pipeline.rs"], [("if_intrinsic, and/or", E+"lang/impls/intrinsics")], (), ["result value or error"])
prop("C22", "Variables resolve to the nearest enclosing binding and never leak",
 "A variable always has the value bound by the nearest 'let' in scope at that point: later bindings shadow earlier ones, bindings inside a sub-expression are invisible outside it and a definition's body sees only its own parameters, never the caller's variables. Reading an unbound variable is reported before anything is evaluated, and every call or row gets its own bindings, so no value leaks between rows, calls or recursive uses.",
 ["programs", "histories"], "every nesting of let, sub-expressions, definitions and row-wise evaluation",
 "Tests check a handful of let forms; scoping across nesting, shadowing and parallel rows is not enumerated.",
 [E+"eng/var.rs", E+"eng/eval.rs", E+"eng/graphs/locals_graph.rs", E+"lang/impls/intrinsics/pipeline.rs"], [("Locals/Environment slots, seal, make_mut", E+"eng/var.rs")], (), ["result value or error"])
prop("C23", "Definitions: registry never loses built-ins and dispatches by input type",
 "After any history of defining, redefining and clearing, every built-in still exists with its behaviour, a name given with an input type is used exactly for that input type and the untyped one for every other, the newest accepted definition wins, and clearing removes exactly the user's definitions (only file-loaded ones when asked so). A rejected definition, for whatever reason, leaves every existing definition working exactly as before.",
 ["histories", "programs"], "every history of def, def-ty, clear, list and calls",
 "Tests define one thing at a time and never check what a failed or repeated definition does to the rest.",
 [E+"lang/defs.rs", E+"lang/impls/mod.rs", E+"lang/types.rs"], [("Definitions::insert/clear, Implementations, process_definition", E+"lang")], (), ["results of calls and of def --list"])
prop("C24", "Calling a definition equals evaluating its body with parameters bound",
 "A call to a user definition yields what its body yields with each plain parameter bound to the value its argument has in the caller's scope at the call and the call's input as input; an expression parameter is evaluated where the body uses it, on the input there. A wrong number of arguments, and a wrong type of an argument the body uses, is reported when compiling, never by a wrong value; an argument whose parameter is never used need not be evaluated.",
 ["programs", "inputs"], "every definition with eager, typed and expression parameters, and every call site",
 "Tests cover a few fixed definitions.",
 [E+"eng/comp/params.rs", E+"eng/blk.rs", E+"eng/arg.rs", E+"lang/impls/mod.rs"], [("inline of Definition bodies; callsite params", E+"eng/comp")], (), ["result value or error"])
prop("C25", "Values have the type that compilation promised",
 "If an expression compiles, evaluating it never fails with a type mismatch on the types it was compiled against and the value has the type the compiler inferred; adding a correct type annotation never changes the result and a wrong one is rejected before evaluation.",
 ["programs", "inputs"], "every expression accepted by the compiler and every input of the declared type",
 "Each command test samples a type or two.",
 [E+"eng/comp/mod.rs", E+"eng/comp/infer.rs", E+"eng/graphs/tygraph.rs", E+"lang/types.rs"], [("type graph, inference, Step out type", E+"eng")], (), ["typify output versus evaluated value"])
prop("C26", "Table commands transform rows exactly, in order, sequential or parallel",
 "filter keeps exactly the rows whose predicate holds, map and append compute each row's new cell from that row alone, fold visits rows first to last, sort is a stable permutation, take/skip/rev/ls/grp/dedup act on exactly the rows they name; the header, the untouched cells and the row order are preserved, and the result is the same however the rows are divided over threads.",
 ["inputs", "schedules"], "every table (any rows, columns, empty cells) and row expression",
 "Tests run each command on one 3-row table, far below any parallel split.",
 [E+"lang/impls/intrinsics/morphism.rs", E+"lang/impls/intrinsics/pipeline.rs"], [("morphism commands, rayon row iteration", E+"lang/impls/intrinsics/morphism.rs")], (), ["resulting table"])
prop("C27", "Values are immutable: no use of a value changes it elsewhere",
 "Binding, passing or reusing a table or string and then transforming it never changes what any other holder sees: every variable, parameter and cached file keeps its value until rebound, in any order of uses.",
 ["programs", "histories"], "every program that shares a value between several uses, including copies taken from the file cache",
 "Tests never look at a value again after transforming it.",
 [E+"rt/fscache.rs", E+"lang/types.rs", E+"lang/impls/intrinsics/morphism.rs"], [("Arc copy on write", E+"lang/types.rs")], (), ["results of later uses"])
prop("C28", "A batch runs definitions first, in order, then reports one outcome per item",
 "Processing a batch processes type definitions in file order, then implementations in file order, then the expressions, each at most once, and returns exactly one outcome per item in item order. An item's outcome depends only on the item and the definitions, not on other expressions or on whether they run in parallel, and the caller's definitions are left as they were.",
 ["schedules", "inputs"], "every list of items (any mix and order), parallel or not, any thread count",
 "Four fixed batch files are tested, one per flag.",
 [E+"rt/bat.rs"], [("process, process_par, process_seq", E+"rt/bat.rs")], [("outcomes", "one per item", E+"rt/bat.rs")], ["bat::process outcomes"])
prop("C29", "Fail-fast and cancellation stop a batch without losing what ran",
 "With fail-fast, once an item has failed no item that starts afterwards runs, and items that did not run are reported as outstanding, never as succeeded or failed; without it every item runs whatever fails. Once the batch is cancelled no further item starts, and every completed item keeps its real outcome.",
 ["schedules", "fault_sequences"], "every placement of failures and of the cancellation among the items, every schedule of the workers",
 "One test has a single failing item; cancellation is untested.",
 [E+"rt/bat.rs"], [("stop check before each item", E+"rt/bat.rs")], [("cancel switch, failure flag", "stop conditions", E+"rt/bat.rs")], ["bat::process outcomes"])
prop("C30", "Batch and definition files split into exactly their items, at their lines",
 "A file is split into its directives and its items exactly at blank lines: every item carries precisely its own source text and the line it starts at, the comment lines directly before an item are its description, never part of it (a comment line further down in an item is), and never swallow one, and type definitions, implementations and expressions are classified by their leading keyword. A comment on its own is no item. Reading a file and any re-spacing of it with extra blank lines gives the same items.",
 ["inputs"], "every sequence of directives, comments, blank lines and multi-line items, with any newline style",
 "Tests parse a dozen fixed files.",
 [E+"lang/syntax/parse/file.rs"], [("file parser", E+"lang/syntax/parse/file.rs")], (), ["Batch/File items"])
prop("C31", "Opening a file gives its current content even though it is cached",
 "Opening a data file yields the content the file has when it is opened, provided the last change was reported by the operating system before; a file is read again after it changed and never mixed up with another file, and repeated opens of an unchanged file give equal tables.",
 ["schedules", "histories"], "every interleaving of opens, external writes, change notifications and cache expiry",
 "One test opens the same file twice.",
 [E+"rt/fscache.rs", E+"lang/impls/intrinsics/io.rs"], [("FSCACHE get/insert/watch", E+"rt/fscache.rs")], [("cache", "path to table with lifetime", E+"rt/fscache.rs")], ["result of open"], "cfg(ogma_verif) re-export, if black-box opens are too slow")
prop("C32", "Saving never writes outside the root",
 "Whatever path a program gives, 'save' only ever creates or overwrites the named file below the root directory; a path that would leave the root by absolute or parent components is refused and nothing is written.",
 ["inputs", "configurations"], "every path over '.', '..', absolute and nested components, every working directory below the root",
 "Tests try two paths.",
 [E+"lang/impls/intrinsics/io.rs"], [("component fold in save", E+"lang/impls/intrinsics/io.rs")], (), ["files below and outside the root"])
prop("C33", "Parsing and compiling never crash and point inside the source",
 "For every input text, processing terminates without a panic, with a value or an error, and every error trace refers to a valid range of the source it quotes.",
 ["inputs", "programs"], "every byte string, in particular every prefix and mutation of valid programs",
 "Parser tests assert fixed messages for fixed inputs.",
 [E+"lang/syntax/parse/mod.rs", E+"common/err.rs", E+"eng/comp/mod.rs"], [("nom parsers, Error/Trace", E+"lang/syntax")], (), ["result or error of processing"])
prop("C34", "Partition tree: every item is found under its path and only there",
 "After any history of extending a partition tree with partitions, types and implementations, every item added is found under exactly its path and partition, no two items share a path and kind, every node's parent chain ends at the root, and a refused extension leaves the tree as it was.",
 ["histories"], "every history of extensions over nested paths",
 "A few fixed trees are tested.",
 [E+"lang/defs2/partitions/mod.rs"], [("Partitions::extend_*", E+"lang/defs2/partitions")], (), ["Partitions queries"], "cfg(ogma_verif) re-export of the crate-private module")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
