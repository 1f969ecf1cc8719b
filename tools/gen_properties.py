#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids/titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

J, JM, PP, AP = "jom/jom.go", "jom/json_map/json_map.go", "jom/json_map/json_path_parse.go", "jom/json_map/absolute_paths.go.go"
JS, GO, CODE, RUN, CLI, GL, ER = "code/js/js.go", "code/go/go.go", "code/code.go", "code/run.go", "json-dom.go", "globals/const.go", "globals/error.go"

prop("C01", "Loading and marshalling preserves every document",
 "For every JSON text whose root is an object or an array, loading it and marshalling it back gives JSON of equal value with the same kind of root, and the same value written with Hjson's liberties (comments, unquoted keys and strings, multi-line strings, omitted commas and root braces) loads to the same document. Text that is not valid Hjson, or whose root is neither an object nor an array, is rejected with an error and never a panic, whether the receiving document object is new or has been loaded before.",
 ["inputs"], "all JSON/Hjson texts, well formed or not; fresh and reused document objects",
 "The tests load a dozen fixed files; no test round-trips arbitrary values, array roots with odd contents, malformed text or a reused object.",
 [J], [("Unmarshal/Marshal and the root-array wrapper", "jom/jom.go Unmarshal, Marshal")], observe=["JsonMap.Unmarshal", "JsonMap.Marshal", "JsonMap.IsArray"])

prop("C02", "The printed text of a document reloads to the same document",
 "For every document (object or array root, any strings and keys, including multi-line script source), the Hjson text obtained by converting the document to a string can be loaded again and gives a document of equal value.",
 ["inputs"], "all documents with JSON values",
 "The tests print a few tiny documents and compare against fixed text; none reloads printed text, though the command line hands exactly this text to users after markup.",
 [J, CLI], [("String", "jom/jom.go String")], observe=["JsonMap.String", "JsonMap.Unmarshal"])

prop("C03", "Documents without scripts are unchanged by evaluation",
 "Evaluating, running or stripping a document that contains no script leaves its value exactly as it was. A string is a script only when its first line is exactly the shebang prefix followed by a two-letter language name and that line is ended by a newline; every other string, including near misses such as a shebang on a later line, with leading blanks, with trailing characters, or as an array element, is ordinary data and survives verbatim.",
 ["inputs"], "all script-free documents, including strings that almost look like scripts",
 "No test evaluates a document without scripts, and no test has a near-miss shebang.",
 [J, CODE], [("script recognition", "code/code.go NewFrom"), ("traversal", "jom/jom.go FindScriptFields, Run, Strip")], observe=["jom.Eval", "JsonMap.Run", "JsonMap.Strip"])

prop("C04", "Passing a document through Javascript loses nothing",
 "Inside a script the trail object is equal in value to the JSON of the script's scope (objects, arrays, strings, numbers, booleans and nulls at every depth, whatever the keys and characters). A script that changes nothing leaves every other value of the document exactly as it was, at the root and in nested scopes.",
 ["inputs"], "all documents with scripts that only read",
 "The example documents hold a handful of ASCII strings and small integers; nothing checks empty or unusual keys, unicode, control characters, extreme numbers, empty containers or deep nesting across the bridge.",
 [JS, J], [("JSON hand-over to and from the VM", "code/js/js.go createJom, deJomIfy")], observe=["jom.Eval", "json.trail inside scripts"])

prop("C05", "Each script runs exactly once, outer scopes first, keys in order",
 "When a document is evaluated every script in it is executed exactly once, at whatever depth it sits in objects and arrays. Scripts of one object run in lexicographic (byte) order of their keys, and all scripts of an object run before any script inside the containers nested in it.",
 ["inputs", "configurations"], "all documents with any number of scripts at any positions and key names",
 "One example orders five single-letter keys on one level; nothing covers arbitrary keys, mixed case, many levels, arrays inside arrays or exactly-once execution.",
 [J], [("script queue per level", "jom/jom.go Run"), ("script discovery", "jom/jom.go FindScriptFields")], state=[{"name": "script queue", "meaning": "keys of the scripts at the current level", "where": "jom/jom.go Run"}], observe=["console output order", "document after evaluation"])

prop("C06", "The result of evaluation is the scripts' edits, each within its scope",
 "Evaluation yields exactly the document obtained by applying, in execution order, each script's edits to the object that contains it and removing its key-value pair, with a later script seeing what earlier ones did and scripts placed in nested containers by an outer script being run, deleted ones not. Nothing outside a script's own object is ever changed by it.",
 ["programs", "inputs"], "all documents and all scripts made of reads, writes, deletions, pushes and copies on the trail",
 "The ten examples fix both document and script; only generated documents and scripts can show isolation and composition in general.",
 [J, JS], [("level by level evaluation and joining", "jom/jom.go Run"), ("scope hand-over", "code/js/js.go RunScript")], observe=["jom.Eval", "JsonMap.Run"])

prop("C07", "Go callbacks have the same effect as equivalent scripts",
 "A native Go callback stored under a key is run once in the scope of the object that contains it, sees and edits that object through the same API, and is removed afterwards; a document carrying callbacks evaluates to the same value as the document carrying scripts that make the same edits in the same places, whichever Go number types the callbacks write. A callback may itself evaluate, run, select from and clone documents (its own scope too) with the results that this has anywhere else.",
 ["programs", "inputs"], "all documents without string scripts, marked up with callbacks at any set of objects",
 "Tests run ten fixed callbacks; equivalence with scripts is checked only for those examples.",
 [GO, J, CODE], [("callback runner", "code/go/go.go RunCallback"), ("callback recognition", "code/code.go NewFrom")], observe=["JsonMap.Run", "JsonMap.Marshal"])

prop("C08", "Evaluation leaves no script behind and never re-runs one",
 "After a successful run no script of the original document remains in it, and running it again changes nothing. Whatever sequence of runs, strips, edits and mark-ups is applied to one document object, each run executes exactly the scripts that the document contains at that moment, never one that has already run, been stripped, overwritten or deleted.",
 ["histories"], "all sequences of run, strip, set, delete and markup on one document object",
 "Tests call run once per object (twice in one example with the same key), so nothing observes state carried from one run to the next.",
 [J], [("traversal state", "jom/jom.go FindScriptFields, Strip, Run")], state=[{"name": "traversal", "meaning": "script and non-script halves of the document found by the last scan", "where": "jom/jom.go Traversal"}], observe=["JsonMap.Run", "JsonMap.Strip", "JsonMap.Marshal"])

prop("C09", "Stripping removes exactly the script pairs",
 "Stripping a document removes every key-value pair whose value is a script or callback, at every depth inside objects and arrays, keeps every other key, value, array length and order, and executes nothing. Stripping again changes nothing. Asking whether a document contains a script or callback answers exactly that, and changes and executes nothing. A document that still holds a callback does not marshal: that is an error.",
 ["inputs"], "all documents with scripts and callbacks at any positions",
 "Strip is only exercised on the example files as a preparation step; its result is never compared.",
 [J], [("Strip", "jom/jom.go Strip, FindScriptFields")], observe=["JsonMap.Strip", "JsonMap.Marshal"])

prop("C10", "Marking up with code equals writing the script by hand",
 "Adding code of a supported language at a JSON path stores, at exactly the places that path designates, a script that evaluates just as if the same shebang line and source had been written there in the input; everything else is untouched. An unsupported language name is refused with an error and the document is unchanged, and an invalid or unresolvable path is refused with an error.",
 ["inputs", "programs"], "all documents, paths, language names and sources",
 "No test calls the markup operation directly.",
 [J, RUN], [("MarkupCode", "jom/jom.go MarkupCode"), ("language registry", "code/run.go CheckIfSupported")], observe=["JsonMap.MarkupCode", "JsonMap.Run"])

prop("C11", "A failing script fails the evaluation with an error and no output",
 "If any script that is reached throws, does not parse, is in an unsupported or unrunnable language, overrides a builtin that is then needed, or leaves a trail that is not an object, evaluation returns an error that is not nil and no JSON, wherever in the document the script sits; running a document object directly panics instead, and a panic raised in a Go callback reaches the caller with its value. Failures inside a script that the script itself catches are not failures. A document object whose run failed can still be stripped, after which it marshals, reloads and runs like any other, executing nothing of what was stripped.",
 ["inputs", "fault_sequences"], "all documents with one or more failing scripts at any place and kind of failure",
 "One example covers an unsupported language at the root; no other failure is tested at all.",
 [J, JS, CODE, GO, RUN], [("error propagation", "jom/jom.go Eval, Run; code/js/js.go RunScript; code/go/go.go RunCallback")], observe=["jom.Eval", "JsonMap.Run"])

prop("C12", "Evaluation of any bytes ends in valid JSON or an error, never a crash",
 "For every byte string given for evaluation, including hostile scripts (unbounded recursion, cyclic values, overridden builtins, malformed selector calls), evaluation returns normally with either valid JSON and no error or an error and no JSON. It never panics and never takes the process down.",
 ["inputs", "programs"], "all byte strings up to 64 KiB and hostile scripts that do not exhaust memory by allocation",
 "Tests evaluate ten well-formed files.",
 [J, JS, CODE], [("recover in Eval", "jom/jom.go Eval"), ("script VM", "code/js/js.go RunScript")], observe=["jom.Eval"])

prop("C13", "Code that never ends is stopped with the halting error",
 "A script, filter expression or Go callback that does not terminate is reported with the halting-problem error (a panic from a direct run, an error from evaluation or selection) once the configured delay (one second for filters) has passed and soon after it, for every form of loop in the script, including loops inside functions, callbacks, conditions, exception handlers and value conversions, at any depth of the document. Once it has been reported, a script or filter that still evaluates statements or expressions no longer runs.",
 ["programs"], "all non-terminating scripts made from interruptible loop forms, callbacks and filters, at any position, for small delays",
 "One script and one callback with a plain loop at the root are tested.",
 [JS, GO, J, GL], [("interrupt timers", "code/js/js.go RunScript; code/go/go.go RunCallback; jom/jom.go filterRunner")], observe=["jom.Eval", "JsonMap.Run", "JsonMap.JsonPathSelector"])

prop("C14", "Code that ends is never stopped, and leaves nothing running",
 "Scripts, callbacks and filter evaluations that each end within the delay are never reported as non-terminating, however many are run one after another or side by side and however long they take in total. Once the delay has passed after the last of them ended, no goroutine started for them is left.",
 ["histories", "schedules"], "all sequences and parallel groups of terminating scripts, callbacks and filter nodes",
 "No test runs long sequences of code or looks at what is left running.",
 [JS, GO, J], [("interrupt timers", "code/js/js.go RunScript; code/go/go.go RunCallback; jom/jom.go filterRunner")], observe=["JsonMap.Run", "JsonMap.JsonPathSelector", "goroutine count"])

prop("C15", "A JSON path parses to exactly the descents it spells",
 "Every path in the documented syntax (root, properties, indices and comma lists, slices, wildcards, filters, recursive lookups, first descents of any length, in any combination and of any length) parses to those descents in order, with one absolute path for each combination of listed indices. Text outside the syntax is refused with an error, and no text makes parsing panic.",
 ["inputs"], "all strings",
 "About thirty fixed paths are selected with; one is parsed directly, no malformed path is tried and no path has two filters or a long first descent.",
 [PP, AP], [("tokenising state machine", "jom/json_map/json_path_parse.go"), ("path product", "jom/json_map/absolute_paths.go.go AddToAll")], observe=["json_map.ParseJsonPath"])

prop("C16", "Selection returns exactly the values the path designates",
 "For every document and path, selection returns exactly the values a direct reading of the path rules gives, in document order (array elements by position, object members by key; listed indices in the order listed), a selected array contributing its elements. If some step cannot be taken (missing key, index or slice out of range, indexing an object, descending into a scalar) selection returns an error and no values.",
 ["inputs"], "all documents and all paths in the syntax",
 "Thirty paths on one document are compared without regard to order; error cases and step combinations are hardly touched.",
 [J, PP], [("path evaluation", "jom/jom.go pathFinder, GetAbsolutePaths, JsonPathSelector")], observe=["JsonMap.JsonPathSelector"])

prop("C17", "Selecting is deterministic, read-only and safe to do concurrently",
 "Selecting never changes the document. The same path on an equal document always gives the same list of values in the same order, on every call, and when many goroutines select from one document (or marshal, print or clone it) at the same time each gets the result it would get alone.",
 ["schedules", "inputs"], "all documents, paths and concurrent groups of selections",
 "Tests select once per path from a single goroutine and ignore order.",
 [J], [("goroutine per absolute path", "jom/jom.go GetAbsolutePaths, pathFinder")], observe=["JsonMap.JsonPathSelector", "JsonMap.GetAbsolutePaths"])

prop("C18", "The absolute path of a selected node leads back to that node",
 "Each node returned by a selection carries an absolute path which, looked up in the same document, gives exactly that node's value again (its elements if the value is an array).",
 ["inputs"], "all documents and paths",
 "No test looks at the absolute path of a returned node.",
 [J, AP], [("path amendment when arrays are unwrapped", "jom/jom.go GetAbsolutePaths")], observe=["JsonPathNode.Absolute", "JsonMap.GetAbsolutePaths"])

prop("C19", "A filter keeps exactly the children for which its expression is true",
 "A filter step keeps exactly those members of an object or elements of an array for which the Javascript expression is truthy, in document order, where @ stands for the child's value and a JSON path set off by blanks stands for what it selects from the root of the document; text inside string literals (including @, $ paths, brackets and either kind of quote) is left alone. An expression that throws or does not parse makes the operation return an error.",
 ["inputs", "programs"], "all documents and filter expressions",
 "A dozen fixed expressions on one document are tested, with ASCII text and no brackets, escapes or mixed quotes in literals.",
 [J, PP], [("filter evaluation", "jom/jom.go filterRunner"), ("filter token", "jom/json_map/json_path_parse.go")], observe=["JsonMap.JsonPathSelector", "JsonMap.JsonPathSetter"])

prop("C20", "Setting changes exactly the designated places",
 "Setting a value at a path changes exactly the places the path designates, at every match, creates the key when only the last one is missing, and leaves every other place as it was; a step that designates no place (an empty slice, a filter nothing satisfies) changes nothing. If a step cannot be taken an error is returned, and selecting a path of keys and indices right after setting it gives back the value set. Numbers in the value may be of any of Go's integer and float types.",
 ["inputs"], "all documents, paths and values",
 "Nine fixed settings on one document are tested; empty slices, empty arrays, nested matches and untouched remainder in general are not.",
 [J], [("recursive setter", "jom/jom.go SetAbsolutePaths, JsonPathSetter")], observe=["JsonMap.JsonPathSetter", "JsonMap.SetAbsolutePaths"])

prop("C21", "Deleting removes exactly the designated places",
 "Setting nil at a path removes exactly the object members and array elements the path designates, closes the gap in arrays keeping the order of the rest, and leaves everything else as it was; deleting something that is not there under an existing parent object is a no-op and an impossible step is an error, never a panic. Comma-listed indices are deleted one after another.",
 ["inputs"], "all documents and paths",
 "A few fixed deletions on one document are tested; empty arrays, empty selections and multi-level deletions are not.",
 [J], [("recursive setter with nil", "jom/jom.go SetAbsolutePaths")], observe=["JsonMap.JsonPathSetter", "JsonMap.MustDelete"])

prop("C22", "Push and pop on an array follow the list model",
 "Pushing to an array (also an empty one) puts the value at each distinct given position of the resulting array, filling gaps beyond the end with null and keeping the other elements in order, or at the end when no position is given. Popping removes and returns, in order, the elements at the distinct given positions that exist, ignoring positions that do not (negative or too large), or the first element when none is given; the rest of the document is untouched.",
 ["histories", "inputs"], "all arrays, values, index lists and sequences of pushes and pops",
 "Ten fixed cases on a three-element array are tested, none with an empty array, a negative position or more than one operation.",
 [J], [("MustPush/MustPop", "jom/jom.go MustPush, MustPop")], observe=["JsonMap.MustPush", "JsonMap.MustPop"])

prop("C23", "The panicking helpers agree with the error-returning operations",
 "For every document and path, the Must helpers for getting, setting and deleting do exactly what the corresponding selector and setter operations do, giving the same values in the same order and the same resulting document, and panic with an error exactly when those operations return one. Getting yields nil exactly when nothing is selected.",
 ["inputs"], "all documents, paths and values, valid or not",
 "The helpers are tested on fixed cases and never compared with the operations they wrap.",
 [J], [("Must helpers", "jom/jom.go MustGet, MustSet, MustDelete")], observe=["JsonMap.MustGet", "JsonMap.MustSet", "JsonMap.MustDelete"])

prop("C24", "A clone equals its original and is independent of it",
 "A clone made without clearing has the same value, kind of root and scope path as its original, and no later operation on either of them changes the other. A clone made with clearing is empty, has the same kind of root and does not affect the original.",
 ["histories"], "all documents and all operation sequences after cloning",
 "Cloning is never tested.",
 [J], [("Clone", "jom/jom.go Clone")], observe=["JsonMap.Clone", "JsonMap.Marshal"])

prop("C25", "Selectors inside scripts agree with those outside",
 "Within a script, getting the values of a path returns what selecting the same path from the current trail returns (a single selected array counts as the list of its elements), including changes the script made before the call, and setting values changes the trail exactly as the Go setter would with the same value (null deletes; arrays, objects, strings, numbers and booleans arrive intact). A node set lists the absolute paths that its path spells. Invalid paths, wrong arguments, a trail that is no object or array and impossible steps raise an exception the script can catch, and leave the trail usable.",
 ["programs", "inputs"], "all scopes, paths, values and interleavings of trail edits with selector calls",
 "One example uses five selectors; arrays as values, failing calls and up-to-dateness are not tested.",
 [JS], [("node set", "code/js/js.go jsonPathSelector")], observe=["json.jsonPathSelector", "getValues", "setValues"])

prop("C26", "Console output goes to the right stream, once, labelled with its scope",
 "Each console call writes exactly one record, in call order, log and the legacy print function to the standard stream and error to the error stream and nothing to the other; the record names the path of the scope of the calling script and shows every argument (strings verbatim, numbers and booleans by value, missing values as undefined, objects with the name and value of every member, also those shared or containing themselves) separated by single blanks, every line of it indented by a tab.",
 ["programs", "inputs"], "all sequences of console calls with string, number, boolean, null and undefined arguments from any scope",
 "Tests look for some header substrings of three fixed examples.",
 [JS], [("composePrint and console object", "code/js/js.go composePrint, builtinVars")], observe=["js.ExternalConsoleLogStdout", "js.ExternalConsoleLogStderr"])

prop("C27", "The scope path a script sees resolves to its own object",
 "The scope path given to a script or callback, used as a JSON path on the whole document, selects exactly the object that contains the script, at any depth of objects and arrays; it is the bare root symbol for scripts of the root object.",
 ["inputs"], "all documents whose keys the path syntax can spell, with scripts at any position",
 "Three fixed headers are compared in tests.",
 [J, JS], [("scope path building", "jom/jom.go Run, GetCurrentScopePath")], observe=["json.scopePath", "GetCurrentScopePath"])

prop("C28", "Any sequence of edits matches a plain JSON model step by step",
 "For every document, whether loaded, cloned or newly constructed, and every sequence of API operations on it (set, delete, push, pop, select, markup and run, strip, print and reload), the document equals after each step what the same operations give on a plain JSON value, and values placed at several locations by one operation stay independent of each other afterwards. Operations that report an error for an impossible step leave the document loadable and printable. It makes no difference to any later operation, filter or script of which of Go's number types the numbers in a given value were.",
 ["histories"], "all finite sequences of API operations",
 "Every test performs a single operation on a fresh document.",
 [J], [("in-place editing", "jom/jom.go SetAbsolutePaths, MustPush, MustPop, Run, Strip")], observe=["JsonMap API"])

prop("C29", "Independent documents can be evaluated in parallel",
 "Evaluating any set of documents at the same time in separate goroutines gives for each of them exactly the result, error and scope labels it gives when evaluated alone, and what their scripts print stays in whole records.",
 ["schedules"], "all groups of documents and schedules of their evaluations",
 "All tests evaluate one document at a time.",
 [JS, J, PP, RUN], [("per-evaluation VM and state", "code/js/js.go RunScript; jom/json_map/json_path_parse.go")], observe=["jom.Eval"])

prop("C30", "The command line gives the same results as the library",
 "The eval command prints, for the given input or for each given file in the order given, the JSON the library's evaluation returns and exits with status 0. The markup command prints text that loads to the document marked up with the given path-script pairs (stripped first if asked), and with its eval flag prints the JSON that evaluating that document returns.",
 ["inputs", "configurations"], "all inputs, file sets, path-script pairs and flag combinations accepted by the command line",
 "The command line has no tests.",
 [CLI, GL], [("main", "json-dom.go main"), ("flag parsing", "json-dom.go Files.Set, JsonPathScriptPair.Set")], observe=["stdout and exit status of the json-dom binary"])

prop("C31", "The command line reports every failure by a documented non-zero status",
 "A missing or unknown subcommand, missing input, missing path-script pair, missing file, unloadable input, failing evaluation or failing markup makes the command exit with the positive status of its class of error and a message on standard output or error, never with status 0, and without printing a result for the input that failed.",
 ["inputs", "configurations"], "all invocations that cannot succeed",
 "The command line has no tests.",
 [CLI, ER], [("CliError.Handle", "globals/error.go"), ("main", "json-dom.go")], observe=["exit status and output of the json-dom binary"])

prop("C32", "Absolute paths mean the same as the text path they spell",
 "Looking up or setting a list of absolute paths has the same outcome as the JSON path that spells them, several absolute paths giving the results of each in the order listed and any failing one making the lookup fail. Adding keys to a list of absolute paths gives every combination of an existing path with a new key, in order, and never alters the keys already in a path; when asked to check the result against a document it reports an error exactly when one of the resulting paths cannot be taken there.",
 ["inputs"], "all lists of well-typed absolute paths and key lists",
 "Four lists are looked up, nine are set and one product is built in fixed tests, ignoring order.",
 [J, AP], [("GetAbsolutePaths/SetAbsolutePaths", "jom/jom.go"), ("AddToAll", "jom/json_map/absolute_paths.go.go")], observe=["GetAbsolutePaths", "SetAbsolutePaths", "AbsolutePaths.AddToAll"])

prop("C33", "Every script and every filter selection starts from a clean environment",
 "Whatever a script does to its Javascript environment (global variables and functions, built-in objects and their prototypes, the console, the json object) ends with that script: any other script, of the same document or another one, of the same object or another one, before, after or in parallel, and whether the former ended normally or with an exception, finds every built-in as the language defines it, no trace of another script's globals, and its own json and console objects. The same holds for the filter expressions of a selection or a set: they start from a clean environment, whatever scripts and earlier filters have done, and leave none of theirs to the script that selects, to later filters or to later scripts.",
 ["programs", "histories", "schedules"], "all sequences and parallel groups of scripts and filters, whatever they do to their own environment",
 "No test has two scripts of which one changes a built-in; sharing or reusing a VM between runs passes every test.",
 [JS, J], [("a VM per script", "code/js/js.go RunScript"), ("a VM per filter", "jom/jom.go filterRunner")], observe=["jom.Eval", "JsonMap.Run", "JsonPathSelector", "JsonPathSetter"])

prop("C34", "Errors say what failed, where and why",
 "When a script ends with an exception, or leaves a trail that cannot be taken back, the error of the evaluation carries the code of failing scripts (-5), what the exception says (if it can be converted into text), the path of the script's scope and the script's source without its shebang line, verbatim, whatever characters these contain, and nothing of the other scripts of the document; so does the error of a script that does not end, with the code of halting (-1). A script in an unsupported language gives that code (-2), the language and the source without its shebang line; a console call after the script has replaced its scope path by something that is no string gives that code (-4) and names the path; a JSON path that cannot be taken gives the code of path errors (-6) and, where the step is named by a key or index that is missing, names it; a failing filter gives that code, its expression and its exception, or the halting code; markup in an unsupported language gives the code and the name. This holds through Eval, plain or verbose, through Run and through the command line.",
 ["inputs", "programs"], "all ways for scripts, paths, filters and markups to fail, at every scope and among all other scripts",
 "Some tests compare the errors of a few fixed failures; none has hostile characters, odd scopes or other scripts around.",
 [JS, J, ER, GL], [("error formats", "globals/error.go, globals/const.go"), ("script errors", "code/js/js.go RunScript; code/run.go"), ("filter and path errors", "jom/jom.go")], observe=["jom.Eval", "JsonMap.Run", "JsonPathSelector", "JsonPathSetter", "MarkupCode", "json-dom eval"])

prop("C35", "What is computed does not depend on how the document is spelled",
 "Documents of equal value, however they are spelled (order of members, blanks, comments, JSON or Hjson, escapes, ways to write numbers), evaluate, run, strip, clone, marshal and print to byte-identical text, or fail with the same error, and do so each time it is repeated. Scripts and filters see the members of the objects of their scope in the same order every time, and the records written by console calls are the same.",
 ["inputs", "programs"], "all documents, with and without scripts, in all their spellings",
 "Each test evaluates one spelling once; an order that depends on a map's iteration passes most of the time.",
 [J, JS], [("hand-over of objects to the VM", "code/js/js.go parseJson; jom/json_map/js_value.go"), ("marshalling", "jom/jom.go Marshal, String")], observe=["jom.Eval", "JsonMap.Run", "Strip", "Clone", "Marshal", "String"])

prop("C36", "A language that is registered is supported everywhere, by its own runner",
 "Every language registered with RegisterLang is supported from then on: a script whose shebang names it is run by the runner registered last for it, exactly once, in the order and scope of all scripts, mixed with scripts in other languages, and never as a script of another language. The runner is given the source without its shebang line, verbatim, the language and a document of the scope with its scope path; it may edit this document or return another one, and its result is what replaces the scope. Its error or panic makes the evaluation fail with what it says. Stripping, FindScriptFields and marking up recognise such scripts; a language that is not registered stays unsupported.",
 ["inputs", "configurations"], "all registered languages and runners, all documents with scripts in several languages",
 "No test registers a language; the tests know Javascript and Go callbacks only.",
 [RUN, CODE, J], [("RegisterLang, CheckIfSupported, Run", "code/run.go"), ("script recognition", "code/code.go NewFrom")], state=[{"name": "supportedLangs", "meaning": "the runner of each language", "where": "code/run.go"}], observe=["code.RegisterLang", "jom.Eval", "JsonMap.Run", "JsonMap.Strip", "JsonMap.MarkupCode"])

prop("C37", "Large documents, scripts and paths are handled like small ones",
 "Documents of any size and depth (hundreds to thousands of nested objects and arrays, thousands of members and elements, hundreds of scripts, long strings, keys and script sources) are loaded, evaluated, selected from, edited, marked up, stripped, cloned, printed and reloaded with the results that these operations give for small documents, and so are long paths: many steps, indices, first descents, lists of indices one after the other, long filters. Nothing crashes or gets stuck, and the time never grows exponentially with the depth of the document, the number of scripts or the length of the path (lists of indices, whose results are that many, excepted).",
 ["inputs"], "all sizes of documents, scripts and paths up to those the machine can hold",
 "The largest document of the tests has a few kilobytes and four levels; a traversal that is run twice on every level passes them all.",
 [J, PP, JS, AP], [("recursive traversals", "jom/jom.go FindScriptFields, Run, SetAbsolutePaths, pathFinder"), ("parsing", "jom/json_map/json_path_parse.go")], observe=["JsonMap API", "jom.Eval"])

prop("C38", "What a document evaluates to does not depend on what surrounds it",
 "A document with scripts (any Javascript that does not look at its own scope path or the time) that sits anywhere in a larger document, as a member, an array element or the element of a nested array, once or several times, next to other such documents and below objects with scripts of their own that leave it alone, is evaluated, run or stripped to exactly what it is when it is the whole document, except that the scope paths it sees start with its place; its scripts write the same to the console. The whole evaluation fails exactly if one of its parts alone does.",
 ["inputs", "programs"], "all documents, programs and surroundings",
 "The tests evaluate whole documents whose nested scripts only set members; no test compares a place with another one.",
 [J, JS, CODE], [("traversal", "jom/jom.go Run, FindScriptFields, Strip"), ("scopes", "code/js/js.go createJom, deJomIfy")], observe=["jom.Eval", "JsonMap.Run", "JsonMap.Strip"])

prop("C39", "What scripts leave in their trail is taken over as JSON.stringify has it",
 "Whatever kinds of Javascript values a script puts into its trail (undefined, functions, NaN and infinities, dates, wrapper objects, objects with prototypes, getters, members that are not enumerable or toJSON methods, sparse arrays, arrays with members, arguments, results of built-ins, one object in several places), the evaluated document, the scripts after it and the node sets of the script itself see there what JSON.stringify makes of them, at any depth, also when the whole trail is such an object; objects and arrays given to setValues likewise. If JSON.stringify throws (cyclic values, getters and toJSON methods that throw) or what it makes of the trail is no object, the evaluation fails.",
 ["inputs", "programs"], "all Javascript values left anywhere in the trail",
 "The scripts of the tests only leave strings, numbers and plain objects behind.",
 [JS], [("reading the trail", "code/js/js.go deJomIfy, getJsonMap"), ("setValues", "code/js/js.go NodeSet")], observe=["jom.Eval", "JsonMap.Run"])

prop("C40", "A document behaves the same however it came to be",
 "A document of a given value behaves the same whether it was loaded from JSON, Hjson or its own printed or marshalled text, loaded into an object that held and did something else before, built from a Go map with numbers of any Go number type, put together member by member or leaf by leaf through absolute paths or in the map that GetInsides gives, cloned (also from an object that is used afterwards), left by a script, a callback or an evaluation, or reached by edits that were undone: selecting (values, order, absolute paths), getting, setting, deleting, pushing, popping, running, evaluating, stripping, marking up, printing, marshalling, cloning and finding scripts give equal results, console text and documents, and fail in the same cases. Looking at a document (selecting, printing, marshalling, cloning, finding scripts) changes nothing of this.",
 ["inputs", "histories"], "all documents, ways to make them and operations on them",
 "The tests load each document from one literal; the maps, clones and edited documents that programs pass around take other paths through the type switches.",
 [J, JS, AP], [("construction", "jom/jom.go New, NewFromMap, Unmarshal, Clone, GetInsides"), ("edits", "jom/jom.go SetAbsolutePaths"), ("what scripts leave", "code/js/js.go deJomIfy")], observe=["JsonMap API", "jom.Eval"])

prop("C41", "A piece of code behaves by itself as it does in its document",
 "For every value, code.NewFrom recognises code exactly when JsonMap.FindScriptFields does (a string of shebang prefix, two-byte language and newline; a callback), gives its language and its source byte for byte, and for an unsupported language panics with error code -2 naming the language and the source. Code that is run directly with code.Run on a document (loaded, built from a map, cloned or run before) gives the document that running the document with the code in it gives, its own member removed and the scripts it left run afterwards, and writes the same to the console apart from the scope path; it fails exactly if the document fails, with the same error code. A script leaves the document it is given and its scope path as they were, and the same code can be run again and again, and by several goroutines at the same time, with equal results.",
 ["inputs", "programs", "interleavings"], "all values, scripts, callbacks and documents",
 "No test uses the package code by itself; only the traversal in JsonMap.Run does.",
 [CODE, JS, J], [("recognising", "code/code.go NewFromScript, NewFrom"), ("running", "code/code.go Run, RunCallback; code/js/js.go RunScript")], observe=["code.NewFrom", "code.Run", "JsonMap.Run", "JsonMap.FindScriptFields"])

prop("C42", "What is given to an operation, and what it gives, belongs to the caller",
 "Loading, evaluating, getting, setting, deleting, pushing, popping, selecting, marking up, cloning and marshalling leave the texts, values, indices and absolute paths that they are given as they were, including the memory behind the end of a slice; once they have returned, the caller can use all of it for something else, and can change the bytes, lists of values and absolute paths that they gave, without any effect on the document, on the other things they gave or on later operations, and no later operation changes these.",
 ["inputs", "histories"], "all documents, arguments and histories of operations, whatever lies behind the slices given",
 "The tests pass fresh literals and never look at them, or at what they got, again.",
 [J, AP], [("texts", "jom/jom.go Unmarshal, Eval, Marshal"), ("arguments", "jom/jom.go SetAbsolutePaths, GetAbsolutePaths, MustPush, MustPop, copyValue")], observe=["JsonMap API", "jom.Eval"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
