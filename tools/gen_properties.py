#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Result store behaves as a map for every history of operations",
 "For every sequence of saves, loads, deletes, listings and clears, the in-memory store and the on-disk store, used directly or through key namespaces, answer exactly as a map from non-empty key to bytes would: a load returns precisely the bytes last saved under that key or reports it absent, and a listing returns exactly the live keys with the requested prefix. This holds for values of any length (including empty values, values exactly at, one above or many times the on-disk splitting limit, and values replaced by ones of a different size class) and no internal entry is ever visible to a caller. Operations in one namespace never read, change or remove data of another, and bytes handed in or out are never aliased with the store's own.",
 ["histories", "inputs"], "all finite histories of store operations over any keys (outside the store's reserved internal prefix), namespace names without the separator, and values of every size class",
 "The storage tests exercise a fixed list of save/load/delete calls per backend; they never cross size-class transitions, namespaces and clears in arbitrary order nor compare the two backends with one model.",
 ["lens/storage.go"], [("split marker and part keys rewritten in one transaction", "lens/storage.go SaveState/DeleteState"), ("prefix stripping", "lens/storage.go KeyPrefixStorage"), ("defensive copies", "lens/storage.go memStorage")],
 ["Storage interface"])
prop("P02", "Concurrent use of one store is linearizable",
 "When several goroutines use one store at the same time, every completed save, load, delete and listing takes effect atomically at some moment between its call and its return, and an operation that returns an error has no effect. In particular a load never fails and never returns a mixture of two values, a stale or a truncated value because another goroutine is replacing or deleting the same key, whatever the sizes involved. When goroutines work on keys of their own none of their operations fails.",
 ["schedules", "histories"], "all interleavings of concurrent store operations on shared and on distinct keys, with values on both sides of the splitting limit",
 "The concurrency tests write distinct keys and read them after joining; no test overlaps a reader with a writer of the same key, let alone for every interleaving.",
 ["lens/storage.go"], [("single transaction per operation", "lens/storage.go badgerStorage"), ("mutex", "lens/storage.go memStorage")], ["Storage interface"])
prop("P03", "Saved test results are read back unchanged",
 "Encoding any test result and decoding it again, directly or through the result store, yields the same test, caller identities, call order, timings, stack frames, field trees (names, nesting, value types and values), panics, failure flags and extension frames. Two different field trees, frames or strings are never merged into one by the compact encoding, whichever other trees occur in the same result and in whatever order. Stored bytes cut short at any point are reported as an error, never as a silently different result.",
 ["inputs", "histories"], "all test results: any number of callers, call frames, nested field maps, panics, repeated and near-identical sub-structures, and every order of occurrence",
 "Round-trip tests use a few literals; equality of compact identities must hold for every pair of structures, which sampling one result at a time never compares.",
 ["lens/types.go", "lens/util.go", "lens/compress.go"], [("de-duplicating dictionaries for strings, field maps and frames", "lens/types.go MarshalMsgpack/UnmarshalMsgpack"), ("content identity of field trees", "lens/types.go FieldValues.ID")], ["TestResult encode/decode"])
prop("P04", "Field trees flatten without loss and compare exactly",
 "Flattening a captured field tree produces one entry per leaf, named by its full path, regardless of map order, and two trees flatten equal exactly when they hold the same leaves and values. Comparing a later capture with an earlier one reports every path of the earlier capture whose value differs or has disappeared, and reports nothing when they are the same.",
 ["inputs"], "all field trees, including empty names and values, and all pairs of trees",
 "Existing tests flatten and diff a handful of literal trees; injectivity over all pairs of trees is a relational property.",
 ["lens/types.go", "lens/engine.go"], [("path-building recursion", "lens/types.go FlattenFieldValues"), ("value diff", "lens/engine.go DiffValues")], ["FlattenFieldValues", "field comparison in reports"])
prop("P05", "Captured values travel from the tested program to the monitor intact",
 "Whatever values an instrumented program passes at a monitored point, the monitor receives the point's identity, time, call stack and one value tree per captured value, in order, in which every field within the configured depth and length limits appears under its own name with its type and exact rendered value. What lies beyond the depth limit is marked as cut, longer strings are cut with the number of bytes left out, longer slices show exactly their first elements and larger maps exactly their smallest keys. Shared or cyclic structure never makes the capture loop: a repeated part is either shown again or replaced by a reference to the place in the same value where that very part appears. The client never panics, blocks or alters the captured values.",
 ["inputs", "configurations"], "all Go values (scalars, strings, structs, pointers, interfaces, slices, arrays, maps, functions, channels, nil, cyclic and shared structure) and all limit settings",
 "Encoder and decoder are tested with chosen values; agreement of the independently written two sides for every value shape and limit is not sampled by those cases.",
 ["lens/astclient.go", "lens/astsrv.go", "lens/astapi.go"], [("tagged binary encoding and its mirror decoder", "lens/astclient.go, lens/astsrv.go")], ["message callbacks of the monitor server"])
prop("P06", "Malformed or truncated monitor messages never corrupt or stop the monitor",
 "For every byte sequence posted to the monitor endpoint, the server either delivers exactly the one event those bytes denote in the client's format and answers success, or rejects the request with an error status and delivers nothing. A message cut at any byte is never delivered as if it were complete, and an event is never delivered with a field, stack frame or value other than the bytes say. Whatever lengths, counts or nesting a message announces, the monitor does not crash, hang or use memory out of proportion to the bytes received, and it continues to accept the next valid message.",
 ["inputs", "fault_sequences"], "all byte strings, in particular every truncation and every single-byte corruption of valid messages, forged counts and nestings, interleaved with valid traffic (bytes after a complete message, and numbers outside the range the client can send, are left free)",
 "Tests post a few malformed bodies; there are as many truncation and corruption points as message bytes.",
 ["lens/astsrv.go"], [("bounds-checked reader", "lens/astsrv.go lensReader")], ["HTTP status and delivered callbacks"])
prop("P07", "Monitor attributes every event to the right test, caller and call, once",
 "While a test runs, every entry, return-state and panic event the monitor accepts is recorded exactly once, under the identity (monitored caller, extension point, project or module panic) its point stands for, in the emission order of its goroutine, with the stack, time, fields or panic message of that very event, however the events of concurrent goroutines interleave; an event of a point the monitor does not know is ignored and disturbs nothing. When the test ends the result is produced after all accepted events have been processed, its collection never waits forever, and nothing of one test leaks into the next. When an earlier stable result selects what to keep, no field stable there is lost or altered and everything else about the calls stays as recorded.",
 ["schedules", "histories", "fault_sequences"], "all sequences and interleavings of monitor events from any number of goroutines, known and unknown points, and the test's end at any point",
 "The monitor tests drive a few fixed event orders; correctness is over all interleavings of events and result collection.",
 ["lens/astexec.go", "lens/astsrv.go"], [("per-test recorder and wait group", "lens/astexec.go testMonitor"), ("handler switch", "lens/astsrv.go SetPointHandler")], ["TestResult produced per test"])
prop("P08", "Only run-to-run stable data is compared",
 "Given two repeated runs of a test on the same version, a captured value (or its presence) that varied between the runs at one place (caller, call and path) is never part of what the versions are compared on, while every value that was identical in both runs is kept, unmodified, and compared. The selection depends only on the recorded observations, not on the order of callers or of map iteration, and applying it leaves call counts, timing, failure flags and panics as they were.",
 ["histories", "inputs"], "all pairs of repeated results with any combination of stable, unstable, missing and additional fields, frames and callers",
 "Tests filter a few literals; the claim relates every field of every combination of runs.",
 ["lens/astexec.go", "lens/types.go"], [("stable-field selection and filter", "lens/astexec.go testResultStableFields/applyStableFilter")], ["test results handed to comparison"])
prop("P09", "The comparison verdict is exact",
 "For any pre-update and post-update results, the comparison lists exactly the tests recorded in both runs and reports for each exactly what differs: identical results give zero differences; every value recorded before the update that changed or disappeared, every panic that newly appears or vanishes (counted as often as it occurs), every test that newly fails, and every caller whose calls became slower or faster than the threshold allows is reported under its own test and caller; and totals equal the sums over the parts. Reordering independent tests, callers or map entries never changes the verdict, and a test recorded on one side only is never mixed up with another.",
 ["inputs", "histories"], "all pairs of result sets over any tests, callers, call counts, panics and field trees",
 "Comparison tests use selected pairs; exactness (no miss, no false alarm) is over all pairs and both directions.",
 ["lens/engine.go", "lens/types.go", "lens/report.go"], [("pairwise comparison of callers and frames", "lens/engine.go CompareTestResults")], ["comparison report"])
prop("P10", "Every analysis run releases what it acquired, whatever fails",
 "For every combination of stage outcomes (success, nothing to do, error, in any stage) and options, a run executes its stages in order, hands each stage what the earlier ones produced and the options asked for, never starts a stage after a failed one, cleans up every stage that succeeded exactly once and in reverse order, closes the result store, removes every temporary directory it created (also when copying fails), and returns an error if and only if a stage failed. A report is written exactly once when the run gets as far as having modules to analyse and nothing fails, also when a later stage finds nothing to do, and never when a stage before it failed.",
 ["fault_sequences", "configurations"], "all assignments of outcomes to stages and all option combinations (source of updates, temporary copy, mutation scope, mode and tests)",
 "Engine tests inject single failures; the full product of outcomes, early exits and cleanup errors is not enumerated.",
 ["lens/engine.go"], [("deferred cleanups per stage", "lens/engine.go AnalysisEngine.Run")], ["provider calls observed through injected providers; temp directory content"])
prop("P11", "Source trees are restored byte for byte",
 "After any sequence of instrumentations, line insertions and commits over any files, followed by a restore, every file has its original content, no backup, client or other generated file remains, and nothing outside the modified files changed; this also holds when an operation in the sequence fails and when the modifier is used again afterwards; an operation that meets no fault succeeds, and a restore that reported an error can be repeated once the cause is gone. The same holds for the module definition files (module, checksum and workspace files) after a module-update analysis, whether it succeeds or fails at any step.",
 ["histories", "fault_sequences"], "all sequences of modifier operations over any set of files and packages with failures at any step, then restore, any number of times",
 "Tests restore after one happy-path sequence; leftover state depends on the history and on the failing step.",
 ["lens/asttweak.go", "lens/astexec.go", "lens/file.go"], [("backup on first commit and restore", "lens/asttweak.go Commit/Restore"), ("module file backup", "lens/astexec.go RunModuleUpdateAnalysis")], ["file system snapshot before and after"])
prop("P12", "Instrumentation never changes what a program does",
 "For every well-formed Go function given entry, completion, return-state or panic points, the instrumented source compiles and behaves as the original: same results (including named and deferred-modified results), same side effects in the same order, same panics and recovery, with each original expression evaluated exactly as often as before. Build constraints, compiler directives, comments and other functions keep their meaning.",
 ["programs"], "all Go functions within the modelled statement grammar (nesting of blocks, branches, loops, switches, selects, labels, closures, defers, named and unnamed results, panics)",
 "Rewriter tests compare text of chosen snippets; semantic equivalence over the statement grammar needs generated programs that are executed.",
 ["lens/asttweak.go"], [("AST rewriting of entries, returns, panics", "lens/asttweak.go Inject*")], ["execution of original and instrumented programs"])
prop("P13", "Every function exit is captured with the values really returned",
 "In an instrumented function every invocation reports its entry, and every way of leaving it is captured: each return statement at any nesting, falling off the end, and a panic, each exactly once per exit, with the values passed back at that return and the variables in scope there (or the panic value). Exits of nested function literals are not mistaken for exits of the enclosing function, and every injected point has its own identity that maps back to its function.",
 ["programs", "schedules"], "all functions of the modelled grammar, all their executions, and all orders of concurrent injection",
 "Tests check selected statement shapes; completeness is over all nestings.",
 ["lens/asttweak.go", "lens/astexec.go"], [("return-state and panic injection", "lens/asttweak.go InjectFuncPointReturnStates/InjectFuncPointPanic"), ("atomic point numbering", "lens/asttweak.go nextPointId")], ["events emitted by the executed program"])
prop("P14", "Caller and test discovery find everything that reaches a change",
 "For every program, every project function (generated code, main and init functions aside) from which a changed dependency function can be reached through calls (direct, through other dependencies, methods, embedding, interfaces, generics, function values or literals, callbacks a dependency was given) is reported as a caller with each change it reaches, and every test go test would run that can reach one of those callers is selected with it, each exactly once and whatever the package load order. Nothing is selected that could not reach a change even if every call of a function value reached every function of its type and every interface call every method of its name and signature; dependencies are never callers, wherever their sources lie, and helpers or suite methods are never tests.",
 ["programs"], "all call graphs over project functions, dependency functions and tests with cycles, shared paths, function literals, methods, generics and interface dispatch",
 "Static-analysis tests use a few fixture programs; reachability must hold for all graph shapes.",
 ["lens/static.go"], [("reverse depth-first search over the call graph", "lens/static.go reverseDFS"), ("identity of functions", "lens/static.go")], ["caller and test lists"])
prop("P15", "The set of updated modules is exactly the difference of the definitions",
 "For every pair of old and new module or workspace definition files, the analysed updates are exactly the modules whose required version differs in a module that is there before and after the update, each pair of old and new version once, with its true versions and marked indirect only if every member requires it indirectly, in a deterministic order; modules that are added, removed or unchanged are never reported as updates. Requested explicit updates resolve to a version a project member requires, and modules the project does not require are refused; where workspace members require a module at different versions, the version taken for the project is the oldest, or the newest where asked, in semantic order. Modules whose Go version is older than the supported minimum are left out and all others kept, whatever form a Go version takes (with or without patch level, pre-releases).",
 ["inputs", "configurations"], "all pairs of module files and workspaces (direct and indirect requirements, several workspace members, members that come and go, ordering) and all explicit update requests",
 "Tests parse a few literal files; the difference has to be right for all combinations.",
 ["lens/module.go", "lens/engine.go", "lens/astexec.go"], [("definition file diff", "lens/module.go DiffModulesFromGoModFiles/DiffModulesFromGoWorkFiles"), ("version filter", "lens/astexec.go FilterModulesByGoVersion")], ["list of module changes"])
prop("P16", "Every changed dependency function is found, and only those",
 "Comparing two versions of a module reports, each once, exactly the functions and methods that exist in both versions and whose source differs (body, signature or receiver kind), with the package, file, entry and return lines and text they had before the update, and marks exactly the lines touched (next to a mere insertion, the neighbouring lines within the configured radius). Documentation, position, the file a function is in, test files, files for other platforms and functions that were added or removed are never reported as changes. When transitive updates are asked for, the dependencies that the new version requires differently than the old one and that the project uses at another version are analysed too, level by level, each module once at the version wanted most directly; a module requested more than once keeps its result, and repeated runs agree.",
 ["inputs", "configurations", "schedules"], "all pairs of module source trees over the modelled edits, all dependency graphs between modules, and all duplicate or diamond requests",
 "Tests diff small literal trees and one dependency level; duplicates, diamonds and ordering are combinatorial.",
 ["lens/module.go"], [("function-level diff", "lens/module.go"), ("visited set and transitive walk", "lens/module.go AnalyzeModuleChanges")], ["list of changed functions"])
prop("P17", "Mutation testing targets the right code and leaves no trace",
 "Mutation testing of changed dependency functions makes mutants in every place of the scope that the mutation tool offers, once each, and nowhere else: the scope is the changed functions as a whole, or with line scope only those of their lines that are marked as touched by the update (comments, blank lines, multi-line literals and other code in the file notwithstanding); fast mode leaves out the slow kinds of mutants. Each mutant is judged with exactly the tests selected for it (those found to reach the changed code, or all tests of the project), alone in otherwise original sources; a mutant counts as detected exactly when those tests fail, panic or exceed the time limit with it, and one that does not compile counts as neither. However a run ends (a mutant hangs, a script is killed, the tool fails) the original sources are intact after it and nothing is left beside them. The reported counts and score (share of the judged mutants that were detected, 1 the best) equal the outcomes observed.",
 ["configurations", "fault_sequences", "inputs"], "all scopes, target sets and mutant/test outcomes, including tests that fail, hang, or fail to compile",
 "There are no tests of the mutation runner's scripts beyond default settings.",
 ["lens/mutation.go"], [("generated execution scripts", "lens/mutation.go")], ["calls made to the mutation tool and test runner"])
prop("P18", "Report summary always agrees with its details",
 "For any analysis outcome (also one that ends early because nothing changed, is reachable or is tested) the written JSON report lists every analysed module, reachable changed function, affected project function, test, per-test result, field difference and significant time change exactly once, names the root module exactly when there is one, and its counts and totals equal what the details and stages say. The charts show the shares, time change and tests at risk (worst first, generated ones last, at most ten) of that very report, also when they are made later from the report file, and are readable images of the format asked for; where there is nothing to measure they claim no share. The same outcome leads to the same report and charts whatever the order in which things were found. Each file asked for is completely written, replacing an older one, or an error is returned; a file that was not asked for is no error.",
 ["inputs", "histories"], "all analysis outcomes (any modules, callers, tests, differences, early exits)",
 "Report tests render a few outcomes; consistency relates every part of every report.",
 ["lens/report.go", "lens/engine.go"], [("report aggregation", "lens/report.go")], ["JSON report"])
prop("P19", "With a temporary copy the user's tree is never written",
 "When the analysis is asked to work on a temporary copy, everything the analysis then reads and writes (project, module cache, Go path) lies in the copy, the copy is a faithful image of the original (names, nesting, content; links are recreated as links) that can be written to, and the original project, Go path and module cache are never modified, wherever the three lie (nested, equal, disjoint, named through links, module cache anywhere inside or outside the Go path) and also when one of them cannot be copied. Nothing of the copy remains after the run.",
 ["configurations", "fault_sequences"], "all placements of project, Go path and module cache (nested, shared, disjoint, linked, missing), and all directory trees of files, read-only entries and links",
 "Tests copy one simple layout.",
 ["lens/engine.go", "lens/file.go"], [("temporary environment set-up", "lens/engine.go setupTempEnvironment"), ("recursive copy", "lens/file.go CopyDir")], ["file system snapshot; environment passed to later stages"])
prop("P20", "Invalid configurations are rejected, valid ones completed consistently",
 "Every configuration is either rejected with an error or accepted, and it is accepted exactly when it names a project and at least one source of updates, not both an updated go.mod and go.work, only well-formed name@version requests (a name with a dot or slash, one @, a version), updated definition files that can be read, numbers within their documented limits, known mutation options, and report files in directories that exist or can be made. An accepted configuration carries exactly the requested modules in order (single request before the list) whatever was rejected before, an absolute project directory, and otherwise the options as given; preparing it again is refused and changes nothing. Preparation leaves the user's files alone (it may only create missing report directories). The command line yields the configuration it spells: last value given or documented default for every option, custom options included, Go path and module cache from the environment; a command line without project or update source, or with both updated go.mod and go.work, is refused.",
 ["configurations"], "all combinations of options and module request strings, all histories of rejected and corrected configurations, all command lines",
 "Config tests check options one at a time.",
 ["lens/engine.go", "lens/cmd/flags.go"], [("configuration validation", "lens/engine.go Config.Prepare")], ["Prepare result and resulting configuration"])
prop("P21", "Concurrency helpers keep their promises under every schedule",
 "The limiter never lets more than its limit of activities run at once, never loses a waiter and joins only after all activities finished; locks for equal keys exclude each other; the tee writer delivers every write to every target in order, also when one of them fails, and closes each closable target once; the rolling buffer never exceeds its bound (six bytes or more) and always retains the most recent output; the shared buffer never loses or tears a write, and what it handed out never changes afterwards; a command runs with its own environment entries overriding inherited ones, never with loader variables (LD_*), and its captured output is complete.",
 ["schedules", "histories", "inputs"], "all schedules of goroutines using the helpers and all write sequences",
 "Unit tests run one schedule of each helper.",
 ["lens/util.go", "lens/util_io.go"], [("token channel", "lens/util.go LimitingWaitGroup"), ("striped locks", "lens/util.go stripedMutex"), ("buffers", "lens/util_io.go")], ["helper API"])
prop("P22", "End to end: a behaviour change reaches the report, a no-op does not",
 "For a project with tests and a dependency update, the analysis runs the selected tests before and after the update in otherwise identical conditions and reports a difference for exactly those callers whose observable results changed because of the update, reports none for updates that change nothing observable, flags tests that newly fail or panic, and leaves the project as it found it.",
 ["programs", "histories", "configurations"], "all projects, dependency edits and test suites of the modelled shape",
 "No test runs the complete pipeline on a real update with a predicted outcome.",
 ["lens/engine.go", "lens/astexec.go", "lens/asttweak.go", "lens/astclient.go", "lens/astsrv.go"], [("whole pipeline", "lens/engine.go AnalysisEngine.Run")], ["JSON report and project directory"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, sch)
        print("valid", len(P))
    except ImportError: print("written", len(P))
