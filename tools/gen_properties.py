#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

WEB = "web/src/main.rs"; LIB = "core/src/lib.rs"; PAL = "core/src/parse/pallet.rs"; CLI = "cli/src/main.rs"
WORK = ("git working tree", "one shared checkout per repository that every comparison re-points and then reads", LIB)
REPOSS = ("repository registry", "one entry per exposed repository; its exclusive guard is the permit for the checkout", WEB)
CACHE = ("comparison cache", "process-wide map from request arguments to the last successful answer and its age", WEB)

prop("C01", "A comparison answers for exactly the two revisions it was asked about",
 "Every successful answer of the web service to a comparison request lists exactly the calls, old values and new values that follow from the content of the requested old revision and the requested new revision of the requested repository, under the requested dimension, method, filters and threshold. No other request that is in flight at the same time, on the same or another repository, can change any of it.",
 ["schedules", "histories", "inputs"],
 "All interleavings of concurrent comparison, branch-listing and page requests over several repositories whose branches keep moving on the remote, for all revision kinds (branch, tag, commit hash), dimensions, methods, thresholds and filters.",
 "Unit tests call the comparison functions on fixed inputs from one thread; none starts the server, none runs two requests, none checks out a revision of a changing repository.",
 [WEB, LIB, PAL, "core/src/term.rs", "web/templates/compare.stpl"],
 [("exclusive repository permit for the duration of a comparison", WEB+" do_compare_cached"), ("checkout, list, read and parse old, then new", LIB+" compare_commits"), ("set-wise comparison of the calls", LIB+" compare_files")],
 [WORK, REPOSS], ["HTTP response of /compare"])
prop("C02", "A failing git step yields an error, never a comparison",
 "If any git step that a comparison depends on cannot be started, fails, or is killed, the request is answered with an error and not with a comparison; a successful answer is always the one that a failure-free run would have given. The next request for the same repository is answered as if the failure had not happened.",
 ["fault_sequences", "schedules"],
 "All sequences of process-start failures, non-zero exits, deaths by signal (before or after the step took effect), network failures and unreadable error output, at every git step of every comparison.",
 "The tests never make git fail; whether an error path silently continues with the previous checkout or a stale local branch is not observable with a healthy repository.",
 [LIB, WEB], [("exit status and start errors of each git step are checked", LIB+" git_checkout, git_pull, git_reset"), ("only successes are cached", WEB+" do_compare_cached")],
 [WORK, CACHE], ["HTTP response of /compare"])
prop("C03", "A crash in the middle of a checkout leaves no trace in later answers",
 "After the server or a git step is killed at any point and the server is started again on the same directories, every answer is the same as on a fresh clone, or an error while the repository needs repair; files that an interrupted checkout left behind never show up in a comparison.",
 ["crash_points", "histories"],
 "All crash points between and inside the steps of a comparison, including a checkout of which only part of the files was written and a lock file that was left behind, followed by restart and further requests.",
 "No test kills anything; the durable state a crash leaves (index, working tree, lock files, refs) is never inspected.",
 [LIB, WEB, "web/src/git.rs"], [("hard reset of the checkout before each read", LIB+" git_reset"), ("listing of the weight files of the checkout", LIB+" list_files, compare_commits"), ("start-up from the directories alone", WEB+" main")],
 [WORK], ["HTTP responses after restart"])
prop("C04", "The checkout of a repository is used by one request at a time",
 "While a comparison is between its first git step and its last file read, no other request of the server runs a git step that changes that repository or reads files of its checkout. Requests that change the repository for other purposes (fetching branches) exclude each other and comparisons as well.",
 ["schedules"],
 "All interleavings of comparison and branch-listing requests, with and without fetch, over one or several repositories, with git steps of any duration.",
 "A test pins an assumption about the lock of the map library with no second thread and no git; nothing checks that every request path holds the lock, in the right mode and for long enough.",
 [WEB, LIB], [("exclusive permit", WEB+" do_compare_cached REPOS.get_mut"), ("permit while fetching branches", WEB+" branches"), ("whole comparison runs under the permit", LIB+" compare_commits")],
 [REPOSS, WORK], ["begin and end of every git process and every file access in the checkout"])
prop("C05", "Every request is answered; no request can block the service for good",
 "Every request that reaches the server gets one complete HTTP response as long as the git processes it started end, whatever other requests are in flight and however they fail. After all faults have stopped, comparison, branch-listing and page requests are again answered successfully without a restart.",
 ["schedules", "fault_sequences"],
 "All interleavings of all kinds of requests with slow git steps, aborted and fragmented client connections, unparsable repository content and git failures.",
 "Deadlock, lost wake-ups and poisoned locks need several workers and a failing step at the wrong moment; the tests start no server.",
 [WEB, LIB, PAL, "core/src/term.rs"], [("per-repository permit released on every path", WEB), ("cache lock released on every path", WEB+" do_compare_cached"), ("request handlers on four workers", WEB+" main")],
 [REPOSS, CACHE], ["HTTP responses of all routes"])
prop("C06", "The cache never serves another request's, a failed or an outdated answer",
 "A cached answer is only ever served for a request whose arguments all equal those of the request that computed it, at most ten minutes after it was computed. Errors are never served from the cache.",
 ["histories", "schedules", "fault_sequences"],
 "All histories of requests that differ in any subset of their arguments, at any distance in time including the expiry boundary, with any git step failing, and under concurrent identical requests and jumps of the wall clock.",
 "There is no test of the cache; expiry needs ten minutes of clock and the key needs pairs of requests differing in one argument.",
 [WEB], [("time-limited result cache keyed by all arguments", WEB+" do_compare_cached, CompareArgs")],
 [CACHE], ["HTTP response of /compare and its cache-hit row"])
prop("C07", "Identical requests within ten minutes are computed once and labelled so",
 "If a comparison succeeded less than ten minutes ago, an identical request is answered with the same comparison without any git step, and says that it was a cache hit; an answer that was computed for the request says that it was not. Identical requests that arrive together are computed once.",
 ["histories", "schedules"],
 "All histories and interleavings of identical and different requests, with simulated time between them from zero to beyond the expiry, and jumps of the wall clock.",
 "There is no test of the cache, and concurrent identical requests need several workers.",
 [WEB, "web/templates/compare.stpl"], [("time-limited result cache with synchronised computation and hit flag", WEB+" do_compare_cached"), ("cache-hit row", "web/templates/compare.stpl")],
 [CACHE], ["HTTP response of /compare", "git processes started"])
prop("C08", "With git pull an answer reflects the remote; without it the network is not used",
 "A freshly computed comparison with git pull (the default) uses, for each of its two revisions, a state that the remote branch, tag or commit had at some moment between the request's arrival and its answer, even if the branch was force-pushed or the local clone was never told about it. A comparison without git pull contacts no remote and uses what was last fetched.",
 ["histories", "schedules"],
 "All histories of pushes, force-pushes, branch creations and deletions on the remote interleaved with requests, for both settings, for the web service and the command line tool.",
 "No test has a remote that moves; staleness is only visible when a branch changes between two comparisons.",
 [LIB, WEB, CLI], [("fetch before the checkout, preference for the remote-tracking state", LIB+" git_checkout, git_pull, git_reset"), ("default of the pull flag", WEB+" do_compare_cached"), ("offline overrides pull", LIB+" CompareParams::should_pull")],
 [WORK], ["answers, remote contacts"])
prop("C09", "The branch list is exactly what the remote has, or an error",
 "A successful branch listing contains every branch and tag of the requested repository's remote exactly once with its abbreviated commit, as of a moment during the request, and nothing else except that refs with braces or carets in their listing are left out. If contacting the remote fails or answers garbage, the request gets an error response and later requests are unaffected.",
 ["fault_sequences", "histories", "schedules"],
 "All remote histories (creation, deletion, force-push of branches and tags, annotated tags), all failures and outputs of the git steps, concurrent with comparisons on the same repository.",
 "The route has no test.",
 [WEB], [("ls-remote and its parser", WEB+" branches"), ("fetch with prune", WEB+" branches")],
 None, ["HTTP response of /branches"])
prop("C10", "A file that cannot be read or parsed is never silently dropped in strict mode",
 "Without ignore-errors, a comparison in which any selected weight file or directory cannot be accessed, listed, opened, read or parsed is an error. With ignore-errors, exactly the calls of the files that could not be read or parsed are missing and all others are as usual.",
 ["fault_sequences", "inputs"],
 "All placements of I/O errors (looking at a path, open, read at any offset, directory listing), dangling links, permission errors, files vanishing and unparsable content over the files of both revisions, for the web service and the command line tool.",
 "The tests read healthy files; no test fails an open, a read or a directory listing.",
 [LIB, PAL, "core/src/parse/mod.rs", CLI], [("strict and lenient parsing of a file list", PAL+" parse_files_in_repo, try_parse_files_in_repo"), ("complete read of a file", "core/src/parse/mod.rs read_file"), ("listing errors are errors", LIB+" list_files")],
 None, ["HTTP response of /compare", "stdout and exit code of the CLI"])
prop("C11", "Harmless nondeterminism never shows in an answer",
 "The same comparison of the same revisions always produces the same bytes: short reads, interrupted system calls, directory order, hash seeds, thread interleaving, wall-clock time and the requests that came before make no difference.",
 ["schedules", "histories", "inputs"],
 "All combinations of read sizes, interruptions, directory orders, hash seeds, interleavings and clock values, for the web service and the command line tool.",
 "Tests run with one hash seed per process and full-size reads, and compare parsed structures, not the bytes of two differently scheduled runs.",
 [LIB, "core/src/parse/mod.rs", PAL, WEB, "web/src/html.rs", CLI], [("sorted file list and ordered call names", LIB+" list_files, compare_files"), ("ordered corner set", LIB+" extend_scoped_components"), ("stable sort of changes", LIB+" sort_changes")],
 None, ["HTTP response of /compare", "stdout and exit code of the CLI"])
prop("C12", "A request can only reach into the checkout of the repository it names",
 "Whatever revision names and path pattern a request carries, and whatever the named revisions contain, the server never reads a file outside the checkout of the named repository for it and never starts a program other than git with the intended sub-commands; a revision name is never taken as an option or path. Requests for repositories that are not exposed are errors and cause no git step.",
 ["inputs", "histories"],
 "All revision names and path patterns, including dot components, absolute paths, glob classes, option-like and path-like names and HTML entities, on repositories that contain symbolic links and nested directories, in any order with ordinary requests.",
 "The only guard is a textual check for two dots, tested by nothing; what the file system and git make of an argument shows only when they are run.",
 [LIB, WEB], [("textual check of the path pattern", LIB+" compare_commits"), ("glob below the repository path", LIB+" list_files"), ("revision passed to git as an argument", LIB+" git_checkout, git_pull, git_reset")],
 None, ["file opens and directory listings of the server", "argument vectors of its processes"])
prop("C13", "The server starts completely or not at all",
 "The server accepts connections only after every configured repository was found to be a git checkout with a GitHub origin and the static directory exists, and, when it is to serve TLS, certificate and key were found to be usable and to belong together; otherwise it exits with an error and never serves. This also holds when a git step of the start-up fails or is killed, and a start that succeeded shows every configured repository.",
 ["fault_sequences", "configurations"],
 "All configurations of existing, missing, non-git and wrongly-remoted repository directories and static directories, and of missing, damaged or unrelated certificates and keys, with any git step of the start-up failing.",
 "The tests cover only the URL pattern of one helper on healthy repositories; no test starts the server.",
 [WEB, "web/src/git.rs"], [("origin lookup per repository", "web/src/git.rs get_origin_org"), ("checks before bind", WEB+" main")],
 [REPOSS], ["exit status, listening socket, root page"])
prop("C14", "Malformed repository content harms at most the request that compares it",
 "Comparing a revision whose files contain arbitrary bytes, unsupported Rust or absurd weight expressions gives an error or an answer that reports the affected calls, and never stops the server, drops the connection without a response, or changes the answer of any other request.",
 ["inputs", "histories", "schedules"],
 "All file contents committed to a compared revision, compared at any time between and concurrently with ordinary requests.",
 "The parser tests feed supported syntax and check the result; what an internal assertion on unsupported content does to locks and later requests needs a running server.",
 [PAL, LIB, "core/src/term.rs", WEB], [("parser returns errors", PAL), ("per-call failure entries", LIB+" compare_files"), ("locks survive a failing comparison", WEB+" do_compare_cached")],
 [CACHE, REPOSS], ["HTTP responses"])
prop("C15", "A CLI comparison of commits is complete and correct or fails loudly",
 "The command line comparison of two commits either prints the comparison of exactly these two commits and exits with success, or exits with an error and prints no comparison, whatever git step fails, is killed, or was interrupted in an earlier run. (Without --git-force this presumes that the tracked files of the checkout carry no local modifications, which git keeps on purpose.)",
 ["fault_sequences", "crash_points", "configurations"],
 "All failures of each git step, all crash points inside an earlier run's checkout, and all combinations of the pull, force and offline flags on a clean working tree, for branches, tags and hashes.",
 "The CLI has no test of the commit comparison; failures and interrupted runs are not simulated.",
 [CLI, LIB], [("git steps are checked", LIB+" git_checkout, git_reset, git_pull"), ("errors end the process with a failure", CLI+" main")],
 [WORK], ["stdout, exit code"])
prop("C16", "CLI output is written completely or the run fails",
 "If the CLI exits with success, everything it had to print is in its standard output exactly once, also when writes are short or interrupted. If the output cannot be written (full disk, closed pipe, I/O error), the run does not exit with success.",
 ["fault_sequences"],
 "All sequences of short writes, interruptions and errors on standard output, at any byte offset, for all output formats.",
 "Tests never run the CLI with an output that fails.",
 [CLI], [("single formatted output", CLI+" print_changes")],
 None, ["stdout bytes, exit code"])
prop("C17", "CLI file comparison and parsing report every unreadable input",
 "Comparing or parsing an explicit list of files without ignore-errors succeeds only if every listed file was read completely and parsed; otherwise the exit code is an error and no comparison is printed. With ignore-errors exactly the failing files' calls are missing.",
 ["fault_sequences", "inputs"],
 "All placements of open errors, read errors at any offset, short reads, interruptions and unparsable files over both lists, for both sub-commands.",
 "Tests parse healthy files through library functions; the CLI's exit code and output under I/O errors are untested.",
 [CLI, PAL, "core/src/parse/mod.rs"], [("strict and lenient parsing", PAL+" parse_files, try_parse_files"), ("errors end the process with a failure", CLI+" main")],
 None, ["stdout, exit code"])
prop("C18", "The worst case is found whatever the order components are visited in",
 "For every call the reported old and new value belong to the corner of the component ranges with the greatest relative increase (all corners for the worst-case methods, the single corner for the others), and the result, including the error when a component has no usable range, does not depend on the order in which components, ranges or corners are visited.",
 ["schedules", "inputs"],
 "All visiting orders (hash seeds) and all calls with up to sixteen components, with and without ranges, equal or different ranges in the two versions, for all methods and dimensions.",
 "Tests use fixed terms with one or two components and one hash seed per process.",
 [LIB, "core/src/scope.rs", "core/src/term.rs"], [("corner enumeration", LIB+" extend_scoped_components"), ("range instantiation", LIB+" instance_component"), ("greatest relative increase", LIB+" compare_extrinsics")],
 None, ["stdout of the CLI"])
prop("C19", "The set-up page offers the branches of the repository it shows",
 "Once all its requests have ended, the set-up page offers exactly the branches and count of the repository that is selected, and starts a comparison for the repository, revisions and path pattern that it displays, whatever order and delay the server's answers had and whichever of them failed.",
 ["schedules", "fault_sequences", "histories"],
 "All sequences of repository selections, fetch clicks and branch choices, with every branch-list answer arriving in any order, late, failing or never.",
 "The browser code has no test at all.",
 ["web/static/root.js", "web/static/common.js", WEB], [("per-repository branch cache and population of the selectors", "web/static/root.js load_branches, populate_branches")],
 None, ["page state", "navigation URL"])
prop("C20", "A failed request never leaves a page stuck behind its loading overlay",
 "On the set-up page and the merge-request page the loading overlay is shown only while a request or navigation that the page waits for is outstanding; once every request has ended, successfully or not, or the user comes back from the page that was opened, the page is usable again.",
 ["schedules", "fault_sequences"],
 "All sequences of user actions and all outcomes (success, HTTP error, network failure, any order) of the requests they cause.",
 "The browser code has no test at all.",
 ["web/static/root.js", "web/static/merge_requests.js", "web/static/common.js"], [("loading overlay switched off when the request ends", "web/static/root.js load_branches; web/static/merge_requests.js")],
 None, ["page state"])
prop("C21", "The merge-request page compares exactly the merge request that was double-clicked",
 "The merge-request page lists every merge request that GitHub answered with, and a double-click on one of them starts exactly one comparison, of that merge request's base with its head in the shown repository, after the server has fetched the branches; merge requests of forks start none.",
 ["schedules", "fault_sequences", "histories"],
 "All sequences of double-clicks and repository selections, all lists of merge requests (branch names with special characters, deleted forks and accounts, equal titles), with GitHub's and the server's answers arriving in any order, late, failing or never.",
 "The browser code has no test at all.",
 ["web/static/merge_requests.js", "web/static/common.js", WEB], [("row handlers, parameters and navigation", "web/static/merge_requests.js")],
 None, ["page state", "requests", "navigation URL"])

prop("C22", "The comparison page compares again with exactly the argument that was changed",
 "The comparison page shows in its controls the arguments that it answers for, and giving one of these controls another value requests exactly one comparison, which has that value and otherwise the arguments of the page, whatever was changed, stopped, restored or reloaded before and whatever anchor the address has.",
 ["histories", "fault_sequences"],
 "All sequences of changes to any control with any text, all addresses (arguments left out or written differently, anchors of rows that exist or not), navigations that are slow, replaced by a later one or stopped, and returns to a page.",
 "Neither the template nor the browser code has a test.",
 ["web/static/table.js", "web/templates/compare.stpl", WEB], [("redirect of a changed control", "web/static/table.js url_redirect"), ("controls show the arguments", "web/templates/compare.stpl config_table")],
 None, ["page state", "navigation URL"])

# Guarantees that are pure functions of their input: listed, but not claimed (see MANIFEST not_applicable).
NA = []
def na(id, title, statement, files, mech, why):
    prop(id, title, statement, ["inputs"], "All inputs of the function.", "Tests sample a handful of inputs.", files, mech)
    NA.append((id, why))
R = "pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour takes part, so a simulator has nothing to decide; generating inputs for it would be property-based testing in simulator vocabulary"
na("N01", "Supported weight syntax is parsed to the weight it denotes",
   "Every weight function in a supported syntax generation is parsed to a term that evaluates, for all component values, to the weight the Rust expression denotes.", [PAL], [("expression parser", PAL)], R + " (the generated repositories of C01 and C18 exercise it as a by-product)")
na("N02", "Storage and overhead weight files are parsed to their constants",
   "Database and overhead weight files are parsed to exactly the constants they define, and other files are rejected.", ["core/src/parse/storage.rs", "core/src/parse/overhead.rs"], [("parsers", "core/src/parse")], R)
na("N03", "Threshold and change filters keep exactly the matching changes",
   "A change is listed if and only if its kind is selected and, for changed calls, its absolute relative change reaches the threshold.", [LIB], [("filter", LIB+" filter_changes")], R)
na("N04", "Changes are listed in a consistent total order",
   "The comparison used for sorting is a consistent order, and the listing is sorted by kind and relative change.", [LIB], [("ordering", LIB+" sort_changes")], R)
na("N05", "Values are formatted in the right unit without misstating magnitude",
   "A formatted value denotes the input up to its displayed precision.", [LIB], [("formatters", LIB+" Dimension")], R)
na("N06", "Text from repositories and requests is escaped in pages",
   "Text taken from a repository or a request cannot introduce markup into a page.", ["web/src/html.rs", "web/templates"], [("template escaping", "web/templates")], R)
na("N07", "Sanity warnings are raised exactly for absurd storage access counts",
   "A call is marked with a warning if and only if it has a constant factor of more than 1000 reads or writes.", [LIB], [("sanity check", LIB+" sanity_check_term")], R)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
