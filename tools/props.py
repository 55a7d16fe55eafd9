NOTES = ("One Go program (/verif/analyzer) decides every property from the type-checked SSA of /repo's current tree; it never runs hound. "
         "The engine (analyzer/eng) is a path-sensitive symbolic dataflow over SSA with inlining, deferred calls, goroutines and closures; analyzer/rules has one rule per property. "
         "selftest/run.py rewrites sources in an overlay and checks that each rule fires on broken variants and stays silent on refactorings.")
ENG = ("Path-sensitive interprocedural dataflow over the SSA form, all paths of all entry points including goroutines, closures and deferred calls, loops to a fixed point; "
       "sound up to the stated assumptions, not a machine-checked proof. ")
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, tech=None, note="", **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=ENG + note)
    d.update(kw)
    PROPS.append(d)

P("C01", "Requests are served from one live index",
  "Every search, and every listing of excluded files, is answered wholly from one index which is open and on disk for as long as the request uses it. An index is never closed, replaced or deleted while a request reads it, whatever the schedule of requests and reindexing.",
  ["schedules"], "every interleaving of any number of searches and excluded-file listings with reindexing, and every path through them",
  "A race needs a request to be in the middle of reading exactly when an index is swapped; tests run requests and reindexing one after the other.",
  ["searcher/searcher.go", "index/index.go"],
  [("reader-writer lock of the searcher held around use and swap", "searcher/searcher.go Searcher"), ("reader-writer lock of the index held around search, close and destroy", "index/index.go Index")],
  tech="inferred guarded-by analysis (lockset along every path from every goroutine root) over index handle, trigram index and index directory",
  note="Decides that uses of index state happen under the lock which its replacement, closing and deletion exclude; trusts sync.RWMutex.")

P("C02", "Reindexing swaps indexes completely or not at all",
  "When reindexing succeeds, all later searches use the new index, and the previous index, and no other, is closed and its directory deleted. When reindexing fails at any point, the searcher keeps serving the previous index, which stays open and on disk.",
  ["fault_sequences", "histories"], "every outcome of every step of an update (pull, build, open, swap, deletion) and every sequence of updates",
  "Failures of single steps (disk full, missing directory, broken checkout) are not produced by the tests, and each combination leaves a different mixture of old and new index.",
  ["searcher/searcher.go", "index/index.go"],
  [("swap of the index under the searcher's lock", "searcher/searcher.go swapIndexes"), ("destruction of the old index", "index/index.go Destroy")],
  tech="typestate of index handles (built, live, replaced, destroyed) along every path of reindexing",
  note="Decides which handle is installed and which is destroyed on each path, not what the handles contain.")

P("C03", "Only completely built indexes are ever opened",
  "An index directory is recognised as an index only when its sources were walked, its list of excluded files written and its trigram data completed without error, at whatever point a build fails or the process dies. A directory is opened for searching only if it is so recognised or its build was just reported successful, and every build uses a directory no other build uses.",
  ["crash_points", "fault_sequences"], "every point at which a build can be interrupted by an error or a crash, and every build of every process",
  "It concerns what is on disk after an interruption between any two file system operations; the tests only build to completion.",
  ["index/index.go", "searcher/searcher.go"],
  [("metadata file written last", "index/index.go Build, writeManifest"), ("metadata decoded before opening", "index/index.go Read, Open"), ("random directory names", "searcher/searcher.go nextIndexDir")],
  tech="ordering/typestate of file operations on every path of a build; origin analysis of build directories",
  note="Assumes a crash leaves a prefix of the performed file operations.")

P("C09", "Concurrent indexing is limited",
  "At no time do more working copies get updated or indexes get built than the configured maximum of concurrent indexers. Every permit taken is given back whatever the outcome, and none is held while merely waiting for the next update, so that no repository is starved.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of start-up and polling of any number of repositories, and every failing step",
  "Exceeding or leaking the limit depends on the schedule of many repositories and on error paths; tests index one or two repositories successfully.",
  ["searcher/searcher.go"],
  [("limiter channel", "searcher/searcher.go limiter, MakeAll"), ("token held around update and build", "searcher/searcher.go newSearcherConcurrent, updateAndReindex")],
  tech="typestate of limiter tokens along every path of every goroutine, with the capacity and sharing of the channel derived from its creation",
  note="Counts tokens per goroutine; trusts channel semantics.")

P("C06", "Every file is indexed or listed as excluded",
  "After a successful build, every file of the source tree that is not version control metadata (nor below an excluded directory) is either in the index under its path relative to the root, or in the list of excluded files under that path with a non-empty reason. A directory is skipped as a whole only if it is version control metadata, or a dot directory while dot files are excluded. The index writer accepts a file only after recording its name and all trigrams it collected from it.",
  ["inputs", "fault_sequences"], "every source tree, every file in it and every outcome of reading and classifying a file",
  "It quantifies over all trees and over combinations of file type, name, content, size and options; tests index one small tree.",
  ["index/index.go", "codesearch/index/write.go"],
  [("callback of the directory walk", "index/index.go indexAllFiles"), ("reason returned by the writer", "codesearch/index/write.go Add")],
  tech="per-entry obligation checked on every path of the walk callback and of the index writer",
  note="Takes the classification of content (text, trigram ratio, line length) as given; decides that each verdict leads to indexing or listing.")

P("C07", "Version control metadata is never indexed",
  "No file or directory a version control system keeps for itself in the working copy (.git, .hg, .svn, .bzr), as named by the driver in use, is ever indexed, copied or listed, at any depth, nor anything below it.",
  ["inputs", "configurations"], "every source tree and every version control driver",
  "Metadata may occur at any depth and as a file or a directory (worktrees, submodules); tests use one tree without it.",
  ["index/index.go", "searcher/searcher.go", "vcs/git.go", "vcs/hg.go", "vcs/svn.go", "vcs/bzr.go"],
  [("comparison with the special names", "index/index.go indexAllFiles"), ("special names of a driver", "vcs SpecialFiles"), ("options of a build", "searcher/searcher.go newSearcher")],
  tech="must-have-tested-before dataflow on every path of the walk callback; provenance of the special names from driver to build",
  note="The expected name of the metadata directory of each registered driver is a table in the rule.")

P("C29", "Symbolic links and special files are never followed",
  "Indexing never follows symbolic links in, nor opens devices, pipes or sockets of, the source tree: only regular files are opened, so that no file outside the tree gets indexed and no build blocks on a pipe.",
  ["inputs"], "every source tree and every kind of entry",
  "The tests' tree has regular files only.",
  ["index/index.go"],
  [("mode check before opening", "index/index.go indexAllFiles")],
  tech="must-have-tested-before dataflow: opening of a walked path requires its lstat mode known regular",
  note="Does not cover an entry replaced between the check and the opening.")

P("C05", "Failed index builds are reported",
  "If any step of building an index fails - creating a directory or file, reading the source tree, compressing or writing data, writing the file list or the metadata - the build is reported as failed or the process stops; it never reports success for an index that lacks data.",
  ["fault_sequences"], "every step of every build failing, alone or together with others, at any time",
  "A full disk, an unreadable directory or a failing flush is not produced by the tests; a swallowed error is invisible until searches miss files.",
  ["index/index.go", "codesearch/index/write.go"],
  [("errors returned by the steps of a build", "index/index.go Build, indexAllFiles, addFileToIndex"), ("errors of the index writer", "codesearch/index/write.go")],
  tech="error-flow analysis: on every path of a build on which the error of a step is known non-nil, the build may not return success",
  note="Covers every fallible call reachable from a build; a file that cannot be read may be listed as excluded instead (C06).")

P("C04", "Existing indexes are reused and cleaned up correctly",
  "At start-up an existing index is used for a repository only if its URL and revision match, and by one searcher only. The index directories no searcher uses are deleted, all of them, and only after every searcher has been set up. Every start-up goroutine reports exactly one result.",
  ["histories", "schedules"], "every set of index directories left by earlier runs, every configuration and every interleaving of the start-up of its repositories",
  "It needs several repositories starting concurrently over directories left by earlier runs of other configurations; tests start from an empty directory.",
  ["searcher/searcher.go", "index/index.go"],
  [("claiming of references", "searcher/searcher.go foundRefs.claim"), ("removal of the unclaimed", "searcher/searcher.go foundRefs.removeUnclaimed, MakeAll"), ("results of start-up", "searcher/searcher.go newSearcherConcurrent")],
  tech="typestate of index references (found, claimed, used, deleted) with a lockset for the table of claims, along every path of start-up and of the goroutines it starts",
  note="Counts one result per goroutine against one receive per iteration of a loop over the same repositories.")

P("C08", "Indexes are labelled with the revision and URL indexed",
  "An index is built only from the working copy that was just successfully updated, and is labelled with the URL of the repository and the revision that update reported; the working copy is not updated again before the build is over. The poller skips a build after a successful update only if the live index already has the revision updated to. Every search response names the revision of the index searched.",
  ["histories", "schedules", "fault_sequences"], "every sequence of updates and their outcomes, every interleaving of repositories sharing a working copy, and every path of a build",
  "A wrong label needs a failed or concurrent update between two particular steps; the tests index a tree which does not change.",
  ["searcher/searcher.go", "index/index.go"],
  [("update followed by a build under the lock of the working copy", "searcher/searcher.go newSearcher, updateAndReindex"), ("metadata of a build", "index/index.go Build"), ("revision of a response", "index/index.go Search")],
  tech="provenance of revision and URL from version control update to build, metadata and response, with lockset and typestate, along every path",
  note="Trusts the driver to report the revision it leaves behind (C21).")

P("C13", "Requests for unknown repositories are harmless",
  "A request naming repositories which do not exist never crashes the server or its goroutines and never touches another repository: unknown names in a list are left out of a search, and a request for one repository which does not exist is answered with an error and status 404. The table of searchers only holds searchers which exist.",
  ["inputs"], "every request and every table of searchers, on every path of every handler and of the goroutines it starts",
  "The names come from the client and may be anything; a crash in a goroutine started by a handler ends the whole server and shows only for particular names.",
  ["api/api.go", "searcher/searcher.go"],
  [("selection of repositories", "api/api.go parseAsRepoList"), ("check of the searcher found", "api/api.go Setup"), ("table of searchers", "searcher/searcher.go MakeAll")],
  tech="nilness typestate of searchers found by client-supplied names, and must-have-checked dataflow for names put into lists, along every path of every handler",
  note="Names that reach the table from configuration are taken as existing.")

P("C17", "Repositories are updated only as configured",
  "An update requested over HTTP takes effect only for a POST request and only for repositories for which push updates are enabled; otherwise it is refused with status 403 and nothing is acknowledged. A repository is polled exactly if polling is enabled for it, at the configured interval, and is updated only when requested or due; with both disabled it is never updated.",
  ["configurations", "histories"], "every configuration of polling and push updates, every request and every sequence of wake-ups of the updating goroutine",
  "It is about what never happens over any length of time and for each combination of options; tests neither wait for an interval nor send update requests.",
  ["api/api.go", "searcher/searcher.go", "config/config.go"],
  [("update handlers", "api/api.go Setup"), ("queue of update requests", "searcher/searcher.go Update"), ("updating goroutine", "searcher/searcher.go newSearcher, waitForUpdate")],
  tech="guard dataflow: the known answers of the configuration and the request method at every update, timer and answer, along every path of handlers and updating goroutines",
  note="Takes time.After and its relatives to fire after the duration given; does not decide how the options are parsed (C20).")

P("C18", "A search covers exactly the files asked for",
  "A search considers every file the index says may match. A file is searched exactly if its name matches the file pattern (if one is given), does not match the exclude pattern (if one is given), and the limit on matches is not reached yet; no other file is read. The expression matched is the one asked for (taken literally or without regard to case only if asked), the same expression selects the candidates, every line found is reported once, under the file it was found in and with the number and context the reader of that file gave for it, unless offset, range or limit exclude it, and what fails fails the search. (Whether that number is right is N01.)",
  ["inputs"], "every pattern, every combination of search options, every list of candidate files and every outcome of what is called",
  "The obligations concern every file of every candidate list and each combination of options; tests search one small index with few options.",
  ["index/index.go", "index/grep.go", "codesearch/regexp/regexp.go"],
  [("selection of files and matches", "index/index.go Search"), ("loop over the matches of a file", "index/grep.go grep2"), ("compilation", "codesearch/regexp/regexp.go Compile")],
  tech="path-sensitive dataflow over the search and its matcher callback: per-file and per-match obligations discharged only by known outcomes of the pattern tests, offset, range and limit",
  note="Takes the automaton and the trigram query as given (N01, N02).")

P("C23", "Each API request gets exactly one JSON answer",
  "Every handler of the API answers every request with exactly one complete JSON document, with its content type and access control headers, set before anything is sent. If what was asked for failed, the document is an error message, and except for failed searches the status is an error too; an error status is never sent with a result.",
  ["inputs", "fault_sequences"], "every request, every outcome of what the handlers call and every path through them",
  "Missing returns and headers set too late show only on particular error paths; the tests do not exercise the handlers.",
  ["api/api.go"],
  [("writers of answers", "api/api.go writeJson, writeResp, writeError"), ("handlers", "api/api.go Setup")],
  tech="typestate of the response writer (headers, status, documents written) along every path of every handler",
  note="Assumes net/http delivers what is written.")

P("C10", "A shutdown request ends the server cleanly",
  "A request to shut down is never lost, not even while the indexes are first built. Upon it every searcher is told to stop, which neither blocks nor gets lost, an update under way is completed, none is begun by an updater which has seen the request, and the process exits once every updater has ended. No updater waits where it would not see the request, and each reports its end exactly once.",
  ["schedules"], "every moment at which the request can arrive, every interleaving with the updaters of any number of repositories, and every repository configuration",
  "The outcome depends on what each of the updaters is doing when the signal arrives; no test sends one.",
  ["cmds/houndd/main.go", "searcher/searcher.go"],
  [("signal caught before indexing", "cmds/houndd/main.go registerShutdownSignal, handleShutdown"), ("request and end of an updater", "searcher/searcher.go Stop, Wait, completeShutdown, waitForUpdate"), ("start of polling", "searcher/searcher.go begin, MakeAll")],
  tech="typestate of the signal channel, the stop and end channels and the updater along every path of the command and of the goroutines it starts; obligation per searcher in the loops of the shutdown",
  note="Does not bound how long an update in progress (an external command) takes.")

P("C31", "A search request is carried out as asked",
  "A search request searches every known repository it names (all of them if it asks for all), each with the pattern and the options given in its parameters, within fixed bounds on context lines and matches. The answer reports, under each repository's own name, exactly what that repository's search returned; if one of the searches fails the request fails rather than answering in part.",
  ["inputs", "schedules"], "every combination of request parameters, every set of repositories and every order in which the searches of one request finish",
  "The searches of one request run concurrently and answer in any order, and each parameter feeds one option; the tests do not exercise the handlers.",
  ["api/api.go"],
  [("parameters to options", "api/api.go Setup, parseAsBool, parseAsRepoList, parseRangeValue"), ("one search per repository, one result each", "api/api.go searchAll")],
  tech="provenance dataflow from request parameters to search options, and per-element obligations in the loops which start the searches and collect their results",
  note="How a parameter's text is converted is checked only for where the value comes from and for its bounds.")

P("C14", "Version control credentials stay inside the server",
  "The vcs-config given for a repository, and the passwords in it, never leave the server: they are in no response, page, log line, console output, logged error, file or request the server makes, whatever fails. Where a repository's configuration is sent to clients, its vcs-config is replaced by a constant.",
  ["inputs", "fault_sequences"], "every configuration, every request and every failure on the way from the configuration to the driver",
  "A leak needs a particular driver to fail in a particular way, or one more field to be encoded; no test looks at logs or pages for secrets.",
  ["config/config.go", "vcs/svn.go", "vcs/vcs.go", "ui/ui.go", "api/api.go"],
  [("form of secrets in JSON", "config/config.go SecretMessage.MarshalJSON"), ("credentials of drivers", "vcs/svn.go SVNDriver"), ("configuration sent to clients", "ui/ui.go, api/api.go")],
  tech="interprocedural taint analysis (flow-insensitive, field-based) from credentials to everything that leaves the server, with a type-directed check of what JSON encoding and printing of a value contains",
  note="Credentials passed to the version control command itself, and what that prints, are outside.")

P("C24", "Pages contain outside data only escaped",
  "Whatever comes from a request or the configuration appears in the pages the server renders only escaped for its place: only bundled assets and constants are declared trusted markup, HTML pages are rendered by the escaping template engine only, in both modes, and the other templates escape such values themselves.",
  ["inputs"], "every request and every configuration, every template and every path on which templates are parsed",
  "Injection needs a title, URL or host with markup in it; the tests render no page.",
  ["ui/ui.go", "ui/content.go", "web/web.go"],
  [("rendering", "ui/ui.go renderForDev, renderForPrd"), ("table of pages", "ui/content.go contents"), ("templates", "ui/assets/*.tpl.*")],
  tech="taint analysis from requests and configuration to trusted-markup conversions and direct writes; path-sensitive check of which engine parses which kind of template; parse of the plain templates",
  note="Trusts html/template's contextual escaping.")

P("C32", "Requests cannot name files, commands or addresses",
  "Nothing in a request, whether its path, parameters, headers, host or body, determines which file outside the bundled assets is opened, listed, written or removed, which command is run with which arguments, which address is contacted, which template is parsed, or the format of a message.",
  ["inputs"], "every request to every handler, through every function it reaches",
  "It is about requests nobody thought of; the tests do not exercise the handlers.",
  ["api/api.go", "ui/ui.go", "ui/bindata.go", "searcher/searcher.go", "web/web.go"],
  [("assets by name", "ui/bindata.go Asset, AssetInfo"), ("excluded files", "searcher/searcher.go GetExcludedFiles"), ("handlers", "api/api.go Setup")],
  tech="interprocedural taint analysis from requests to names of files, commands, addresses, templates and format strings",
  note="Trusts http.Dir to confine the file server of the development mode; a value chosen by a lookup with a request's value is not derived from it.")

P("C20", "The configuration takes effect as written",
  "After loading succeeds, every option given in the file has its value, and every option left out has its documented default, for the server and for each repository. Global vcs-config settings reach every repository which uses that version control system (the default one included), except where the repository sets its own, and no other repository. A relative data path is taken from the directory of the file. What cannot be read or parsed makes loading fail.",
  ["configurations"], "every combination of options given and left out, every set of repositories and every outcome of reading and parsing",
  "The options combine, and defaults, merging and their order interact; the tests load a few files.",
  ["config/config.go"],
  [("defaults", "config/config.go initRepo, initConfig"), ("merge of global settings", "config/config.go mergeVCSConfigs"), ("loading", "config/config.go LoadFromFile"), ("switches", "config/config.go optionToBool")],
  tech="path-sensitive dataflow over loading: options set only where known to be missing and to their documented default; per-repository and per-setting obligations in the merge loops",
  note="Takes encoding/json to decode what is in the file; an option given with its zero value counts as left out.")

P("C21", "Version control commands do what the server takes them for",
  "Every version control driver runs only its own tool, without a shell, in the directory it is given and for the URL and reference configured (detected or master where none is). An update, clone or reading of the revision that is reported as successful has run every step in order and none of them failed, and the revision it reports is what the tool printed for that directory after the last change to it, or for a watched local directory a hash of the content and name of every file. A driver is found under each of its documented names and has the options of its configuration.",
  ["inputs", "fault_sequences"], "every driver, every configuration, directory and URL, and every failure of a command or read on every path",
  "It is about what happens when an external command fails or the configuration is unusual; the tests have no version control servers.",
  ["vcs/git.go", "vcs/hg.go", "vcs/svn.go", "vcs/bzr.go", "vcs/local.go", "vcs/vcs.go"],
  [("drivers", "vcs/git.go, hg.go, svn.go, bzr.go, local.go: Pull, Clone, HeadRev"), ("choice of reference", "vcs/git.go targetRef"), ("table of drivers", "vcs/vcs.go Register, New, PullOrClone")],
  tech="path-sensitive dataflow over each driver: typestate of each command (tool, directory, arguments, outcome), order of steps, provenance of the revision from the output of the query",
  note="Knows the subcommands of each tool from a table; takes the tools to exit with an error when they fail. Known finding: failures of git fetch and git reset are not reported.")

P("C15", "Requests are served according to readiness",
  "From the moment the server is started, and before any repository is indexed, a request whose path is the configured health check address is answered with status 200 without waiting for a lock or for anything else, before and after the server is ready alike. Every other request is refused with status 503 until the server is ready and handed over exactly once, unchanged, from then on. It becomes ready only when the user interface and the whole api are registered on the searchers that were built, and stays so; how it ended is reported to whoever waits for it. Each documented address of the api leads to the handler that does what the address says.",
  ["inputs", "schedules"], "every request, at every moment of the start of the server and of the installation of the handlers, with the locks in every order",
  "No test starts the server; the transition is a race between requests and the end of indexing.",
  ["web/web.go", "cmds/houndd/main.go", "api/api.go"],
  [("dispatch", "web/web.go Server.ServeHTTP"), ("installation", "web/web.go Server.serveWith, ServeWithIndex"), ("start", "web/web.go Start, cmds/houndd/main.go main")],
  tech="path-sensitive dataflow over the dispatcher, the installation, the start and the command: which outcome each path gives under which test, lockset at each access of the multiplexer, provenance of what is installed; reachability from each registered address",
  note="Takes net/http to dispatch by the registered pattern.")

P("C30", "The command line client asks what it is told to and reports failures",
  "A search of the command line client asks the server, at the documented addresses on the configured host and with every configured header (Host included), for exactly the pattern, repositories, files, context, case and statistics it is given, and the command passes on exactly what its command line says. A search succeeds only when both requests (results and list of repositories) have finished, were answered with status 200, were decoded and report no error, and what is returned is what the server sent. Every other outcome, and a failure to print the results, is reported as an error.",
  ["inputs", "schedules", "fault_sequences"], "every command line, configuration and answer of the server, every failure of a request, of decoding or of printing, and every order in which the two requests end",
  "The tests of the client cover only the merging of matches; nothing talks to a server.",
  ["client/client.go", "client/ack.go", "client/grep.go", "cmds/hound/main.go"],
  [("requests", "client/client.go doHttpGet, Search, LoadRepos"), ("both at once", "client/client.go SearchAndLoadRepos"), ("printing", "client/ack.go, grep.go Present"), ("command", "cmds/hound/main.go main")],
  tech="path-sensitive dataflow: provenance of the parameters, headers and address of each request; typestate of each request (sent, status, decoded, error of the server) on every path to a result, across goroutines and the channels or variables carrying their outcomes; error propagation of printing",
  note="Does not decide how matches are merged and laid out when printed.")

P("C12", "Requests, updates and start-up do not race",
  "Whatever runs at the same time - any number of requests, the searches a request starts, the updaters of the repositories, the start of the searchers, the start of the web server and shutdown - no two of them access the same memory at once when one of them writes it, unless both hold a common lock (exclusively, for the writer) or one has waited for the other.",
  ["schedules"], "every interleaving of handlers, searches, updaters, start-up and shutdown, for any number of each",
  "The tests never run two requests at once, nor a request during an update; the race detector sees only the schedules of the tests.",
  ["searcher/searcher.go", "index/index.go", "api/api.go", "web/web.go", "ui/ui.go", "vcs/vcs.go", "client/client.go", "cmds/houndd/main.go"],
  [("live index", "searcher/searcher.go Search, swapIndexes"), ("claims of index directories", "searcher/searcher.go foundRefs"), ("mux", "web/web.go ServeHTTP, serveWith"), ("searches of a request", "api/api.go searchAll")],
  tech="compositional lockset and ownership analysis of all goroutines and request handlers over access paths",
  note="Memory is told apart by the field, variable or object it belongs to. What encoders of the standard library read inside is not followed.")
P("C19", "Searches running at the same time do not share their working state",
  "A search compiles its own matchers and keeps its automaton, reading position, query and buffers to itself: two searches running at once never use the same matcher, posting list reader or query object, and what they share - the predefined queries for everything and for nothing, and the final state of matchers - is never changed once the program has started.",
  ["schedules", "inputs"], "every interleaving of any number of searches and every regular expression",
  "A matcher caches its states while it matches, and queries are combined in place; tests run one search at a time.",
  ["codesearch/regexp/match.go", "codesearch/regexp/regexp.go", "codesearch/index/regexp.go", "codesearch/index/read.go", "index/index.go", "index/grep.go"],
  [("matchers of a search", "index/index.go Search"), ("combining queries", "codesearch/index/regexp.go andOr, implies"), ("final state", "codesearch/regexp/match.go dmatch, match, matchString")],
  tech="compositional lockset and ownership analysis of the working state of searches; path-sensitive dataflow of every change of a query or a state",
  note="Says nothing about what the matcher matches (N01).")

P("C11", "Requests are answered while repositories are updated",
  "Searches and other requests are answered while repositories are pulled and indexed: no request waits for a pull or clone, an index build, a free indexer, a command, another server or a message of an updater; nothing of that kind is waited for while a lock is held which requests take. Locks are taken in one order, none is taken by a goroutine which already holds it, and each is released exactly once, in the mode it was taken in, on every path, errors included.",
  ["schedules", "inputs"], "every path of every request handler, updater and helper, and every interleaving of them",
  "A pull takes seconds to hours; the tests never send a request during one, nor make the operations under a lock fail.",
  ["searcher/searcher.go", "index/index.go", "api/api.go", "web/web.go", "ui/ui.go", "vcs/vcs.go"],
  [("swap of the live index", "searcher/searcher.go swapIndexes"), ("searches under the lock", "searcher/searcher.go Search, GetExcludedFiles; index/index.go Search"), ("webhook", "searcher/searcher.go Update; api/api.go"), ("locks of working copies", "searcher/searcher.go lockVcsDir"), ("server start", "web/web.go ServeHTTP, serveWith")],
  tech="interprocedural effect analysis (what every function may wait for, which locks it may take) with lockset analysis and lock-order cycles; path-sensitive typestate execution of every function which takes a lock",
  note="Reading and writing files and matching an expression count as coming to an end; starvation by the scheduler is not modelled.")

P("C33", "Goroutines started to share out work end with it",
  "Whoever starts goroutines to share out work - the search of several repositories, the start of all searchers, the client's parallel requests - leaves none behind: whatever fails and however early it returns, every goroutine it has started can hand in its result and end, rather than waiting for ever for someone to take it.",
  ["inputs", "schedules", "histories"], "every path of every function which starts goroutines that hand in results, with any number of repositories and any of them failing",
  "A goroutine left behind shows only as memory which grows with every failing search; no test counts goroutines.",
  ["api/api.go", "searcher/searcher.go", "client/client.go"],
  [("search of several repositories", "api/api.go searchAll: use a buffered channel to avoid routine leaks on errs"), ("start of all searchers", "searcher/searcher.go MakeAll"), ("client", "client/client.go SearchAndLoadRepos: must ready both channels before returning to avoid routine/channel leak")],
  tech="path-sensitive execution of starter and goroutines: messages sent per goroutine against room of the channel and messages received on every path",
  note="Channels kept in fields are not followed.")

P("C16", "A failing repository or request does not end the server",
  "Whatever goes wrong while one repository is fetched, indexed, updated or searched, or while one request is answered - a command that fails, a full disk, a damaged index, a bad pattern - the server process goes on: it is reported for that repository or request only. Nothing such work reaches ends the process, no panic leaves a goroutine of the server, and what a failed call returned is not used.",
  ["inputs", "faults", "histories"], "every failing operation on every path from a request, from the start of a searcher or from its update loop",
  "Failures such as a full disk or an unwritable directory are hard to provoke at each place, and a log.Fatal or an unrecovered panic is harmless until then; in a test it would only end the test.",
  ["searcher/searcher.go", "index/index.go", "codesearch/index/fail.go", "codesearch/index/write.go", "codesearch/index/read.go", "api/api.go", "vcs/vcs.go", "cmds/houndd/main.go"],
  [("errors per repository", "searcher/searcher.go MakeAll, newSearcherConcurrent: If there was an error indexing a particular repository, that searcher will not be present in the searcher map and will have an error entry in the error map"), ("failed update", "searcher/searcher.go updateAndReindex"), ("giving up on an index", "codesearch/index/fail.go fail, Recover"), ("search goroutines", "api/api.go searchAll")],
  tech="effect analysis over the call graph (process exits, panics by type, recovering functions deferred before the call) and path-sensitive typestate of results of calls which may fail",
  note="Faults from indices out of range, divisions and nil pointers other than results of failed calls are not analysed; panics with constant messages under codesearch are taken for assertions.")

P("C22", "Only index directories and own temporary files are written or removed",
  "The server never removes, renames, truncates or writes a file other than those in its index directories (entries of the data directory whose name begins with idx-) and temporary files it has created itself: working copies, the repositories indexed, and whatever else lies in the data directory are left alone, also when a build fails or old indexes are cleaned up.",
  ["inputs", "faults", "histories"], "every removal, renaming, truncation and creation of a file which the server reaches, and every way its path is made",
  "What gets removed at start-up and after failures depends on what lies in the data directory; a test with a fresh directory holds nothing worth losing.",
  ["searcher/searcher.go", "index/index.go", "codesearch/index/write.go"],
  [("names of index directories", "searcher/searcher.go nextIndexDir, findExistingRefs"), ("removal", "index/index.go IndexRef.Remove, Index.Destroy; searcher/searcher.go removeUnclaimed, buildAndOpenIndex"), ("temporary files", "codesearch/index/write.go bufCreate, flushPost, removeTemps")],
  tech="backward provenance of paths through variables, fields, parameters, containers and path functions",
  note="Programs the version control drivers run are taken to keep to their working directory.")

P("C27", "The index writer loses nothing, however much there is",
  "Every trigram of a file which is indexed is recorded with that file, whatever the number of entries already in memory; entries leave memory only once they were sorted and written in full to a temporary file which is remembered; all such files and the entries still in memory go into the merge before the first entry is taken out of it; and every byte given to a buffered file of the index reaches the file, in the order given, before the file is copied, handed out or finished. Trigrams are formed from every three bytes following each other, also where the read buffer was refilled between them.",
  ["inputs", "sizes"], "every path through adding a file, giving up memory, merging, and the methods of buffered files, whatever the sizes of data, buffers and memory",
  "Memory is given up after eight million entries and buffers are written out after 256 KB; tests index a handful of small files, so that nothing of this runs in them.",
  ["codesearch/index/write.go"],
  [("entries of a file", "codesearch/index/write.go IndexWriter.Add"), ("memory given up", "codesearch/index/write.go flushPost"), ("merge", "codesearch/index/write.go mergePost, postHeap.addFile"), ("buffered files", "codesearch/index/write.go bufWriter, copyFile, Flush")],
  tech="path-sensitive abstract execution with typestate of buffered files and obligations per trigram; bit-level dataflow of trigrams",
  note="The heap is taken to merge sorted lists in order, and the set of trigrams to hold what was added to it.")

P("C25", "What an operation opens for itself is closed when it returns",
  "A file or a response of another server which an operation opens for its own use is closed, and a command which it starts is waited for, by the time the operation returns, with an error or without one. An index build which returns, successful or not, leaves none of its temporary files behind.",
  ["inputs"], "every path on which an operation returns, and every outcome of what it calls",
  "The errors in the middle of an operation are what leaks, and what leaks shows only after days of polling; the tests reach few of the errors and count nothing.",
  ["index/index.go", "index/grep.go", "client/client.go", "config/config.go", "vcs/git.go", "codesearch/index/write.go", "codesearch/index/read.go", "cmds/hound/main.go"],
  [("files of an index", "index/index.go addFileToIndex, isTextFile, Read; index/grep.go grep2File"), ("responses", "client/client.go Search, LoadRepos"), ("commands", "vcs/git.go AutoGeneratedFiles"), ("temporary files", "codesearch/index/write.go Create, flushPost, Close, removeTemps")],
  tech="typestate of files, responses and commands by path-sensitive execution of every function which opens one, compositional over the functions which return one",
  note="What is stored in an object which outlives the call, is part of a structure which is returned, or is handed to a goroutine is released by its owner and not tracked. Operations which end by a panic are not covered.")

P("C34", "Indexes in use match the repository's settings",
  "Every index in use was built under its repository's present settings: files whose names start with a dot are left out exactly if the configuration of that repository says so, and the names marked as generated are those configured for the repository or, if none are, those which its working copy marked when it had last been updated, at the first build and at every later one. The settings an index was built with are recorded with it, and an index found at start-up is reused only if the recorded settings are those which a new one would be built with.",
  ["inputs", "histories"], "every build and every reuse of an index, from every entry point and after any number of updates and restarts with changed settings",
  "It takes a restart with another configuration, two repositories with the same URL and other settings, or an attribute changed by an update; the tests build each index once, in an empty data directory.",
  ["searcher/searcher.go", "index/index.go", "vcs/git.go"],
  [("options of a build", "searcher/searcher.go indexOptionsFor, updateAndReindex, newSearcher"), ("recorded options", "index/index.go IndexRef, Build"), ("reuse", "searcher/searcher.go foundRefs.claim, index/index.go IndexRef.BuiltWith")],
  tech="provenance of the options of every build by path-sensitive execution of starter and update loop, with staleness against updates of the working copy; path conditions of every claim",
  note="That a comparison function handed both lists compares them is taken from what it is given, or from a loop over the list which finds no difference.")

NA = "the property is about values computed from unbounded runtime input; "
P("N01", "Searches return exactly the matching lines",
  "For every pattern and index, a search returns exactly the lines of the indexed files that the pattern, as an RE2 regular expression in multi-line mode, matches, with their line numbers and context lines.",
  ["inputs"], "every pattern, every file content and every combination of options",
  "Tests sample a few patterns over small files; the matcher is an automaton built and cached lazily while reading blocks of a file.",
  ["index/grep.go", "codesearch/regexp/match.go"],
  [("line matcher", "codesearch/regexp/match.go"), ("lines and context", "index/grep.go")],
  na=NA + "it is the functional correctness of a lazily built DFA against regular expression semantics, and of line and context arithmetic over buffers refilled at arbitrary points: no dataflow, typestate or type argument in reach bounds it. (C19 decides the ownership part, C18 that the pattern reaching the matcher is the one asked for.)")
P("N02", "The trigram query admits every matching file",
  "For every regular expression, every file that contains a match satisfies the trigram query derived from it, so that prefiltering never hides a match.",
  ["inputs"], "every regular expression and every file content",
  "The query is simplified by many rewriting steps over sets of strings; tests compare a table of expressions.",
  ["codesearch/index/regexp.go"],
  [("analysis of expressions", "codesearch/index/regexp.go")],
  na=NA + "soundness of the rewriting of sets of prefixes, suffixes and exact strings is a semantic theorem about all regular expressions, which needs proof or testing against an oracle, not a flow analysis.")
P("N03", "Posting lists survive writing and reading",
  "What the index writer records about a trigram - the identifiers of all files containing it - is exactly what the reader returns for it, for all numbers of files and all positions in the index.",
  ["inputs"], "every set of files and trigrams",
  "Varint deltas, block searches and the sentinel at the end depend on positions and sizes small tests do not reach.",
  ["codesearch/index/read.go", "codesearch/index/write.go"],
  [("posting lists", "codesearch/index/write.go mergePost, codesearch/index/read.go postReader")],
  na=NA + "the round trip is an arithmetic identity between delta coding, offsets and binary search over arbitrarily long data; C27 decides that no entry is dropped on the way into the index; the arithmetic itself is out of reach of a sound static argument here.")
P("N04", "Files are classified by their content alone",
  "A file is taken as text if and only if the sampled content is valid UTF-8 text, and is left out for long lines or too many trigrams exactly at the documented limits.",
  ["inputs"], "every file content",
  "The classification counts over arbitrary content; tests use a few files.",
  ["index/index.go", "codesearch/index/write.go"],
  [("text sniffing", "index/index.go isTextFile"), ("limits", "codesearch/index/write.go Add")],
  na=NA + "counting bytes, runes and trigrams of unbounded input is not decided by flow analysis; C06 decides that each verdict leads to indexing or listing.")
P("N05", "The command line client merges overlapping matches correctly",
  "The client prints every matching line once, with its context, merging matches whose contexts overlap into one block with correct line numbers.",
  ["inputs"], "every response of the server",
  "Merging depends on the distances of matches; tests sample a few.",
  ["client/coalesce.go"],
  [("merging", "client/coalesce.go coalesceMatches")],
  na=NA + "correct merging is arithmetic over arbitrary line numbers and lengths of context, which needs a functional proof or tests.")
