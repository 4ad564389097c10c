"""The properties, as data. Run tools/gen.py after editing."""
CORE = "crates/analyzer-core/src/"
HOST = "crates/analyzer-host/src/"
ABS = "crates/analyzer-abstractions/src/"
APP = "crates/p4-analyzer/src/"

NOTES = ("Every check is a monitor binary built from /repo's working tree by ./check (cargo, offline); VERIF_TIER and VERIF_SEED "
         "select depth and randomness. known_findings.txt lists recorded and repaired defects. No hooks in /repo are needed.")
NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, forall, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe))


MODEL = "randomised executions of the real code, judged online against an independent model"

P("C01", "Incremental text edits converge to the client's document",
  "After any sequence of content changes (whole text, or a range replaced by text), the stored document equals the result of applying the same changes in order to the initial text. "
  "The line index kept alongside it always equals the one computed afresh from that text, wherever the edits fall, including at line ends, past the end of a line or of the text, and around multi-byte characters.",
  ["inputs", "histories"], "every initial text, every finite sequence of well-formed range or full-text edits",
  "The one exhaustive test applies single edits to four short texts; drift of the index shows only after several edits on one document, and the positions it tries are only canonical ones.",
  [CORE + "lsp_file.rs"], [("incremental index maintenance", CORE + "lsp_file.rs: LspFile::lazy_add"), ("fresh index", CORE + "lsp_file.rs: LspFile::parse_string")],
  MODEL, "Random edit histories on random texts, hundreds of thousands per quick run; a divergence within the sampled sizes (texts to about 200 bytes, 14 edits) is found with high probability, absence is not proved. Columns count characters, see the known finding.")
P("C02", "Byte offsets and line/column positions convert consistently",
  "Converting a byte offset to a line and column and interpreting that position in the text gives back the start of the character at that offset, monotonically in the offset. "
  "Converting any position to a byte offset gives the character it denotes, with positions beyond the end of a line meaning its end and lines beyond the last meaning the end of the text, whether or not the text ends in a line break.",
  ["inputs"], "every text, every byte offset, every line and column including ones out of range",
  "The tests try a dozen positions in two texts, all of which end in a line break; the last line without one, and non-ASCII columns, are never exercised.",
  [CORE + "lsp_file.rs"], [("offset to position", CORE + "lsp_file.rs: byte_to_lsp"), ("position to offset", CORE + "lsp_file.rs: lsp_to_byte")],
  MODEL, "Every offset and every position (to two past the end) of thousands of random texts per run, against a model that scans the text. Columns count characters, as the repository's tests demand; the difference to LSP's UTF-16 columns is a known finding.")
P("C03", "A parser edited incrementally answers like a fresh one",
  "After any sequence of token edits and parses, parsing gives exactly the tree, or the rejection, that a new parser gives on the current tokens. "
  "No result remembered from before an edit survives where the edit could have changed it.",
  ["inputs", "histories", "programs"], "every well-formed grammar, every input, every sequence of edits interleaved with parses",
  "One test edits one input once under one grammar; invalidation depends on what each rule looked at, lookahead included, which only a variety of grammars and edit positions exercises.",
  [CORE + "parser.rs"], [("memo table splice and invalidation by examined length", CORE + "parser.rs: Parser::apply_edit"), ("examined-length bookkeeping", CORE + "parser.rs: Matcher")],
  MODEL, "Random grammars, inputs and edit histories against an interpreter of the same grammar without memory, on every parse.")
P("C04", "Parsing follows the semantics of parsing expression grammars",
  "For every grammar and input the parser accepts exactly when the start rule matches the whole input under PEG semantics (ordered choice, greedy repetition, lookahead that consumes nothing). "
  "The tree returned is the one those semantics define and its leaves spell the input.",
  ["inputs", "programs"], "every well-formed grammar (no left recursion, no repetition of an empty match) and every input",
  "Four tests run three grammars on half a dozen inputs.",
  [CORE + "parser.rs"], [("rule evaluation", CORE + "parser.rs: Matcher::eval_rule"), ("memoisation", CORE + "parser.rs: memoized_eval_rule")],
  MODEL, "Random grammars and inputs derived from them, against a reference PEG interpreter, comparing whole trees.")
P("C05", "Exactly the closed grammars are accepted",
  "Building a parser succeeds exactly when the grammar has a start rule and every rule mentioned anywhere is defined; otherwise it is refused with an error, not a crash. "
  "An accepted grammar never fails later for a missing rule, whatever the input.",
  ["programs", "inputs"], "every grammar, with any one reference or rule missing, in any position of any kind of rule",
  "No test builds an invalid grammar.",
  [CORE + "parser.rs"], [("validation", CORE + "parser.rs: Parser::from_rules")],
  MODEL, "Random grammars, intact and damaged, against an independent closure check; accepted ones are also run.")
P("C06", "Messages survive the wire",
  "Any sequence of messages written to a stream reads back as the same messages in the same order and then a clean end, however the bytes are split or delayed. "
  "What is written is exactly what the LSP base protocol prescribes (a byte length, a blank line, one JSON-RPC 2.0 object, flushed), what any conforming peer writes is understood, and a write that fails is reported.",
  ["inputs", "fault_sequences"], "every sequence of messages, every chunking of reads and writes, interrupts and write failures",
  "No test exercises the wire format at all.",
  [HOST + "json_rpc.rs", HOST + "json_rpc/message.rs"], [("framing", HOST + "json_rpc.rs: read_msg_text, write_msg_text"), ("encoding", HOST + "json_rpc/message.rs")],
  "randomised executions with short/interrupted/failing I/O, judged by an independent encoder and decoder of the protocol", "Random messages and payloads to 40 kB over adversarial readers and writers; judged by an encoder and decoder written from the LSP specification.")
P("C07", "No byte stream can crash, stall or flood the message reader",
  "Whatever bytes a peer sends, reading them never panics, always makes progress or ends, holds memory in proportion to the bytes actually received, and never yields a message that was not sent. "
  "A well-framed but malformed body costs only that message and is told apart from a stream that ends mid-message, so that reading can go on with the next one.",
  ["inputs", "fault_sequences"], "every byte stream, truncation and read failure",
  "No test feeds the reader anything, well-formed or not.",
  [HOST + "json_rpc.rs"], [("header and body reading", HOST + "json_rpc.rs: read_msg_text"), ("error kinds", HOST + "json_rpc.rs: buffered_read")],
  "fuzzed streams and injected read faults with a counting allocator and an oracle over consumed bytes", "Random and mutated streams, lying lengths and faults; memory is measured by the global allocator of the monitor; every message returned is checked against the bytes consumed for it.")
P("C08", "Requests, notifications and responses are told apart, ids kept exact",
  "A message with a method and an id is a request, one with a method only is a notification, one with an id only is a response, in any field order and whatever its payload looks like. "
  "A reply carries exactly one of result and error and the very id of its request, numeric and textual ids never being confused.",
  ["inputs"], "every message and payload, every numeric or textual id",
  "No test reads a message or builds a reply.",
  [HOST + "json_rpc.rs", HOST + "json_rpc/message.rs"], [("untagged classification", HOST + "json_rpc/message.rs: Message"), ("id representation", HOST + "json_rpc.rs: RequestId")],
  MODEL, "Random messages with payloads that imitate other kinds, in shuffled field order; replies are decoded independently.")
P("C09", "A completion source is completed exactly once",
  "However many producers try to complete one source concurrently, exactly one is told it succeeded and all others are refused. "
  "Every consumer, before or after, on any thread, receives the successful producer's value or error, whole and unchanged for good.",
  ["schedules"], "every interleaving of any number of producers and consumers",
  "The tests use one thread and one producer; the window between check and store is never contended.",
  [ABS + "futures_extensions.rs"], [("completed flag and value under the lock", ABS + "futures_extensions.rs: set_inner_value, state")],
  "multi-threaded stress with start barriers; offline check of each source's history (one winner, agreement, stability)", "Thousands of races per run on 8 cores; a window of a few instructions is hit many times per run, but schedules are sampled, not enumerated.")
P("C10", "No consumer of a completion source sleeps through its completion",
  "Once a producer's call has returned, every consumer still waiting has been woken through the waker it last supplied and obtains the value at its next poll. "
  "This holds wherever the completion falls relative to the consumer's check and registration, for any number of consumers, and when other consumers have been dropped.",
  ["schedules"], "every placement of the completion relative to each consumer's steps, any number of consumers, wakers replaced and futures dropped",
  "The tests complete the source half a second after every consumer went to sleep.",
  [ABS + "futures_extensions.rs"], [("listen and notify", ABS + "futures_extensions.rs: future, set_inner_value")],
  "delay injection at the listen/notify race points (instrumented event library), wake-up monitor", "The completion is steered into the gap before and after registration and the poll into the gap before notification, from another thread; a lost wake-up is decided logically (producer returned, waker not called), not by a timeout.")
P("C11", "The work pool runs all spawned work to its end, exactly once",
  "Every piece of work handed to the pool is polled until it finishes, exactly once, on the pool's thread and never twice at once, whether it is woken by itself, while being polled, later, or repeatedly, from any thread, and whether it was spawned before or during the run. "
  "Waking work never panics or blocks, even while or after the pool is stopped; stopping ends the pool, and cancellation is reported as such.",
  ["schedules", "histories"], "every interleaving of wakes with polls, spawns and stop",
  "No test touches the pool.",
  [ABS + "futures_extensions/async_extensions.rs"], [("work queue and re-queueing wakers", ABS + "futures_extensions/async_extensions.rs: AsyncWork, AsyncPool")],
  "multi-threaded stress of real pools with monitored futures; conservation and exactly-once check at quiescence", "Random work graphs woken from 1-3 threads; a stuck pool is recognised at logical quiescence (every requested wake given, none pending), not by a timeout.")
P("C12", "Parsing work stays linear, and local after an edit",
  "Parsing examines each token a bounded number of times per rule, whatever the grammar, so that no input makes it explode, also after edits. "
  "Text that has not changed since the last parse is not examined again, and a local edit of a long text costs work in its neighbourhood only.",
  ["inputs", "programs", "histories"], "every well-formed grammar, input and edit history",
  "The tests measure no work and their inputs are too short for exponential behaviour to show.",
  [CORE + "parser.rs"], [("memoisation of successes and failures", CORE + "parser.rs: use_memoized_result, memoize_result")],
  "work accounting: tokens count their comparisons, checked against the packrat bound", "Work is counted in token comparisons, deterministically; bounds follow from trying each rule at most once per position.")

LEX = CORE + "lexer.rs"
PP = CORE + "preprocessor.rs"
LIB = CORE + "lib.rs"
STANDIN = " salsa is absent here and replaced by a stand-in that memoises the same queries."
P("C13", "Token spans tile the source",
  "The tokens of a file, in order, cover its text without gap, overlap or empty token, from the first byte to the last, and every span begins and ends on a character boundary. "
  "Each token's content is what its span spells, so a position in the text belongs to exactly one token whatever the text holds.",
  ["inputs"], "every text, valid P4 or not",
  "The lexer tests compare token kinds on four texts and discard the spans.",
  [LEX, LIB], [("token definitions and manual scanning", LEX + ": Token, Lexer"), ("token collection", LIB + ": lex")],
  MODEL, "Tens of thousands of random texts per quick run; span invariants are checked on every token." + STANDIN)
P("C14", "Source text is split into the tokens P4 defines",
  "Every text is lexed into the keywords, identifiers, integer literals (with width, signedness, base and value), punctuation, comments, whitespace and preprocessor lines that its characters spell, longest match first. "
  "Characters that start no token, unterminated comments and malformed literals and directives become error tokens over exactly those characters, and lexing resumes right after.",
  ["inputs"], "every text",
  "Four tests lex four texts; literal prefixes, unterminated constructs at the end of a file, line continuations and malformed directives are hardly touched.",
  [LEX], [("token definitions", LEX + ": Token"), ("literals", LEX + ": read_int, parse_width, parse_base"), ("preprocessor lines", LEX + ": read_directive, read_line_with_newline_escapes"), ("comments", LEX + ": read_comment")],
  MODEL, "Against a scanner written independently from the token definitions: random texts, all five-character literals over a small alphabet, all six-character texts over comment characters. Not judged: the AST of conditions (see C17), escapes other than line continuations, the extent of an error at a # that no word follows." + STANDIN)
P("C15", "Each region of lexical errors is reported once, where it is",
  "Every maximal run of adjacent error tokens yields exactly one 'unexpected token' diagnostic, located exactly at that run, including a run at the very end of the file. "
  "No diagnostic is unfounded, duplicated or located outside the text, and a malformed literal, include or macro name is explained at its place.",
  ["inputs"], "every text",
  "No test looks at diagnostics at all.",
  [LIB, LEX], [("merging error tokens", LIB + ": process_error_tokens"), ("collection", LIB + ": Analyzer::diagnostics"), ("reports", LEX + ": Lexer::report")],
  MODEL, "Random texts rich in errors; runs are recomputed from the tokens." + STANDIN)
P("C16", "Conditional compilation selects the right branches",
  "Preprocessing keeps, in order and with their original spans, exactly the tokens that no enclosing inactive branch of #if/#elif/#else removes; definitions, includes and unknown directives in inactive branches have no effect. "
  "An #else, #elif or #endif without its #if, a second #else and a missing #endif are each reported at that directive, and correct programs yield no diagnostics.",
  ["inputs", "programs"], "every nesting of conditionals and definitions, well-formed or with a directive missing or in surplus",
  "Four tests use single, unnested conditionals on constants.",
  [PP], [("branch selection", PP + ": PreprocessorState::preprocess"), ("skipping", PP + ": skip_conditional_directive"), ("unclosed conditionals", PP + ": check_empty_cond_stack")],
  MODEL, "Programs are built from a structure and judged by evaluating that structure. Not covered because not implemented: #ifdef, #ifndef, !, function-like macros; an #elif after #else is not judged." + STANDIN)
P("C17", "Conditions have the value C gives them",
  "The condition of #if and #elif has the value of the C expression: C precedence and left associativity of all binary operators, 64-bit arithmetic, short-circuit && and ||, defined in each spelling, undefined identifiers zero, and macros replaced by their definitions at the time of use. "
  "Expressions to which C gives no value (overflow, division by zero, shifts out of range) never crash the analysis.",
  ["inputs", "programs"], "every expression over integers, macros with literal, name or parenthesised replacement, and defined()",
  "Tests evaluate two constant expressions with + - * only.",
  [PP], [("parsing", PP + ": parser::exp3..exp12, factor"), ("evaluation", PP + ": interpret_pp_expr")],
  MODEL, "Random expressions, and every pair of operators side by side; the value is pinned by comparing against it, not only its truth. Replacement is by value, not textual: unparenthesised compound macros are excluded." + STANDIN)
P("C18", "Includes splice in the named file, each problem reported at its include",
  "An #include is replaced, in place and in order, by the preprocessed tokens of the file its path resolves to, with definitions shared in both directions; only a file within itself is recursive, which is reported and skipped. "
  "A missing file is reported, listed as an unresolved dependency and asked for; the dependencies listed are exactly those reached, with their true state.",
  ["inputs", "programs"], "every set of files and include graph, cyclic, repeated, missing and unresolvable included",
  "No test in the repository includes anything: in each, looking up a file is unreachable!().",
  [PP, LIB], [("splicing and recursion", PP + ": PreprocessorState::preprocess"), ("lookup and dependencies", LIB + ": preprocess, Analyzer::preprocessed, include_dependencies")],
  MODEL, "Random graphs of two to six files against a recursive reference. Relative paths are resolved against the analysed file, as the code documents, so directories are flat here." + STANDIN)
P("C19", "No source makes the analysis fail",
  "Lexing, preprocessing, diagnostics and dependencies of any files terminate within bounded time and stack, without a panic, whatever the files contain. "
  "This covers malformed, truncated, deeply nested, very long and self-referential input.",
  ["inputs", "programs"], "every set of files",
  "Tests use well-formed snippets; an editor sends every intermediate state of typing.",
  [LEX, PP, LIB], [("manual scanning", LEX), ("recursive descent and evaluation", PP + ": parser, interpret_pp_expr"), ("conditional stack", PP + ": skip_conditional_directive")],
  "randomised and directed hostile inputs under a monitor for panics, stack exhaustion and CPU time", "Panics, crashes and cases over 20 s of CPU are violations, confirmed by rerunning the case alone. Exponential include graphs, in which C preprocessors diverge as well, are excluded." + STANDIN)
P("C20", "Answers depend on the current files only",
  "After any history of updates, incremental edits, deletions and queries, the contents, tokens, preprocessed tokens, diagnostics and dependencies of every file are those a fresh analyzer gives for the current files. "
  "A change in an included file reaches the files that include it; a deleted file is gone for them.",
  ["inputs", "histories"], "every history of operations over files that include one another",
  "No test changes a file twice or queries between changes.",
  [LIB], [("file set handling", LIB + ": Analyzer::update, file_change_event, delete"), ("queries", LIB + ": lexed, preprocessed, diagnostics, include_dependencies")],
  MODEL, "Random histories over four files, compared with a fresh analyzer on every query; content is compared with a plain string model." + STANDIN)

SIM = "randomised sessions of the real host, driven poll by poll against a client simulator with online monitors and a protocol model"
HNOTE = " The host runs unmodified in one thread; the harness owns every source of nondeterminism (message arrival, file system answers, polls), so a case replays. salsa is a stand-in (see DESIGN.md)."
P("C21", "Every request is answered once, and no message stops the server",
  "Every request that reaches a running server gets exactly one response with its id, holding either a result or an error: known requests their result, unknown methods MethodNotFound, parameters of the wrong shape InvalidParams. "
  "Notifications and responses are never answered, and no message, however odd, makes the server panic, fall silent or stop answering the requests that follow.",
  ["inputs", "histories", "schedules"], "every sequence of well-formed JSON-RPC messages, any arrival times, any order of file system answers",
  "The end-to-end tests are commented out or wait for one canned exchange; no test sends a wrong, unknown or badly timed message.",
  [HOST + "lib.rs", HOST + "lsp/dispatch.rs", HOST + "lsp/dispatch_target.rs", HOST + "lsp_impl/active_initialized.rs"],
  [("routing and parameters", HOST + "lsp/dispatch_target.rs"), ("responses", HOST + "lib.rs: run_protocol_machine"), ("handlers", HOST + "lsp_impl/")],
  SIM, "Judged at quiescence of a single-threaded driver, not by timeouts. Content changes are well-formed (start <= end)." + HNOTE)
P("C22", "The server follows the LSP lifecycle",
  "Before initialize and until initialized every other request is refused with ServerNotInitialized; then requests are served; after shutdown they are refused with InvalidRequest; exit ends the server from any state, once what precedes it is done. "
  "A refused message changes nothing: a rejected initialize can be repeated, a duplicate one is refused, notifications outside their state are ignored.",
  ["histories", "schedules"], "every sequence of lifecycle and other messages, pipelined or not",
  "No test drives the state machine beyond one canned initialisation.",
  [HOST + "fsm.rs", HOST + "lsp/dispatch.rs", HOST + "lsp_impl/active_uninitialized.rs", HOST + "lsp_impl/initializing.rs", HOST + "lsp_impl/shutting_down.rs"],
  [("states and transitions", HOST + "fsm.rs: LspProtocolMachine::process_message"), ("refusals", HOST + "lsp/dispatch.rs: Dispatch"), ("initialisation", HOST + "lsp_impl/active_uninitialized.rs: on_initialize")],
  SIM, "Random walks over all messages in all states, each response compared with a model of the lifecycle." + HNOTE)
P("C23", "Each answer of the client reaches the request it answers",
  "Requests the server sends to its client carry ids that no unanswered request uses, and the client's response to each, whenever and in whatever order it comes, completes exactly that request. "
  "Responses to nothing, repeated ones and errors disturb no other request; files asked of the client hold what the client answered for them and are unavailable when it answered with an error.",
  ["histories", "schedules"], "every number of concurrent server requests and every order of answers, with errors, useless, stray and repeated responses among them",
  "No test has two server requests in flight or answers one with an error.",
  [HOST + "lsp/request.rs", HOST + "fs.rs"], [("matching of responses", HOST + "lsp/request.rs: RequestManager"), ("client file system", HOST + "fs.rs: LspEnumerableFileSystem")],
  SIM, "Every file's words name the file, so that completions tell which answer reached which request." + HNOTE)
P("C27", "The server ends when told to, and never otherwise",
  "On exit, when the client closes its end, and when cancelled, the server ends in finite work whatever it was doing, closes its channels, and reports cancellation exactly when cancelled; requests that came before exit are still answered. "
  "While none of these happens it keeps running.",
  ["histories", "schedules", "fault_sequences"], "every moment at which exit, disconnection or cancellation can come, with any work outstanding",
  "One test cancels an idle server; the test that was to exit one is commented out because it 'doesn't exit correctly'.",
  [HOST + "lib.rs", HOST + "lsp/request.rs", ABS + "futures_extensions/async_extensions.rs"],
  [("joining of the parts", HOST + "lib.rs: AnalyzerHost::start"), ("outstanding requests", HOST + "lsp/request.rs: RequestManager::start"), ("work pool", ABS + "futures_extensions/async_extensions.rs")],
  SIM, "Non-termination is recognised at logical quiescence: nothing is runnable, no answer is owed, and the server has not ended." + HNOTE)
P("C28", "Traces are sent as the trace value asks, and never otherwise",
  "No $/logTrace notification is sent while the trace value is off (the default); with messages, notifications carry no verbose part; with verbose they may. "
  "A change of the value by initialize or $/setTrace takes effect with that message, and tracing never changes the server's answers.",
  ["histories", "schedules"], "every sequence of trace values and activity",
  "No test turns tracing on.",
  [HOST + "tracing.rs"], [("gate", HOST + "tracing.rs: LspTracingLayer::on_event"), ("value", HOST + "tracing.rs: TraceValueAccessor")],
  SIM, "Each window between settled changes is judged by the value in force." + HNOTE)
P("C29", "Indexing is reported as one bracketed progress",
  "With workspace folders and a client that supports progress, indexing creates one token, then begins, reports each folder, and ends once every folder was enumerated, all on that token. "
  "Without folders or support nothing is reported; a client that refuses the token gets no progress on it, and the files are indexed all the same.",
  ["histories", "schedules", "fault_sequences"], "every set of folders and files, any support, refusal, and order of answers",
  "No test looks at progress.",
  [HOST + "lsp/progress.rs", HOST + "lsp/workspace.rs"], [("progress protocol", HOST + "lsp/progress.rs: ProgressManager, Progress"), ("indexing", HOST + "lsp/workspace.rs: WorkspaceManager::index")],
  SIM, "Checked on the record of all messages, with completions showing that files were indexed." + HNOTE)
DNOTE = " What a document contains is observed through the completions offered for it: the words of it and of everything it includes."
P("C24", "An open document's buffer outranks its file",
  "While a client has a document open, what the server knows of it is exactly the buffer as last sent, in its own completions and in those of every file that includes it. "
  "Nothing on disk changes that: no load that was in progress when it was opened, no indexing, no change or deletion of the file, wherever these fall among the client's messages.",
  ["histories", "schedules"], "every interleaving of open, change, save and close with indexing, loads in flight and changes on disk, over files that include one another",
  "No test opens a document while the file system is active, or changes a file on disk.",
  [HOST + "lsp/workspace.rs", HOST + "lsp_impl/state.rs", HOST + "lsp_impl/active_initialized.rs"],
  [("open state of files", HOST + "lsp/workspace.rs: File"), ("background loads", HOST + "lsp_impl/state.rs: process_background_analyze_requests"), ("document notifications", HOST + "lsp_impl/active_initialized.rs")],
  SIM, "Answers given while things are in motion are judged too: an open document's own words must all be there, and no word its current buffer lacks unless another file has it." + DNOTE + HNOTE)
P("C25", "Document synchronisation follows the client",
  "After any sequence of open, change, save and close notifications, each with any number of incremental or full changes, completions are those of the documents as the client has them. "
  "A request is answered from the state that all notifications sent before it leave, and a closed document is again what its file holds.",
  ["inputs", "histories", "schedules"], "every history of document notifications and requests, at any pace",
  "No test changes an open document through the server and looks at the result.",
  [HOST + "lsp_impl/active_initialized.rs", HOST + "lsp/workspace.rs", LIB], [("document notifications", HOST + "lsp_impl/active_initialized.rs: on_text_document_did_open, did_change, did_save, did_close"), ("edits", LIB + ": Analyzer::file_change_event")],
  SIM, "Changes are well-formed ranges between characters, including line ends and multi-byte characters in the Basic Multilingual Plane." + DNOTE + HNOTE)
P("C26", "Files that are not open follow the disk",
  "Once a created, changed or deleted file has been reported and answers have settled, the server knows exactly what is on disk: new contents, contents that appear or disappear, in the file itself and in all that include it. "
  "This holds for events alone, together, repeated and crossing with reads in progress; what an overtaken read brings is not kept.",
  ["histories", "schedules"], "every history of file events, in any order relative to reads of the same files and to indexing",
  "No test reports a file event.",
  [HOST + "lsp_impl/active_initialized.rs", HOST + "lsp_impl/state.rs", HOST + "lsp/workspace.rs"], [("file events", HOST + "lsp_impl/active_initialized.rs: created_file, deleted_file"), ("superseded loads", HOST + "lsp/workspace.rs: File"), ("includes asked for", HOST + "lsp_impl/state.rs: AnalyzerWrapper")],
  SIM, "Only files the client watches (inside the folders, *.p4) change on disk, as the protocol has it." + DNOTE + HNOTE)
P("C42", "The server asks for what it needs, and serves what it announces",
  "A client that does exactly what the server announces and asks for is served rightly: documents sent, changed and saved in the form announced, files watched by the patterns and kinds of events registered, and folders enumerated by the pattern given suffice for completions to be exactly those of the documents and the disk. "
  "Each request whose support the server announces is served for an open document, and what it serves is announced.",
  ["histories"], "every client that follows the announcements, with any history of documents and files",
  "No test looks at what is announced or registered.",
  [HOST + "lsp_impl/active_uninitialized.rs", HOST + "lsp_impl/initializing.rs", HOST + "lsp_impl/active_initialized.rs", HOST + "lsp.rs"],
  [("announcements", HOST + "lsp_impl/active_uninitialized.rs: create_initialize_result"), ("watched files", HOST + "lsp_impl/initializing.rs: on_client_initialized"), ("requests served", HOST + "lsp_impl/active_initialized.rs: create_dispatcher")],
  SIM, "Features announced and not implemented are known findings, one per method." + DNOTE + HNOTE)
P("C34", "Documents work wherever they are",
  "A document is served the same whatever its URL: unsaved, on another scheme or host, outside every workspace folder, beside one under a longer name, in nested folders, with escapes or queries, and without any folder. "
  "Documents with different URLs are different documents, and none panics the server.",
  ["inputs", "histories"], "every URL, set of workspace folders and history of document notifications",
  "No test uses a second folder or a URL other than file:///.",
  [HOST + "lsp/workspace.rs", HOST + "lsp_impl/state.rs"], [("workspace of a file", HOST + "lsp/workspace.rs: WorkspaceManager::get_file"), ("resolution of includes", HOST + "lsp_impl/state.rs: AnalyzerWrapper::new")],
  SIM, "Eighteen kinds of places, any 2-6 of them together, with eight sets of folders." + DNOTE + HNOTE)

APP = "crates/p4-analyzer/src/"
LSIF = "crates/lsif-p4/src/"
E2E = "runtime monitoring: the real programs run as child processes (unprivileged, in scratch folders, at times with threads delayed at random by a preloaded library) under generated sessions; an online monitor parses their output strictly and a model judges it"
ANOTE = " Crates that are not available offline (glob, ctrlc, xflags, async-thread, tracing-appender, salsa, lsp-types 0.94) are stand-ins with the documented behaviour of the originals."
P("C30", "Over stdio the program speaks the protocol, whatever comes in",
  "Whatever bytes an LSP client writes, in whatever pieces, the program's stdout carries nothing but correctly framed messages of the protocol; every request gets exactly one answer, and the answers are those of the documents as the client and the disk have them. "
  "A malformed message costs only itself, files on disk that are no text or cannot be read cost only themselves, and a folder of any number of files is served; the program keeps running until told to end.",
  ["inputs", "histories", "schedules"], "every session over stdio, cut into pieces at any place, with malformed messages in it, any workspace on disk, with and without logging",
  "No test runs the program.",
  [APP + "main.rs", APP + "driver.rs", APP + "commands/lsp_server.rs", APP + "native_fs.rs", HOST + "json_rpc/message.rs"],
  [("reading and writing", APP + "driver.rs: Driver"), ("the server", APP + "commands/lsp_server.rs: LspServerCommand::run"), ("files", APP + "native_fs.rs: NativeFs")],
  E2E, "Sessions of up to 30 actions, with 0-400 files; answers are compared with those the documents call for." + ANOTE)
P("C31", "The buffered driver hands over what it was allowed to, once, in order",
  "Messages added to the buffered driver reach the server exactly once, in the order added and only as far as reading was allowed; messages of the server are taken exactly once, in order and correctly framed. "
  "Clearing forgets what waits and what was allowed, and no use by several threads at once loses or repeats a message, lets one through that was not allowed, or gets stuck; the driver ends when its channel closes or it is cancelled, and says which.",
  ["histories", "schedules"], "every history of adding, allowing, clearing and taking, by any number of threads at any pace",
  "The tests use it with one message at a time.",
  [APP + "driver.rs", APP + "driver/buffer_driver.rs"],
  [("counter and queue", APP + "driver/buffer_driver.rs: BufferStruct"), ("threads of the driver", APP + "driver.rs: Driver::start")],
  "runtime monitoring: one or several threads drive the real driver and its threads under stress, with pauses; conservation, order and permission are judged on what arrives, and lack of progress as a deadlock", "Storms of several hundred operations per case set the schedules; lock orders and lost permits show in them within seconds.")
P("C32", "The native file system finds exactly the files, and reads what they hold",
  "Enumerating a folder yields exactly the files below it that match the pattern, each once, under a URL that reads back its contents, whatever characters are in the names of files and folders and whatever else changes there meanwhile. "
  "Reading yields the contents as they are at the time, and nothing for what is no file, is no text or is not on this computer; neither panics or writes to stdout.",
  ["inputs", "histories"], "every tree of files, every folder and file URL, and changes made meanwhile",
  "No test uses the native file system.",
  [APP + "native_fs.rs"], [("enumeration", APP + "native_fs.rs: NativeFs::enumerate_folder"), ("reading", APP + "native_fs.rs: NativeFs::file_contents")],
  "runtime monitoring: random trees of files in scratch folders, the real file system compared with a walk of the tree; another thread changes it meanwhile", "Symbolic links and names that are no UTF-8 are not generated." + ANOTE)
P("C33", "A dump names every source file once",
  "The LSIF dump of a workspace is a sequence of JSON entries with ids of their own, among them one document for every P4 file in the workspace or the header folder, exactly once each, even if one of the folders lies in the other. "
  "The program writes it where it was told to, replaces an earlier one completely, and ends with success, however many files there are and however its threads are scheduled.",
  ["inputs", "schedules"], "every workspace and header folder, all forms of arguments, every schedule",
  "No test generates a dump.",
  [LSIF + "main.rs", LSIF + "lsif_generator.rs", LSIF + "lsif_writer.rs", LSIF + "flags.rs"],
  [("generation", LSIF + "lsif_generator.rs: LsifGenerator"), ("writing", LSIF + "lsif_writer.rs: LsifWriter")],
  E2E, "The dump is compared with a walk of the tree." + ANOTE)
P("C36", "The program ends when it should, and leaves no debris on stdout",
  "On exit, at the end of its input (even amid a message) and on an interrupt, the program ends by itself in bounded time whatever it is doing, having written nothing but complete messages. "
  "Requests received before exit are answered before it ends, and so are those before the end of the input unless they wait for the client. A further interrupt ends it even if its client has stopped reading.",
  ["histories", "schedules", "fault_sequences"], "every moment at which the client exits, dies or interrupts, with any work outstanding",
  "No test runs the program.",
  [APP + "main.rs", APP + "driver.rs", APP + "commands/lsp_server.rs", HOST + "lib.rs"],
  [("end of input", APP + "driver.rs: Driver::sender_task"), ("interrupt", APP + "main.rs: RunnableCommand"), ("end of the server", HOST + "lib.rs: AnalyzerHost::start")],
  E2E, "The child is given 40 s." + ANOTE)
P("C35", "No execution has undefined behaviour",
  "Whatever text, message or history it processes, and however its threads are scheduled, no execution of the analyzer, the host or the programs reads or writes memory that is not its to use: nothing out of bounds, freed, or not initialized, no invalid value, and no data race. "
  "In particular what the lexer's unchecked pointer to the database refers to is alive whenever it is used, and what is declared shareable between threads is shared safely.",
  ["inputs", "histories", "schedules"], "every execution of any part",
  "The tests check values, in executions in which undefined behaviour happens to do no harm.",
  ["crates/analyzer-core/src/lexer.rs", "crates/analyzer-core/src/lib.rs", HOST + "lsp/workspace.rs", HOST + "lsp_impl/state.rs", ABS + "futures_extensions.rs", ABS + "futures_extensions/async_extensions.rs"],
  [("unchecked pointer to the database", "crates/analyzer-core/src/lib.rs: lex; lexer.rs: Lexer::report"), ("declared Send and Sync", HOST + "lsp/workspace.rs: FileState; lsp_impl/state.rs: AnalyzerWrapper"), ("shared by threads", ABS + "futures_extensions.rs: FutureCompletionSource; futures_extensions/async_extensions.rs: AsyncPool")],
  "compiler sanitizer and undefined-behaviour interpreter: AddressSanitizer under the workloads of all other checks, programs included; Miri, its data race detector included, under small workloads of the analyzer, the server, the pool and completion sources",
  "Reach is that of the workloads: hundreds of thousands of cases under AddressSanitizer, a few hundred under Miri. Miri tracks borrows (Tree Borrows) of the pool and completion sources throughout and of the analyzer and server in a part of their cases, as salsa's stand-in does not conform to Stacked Borrows. "
  "The precompiled standard library is not instrumented, for which reason ThreadSanitizer and MemorySanitizer would raise false alarms and are not used; Miri covers what they would." + ANOTE)
P("C37", "The WebAssembly module relays all messages between its host and the server",
  "Every buffer handed to the module that holds one message reaches the server once and in order, and one that does not is refused, at the cost of no other message. Every message of the server reaches the callback once, in order, as a buffer with one complete JSON-RPC message, and nothing else does, log messages only if they are asked for. "
  "Buffers stay as they were given. Starting the module ends without an error when the server is told to exit, and with one when it is stopped, after which further messages are refused.",
  ["inputs", "histories", "schedules"], "every sequence of buffers, of answers of the client, and every moment of the end",
  "The crate has no tests, and is not compiled by the build of the tests.",
  ["crates/p4-analyzer-wasm/src/lib.rs", "crates/p4-analyzer-wasm/src/buffer.rs", HOST + "tracing.rs"],
  [("requests", "crates/p4-analyzer-wasm/src/lib.rs: LspServer::send_request"), ("responses", "crates/p4-analyzer-wasm/src/lib.rs: LspServer::on_receive"), ("start and stop", "crates/p4-analyzer-wasm/src/lib.rs: LspServer::start, stop"), ("conversions", "crates/p4-analyzer-wasm/src/buffer.rs")],
  "runtime monitoring: the module runs natively in the harness's event loop; differential oracle against the server driven without it, and online checks of each buffer and promise",
  "JavaScript's values are stand-ins. With several folders, whose order is arbitrary, only the ids of responses are compared. What is under way when the module is stopped may be lost." + ANOTE)
JS = "packages/p4-analyzer/src/"
VSC = "packages/p4-analyzer-vscode/src/"
P("C38", "The Node.js adapter carries every message to and from the embedded server",
  "However the bytes on stdin are cut into chunks, the adapter hands every complete message to the embedded server once, in order and unaltered, as soon as it is complete, and nothing else. A message that the server refuses, or answers late, costs no other. "
  "Every message of the server is on stdout as one message with its length in bytes, in order. The adapter ends, and stops reading, when the server does, and an interrupt stops the server.",
  ["inputs", "schedules"], "every sequence of messages in every partition into chunks, with answers and refusals at any time",
  "The package has no tests.",
  [JS + "server/index.ts", JS + "index.ts"],
  [("reading", JS + "server/index.ts: onReceiveRequestBuffer"), ("handing over", JS + "server/index.ts: sendRequestMessageBuffer"), ("writing", JS + "server/index.ts: onResponseBuffer"), ("end", JS + "server/index.ts: start, stop; index.ts: main")],
  "runtime monitoring: online checker over the messages that the embedded server receives and over the bytes on stdout, in process and as a process of its own, under generated streams cut into chunks in all ways",
  "The WebAssembly module is a stand-in with the interface it declares. Headers are well-formed.")
P("C39", "The extension starts the configured server, and answers it about the right files",
  "For all settings, the extension starts the server that is configured with the arguments that are configured, or the embedded one when none is, and a failed activation is shown and reported. "
  "The server's request to enumerate a folder is answered with exactly the files of that folder which match the pattern, and fails for a folder which is not of the workspace. Its request for a file is answered with its contents, and fails if there is none. Both can be answered as soon as the server runs, and deactivation stops it.",
  ["inputs", "configurations"], "all settings, all workspaces with any number of folders, files of any name and content",
  "The package has no tests.",
  [VSC + "index.ts", VSC + "configuration.ts", VSC + "extensions/LanguageClient.ts"],
  [("activation", VSC + "index.ts: activate"), ("settings", VSC + "configuration.ts: getServerConfiguration"), ("enumeration and contents", VSC + "extensions/LanguageClient.ts: setP4AnalyzerHandlers"), ("deactivation", VSC + "index.ts: deactivate")],
  "runtime monitoring: the compiled extension in an editor that is a stand-in and records every call, with workspaces on disk; oracle computed from the disk and the settings",
  "The interfaces of Visual Studio Code and its language client are stand-ins. Folders do not lie in one another when the inner one is asked about through the outer one.")
P("C40", "Packages get the version that the tag, the history and the branch determine",
  "For every history of the repository: the version of a commit that carries a tag which is a semantic version is that tag. Else, on a release branch, it is the version of version.json followed by its height, "
  "one more than the number of commits since the one that last changed version.json, and on other branches, or if a local version is asked for, it is followed by the identifier of the commit. It is 0.0.0, with a warning, if version.json is not of the repository or holds no semantic version. "
  "The executor writes that version, and changes nothing else, into every package.json and Cargo.toml it is given, and reports failure if it was given other files. What it determines is a valid semantic version.",
  ["inputs", "histories"], "all commit histories with merges, tags and branches, all roots, all manifests",
  "The tool has no tests.",
  ["tools/src/version.ts", "tools/src/jsonUtils.ts", "tools/src/tomlUtils.ts"],
  [("version", "tools/src/version.ts: getVersion"), ("tags", "tools/src/version.ts: getCurrentTag"), ("commits", "tools/src/version.ts: getLatestCommit"), ("executor", "tools/src/version.ts: versionPackagesExecutor"), ("manifests", "tools/src/jsonUtils.ts: writePackageJson, tools/src/tomlUtils.ts: writeTomlManifest")],
  "runtime monitoring: the compiled tool in generated git repositories; oracle computed from the history the harness made",
  "Nx and the TOML library are stand-ins. Tags are annotated, as the tool asks for. Whether a tag or a local version wins is not judged.")
P("C41", "The log holds what happened, at the level that was asked for",
  "Given a log folder, the program writes a log of its own name there which holds, by the time the program has ended by itself, however it was ended, every event of the level that was asked for (debug, if none is or it is unknown) or a graver one, among them everything of those levels that the client was told in traces, and no other. "
  "Traces reach a client that asked for them. It alters no other file, and writes none if it was given no folder. Asked for its version it says that and does nothing else; a command line it does not know it refuses.",
  ["inputs", "histories", "schedules"], "all sessions, levels, log paths and ways to end",
  "Tests cover the options' syntax only.",
  [APP + "main.rs", APP + "cli/flags.rs", APP + "commands/lsp_server.rs", HOST + "tracing.rs"],
  [("log", APP + "main.rs: create_default_logging_layer"), ("layers", APP + "main.rs: main; commands/lsp_server.rs: logging_layers"), ("command line", APP + "cli/flags.rs")],
  "runtime monitoring: the real program's log files after generated sessions; oracle: the $/logTrace messages of the same session, and the levels which a session logged at trace level gives them",
  "xflags and tracing-appender are stand-ins. A second interrupt may cut the log.")
