#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, L, D, F, C = ("jinja-lsp/src/backend.rs", "jinja-lsp/src/channels/lsp.rs", "jinja-lsp/src/channels/diagnostics.rs",
                 "jinja-lsp/src/lsp_files.rs", "jinja-lsp/src/config.rs")
Q = "jinja-lsp-queries/src/"
H, OBJ, DEF, TPL, QUE, EDIT, PAR, SN = (Q + "lsp_helper.rs", Q + "search/objects.rs", Q + "search/definition.rs",
    Q + "search/templates.rs", Q + "search/queries.rs", Q + "to_input_edit.rs", Q + "parsers.rs", Q + "search/snippets_completion.rs")
RS, PY = Q + "search/rust_identifiers.rs", Q + "search/python_identifiers.rs"
NOTE = ("The 13 unit tests run the tree-sitter queries on fixed strings; none starts the server, sends a message, "
        "advances time or touches a disk. ")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), level_note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=NOTE + why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(obs), hook_needed="cfg(jinja_lsp_sim) makes the module `backend` public so that the server can be started inside the simulator"),
        _note=level_note))

prop("C01", "Every request is answered exactly once",
  "Every request the editor sends while its session is open gets exactly one response carrying that request's id, whether the method, the parameters, the document or the position make sense or not, and however the requests of one session overlap or are cancelled. No response is sent for an id that was not asked or twice for one id.",
  ["inputs", "schedules", "histories"],
  "all sequences of up to about 30 requests and notifications, valid and malformed, all orders in which the server's tasks can run, all ways the byte stream can be cut, a client that reads slowly",
  "Whether an answer is lost depends on which task runs first and on full channels and pipes.",
  [B, L, D], [("one oneshot channel per request, closed means no result", B), ("single task that owns all state", L)],
  [("lsp channel", "queue from the transport to the task that owns the data", B)], ["JSON-RPC responses on the server's output"])
prop("C02", "No sequence of messages stops or crashes the server",
  "Whatever the editor sends (any documents, edits, positions, requests before their time, unknown methods, wrong parameters, any state of the disk), the server neither panics nor hangs nor ends. A well-formed request sent afterwards is answered, within bounded simulated time and bounded computing time.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "arbitrary message sequences including malformed and out-of-range ones, arbitrary document texts, disk faults, back-pressure, all task orders",
  "A deadlock needs a certain order of tasks and full channels; a crash needs an input nobody thought of.",
  [B, L, D, F, Q + "to_input_edit.rs", TPL, OBJ], [("tasks never wait for each other's channels", L), ("query match limit", TPL), ("position clamping", EDIT)],
  [], ["panic hook", "liveness probe at the end of each run", "watchdog on computing time of a run"])
prop("C03", "The server's copy of a document is the editor's text",
  "After any sequence of opening, incremental or full changes, saving, closing and reopening, every answer and every warning about a document is the one for exactly the text the editor has. This includes texts with several changes per notification, non-ASCII characters (UTF-16 columns), all line endings and edits across lines.",
  ["inputs", "histories"],
  "all texts and edit scripts: positions anywhere in the document, empty and whole-document ranges, multi-byte and surrogate-pair characters, CR LF, many small or several combined changes",
  "One unit test applies edits, to ASCII text on one line.",
  [F, EDIT, PAR], [("did_change applies changes to a rope", F), ("to_input_edit, to_position: UTF-16 column to byte and back", EDIT)],
  [("documents", "text per document", F), ("trees", "syntax tree per document", F), ("variables", "definitions per document", F)], ["definitions, hover, symbols, completion, diagnostics compared with a reference model of the text"])
prop("C04", "Answers depend on the present state, not on how it came about",
  "Two sessions whose editors hold the same open documents over the same disk and configuration get the same answers and the same standing warnings, whatever happened before in each: edits and undos, closed and reopened documents, rescans, or a crash of the server followed by a restart in which the editor reopens its documents.",
  ["histories", "crash_points", "schedules"],
  "pairs of histories reaching the same state; crash after any number of scheduling steps",
  "Leftovers of the past (old trees, tasks, definitions) only show after long histories.",
  [F, L, C], [("definitions and tree replaced as a whole per change", F), ("rescan builds fresh data and keeps open documents", L)],
  [("open_documents", "documents whose newest text is in the editor", F)], ["probes and diagnostics at the end of both sessions, compared with each other"])
prop("C05", "A request sees every edit sent before it",
  "The answer to a request reflects all notifications the editor sent before that request and none it sent afterwards, even if editor and requests come in one burst without waiting for anything.",
  ["schedules", "histories"],
  "edit and request sequences sent back to back, under all task orders and all cuttings of the byte stream",
  "The violation needs messages to overtake each other between transport and data task.",
  [B, L], [("order of messages kept through one unbounded channel", B), ("one service call at a time while sending", B)], [], ["answers to requests sent directly behind edits"])
prop("C06", "Diagnostics catch up once editing stops",
  "Whatever was edited, opened, saved or closed and in whatever order, within bounded time after the last notification the diagnostics last published for every open document are those of its final text. Editing one document never keeps another from catching up.",
  ["schedules", "histories"],
  "edit sequences over several documents with pauses around the refresh delay, all orders of timers and tasks, slow clients",
  "Depends on timers racing with edits; no test has time.",
  [F, D, L], [("delayed refresh per document (did_save message sent by a timer task)", F), ("diagnostics_tasks", F), ("diagnostics_task publishes", D)],
  [("diagnostics_tasks", "pending refresh per document", F)], ["publishDiagnostics after quiescence"])
prop("C07", "Diagnostics never go back to an older text",
  "Each set of diagnostics published for a document belongs to a text the document had at that time or later than the one of the set published before it. Once diagnostics for a newer text of a document have been shown, those of an older text never replace them.",
  ["schedules", "histories"],
  "edits recognisable by their diagnostics, all task orders, a slow client, full pipes",
  "Only some interleavings of refresh, save and publish could reorder them.",
  [D, L, F], [("one channel and one publisher task", D), ("diagnostics computed in the data task at sending time", L)], [], ["sequence of publishDiagnostics per document"])
prop("C08", "A burst of edits costs one refresh",
  "While changes of a document follow each other faster than the refresh delay, no diagnostics are computed for it; when they stop it is refreshed exactly once. Documents edited at the same time each get their own single refresh.",
  ["schedules", "histories"],
  "bursts over one and several documents with gaps below and above the delay",
  "Needs control of the clock.",
  [F], [("old timer of the same document is aborted on a new change", F)], [("diagnostics_tasks", "pending refresh per document", F)], ["number and time of publishDiagnostics per document and burst"])
prop("C09", "Undefined-variable warnings match Jinja's scopes",
  "For every well-formed template, a variable is marked as undefined exactly where no definition of that name in the template (by for, set, with, or macro and its parameters) is in scope there. A name that has no definition anywhere in the template but has one in another indexed file, template or backend source, is marked as defined in another file instead; with hide_undefined nothing is marked. Filters, tests, attributes, names of arguments, literals, keywords and comments are never marked.",
  ["inputs", "programs"],
  "all nestings and orders of Jinja statements and expressions a generator produces, with edits; judged by an independent lexer, parser and scope analysis",
  "The unit tests hold a few fixed templates.",
  [H, DEF, OBJ, QUE], [("definition_query collects definitions with scope ends", DEF), ("search_errors compares uses with scopes", H)],
  [("variables", "definitions with scopes by file", F)], ["publishDiagnostics with 'Undefined variable' and 'Variable is defined in other file.'"])
prop("C10", "\"Template not found\" is shown exactly for missing templates",
  "Each template name in extends, include, import and from statements (and in the backend's render and get_template calls) is marked as not found exactly if no such file exists below the configured template directory when the diagnostics are computed. A file that exists but cannot be looked at for other reasons is not marked.",
  ["inputs", "histories", "fault_sequences"],
  "template names with folders, spaces, non-ASCII and URI-special characters; files created and removed between refreshes; failing path look-ups",
  "No test touches a file system.",
  [H, TPL, F, RS, PY], [("search_errors canonicalizes the path of each template", H), ("templates_query finds the statements", TPL)], [], ["publishDiagnostics with 'Template not found'"])
prop("C11", "A scan indexes every readable file, whatever else fails",
  "After initialisation every readable template and every readable backend source file below the configured directories is indexed, independent of the order the directories are read in. Files and folders that are unreadable, vanish, are not UTF-8, are links or loops only cost themselves.",
  ["configurations", "fault_sequences", "schedules"],
  "directory trees with nesting, symbolic links and cycles, non-UTF-8 content, permission errors, I/O errors and short reads at any call, files changed during the scan, all directory orders",
  "No test scans a directory, let alone a failing one.",
  [C, F], [("walkdir over templates and backend directories", C), ("read_file", F)], [("documents, trees, variables", "index of the workspace", F)], ["hover, goto, completion, symbols and diagnostics of indexed files"])
prop("C12", "Unsaved buffers survive a rescan",
  "A rescan (reset_variables command or change of configuration) never replaces the content of a document that is open in the editor by the content on disk: all answers and warnings go on being those of the unsaved text.",
  ["histories", "schedules"],
  "open, edit, rescan, close, save and disk changes in all orders, with pending refreshes",
  "Needs an editor and a disk that differ.",
  [L, F], [("keep_open_documents", F), ("rescan", L)], [("open_documents", "documents open in the editor", F)], ["probes after rescan"])
prop("C13", "A rescan reflects the disk: new, changed and deleted files",
  "After a rescan the index consists of exactly the files that are then on disk plus the documents open in the editor: files created or changed since are known with their new content, definitions of deleted files are forgotten.",
  ["histories", "fault_sequences"],
  "creation, change, deletion and renaming of files and folders between any number of rescans",
  "Needs a disk that changes under the server.",
  [L, C, F], [("walkdir builds new LspFiles", C), ("rescan replaces the old one", L)], [], ["probes after rescan"])
prop("C14", "The quick fix creates the missing template and nothing else",
  "At a template name marked as not found, and only there, the editor is offered to create that template; the offered edit creates exactly the file whose absence was reported, inside the template directory. Once it exists and the document is refreshed the warning is gone.",
  ["inputs", "histories"],
  "template names with folders, dots, spaces and non-ASCII characters; several missing templates; positions inside and outside the name",
  "No test requests an action.",
  [F, L, D], [("code_action finds missing template at the position", F), ("process_code_actions builds the edit", F), ("missing_templates", D)], [("code_actions", "missing templates per document", F)], ["codeAction responses; the edit is carried out by the simulated editor"])
prop("C15", "Go to definition and hover name the right definition",
  "Go to definition on a variable leads to the definition that is in scope there (for several files: definitions of that name elsewhere only if none of the own file is), on a template name to that template's file, and hover tells the kind of the same definition or documents the filter or test under the cursor. On anything else the answer is empty.",
  ["inputs", "programs"],
  "all generated templates and all positions in them",
  "The unit tests never ask for a position in a whole workspace.",
  [F, DEF, OBJ, TPL], [("goto_definition", F), ("hover, data_type", F)], [], ["definition and hover responses"])
prop("C16", "Completion offers exactly what is usable there",
  "In an expression completion offers the variables of the template that are in scope at the cursor and those of the backend (with the typed prefix, replacing exactly the word being typed); after a pipe all filters, after `is` all tests, and inside the quotes of an include, import or extends the templates whose name contains the typed text. Accepting an offer replaces exactly the word being typed (for VS Code, which is sent insert and replace ranges, too).",
  ["inputs", "programs"],
  "all generated templates, cursor positions and prefixes",
  "The unit tests check the kind of completion at fixed positions, not what is offered.",
  [L, F, OBJ, TPL], [("completion decides the kind", F), ("read_variables, read_templates build the items", F)], [], ["completion responses"])
prop("C17", "The newest valid configuration decides what is indexed",
  "The configuration is that of the initialisation options, else that of the first of pyproject.toml, Cargo.toml and jinja-lsp.toml in the working directory with a valid jinja-lsp section, until the editor sends a valid new one; an invalid one changes nothing. What is indexed is at all times what the configuration in force selects (template directory, backend directories, language, undefined variables hidden or not) and nothing of an earlier one. A configuration that selects nothing because its template directory is missing or unnamed or its language is unknown is reported to the user by a warning when it comes into force, a usable one is not.",
  ["configurations", "histories"],
  "configurations from all sources, valid and invalid, changed any number of times",
  "No test reads a configuration.",
  [C, L, F], [("search_config order of files", C), ("DidChangeConfiguration", L), ("file_ext", C)], [("config", "configuration in force", L)], ["probes that tell which files are indexed"])
prop("C18", "The server never modifies the workspace",
  "Whatever is asked of it, the server itself never creates, changes, renames or removes a file; new templates are only proposed to the editor as an edit.",
  ["inputs", "histories", "fault_sequences"],
  "all message sequences of the other properties' generators, including quick fixes and commands, with disk faults",
  "Needs every system call to be seen.",
  [F, L, C], [("process_code_actions answers with a WorkspaceEdit", F)], [], ["all modifying system calls of the server, seen by the simulated file system"])
prop("C19", "The server follows the LSP lifecycle and ends with its input",
  "Before initialisation requests are refused with the error the protocol prescribes, after shutdown no request is served any more, and when its input ends, at any byte and in any state, the server ends within bounded time, after having answered what was answered.",
  ["histories", "schedules", "crash_points"],
  "end of input at any byte (also inside a message) and in any state, with requests open and clients that no longer read; requests before initialize and after shutdown",
  "Needs the server's process loop and an editor that dies.",
  [B, L, D], [("tower-lsp service states", B), ("tasks end when their channels close", L)], [], ["error codes, end of the server future"])
prop("C20", "The outline lists each definition once, at its place",
  "The document symbols of an open template are exactly its definitions, with their names, kinds and positions in the current text, in UTF-16 columns.",
  ["inputs", "programs"],
  "all generated templates and edits",
  "No test asks for symbols.",
  [F, DEF], [("document_symbols", F)], [("variables", "definitions per document", F)], ["documentSymbol responses"])
prop("C21", "Definitions are shared between files as far as they should",
  "A variable without definition in its own template is found in every file that defines it, backend sources included, by warnings, go to definition and hover alike; and changing, closing or deleting one document never changes what is known of the definitions in another.",
  ["histories", "inputs"],
  "several templates and backend files sharing names, edited, closed, rescanned in any order",
  "The unit tests look at one file at a time.",
  [F, H, RS, PY], [("variables by file", F), ("read_variables, goto_definition over all files", F)], [("variables", "definitions by file", F)], ["diagnostics, goto, hover, completion across files"])
prop("C24", "What the server serves is announced, and what it announces is served",
  "The answer to initialize announces everything the server can do (opened, changed, saved and closed documents, hover, definition, completion, outline, code actions, the command that rescans), for every client and configuration; every method and command it announces, or offers in a code action, is served; positions are in UTF-16 columns; and it sends the client no request that the client did not offer to answer.",
  ["configurations", "histories"],
  "initialize requests of different clients with valid, invalid and missing options and capabilities, followed by sessions that use what is announced",
  "No test calls initialize.",
  [L, B], [("InitializeResult", L), ("handlers of the announced methods", B)], [], ["initialize response, responses to announced methods, requests from the server"])
NA = [
 dict(id="C22", title="Built-in filters and tests are documented as in MiniJinja",
  statement="The list of filters and tests offered and documented by the server is the one of the template engine, with correct descriptions.",
  quantifier=dict(over=["inputs"], text="all built-in filters and tests"),
  why_tests_cant="The content is embedded text; nothing compares it with the engine.",
  anchors=dict(files=["jinja-lsp/src/filter/mod.rs", "jinja-lsp/src/template_tests/mod.rs"], mechanism=[dict(name="embedded documentation", where="jinja-lsp/src/filter/mod.rs")]),
  reason="Constant embedded text: no schedule, time, I/O or history on which it could depend, and no engine here to compare it with. That hover shows the right entry is part of C15, that the complete list is offered part of C16."),
 dict(id="C23", title="The Node binding reports what the server reports",
  statement="The functions of the Node.js binding give, for a given text and position, the same results as the language server.",
  quantifier=dict(over=["inputs"], text="all texts and positions"),
  why_tests_cant="The binding's tests hold a few fixed texts.",
  anchors=dict(files=["jinja-lsp-nodejs/src/lib.rs"], mechanism=[dict(name="synchronous calls on LspFiles", where="jinja-lsp-nodejs/src/lib.rs")]),
  reason="A synchronous, single-threaded library without time, I/O or concurrency, loaded as a native module into Node.js: nothing for a simulator to schedule or to fail."),
]
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("_note", "reason")}, ensure_ascii=False) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
TECH = "deterministic simulation with fault injection (seeded search over schedules, inputs and faults; real server code, simulated editor, disk, clock and scheduler; "
ORACLE = {"C01": "exactly-once check over the recorded history", "C02": "panic, progress and computing-time checks", "C04": "differential check of two histories",
  "C07": "ordering check over the recorded history", "C24": "protocol check over the recorded history", "C08": "count over the recorded history and virtual time", "C18": "invariant on simulated system calls", "C19": "protocol state check over the recorded history"}
checks = []
for p in P:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        evidence_file=f"evidence/{i}.json", technique=TECH + ORACLE.get(i, "refinement against an executable reference model") + ")", level="exploration",
        level_note="Held in every simulated run explored; runs are sampled by seed, not enumerated. Trusts the reference model (own Jinja lexer, parser and scope analysis; judges only what it can parse), the patched tokio scheduler hook and the libc-level file system stub." if i not in ORACLE else
        "Held in every simulated run explored; runs are sampled by seed, not enumerated. Trusts the patched tokio scheduler hook, the libc-level file system stub and the history checker."))
m = dict(version=1, setup_cmd="cd sim && cargo build --offline --quiet",
    hooks=dict(guard="jinja_lsp_sim", enable="rustflags --cfg jinja_lsp_sim, set in /verif/sim/.cargo/config.toml", source_commits=hook),
    checks=checks, not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
    notes="See DESIGN.md. Replay of a finding: ./replay.sh FILE. VERIF_SEED chooses the seeds, SIM_SECONDS and SIM_RUNS the effort.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
