NA = {
 "C31": "The player process is a Kotlin/JVM program built with Gradle from network dependencies; neither it nor its dependencies are available offline here, so it cannot be executed and nothing can be monitored.",
}
T["C01"] = ("runtime monitoring of generated hostile inputs: crash/CPU-budget/error-location/JSON-validity monitors over the real parser, interpreter, encoder and formatter in watched subprocesses", "Totality oracle: every input ends in bounded CPU time with a result or an error located inside the text. Reach comes from grammar-aware mutation, token soup, corpus mutation and fixed extremes, not enumeration.")
T["C12"] = ("runtime monitoring of generated scores: overlap monitor over every pair of notes on a channel, refusals justified against the notes already placed", "Independent overlap arithmetic over the emitted events; a planned note list decides whether each refusal was forced.")
T["C13"] = ("runtime monitoring of transmitted bytes: independent OSC decoder and sequencer model performing each bundle, bipartite matching of notes heard with notes written", "The wire bytes (in memory, and over TCP for a share) are decoded by an independent decoder, performed by a small sequencer model, and every note matched with its expected channel state.")
T["C14"] = ("runtime monitoring of transmitted bytes: sequencer model, window arithmetic and master tempo of the reference interpreter", "Notes compared with independent window arithmetic; tempo messages read as a step function and sampled against the reference interpreter's master tempo.")
T["C15"] = ("runtime monitoring of the formatter: event-level comparison of formatted and original scores by the real interpreter, width and fixpoint monitors", "Every generated or corpus text is formatted at several widths; the events recorded from both texts are compared, line widths and idempotence are monitored.")
T["C16"] = ("runtime monitoring of the syntax-tree generator: events of generated tree vs. applied updates, printed form parsed back and tree-compared", "Round trips over updates produced by the real parser from generated scores and from programmatic constructors.")
T["C27"] = ("runtime monitoring: race detector plus byte comparison of repeated, concurrent and fresh-process runs", "Each group of inputs is compiled, formatted, encoded and transmitted repeatedly in one process, concurrently under the race detector and by fresh `alda` processes; all outputs are compared.")
T["C28"] = ("runtime monitoring: differential oracle between S-expression calls, the equivalent notation and a table of argument rules", "Generated well-typed calls must have the effect of the equivalent notation; calls broken in one way must be refused at the position of the expression with no effect.")
T["C29"] = ("runtime monitoring of JSON output: strict independent JSON decoder, closed-reference and score-agreement monitors", "The printed documents are decoded by an independent strict parser and compared field by field with the in-memory score, including the `alda parse` process output for a share.")
T["C20"] = ("runtime monitoring of REPL sessions: the MIDI-level messages received by stand-in players and every reply of a real `alda repl --server` process are checked against the whole-score meaning", "The session's pieces are interpreted as one score by the reference interpreter and by the client itself; what the server reports and what the players receive must agree with it.")
T["C21"] = ("runtime monitoring of REPL sessions with failing requests: score text, replies and received messages before and after each failure", "Each refused request (parse and semantic errors, missing players, impossible exports, unreadable files) must leave every observable of the session as it was.")
T["C22"] = ("runtime monitoring under stress: hostile and concurrent REPL clients against a race-detector build, reply accounting and linearizability of the score texts read", "Every request with an id must get exactly one final reply with that id; score texts observed by concurrent clients must be explainable by one order of the accepted pieces; race reports, crashes and hangs fail the check.")
T["C23"] = ("runtime monitoring under player churn: packets received by stand-in players killed, delayed and added during a REPL session", "Each accepted playback must have reached exactly one player that was alive, refused ones none, and playing must work again within a bounded time of a player becoming available.")
T["C24"] = ("runtime monitoring of alda commands in generated state directories: listed processes, packets received by stand-in players and background spawns compared with a model of the directory", "Each command's output, the players that received packets and the players spawned are compared with what the generated state files (valid, truncated, garbage, foreign, vanishing, unreadable, concurrently rewritten) say.")
T["C26"] = ("runtime monitoring of network contacts: command histories behind a TLS-intercepting proxy that records every connection and request", "Every connection any command attempts is observed by the proxy and judged against a model of the user's choice; results are compared between working, refused and stalled networks.")
T["C30"] = ("runtime monitoring of `alda play` against stand-in players: decoded packets compared with the in-process transmitter's, exactly one recipient", "The packets each stand-in player received are decoded and compared with the bundle the requested options denote; deliveries are counted per player.")
T["C32"] = ("runtime monitoring under fault injection: self-updates against a misbehaving release server, with failing system calls and kills at chosen system calls (strace injection) and a watcher on the executables", "Every update ends with both executables complete and both old or both new, as the exit status says; a watcher checks that alda is complete at every moment observed; crash points are chosen by system call.")
T["C33"] = ("runtime monitoring of real interactive REPL clients: every typed line's effect on the display, the files, the server's score and every packet players receive, against the session model of C20; stand-in servers with faulty replies", "Requests are typed into `alda repl` processes, and every observable effect is compared with what the model of the session and a second raw client of the same server say; malformed replies must end in a reported error.")
T["C18"] = ("runtime monitoring of the MusicXML importer: documents generated together with their sound, imported, printed, compiled and compared note by note", "The generator knows onset, length, pitch, slur and dynamics of every sounding note (unrolled repeats and endings, merged ties, voices, transposition) independently of the importer; the events recorded from the imported code must match one to one.")
T["C19"] = ("runtime monitoring of the MusicXML importer under hostile input: structure-aware and byte-level damage, crash/CPU-budget/parseability monitors, in process and through `alda import`", "Totality oracle: every damaged document ends in bounded CPU time with a message or with code the parser accepts; a share is run through the real program and both outcomes compared.")
T["C25"] = ("runtime monitoring of real commands under fault injection: exit status, standard error and complete before/after snapshots of the user's directory, with full devices, file size limits, strace-injected errors and kills", "What each command line should achieve is known from the generator; the file system snapshot and exit status must agree with it whatever fails at which system call.")
