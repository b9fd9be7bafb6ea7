#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M = "client/model/"; PA = "client/parser/"; R = "client/repl/"; T = "client/transmitter/"; S = "client/system/"; C = "client/cmd/"; X = "client/interop/musicxml/"

prop("C01", "Any text either compiles to a score or is refused with a located error",
 "For every input text, parsing, interpreting, formatting and JSON-encoding it terminates without crashing, in work bounded by the size of the score it denotes. The outcome is either a score or an error, and every syntax error names a line and column inside the text (at most one past its end) together with the file name.",
 ["inputs"], "all byte strings: valid scores, mutated scores, token soup, truncated files, deep nesting, extreme numbers, non-ASCII text and control characters",
 "The tests parse a few dozen handwritten snippets, nearly all of them valid; totality is a statement about every malformed input.",
 [PA+"scanner.go", PA+"parser.go", PA+"ast.go", M+"lisp.go", M+"score.go", M+"source_context.go"],
 [("scanner/parser return AldaSourceError", PA+"scanner.go errorAtPosition, "+PA+"parser.go errorAtToken"), ("Parse", PA+"parser.go Parse"), ("Score.Update wraps errors in source context", M+"score.go")],
 ["parser.Parse, ASTNode.Updates, Score.Update, Score.JSON"])

prop("C02", "Every note sounds at the MIDI pitch its notation denotes",
 "The MIDI note number of every emitted note equals 12*(octave+1) plus the letter's semitones plus its written accidentals (or, when none are written, those of the part's key signature; a natural sign cancels the key signature) plus the part's transposition. A note whose number falls outside 0-127 is refused with an error instead of being emitted, wrapped or clamped.",
 ["inputs"], "all sequences of octave changes, notes with any accidentals, key signatures in all four notations (scale, letter-accidental string, circle-of-fifths result, list) and transpositions, for any part",
 "pitch_test and key_test sample a handful of letters and keys one at a time; they never combine octave walks, accidentals, keys and transposition.",
 [M+"pitch.go", M+"key.go", M+"note.go", M+"attributes.go", M+"lisp.go"],
 [("CalculateMidiNote", M+"pitch.go"), ("KeySignatureFromScale", M+"key.go"), ("range check", M+"note.go addNoteOrRest")],
 ["NoteEvent.MidiNote in Score.Events"])

prop("C03", "Notes start and last exactly as their written durations and tempo say",
 "Consecutive notes and rests of a part follow each other without gap or overlap: each starts where the previous one ends, and lasts the sum of its tied components (note length n with d dots = (4/n)*(2-2^-d) beats at the current tempo; milliseconds and seconds literally), an omitted duration being that of the previous note or rest (initially a quarter note). The audible part of a note is its duration times the quantization, or all of it when slurred; a rest or a note with zero audible time advances time and emits nothing.",
 ["inputs"], "all sequences of notes/rests with note-length, dotted, fractional, millisecond, second and tied durations, slurs, tempo changes and quantization changes",
 "duration_test and notes_test check isolated durations; accumulated offsets under tempo changes and sticky durations are sampled with two or three notes.",
 [M+"duration.go", M+"note.go", M+"attributes.go", PA+"parser.go", PA+"scanner.go"],
 [("Duration.Ms", M+"duration.go"), ("addNoteOrRest", M+"note.go"), ("duration parsing with ties/slurs", PA+"parser.go duration")],
 ["NoteEvent.Offset/Duration/AudibleDuration", "Score.PartOffsets"])

prop("C04", "Chords share a start, crams fill exactly their outer duration",
 "All notes of a chord start together and the part then continues after the chord's shortest note or rest, later undecorated notes taking the last duration written in the chord. The events of a cram keep their relative lengths and are scaled so that together they last exactly the cram's own duration (or the part's current duration if none is written), at any nesting depth; after the cram the default duration is the cram's own, or what it was before.",
 ["inputs"], "all chords (with octave/attribute changes and rests between notes) and all crams nested in crams, repeats, sequences, variables and voices, with tempo or duration changes inside",
 "chords_test and cram_test sample fixed examples to nesting depth two with no attribute changes inside.",
 [M+"chord.go", M+"cram.go", M+"note.go", PA+"parser.go"],
 [("Chord.UpdateScore", M+"chord.go"), ("Cram.UpdateScore/timeScale/innerDurationMs", M+"cram.go"), ("DurationMs of each event", M+"*.go")],
 ["NoteEvent.Offset/Duration", "Score.PartOffsets"])

prop("C05", "Repeats and numbered endings equal their written-out form",
 "A score containing repeats of notes, chords, sequences, crams or variables, and endings restricted to certain repetitions, produces exactly the same events as the score where each repeat is written out that many times with only the endings that apply to each time through. Nested repeats number their own repetitions only, and this holds inside variables, crams and parts with several instruments.",
 ["programs"], "all scores built from nested repeats and repetition-ranged endings, over any number of active instruments",
 "repeats_test checks one level of repetition for a single instrument; equivalence with the unrolled score is over all nestings.",
 [M+"repeat.go", M+"repetitions.go", M+"event_sequence.go", PA+"parser.go", PA+"ast.go"],
 [("Repeat.UpdateScore / DurationMs", M+"repeat.go"), ("OnRepetitions.AppliesTo", M+"repetitions.go")],
 ["Score.Events of the score and of its unrolled twin"])

prop("C06", "A variable plays the music it was defined as",
 "Referring to a variable produces exactly the events that writing its definition in that place would, in the referring part's current octave, tempo and other state. References inside a definition are captured when it is made: redefining a variable affects later references only, never variables already defined from it; referring to an undefined variable is an error.",
 ["programs"], "all scores with variable definitions (inside or outside parts), nested references, redefinitions, repeats and references from several parts",
 "variables_test covers single definitions and one redefinition; capture semantics quantify over all definition/reference interleavings.",
 [M+"variable.go", M+"event_sequence.go", M+"lisp.go", PA+"parser.go"],
 [("VariableDefinition.UpdateScore captures VariableValue", M+"variable.go"), ("VariableReference.UpdateScore", M+"variable.go")],
 ["Score.Events of the score and of its inlined twin"])

prop("C07", "Voices start together and the part resumes after the longest one",
 "Every voice of a voice group starts at the group's start with the part's state at that moment and is unaffected by what the other voices do; naming a voice again continues it where it left off. After the group ends (explicitly, or because another part begins) the part goes on from the end of its longest voice, and no note of any voice is lost or duplicated.",
 ["programs"], "all scores with voice groups of any number, order and length of voices, re-entered voices, attribute changes inside voices, several active instruments, groups ended by V0, by another part or by the end of the text",
 "voices_test has a few two- and three-voice examples; independence of voices is over all contents and orders.",
 [M+"voice.go", M+"part.go", PA+"parser.go", PA+"ast.go"],
 [("VoiceMarker.UpdateScore forks the part", M+"voice.go"), ("VoiceGroupEndMarker.UpdateScore picks the last voice to finish", M+"voice.go")],
 ["NoteEvent offsets", "Score.PartOffsets"],
 [("voices", "copies of the part, one per voice number", M+"voice.go Voices")])

prop("C08", "Attribute changes reach exactly the notes they should",
 "A local attribute change affects the current instruments from that point on and no other instrument. A global one affects every instrument, at the moment in time it was placed, whether the instrument was declared before or after it and whether it reaches that time by notes, rests, chords, crams or jumps; it never changes notes before that time, is applied once, and yields to a local change of the same attribute made by that instrument at the same moment.",
 ["programs"], "all interleavings of local and global changes of every attribute (tempo, metric modulation, volume, dynamics, track volume, panning, quantization, octave, duration, key, transposition) with notes over several parts",
 "attributes_test sets one attribute at a time in one part; propagation across parts and time is a property of the whole history.",
 [M+"attributes.go", M+"lisp.go", M+"note.go", M+"chord.go", M+"cram.go"],
 [("ApplyGlobalAttributes / InWindow", M+"attributes.go"), ("local override record", M+"attributes.go AttributeUpdate.UpdateScore")],
 ["NoteEvent fields (Volume, TrackVolume, Panning, Duration, AudibleDuration, MidiNote)"],
 [("GlobalAttributes itinerary", "offset -> attribute changes for every part", M+"attributes.go")])

prop("C09", "Part declarations select exactly the instruments they name",
 "A part declaration makes current exactly the instruments it names: an unnamed instrument is created once and reused, a nickname always denotes the instrument(s) it was given to, a named group of stock instruments creates new instances, groups contain each instrument once, and members of a named group are reachable with the dot operator. Ambiguous or conflicting declarations (reassigned nickname, mixed named and unnamed instances, mixed groups, duplicate names, unknown instruments) are errors; each current instrument plays each note exactly once.",
 ["programs"], "all sequences of part declarations over stock instruments, aliases, groups and dotted members",
 "parts_test enumerates about a dozen declaration sequences by hand.",
 [M+"part.go", M+"instruments.go", PA+"parser.go"],
 [("determineParts", M+"part.go"), ("PartDeclaration.UpdateScore", M+"part.go"), ("stockInstrument aliases", M+"instruments.go")],
 ["Score.Parts, Score.CurrentParts, Score.Events"],
 [("Aliases", "nickname -> parts", M+"part.go")])

prop("C10", "Markers name moments that any part can jump to",
 "Placing a marker records the current part's position; jumping to it makes the part's next event start exactly there, from any part, forwards or backwards, also through variables, voices and repeats. Jumping to a marker that has not been placed, or placing one outside a part or where the current instruments are at different positions, is an error.",
 ["programs"], "all sequences of marker placements (including re-placements) and jumps across parts",
 "markers_test places and reads one marker.",
 [M+"marker.go", M+"score.go"],
 [("Marker.UpdateScore / AtMarker.UpdateScore", M+"marker.go")],
 ["Score.Markers, NoteEvent.Offset"])

prop("C11", "Whole scores are interpreted compositionally, each note exactly once",
 "For every score mixing all language features, the emitted events are exactly those the language's definition prescribes: one event per sounding note per current instrument, with its pitch, offset, duration, audible duration, volume, track volume and panning, and nothing else. All offsets and durations are finite and non-negative, and what one part does never alters another part's events, apart from shared global attributes, markers, variables and MIDI channels.",
 ["programs"], "all scores composed of parts, groups, notes, chords, crams, repeats, endings, voices, variables, markers, S-expression events and attributes",
 "Each test file exercises one feature in isolation; interactions between features are untested.",
 [M+"*.go", PA+"*.go"],
 [("Score.Update", M+"score.go")],
 ["Score.Events, Score.PartOffsets"])

prop("C12", "MIDI channels are never shared by overlapping notes of different parts",
 "At no moment do two different non-percussion parts sound on the same MIDI channel; percussion always uses channel 9 and nothing else ever does. A part with an explicit channel uses exactly that channel or the score is refused, channels stay within 0-15, and a score is refused for lack of channels only if some note truly finds every permitted channel occupied.",
 ["programs"], "all scores with from one to dozens of parts, overlapping in any way, with or without explicit channels, voices, and percussion",
 "midi_test checks specific part counts with sequential notes; freedom from conflicts is over all overlap patterns and declaration orders.",
 [M+"midi.go", M+"note.go", M+"attributes.go"],
 [("determineMidiChannel / simpleCheck / complexCheck / assignMidiChannel", M+"midi.go")],
 ["NoteEvent.MidiChannel"],
 [("midiChannelUsage", "parts that have used each channel", M+"midi.go")])

prop("C13", "Transmitted messages play exactly the notes of the score",
 "What is sent to a player contains one note message for every note of the score with the right track, channel, offset, pitch, durations and velocity, and before each note its channel has been given that part's instrument, volume and panning, with no other part's setting in between. A play message follows unless the score is only loaded, and a shutdown message after the end of the score exactly when a one-off playback was asked for.",
 ["programs", "configurations"], "all scores (including channel sharing and changing volumes/panning) and all combinations of transmission options",
 "The OSC transmitter has no tests at all.",
 [T+"osc.go", T+"transmitter.go", M+"score.go"],
 [("ScoreToOSCBundle", T+"osc.go"), ("patch/volume/panning tracking per channel", T+"osc.go")],
 ["bytes received by a player on its OSC port", "ScoreToOSCBundle"])

prop("C14", "Playing from/to plays exactly that window, in time, at the right tempo",
 "With a start and/or end position (minute:second or marker), exactly the notes starting in the half-open window are sent, shifted so that the window starts at zero, with the same relative timing; the tempo messages reproduce the master tempo (the first part's and the global changes), shifted alike, with the tempo in force at the window's start placed at zero. A reference that is neither a time nor a marker, or an empty or reversed window, is refused or plays nothing, never something else.",
 ["programs", "configurations"], "all scores and all from/to references",
 "No test covers playback windows or the tempo itinerary of transmitted scores.",
 [T+"osc.go", T+"transmitter.go", M+"score.go", C+"play.go"],
 [("InterpretOffsetReference", M+"score.go"), ("window filter and shift", T+"osc.go"), ("TempoItinerary", M+"score.go")],
 ["note and tempo messages received by a player"])

prop("C15", "Formatting code never changes what it plays",
 "For every score that parses, the formatter's output parses to the same events (same notes, times and attributes), keeps within the requested width where a break is possible, and formatting its own output again changes nothing. When it cannot format a text it says so and leaves the text alone.",
 ["inputs"], "all parseable scores and all wrap/indent settings",
 "There is no formatter test; examples are only parsed.",
 [PA+"format.go", C+"format.go", PA+"ast.go"],
 [("FormatASTToCode", PA+"format.go"), ("AST to tokens", PA+"format.go")],
 ["parse(format(parse(x))) versus parse(x)", "Score.Events"])

prop("C16", "Score updates turn back into the code that denotes them",
 "Generating an Alda syntax tree from a list of score updates and interpreting it again yields the same score events as applying the updates directly, and its printed form parses back to the same tree.",
 ["inputs"], "all lists of score updates an Alda text or a MusicXML import can produce",
 "No test covers the generator.",
 [PA+"gen.go", PA+"format.go", PA+"ast.go"],
 [("GenerateASTFromScoreUpdates", PA+"gen.go")],
 ["Score.Events"])

prop("C17", "Layout and comments do not change the music",
 "Adding or removing spaces, line breaks, comments or barlines between events (outside variable definitions, which end with their line) never changes the events of a score.",
 ["inputs"], "all scores and all insertions of spaces, newlines, carriage returns, comments and barlines between tokens",
 "comments_test and barlines_test sample a few placements.",
 [PA+"scanner.go", PA+"parser.go", M+"barline.go"],
 [("whitespace/comment skipping", PA+"scanner.go scanToken"), ("barlines inside durations", PA+"parser.go duration")],
 ["Score.Events of differently laid-out twins"])

prop("C18", "A MusicXML import plays the same notes as the MusicXML file",
 "Importing a partwise MusicXML document yields an Alda score with, for every part, exactly the pitched notes of the document at the same onsets and with the same lengths (ties merged, chords together, voices separate, backup/forward honoured, repeats and endings preserved), under the document's key signatures, transpositions and dynamics.",
 ["inputs"], "all documents using parts, divisions, voices, chords, ties, slurs, key and time signatures, transposition, dynamics, percussion and repeats within the supported subset",
 "The importer's tests compare a few fixed snippets; conformance is over all documents.",
 [X+"*.go", PA+"gen.go"],
 [("ImportMusicXML", X+"importer.go"), ("handlers per element", X+"handlers.go"), ("optimizer passes", X+"*.go")],
 ["Score.Events of the imported score versus onsets computed from the XML"])

prop("C19", "A malformed MusicXML file is refused, never a crash",
 "For every input file, importing MusicXML terminates with Alda code or with an error message; it never crashes, hangs or emits code that Alda itself cannot parse.",
 ["inputs"], "all byte strings: well-formed but incomplete documents, missing or unexpected elements and attributes, non-numeric values, truncated XML",
 "Importer tests only use valid documents.",
 [X+"*.go", C+"import.go"],
 [("element handlers", X+"handlers.go"), ("validation of warnings", X+"importer.go")],
 ["ImportMusicXML result, alda import exit status"])

prop("C20", "Entering a score piece by piece equals playing it whole",
 "In a REPL session, evaluating a score in any number of pieces leaves the same score as evaluating it at once, and each evaluation sends the player exactly the notes that piece added: across the session every note is sent exactly once, on the right track, at its place relative to the piece's own start. Replaying, stopping, asking for information or failing in between neither loses nor duplicates notes.",
 ["histories"], "all ways of cutting scores into pieces and all interleavings with replay, stop, score-info and failing requests",
 "The REPL server has no tests.",
 [R+"server.go", T+"osc.go", M+"score.go"],
 [("eval-and-play with sync offsets and event index", R+"server.go"), ("TransmitFromIndex", T+"transmitter.go")],
 ["nREPL responses and OSC messages received by a stub player"],
 [("eventIndex", "number of events already sent", R+"server.go")])

prop("C21", "A failed REPL request leaves the session as it was",
 "When a REPL request fails (syntax error, undefined name, invalid score, missing parameter, unreachable player, unreadable file) the response says so and the session's score, text and later playback are exactly what they would have been without that request.",
 ["histories", "fault_sequences"], "all request sequences with failing requests at any place",
 "The REPL server has no tests.",
 [R+"server.go", R+"validation.go", M+"score.go"],
 [("server state replacement", R+"server.go")],
 ["responses to score-text/score-data/score-events and notes received by a stub player"])

prop("C22", "Every REPL request gets one reply, whatever the clients do",
 "Each request sent to the REPL server, from any number of clients at once, pipelined or split at any byte boundary, is answered exactly once, with that request's id, a final status and no data of another request; requests of one client are answered in order. Malformed input or a client that vanishes never stops the server from serving others, and the server has no data races.",
 ["schedules", "inputs", "histories"], "all interleavings of clients, message fragmentations, malformed messages and disconnections",
 "The REPL server has no tests; races and framing depend on schedules.",
 [R+"server.go", R+"player_management.go", R+"validation.go"],
 [("handleConnection / respond", R+"server.go"), ("request queue", R+"server.go")],
 ["bencoded responses per connection", "Go race detector reports"])

prop("C23", "The REPL keeps exactly one live player and recovers from its loss",
 "While a REPL server runs, requests that need a player use a live one: when its player disappears, another available one is adopted, the next playback reaches it, and no playback is sent to two players. If no player can be found the request fails with an error and the server keeps running.",
 ["fault_sequences", "histories"], "all sequences of players appearing, dying and being adopted between and during requests",
 "Player management has no tests.",
 [R+"player_management.go", R+"server.go", S+"process_management.go"],
 [("managePlayers / FindPlayer / ping", R+"player_management.go")],
 ["OSC messages received by stub players, server responses"])

prop("C24", "Commands find exactly the players and servers that exist",
 "Listing processes and choosing a player consider exactly the valid, current state files: malformed, foreign-version or unreadable entries are ignored or reported, never crash a command, never hide healthy players, and a busy player is never chosen for a new playback. Looking up a player by id returns that player or an error. Commands that need players start as many in the background as are missing from three ready or starting ones; `alda ps` and `alda shutdown` start none.",
 ["configurations", "fault_sequences"], "all contents of the state directory (valid, truncated, garbage, wrong version, duplicate ports, vanished while reading)",
 "Only the directory helper is unit tested.",
 [S+"process_management.go", S+"dirs.go", C+"ps.go", C+"stop.go", C+"shutdown.go", C+"play.go"],
 [("ReadPlayerStates / FindAvailablePlayer / FindPlayerByID", S+"process_management.go")],
 ["alda ps output, messages received by stub players"])

prop("C25", "Commands fail loudly and never damage files",
 "Every command exits 0 exactly when it did what was asked, and otherwise exits non-zero with an error message on standard error. The output file of format, import and export is either the complete new content or untouched.",
 ["inputs", "configurations", "fault_sequences"], "all command lines over format/import/parse/play/export with valid and invalid inputs, options and unwritable or missing paths",
 "The commands have no tests.",
 [C+"*.go", "client/help/errors.go"],
 [("cobra RunE + error handling", C+"root.go"), ("output writing", C+"format.go, "+C+"import.go")],
 ["exit status, stdout/stderr, file contents"])

prop("C26", "Telemetry and update checks respect the user's choice",
 "Nothing is sent to the telemetry host before the user has been told about telemetry, nor after telemetry has been disabled (by the command or by the environment variable), whatever the state of the rest of the configuration; the setting survives later commands. A request that is sent contains only the operating system, the architecture, the version and the name of the command. Failure to reach the network never changes a command's result.",
 ["configurations", "histories"], "all sequences of telemetry enable/disable and other commands, with config files missing, corrupt or read-only",
 "No tests.",
 [C+"telemetry.go", C+"root.go", C+"update.go"],
 [("telemetry preference file", C+"telemetry.go")],
 ["connections attempted through a monitored proxy, command output"])

prop("C27", "The same input always gives the same result",
 "Compiling, formatting, importing, exporting to JSON or transmitting the same input gives identical output every time, in the same process or a fresh one, alone or concurrently with other scores.",
 ["inputs", "schedules"], "all inputs; repeated and concurrent compilations",
 "Each test runs an input once; map-iteration order and shared state only show up across runs and threads.",
 [M+"*.go", PA+"*.go", X+"*.go", T+"osc.go"],
 [("ordered traversal of maps", M+"attributes.go, "+X+"*.go, "+T+"osc.go")],
 ["outputs of repeated runs; Go race detector"])

prop("C28", "S-expressions mean their function or are rejected",
 "Every S-expression event (attributes in their documented names and abbreviations, note/chord/rest/duration/octave/barline functions, key signatures, quoting) has exactly the effect of the equivalent notation, and calls with a wrong name, number, type or range of arguments are refused with an error located at the expression, with no effect on what was already entered.",
 ["programs"], "all S-expressions over the built-in functions with right and wrong argument lists",
 "lisp_test parses a few forms; the built-in functions are mostly untested.",
 [M+"lisp.go", M+"attributes.go", M+"key.go"],
 [("defattribute / defn argument matching", M+"lisp.go"), ("range validation", M+"lisp.go")],
 ["Score.Events of S-expression versus notation twins, errors"])

prop("C29", "JSON output is valid and refers only to things it contains",
 "The JSON printed for a parsed score (data, events or syntax tree) is one valid JSON document with one entry per part and per event; every part mentioned by an event, alias or current-part list is in its part list, and times, pitches and attributes equal those that would be played.",
 ["programs"], "all valid scores, including voices, groups, aliases, variables, repeats and S-expressions",
 "No test looks at the JSON output of whole scores.",
 [M+"*.go JSON()", PA+"ast.go", C+"parse.go", "client/json/declarative.go"],
 [("JSON methods", M+"*.go")],
 ["alda parse -o data|events|ast"])

prop("C30", "alda play delivers the requested score to exactly one player",
 "Playing a file, a code string or standard input sends the complete score once, to exactly one available player (or the one asked for by id or port), and reports success only if it was handed over; an invalid score is reported without sending anything.",
 ["programs", "configurations", "fault_sequences"], "all scores and combinations of input sources, player options and player states",
 "The play command has no tests.",
 [C+"play.go", T+"osc.go", S+"process_management.go"],
 [("play command", C+"play.go"), ("Transmit", T+"osc.go")],
 ["OSC packets received by stub players; exit status"])

prop("C31", "The player process plays what it receives",
 "The player process schedules every received note at its offset and tempo on its channel, and its state file tells the truth about it.",
 ["programs", "schedules"], "all bundles sent to a player",
 "The Kotlin player is not built by this repository's test setup.",
 ["player/src/main/kotlin/io/alda/player/*.kt"],
 [("MidiEngine, Receiver, StateManager", "player/src/main/kotlin/io/alda/player")],
 ["MIDI output"])

prop("C32", "Self-update installs only a complete, matching release",
 "Updating replaces the alda and alda-player executables only by a completely downloaded release of the requested version that the user agreed to, and otherwise leaves both as they were: at every moment, through every failure and interruption, there is a complete executable alda, and once the command has ended either both are the new ones (and it succeeds) or both are the old ones. It changes nothing else in their directory; the next command cleans up exactly the executables that an update renamed.",
 ["fault_sequences"], "all download failures, defective release descriptions, failing file operations and interruption points",
 "No tests; needs a release server.",
 [C+"update.go", "client/system/dirs.go", C+"doctor.go"],
 [("update command", C+"update.go"), ("FindRenamedExecutables", "client/system/dirs.go")],
 ["the executables on disk"])

prop("C33", "The interactive REPL does what is typed and shows what the server says",
 "In an interactive REPL session, with the server in the same process or elsewhere, a line of code is evaluated and played once, and each command does to the score, the player and the named files exactly what it stands for: :new, :load, :save (the score's text), :export (the MIDI file), :play with from/to, :stop, and :score, :parts, :instruments, :version which show the server's answer. A refused line, a wrong argument or an unusable file is reported as an error and changes nothing. quit, exit, bye, :quit and the end of input end the session successfully and nothing after them is evaluated. `alda repl --message` prints the server's reply and exits with a failure exactly if the reply is an error. A server whose reply is malformed, incomplete, an error or garbage (the structure of a score document or syntax tree inside an otherwise proper reply is trusted) makes the client report an error, never crash or hang.",
 ["histories", "fault_sequences"], "all sequences of lines typed, alone or with other clients of the same server, and all malformed, incomplete or failing replies",
 "The REPL client has no tests; it needs a server, a player and someone who types.",
 [R+"client.go", R+"message.go", C+"repl.go", "client/system/files.go"],
 [("command table and read loop", R+"client.go"), ("sendRequest", R+"client.go"), ("sendREPLMessage", C+"repl.go")],
 ["what the client shows, files it writes, its exit status; nREPL replies to a second client; OSC messages received by a stub player"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"] + " " + str(len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
