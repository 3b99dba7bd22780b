#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "An added phrase is stored exactly once and never harms stored phrases",
 "When the user marks a span whose text the phrase file can hold (no blanks, no leading '#') and confirms it, exactly one line made of the highlighted text and its readings is added to the user phrase file (unless that very phrase is already stored), and every phrase that was in the file is still there and still loads, however other programs last left the file (for instance without a final newline; what follows a malformed line is not read, there as everywhere). From then on, in the same session and after any crash or restart of the input method, typing that reading offers the phrase. If storage fails once during the add (full disk, short or failed write, failed open) or the process dies (the system does not), the phrases stored before stay intact and loadable, and adds made after the storage has recovered are stored and offered again.",
 ["histories", "crash_points", "fault_sequences"],
 "every interleaving of in-app adds, edits by other programs, process crashes at any system call, restarts, and write/open failures",
 "No test calls the add path at all (the loader has no tests and the key handler tests use a fake adder); crash points and short writes are outside what a unit test samples.",
 ["src/LanguageModelLoader.cpp", "src/KeyHandler.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/KeyValueBlobReader.cpp"],
 [("append to the user phrase file, then reload", "src/LanguageModelLoader.cpp addUserPhrase"), ("marking state and its validation", "src/KeyHandler.cpp buildMarkingState, handle (Enter)")],
 ["bytes of data.txt", "candidate window after typing the reading"],
 [("user phrase file", "one 'phrase reading' line per phrase", "<user data>/mcbopomofo/data.txt")])

prop("C02", "Edits to the user's files take effect at the next activation",
 "At every activation of the input method, the candidates offered for any reading are those that the current contents of the user phrase, excluded phrase and phrase replacement files give together with the built-in data: stored phrases are offered, excluded ones are not, replacements are applied, each value appears once per reading, and removing the replacement file turns replacement off. This holds after every history of edits by other programs (append, rewrite in place, atomic replace, restoring an older copy, creating or deleting the replacement file) mixed with phrases added from within.",
 ["histories", "schedules"],
 "every history of external edits, in-app adds, activations and mode switches, at any interleaving, provided each edit gives the file a new modification time",
 "The timestamp tests look at one path in isolation; nothing tests the reload decision over several files and a history of edits.",
 ["src/LanguageModelLoader.cpp", "src/TimestampedPath.cpp", "src/Engine/McBopomofoLM.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp", "src/McBopomofo.cpp"],
 [("modification-time check on activation and after an add", "src/LanguageModelLoader.cpp reloadUserModelsIfNeeded"), ("filter, replace, deduplicate, rank", "src/Engine/McBopomofoLM.cpp getUnigrams")],
 ["candidate window", "composing text"],
 [("last seen modification times", "decide what is reloaded", "src/TimestampedPath.h")])

prop("C03", "Files changing underneath a running session never crash or corrupt it",
 "Between two activations other programs may truncate, overwrite in place, replace or delete the user phrase, excluded phrase and phrase replacement files at any moment. Every key typed meanwhile is served without crashing, and every candidate shown is one that a complete version of each file (the one last loaded, or a later one) allows: never a torn mixture or bytes that no version contained.",
 ["schedules", "histories"],
 "every moment of an external truncate / overwrite / replace / delete relative to key events and activations",
 "Unit tests load immutable buffers; none changes a file while it is in use.",
 ["src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp", "src/Engine/MemoryMappedFile.cpp", "src/LanguageModelLoader.cpp"],
 [("how user files are held while in use", "src/Engine/UserPhrasesLM.cpp open, src/Engine/PhraseReplacementMap.cpp open")],
 ["process survival", "candidate window", "composing text"])

prop("C04", "Failing or damaged storage never takes the input method down",
 "Whatever the storage does (files missing, empty, truncated, filled with arbitrary bytes or replaced by directories; opening, reading, mapping, inspecting or writing a file failing at any call; the user folder being unusable), starting, activating, typing, adding phrases and changing settings never crash or hang, repeated failures use nothing up (no file stays open or mapped for good), and a key that cannot be turned into a candidate is handled like any other unknown reading. Once the faults have stopped, the next activation (for the built-in data: the next mode change or restart) restores exactly the candidates that the files on disk give (values that are not valid UTF-8 count as absent; the built-in data is only ever replaced atomically; a user folder that was unusable at start-up needs a restart).",
 ["fault_sequences", "configurations", "histories"],
 "every sequence of system-call failures on the product's own files and every damaged content of those files, at every point of start-up, activation, typing and adding",
 "The tests open good files, and one missing file; no system call ever fails in them and the loader is not covered at all.",
 ["src/Engine/MemoryMappedFile.cpp", "src/Engine/ParselessPhraseDB.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp", "src/Engine/KeyValueBlobReader.cpp", "src/LanguageModelLoader.cpp", "src/DictionaryService.cpp", "src/McBopomofo.cpp"],
 [("open/map/validate", "src/Engine/MemoryMappedFile.cpp open"), ("data file validation", "src/Engine/ParselessPhraseDB.cpp ValidatePragma"), ("reload after failure", "src/LanguageModelLoader.cpp")],
 ["process survival", "candidate window after the faults stop"])

prop("C05", "Starting creates what is missing and never touches what exists",
 "When the input method starts, whatever part of the user's folder for it is missing (nothing, the last folder, or several levels) is created with a user phrase file and an excluded phrase file that contain only comments, and phrases can be added in that very session. Files that already exist are never modified or emptied by starting, activating or restarting. If creation fails or is interrupted, a later start completes it.",
 ["crash_points", "fault_sequences", "configurations"],
 "every subset of missing folders and files, every crash or failing system call during start-up, any number of restarts",
 "The loader is not exercised by any test; a unit test would sample one directory layout and no interruption.",
 ["src/LanguageModelLoader.cpp"],
 [("creation of folder and files", "src/LanguageModelLoader.cpp constructor, populateUserDataFilesIfNeeded")],
 ["directory tree and file bytes", "adding a phrase right after the first start"])

prop("C06", "Every composed text reaches its client exactly once",
 "With at most one client focused at a time, text shown in the composing area of a client is delivered to that client exactly once or is removed by an explicit user action (erase, cancel, replace): leaving the client or switching the input method delivers what was shown, whether the client or the panel displays it, and a reset by the client discards it. Nothing is ever delivered twice, to another client, or re-appears in the composing area after having been delivered or discarded, and prompts or labels shown while composing are never delivered as text.",
 ["schedules", "histories"],
 "every interleaving of key presses and releases, candidate clicks, focus changes between clients of different capabilities, clients closing and opening, client resets and input method switches",
 "Needs the whole engine, several clients and host events in arbitrary order; the engine file has no tests.",
 ["src/McBopomofo.cpp", "src/KeyHandler.cpp", "src/InputState.h", "src/DictionaryService.cpp"],
 [("state transitions and commits", "src/McBopomofo.cpp enterNewState, handleEmptyState, handleCommittingState"), ("reset on focus change", "src/McBopomofo.cpp reset"), ("buffer reset after commit", "src/KeyHandler.cpp handle, reset")],
 ["commit events per client", "composing text per client"])

prop("C07", "The composing text is the best reading of what was typed, however it was typed",
 "At any moment the composing text is the most likely conversion of the current sequence of readings under the language data in force when those readings were entered, with the user's explicit candidate choices kept where they still apply and the pending phonetic symbols inserted at the cursor. It does not depend on the order of typing, cursor moves and deletions that led to that sequence, and confirming commits exactly the text shown.",
 ["histories"],
 "every history of insertions, cursor moves, deletions before/after the cursor, rejected syllables, candidate choices and cancelled candidate windows",
 "The grid tests run a few hand-written sentences; the dependence on the edit history is unbounded and the key handler tests do not run here (their data is absent).",
 ["src/Engine/gramambular2/reading_grid.cpp", "src/KeyHandler.cpp"],
 [("incremental grid maintenance", "src/Engine/gramambular2/reading_grid.cpp insertReading, deleteReading*, update"), ("best path", "src/Engine/gramambular2/reading_grid.cpp walk"), ("candidate choice", "src/Engine/gramambular2/reading_grid.cpp overrideCandidate")],
 ["composing text", "committed text"])

prop("C08", "Display and keys stay consistent and no state is a trap",
 "After every event the caret lies inside the composing text on a character boundary, the highlighted, preceding and following parts of a marked text add up to the composing text, a candidate window is shown exactly while a choice is pending, the client and the panel have been asked to draw just this state (not an earlier one), and with nothing being composed the keys for editing and navigation go to the application. From any reachable state, a bounded number of Esc, End and Backspace presses brings the client back to nothing being composed, without crashing.",
 ["histories", "schedules"],
 "every sequence of keys, modifier combinations, clicks, focus changes and setting changes reachable by a user, including late clicks on a candidate window that has since been superseded",
 "The state space is a product of fourteen interface states, grid contents and settings; the engine has no tests at all.",
 ["src/McBopomofo.cpp", "src/KeyHandler.cpp", "src/InputState.cpp", "src/InputState.h"],
 [("preedit construction", "src/McBopomofo.cpp updatePreedit"), ("composed string and caret", "src/KeyHandler.cpp getComposedString, buildMarkingState"), ("candidate window lifetime", "src/McBopomofo.cpp handleCandidatesState")],
 ["preedit, caret, highlight", "candidate list", "key accepted or passed on"])

prop("C09", "Learned choices are applied while fresh and forgotten with time",
 "After the user picks a candidate in a context, typing the same context again proposes the remembered pick that has the best frequency-and-recency score at that moment, whatever the clock did in between; a pick that has not been repeated for twenty half-lives (thirty hours of clock time, read to the second) is not proposed any more. At most five hundred contexts are remembered, the least recently learned being dropped first, a pick influences no other context and never the single-character mode, and nothing is remembered across a restart.",
 ["schedules", "histories"],
 "every sequence of picks and retypings with arbitrary clock advances and jumps in both directions, beyond the capacity of the memory, across mode switches and restarts",
 "The tests of the model sample three timestamps on one key; the engine's own clock reads and the eviction boundary are never exercised.",
 ["src/Engine/UserOverrideModel.cpp", "src/KeyHandler.cpp"],
 [("decayed score", "src/Engine/UserOverrideModel.cpp Score"), ("LRU eviction", "src/Engine/UserOverrideModel.cpp observe"), ("clock reads", "src/KeyHandler.cpp GetEpochNowInSeconds")],
 ["composing text after retyping"])

prop("C10", "An excluded phrase never comes back",
 "From the activation that follows its entry in the excluded phrase file until it is taken out again, an excluded phrase is neither proposed as a candidate for its reading nor used as a unit of the conversion of newly typed readings, even if it is also a stored user phrase, was the built-in favourite, or had been learned from an earlier pick. Taking the entry out brings it back at the next activation.",
 ["histories"],
 "every interleaving of exclusion edits, user phrase additions, learned picks, typing and activations",
 "Tests filter one fixed buffer; they do not combine exclusion with learned picks, user phrases and reloads over time.",
 ["src/Engine/McBopomofoLM.cpp", "src/LanguageModelLoader.cpp", "src/Engine/UserOverrideModel.cpp", "src/KeyHandler.cpp"],
 [("exclusion filter", "src/Engine/McBopomofoLM.cpp getUnigrams, hasUnigrams"), ("learned pick applied only to an existing candidate", "src/KeyHandler.cpp handle, src/Engine/gramambular2/reading_grid.cpp overrideCandidate")],
 ["candidate window", "composing text"])

prop("C11", "Date and time entries follow the clock at the moment they are shown",
 "Every date, time, year and time-zone entry the input method proposes (from a reading or from its feature menu) states the values that the clock, in the local time zone, gives at the moment the proposal is built: today, yesterday and tomorrow are consecutive calendar days also across month ends, leap days, year ends, daylight-saving changes and clock jumps, and the year names (era, sexagenary, zodiac) match the civil year. Committing a proposal delivers exactly the text proposed. (Civil days that a zone skips altogether are left out.)",
 ["schedules", "configurations"],
 "every instant of the clock including jumps in both directions and boundaries, and every time zone, interleaved with typing",
 "The code has no tests, reads the real clock, and its output differs from one second to the next.",
 ["src/InputMacro.cpp", "src/InputState.cpp", "src/KeyHandler.cpp"],
 [("clock and calendar use", "src/InputMacro.cpp"), ("feature menu", "src/InputState.cpp SelectingDateMacro")],
 ["candidate window", "committed text"])

prop("C12", "Settings take effect at the next activation and survive crashes",
 "A setting changed through the configuration interface, a status toggle or the settings file is in force from the next activation at the latest (a toggle at once; the file when the settings are reloaded), is read back after a restart and by a settings dialog at any time, and the status area (and the notification of a toggle) shows the state of both toggles that is in force. A crash or storage failure at any point of saving leaves the stored settings entirely old or entirely new, never unreadable, and the input method starts with one of the two.",
 ["crash_points", "fault_sequences", "configurations"],
 "every sequence of setting changes, toggles, changes to the settings file, activations, restarts, with crashes and failing system calls at every point of a save",
 "No test constructs the engine or its configuration.",
 ["src/McBopomofo.cpp", "src/McBopomofo.h", "src/KeyHandler.cpp"],
 [("save and load", "src/McBopomofo.cpp setConfig, reloadConfig, status actions"), ("application of settings", "src/McBopomofo.cpp activate")],
 ["behaviour of keys under each setting", "configuration read back after restart"])

prop("C13", "External programs are started exactly when asked, with the right arguments",
 "Adding a phrase runs the add-phrase hook exactly once, with the phrase that was added, if the hook is enabled, and never otherwise; choosing a dictionary opens exactly one address that contains the chosen phrase, percent-encoded, in the place the dictionary's definition says, with the rest of that definition unchanged; the dictionary menu lists the usable definitions of the file in the order they have there and leaves the unusable ones out; choosing to edit a user file opens that file with the configured program. Nothing else is ever started, and a missing, damaged or surprising dictionary definition file or a failing start never crashes or changes what is being composed.",
 ["histories", "fault_sequences", "configurations"],
 "every history of adds, rejected adds, dictionary choices, toggles and setting changes, every content of the dictionary definition file, and failures to start a process",
 "Process starts are a side effect outside unit tests; no test loads dictionary definitions.",
 ["src/McBopomofo.cpp", "src/DictionaryService.cpp", "src/KeyHandler.cpp"],
 [("hook start", "src/McBopomofo.cpp constructor (setOnAddNewPhrase)"), ("dictionary lookup", "src/DictionaryService.cpp")],
 ["recorded process starts"])

prop("C14", "Switching modes always leaves the right data and rules in force",
 "After every history of switches between the phrase mode and the single-character mode and of focus changes, the candidates for a reading come from the data of the mode now active; the single-character mode commits one unit at a time, never keeps a composing buffer of converted text, and never applies learned picks. Associated phrases are proposed exactly when the feature is on, and follow the unit just entered.",
 ["histories", "schedules"],
 "every history of mode switches, focus changes between clients in different modes, toggles, and typing in between",
 "No test constructs the engine; the data of the two modes is never loaded in one test process.",
 ["src/McBopomofo.cpp", "src/LanguageModelLoader.cpp", "src/KeyHandler.cpp", "src/Engine/AssociatedPhrasesV2.cpp"],
 [("mode change on activation", "src/McBopomofo.cpp activate"), ("data reload", "src/LanguageModelLoader.cpp loadModelForMode")],
 ["candidate window", "commit events"])

prop("C18", "The candidate window can be worked by keys, arrows and labels as it shows itself",
 "While a candidate window is shown it holds as many entries a page as the settings say (four to nine), exactly one entry is highlighted and that entry lies on the page shown, and each entry's label names the key that chooses it. Whatever was done before, the labelled key, Return (the highlighted entry) and a click choose the entry they point at and no other; Page Up/Down, Space and the panel's own arrows lead to the neighbouring page (past either end to the other one) with an entry highlighted there; the arrow keys of the window's layout move the highlight by one; and leaving a window opened from a candidate (dictionaries, associated phrases) leads back to the window, page and entry it was opened from. The layout is the one set, except that long entries and menus are listed vertically.",
 ["histories", "schedules"],
 "every history of window keys, clicks, panel paging, nested windows, focus and setting changes, in both modes and for every kind of window",
 "The window is built and driven in the engine file, which has no tests; the page and highlight depend on the history of keys and of paging by the panel.",
 ["src/McBopomofo.cpp", "src/InputState.h", "src/KeyHandler.cpp"],
 [("window construction, labels, layout", "src/McBopomofo.cpp handleCandidatesState"), ("keys in the window", "src/McBopomofo.cpp handleCandidateKeyEvent"), ("page and entry remembered for nested windows", "src/InputState.h")],
 ["candidate window: page, highlighted entry, labels, layout", "what the next choice delivers"])

prop("C19", "The hint beside the composing text tells the truth about the next step",
 "While a span is marked, the hint names exactly the highlighted text and, where it describes the phrase, exactly its readings, and says that Return will add it if and only if Return then adds it; otherwise it says why not (too short, too long, already there, not storable). When the caret stands where no character boundary corresponds to it, the hint names the two readings it stands between; at all other times there is no hint, and a hint never stays behind when the text it belongs to is gone.",
 ["histories"],
 "every history of typing, editing, marking, adding, excluding and of changes to the user files by other programs, across focus changes",
 "Whether the phrase can be added depends on the files as they were loaded and on the history of the buffer; the engine that shows the hint has no tests.",
 ["src/KeyHandler.cpp", "src/McBopomofo.cpp", "src/LanguageModelLoader.cpp"],
 [("marking hint and validation", "src/KeyHandler.cpp buildMarkingState"), ("caret hint", "src/KeyHandler.cpp getComposedString"), ("display", "src/McBopomofo.cpp updatePreedit")],
 ["hint text (aux text of the input panel)", "user phrase file after Return"])

prop("C20", "Every way of confirming delivers what it promises of what is shown",
 "Return delivers the composing text as shown. Control+Return delivers, by setting, nothing, the readings of that same text or its units each paired with their own readings, in order and complete, after any history of edits and choices. Entering a number or an enclosed number through the feature menu delivers the numeral of exactly the digits that were shown, and letters, digits and punctuation typed with or without Shift, from the keypad or with half-width punctuation on deliver or insert the very sign that the setting in force promises. Nothing of it depends on what was typed, cancelled or confirmed before.",
 ["histories", "configurations"],
 "every history of typing, editing, choices, cancelled entries, features and setting changes before the confirmation",
 "Confirmation runs through engine and key handler together; the tests of the key handler do not run here (their data is absent) and sample single buffers.",
 ["src/KeyHandler.cpp", "src/McBopomofo.cpp", "src/InputState.h", "src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp"],
 [("Control+Return output", "src/KeyHandler.cpp handle (Enter), getHTMLRubyText, getBPMFReading"), ("number entry", "src/KeyHandler.cpp handleChineseNumber, handleEnclosingNumber"), ("punctuation", "src/KeyHandler.cpp handlePunctuation")],
 ["commit events", "composing text"])

prop("C15", "Syllable keystrokes compose the phonetic symbols their layout defines",
 "For every keyboard layout and every key sequence, the phonetic reading shown is the one that the layout defines for those keys.",
 ["inputs"], "every key sequence on every layout",
 "MandarinTest samples a few sequences per layout.",
 ["src/Engine/Mandarin/Mandarin.cpp"], [("key to syllable", "src/Engine/Mandarin/Mandarin.cpp")], ["composing text"])
prop("C16", "Number conversion yields the Chinese or Suzhou numeral of the digits typed",
 "For every integer and decimal part, the lower-case, upper-case and Suzhou numerals produced denote exactly the number entered.",
 ["inputs"], "every digit string", "The tests sample a few numbers.",
 ["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp"], [("conversion", "src/ChineseNumbers")], ["committed text"])
prop("C17", "Built-in data lookup returns exactly the rows of the key",
 "For every valid sorted data file and every key, the lookup returns exactly the rows whose key matches, and a reverse lookup exactly the rows whose value matches.",
 ["inputs"], "every valid data file and key", "The tests use small fixed buffers.",
 ["src/Engine/ParselessPhraseDB.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp"], [("binary search over rows", "src/Engine/ParselessPhraseDB.cpp")], ["lookup results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
