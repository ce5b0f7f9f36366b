#!/usr/bin/env python3
# Writes properties.jsonl. Kept as a script so that the entries stay readable.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Every editing key has its documented effect on text and cursor",
  "After every key, whatever was typed before, the text being edited and the cursor are those of a plain model of a line of characters: typed characters go in at the cursor, and every movement, word, deletion, kill, transposition and line-clearing key changes text and cursor exactly as documented, doing nothing at the ends of the line. Enter returns exactly that text; Ctrl-D on an empty line ends the input, on a non-empty one deletes.",
  ["inputs", "histories"], "all sequences of editing keys up to a bound, from all starting texts of a small alphabet and all starting cursors, at every bounded terminal width (so also while the line is scrolled)",
  "The tests press one to five keys each in one fixed order at 80 columns; which command follows which, from which cursor, in a scrolled line, is never varied.",
  ["gommand.go", "buffer.go", "main.go", "slice.go", "keymap.go"],
  [("editing commands", "gommand.go cmd* functions"), ("slice insertion and deletion", "slice.go"), ("word boundaries", "buffer.go CurrentWordTop, internal/moji IsSpaceMoji")],
  ["text returned by ReadLine", "text and cursor that a command bound to a key sees"])
p("C02", "No input, width, prompt or text makes the editor crash or stop responding",
  "For every terminal size, prompt, initial text and initial cursor (also beyond its end), history and clipboard content, and for every sequence of keys, ReadLine neither panics nor loops: it comes back to wait for the next key or returns. The cursor always stays inside the text.",
  ["inputs", "configurations"], "all key sequences up to a bound over all default keys, at every terminal width from 1 column up to a bound, with prompts narrower and wider than the terminal, wide, escaped, joined and control characters in text, history and clipboard, and resizes in between",
  "The tests never use a terminal narrower than 80 columns, a line that scrolls, an undo of a transposition or a character wider than two columns.",
  ["gommand.go", "buffer.go", "repaints.go", "history.go", "isearch.go", "main.go", "slice.go", "internal/moji/moji.go", "internal/moji/codepoint.go"],
  [("view window computation", "buffer.go ResetViewStart/getView/getView2"), ("guards at line ends", "gommand.go"), ("undo stack", "gommand.go cmdUndo")],
  ["ReadLine returning", "panics", "number of keys asked for"],
  [("Buffer.ViewStart", "first visible cell; slicing with it panics when it passes the cursor", "buffer.go")])
p("C03", "The screen always shows the line being edited, with the cursor in place",
  "Whenever the editor waits for a key, the input row shows the prompt followed by an unbroken stretch of the line that includes the cursor position, and nothing left over from earlier contents. The terminal cursor is visible and stands exactly where the character at the editing cursor is (or would be) shown. No line wraps, and a line that fits on the row from its first shown character on is shown to its end.",
  ["inputs", "configurations", "histories"], "all key sequences up to a bound, over all terminal widths of a range and all bounded initial texts mixing narrow, wide, tab, control and escaped characters, interpreted by a terminal emulator",
  "No test looks at the screen at all.",
  ["gommand.go", "buffer.go", "repaints.go", "history.go", "isearch.go", "internal/moji/codepoint.go", "internal/moji/moji.go", "internal/moji/width.go"],
  [("repaint", "repaints.go repaintWithoutUpdateSuffix"), ("incremental drawing", "gommand.go cmdForwardChar, cmdEndOfLine, cmdSwapChar, cmdKillLine"), ("horizontal scroll", "buffer.go ResetViewStart")],
  ["bytes written to the terminal, through a terminal emulator"],
  [("Buffer.ViewStart", "first visible cell", "buffer.go")])
p("C04", "Undo steps back through the exact earlier contents of the line",
  "Pressing undo any number of times takes the line back, change by change in reverse order and character for character, through contents it really had, down to the initial text and then to the empty line; one change made by one command is undone as a unit. It never changes anything once there is nothing left to undo, and editing may go on after it at any point.",
  ["inputs", "histories"], "all sequences up to a bound of editing, kill, yank, transpose, history, search, completion and undo keys, from bounded initial texts including composed characters",
  "One test undoes a fixed edit once or twice; interleavings of undo with every kind of change are not reachable by a few examples.",
  ["gommand.go", "buffer.go", "isearch.go", "repaints.go", "history.go"],
  [("undo stack", "buffer.go insert, Delete, joinUndo; gommand.go cmdUndo")],
  ["text returned by ReadLine", "text a bound command sees"],
  [("undo records", "position, count to delete, text to put back", "buffer.go _Undo")])
p("C05", "History navigation reaches every entry and keeps unsent edits",
  "Previous and next move one entry at a time through the history and back to the line being typed, showing each entry exactly, with the cursor at its end, and stopping at the ends (or, when cycling is on, going from the oldest to the new line). Edits made to any entry or to the new line during one input are still there when it is visited again in that input, and are never mixed up, lost or written into the history itself; the next input starts from the plain history.",
  ["inputs", "histories", "configurations"], "all sequences up to a bound of previous, next, editing, undo and search keys, for all small histories including empty, duplicate and multi-byte entries, with cycling on and off, over consecutive inputs",
  "No test touches history navigation.",
  ["history.go", "main.go", "simplehistory/main.go"],
  [("history pointer and modified entries", "history.go cmdPreviousHistory, cmdNextHistory, saveModifiedHistory, getHistory")],
  ["text after each key", "calls made on the history object"],
  [("historyPointer", "entry being shown; Len() is the new line", "history.go"), ("modifiedHistory", "unsent edits by entry", "history.go")])
p("C06", "Incremental search finds the newest match and can be cancelled cleanly",
  "During incremental search the shown candidate is the newest history entry that contains the typed text ignoring case, repeated search keys step to older or newer different matches, deleting search text searches again, and Enter puts exactly the shown candidate on the line with the cursor at its end. Cancelling leaves line and cursor exactly as they were and shows them again.",
  ["inputs", "histories", "configurations"], "all sequences up to a bound of search keys for all small histories, widths and initial lines",
  "No test runs a search.",
  ["isearch.go"],
  [("search loop", "isearch.go cmdISearchBackward")],
  ["text after each key", "row shown on the terminal during the search"])
p("C07", "Prediction shows, and accepts, exactly the continuation of the current line",
  "With prediction on, typing or deleting at the end of a non-empty line shows after it, in the prediction colours, as much as fits of what the predictor (by default the newest history entry starting with the line) gives for the current line, and Right or Ctrl-F at the end appends exactly that. Only the current line's prediction is ever shown, only directly after the line with the cursor there; it never becomes part of the line otherwise, and is gone from the screen when the input ends.",
  ["inputs", "histories", "configurations"], "all key sequences up to a bound with prediction on, over small histories, widths and predictors",
  "No test switches prediction on.",
  ["buffer.go", "repaints.go", "gommand.go", "main.go"],
  [("suffix", "buffer.go updateSuffix, Suffix, predictByHistory; gommand.go cmdForwardChar; repaints.go")],
  ["text after Right", "terminal row"],
  [("suffix", "prediction computed at the last repaint", "buffer.go")])
p("C08", "Any text goes through the editor unchanged, divided into whole characters",
  "Any valid text put on the line, by typing, pasting, as initial text or from the history, comes back unchanged when accepted, under every kind of terminal. Joined emoji, variation sequences, skin tones, combining and zero-width characters, control characters and characters outside the basic plane are never altered, lost or reordered, and each sequence the terminal shows as one character is moved over and deleted as one.",
  ["inputs", "configurations"], "all strings up to a bound over an alphabet with one character of every class the editor distinguishes, for every terminal kind",
  "The tests have a handful of fixed strings under one set of flags.",
  ["internal/moji/moji.go", "internal/moji/codepoint.go", "internal/moji/termcheck.go", "internal/moji/width.go", "buffer.go"],
  [("segmentation", "internal/moji/moji.go StringToMoji"), ("round trip", "WriteTo of every kind of character")],
  ["StringToMoji / MojiCountInString results", "text returned by ReadLine"])
p("C09", "Computed display widths agree with each other and with what is printed",
  "For every string, the width reported for it, the sum of the widths of its characters and the columns that printing them moves the terminal cursor are equal, and so are the two ways of counting characters; tabs advance to multiples of four columns. Width overrides take effect at once and until reset, and nothing depends on which strings were measured before.",
  ["inputs", "configurations", "histories"], "all strings up to a bound over one character of every class, for every terminal kind, under all orders of measuring, overriding and resetting",
  "The tests compare a few strings to constants; agreement for all strings and orders is not stated anywhere.",
  ["internal/moji/moji.go", "internal/moji/codepoint.go", "internal/moji/width.go", "internal/moji/runewidth.go", "buffer.go"],
  [("width cache and overrides", "internal/moji/width.go"), ("measuring loop", "internal/moji/moji.go MojiWidthAndCountInString")],
  ["GetStringWidth, MojiCountInString, StringToMoji", "terminal emulator"],
  [("widthCache", "memoised width per code point, also holds overrides", "internal/moji/width.go")])
p("C10", "Text can never inject control sequences into the terminal",
  "Whatever the line, history, clipboard, prediction, search text or initial text contains, the only control characters and escape sequences that reach the terminal are the editor's own: control characters in text are shown in caret or bracketed form. So no content can move the cursor elsewhere, ring the bell, recolour or otherwise command the terminal.",
  ["inputs", "configurations"], "all strings up to a bound over control, C1, escape, zero-width, variation, joiner and normal characters, entered through every way text reaches the line, for every terminal kind",
  "One test prints one string with two control characters through one function.",
  ["internal/moji/codepoint.go", "internal/moji/moji.go", "internal/moji/width.go", "repaints.go", "isearch.go", "gommand.go"],
  [("printable forms", "internal/moji/codepoint.go rune2moji, PrintTo")],
  ["bytes written to the terminal"])
p("C11", "Completion replaces exactly the current word by what all candidates share",
  "A completion key changes only the word before the cursor: to the only matching candidate plus the configured postfix, or to the longest beginning that all matching candidates share ignoring case (spelt as in a shortest one), never shortening what was typed, and enclosed in quotes (only opened for a shared beginning) where a candidate contains a space and the source defines quotes and delimiters. The candidate source receives the line up to the cursor split into words with quotes removed, and text after the cursor stays as it is. When nothing can be added the line stays and, in the listing variant, all matching candidates are listed and the line is shown again.",
  ["inputs", "configurations", "programs"], "all lines up to a bound over letters, spaces, quotes and delimiters, all cursors, all bounded candidate lists including mixed case and multi-byte text",
  "No test covers completion.",
  ["completion/main.go", "repaints.go"],
  [("word splitting", "completion/main.go split"), ("common prefix", "completion/main.go commonPrefix"), ("replacement", "completion/main.go complete, repaints.go ReplaceAndRepaint")],
  ["text and cursor after the key", "arguments the candidate source gets", "terminal output"])
p("C12", "File-name completion offers exactly the entries that match, in every directory",
  "For every directory tree, file-name completion offers exactly the entries of the directory named so far whose names start with the typed name ignoring case, marks directories with a separator, keeps the typed directory part as it is, and goes on into a directory that is the only match. It terminates and never fails whatever is typed and whatever the directory contains.",
  ["inputs", "configurations"], "all directory trees up to a bound (files, directories, empty directories, links) in a scratch directory and all typed words up to a bound",
  "No test covers file completion.",
  ["completion/file.go", "completion/main.go"],
  [("directory listing loop", "completion/file.go List")],
  ["results of the file completion source", "line after the completion key"])
p("C13", "Key decoding loses nothing, reorders nothing and leaves the terminal mode",
  "However input arrives, in whatever chunks and with whatever type-ahead, the keys delivered, put together, are exactly the characters typed in order: each ordinary character alone, an escape sequence that arrived together as one key, characters outside the basic plane whole. The terminal is in raw mode exactly while waiting for input and is restored afterwards, also when reading fails.",
  ["inputs", "schedules", "fault_sequences"], "all input streams up to a bound over plain, escape, surrogate and null characters, all ways of chunking them, and a failure at every read",
  "The tests replace the key source entirely.",
  ["getkey.go", "tty8.go", "tty10/main.go", "tty10/other.go", "auto/main.go"],
  [("key assembly", "getkey.go GetRawKey/GetKeys"), ("type-ahead buffer", "tty8.go GetKey, tty10/main.go GetKey")],
  ["keys returned", "raw mode on/off calls", "text returned by ReadLine on the default terminal"],
  [("type-ahead", "keys read but not yet delivered", "tty8.go buf, tty10 buf")])
p("C14", "A key runs the command bound to it: own binding, then global, then itself",
  "Pressing a key runs the command bound to it in the editor if there is one, otherwise the globally bound one, otherwise inserts the key; unbinding uncovers what is below, and no binding affects other keys or other editors. Every documented key name and command name, in any case and with dash or underscore, resolves to its own key or command, and unknown names are reported as errors without changing any binding.",
  ["histories", "configurations", "inputs"], "all sequences up to a bound of bind, unbind and key press over editor and global tables, and all key and command names with their spelling variants",
  "One test compares constants of the name table.",
  ["keymap.go", "main.go", "keys/code.go", "keys/naming.go", "nameutils/main.go", "gommand.go"],
  [("lookup order", "main.go LookupCommand, keymap.go"), ("names", "keys/naming.go, nameutils")],
  ["which command runs", "errors returned by the name functions"])
p("C15", "Each input opens, uses and closes its terminal properly, also on failures",
  "One call opens the terminal once and closes it exactly once on every way out, whichever environment call fails and at whichever point. Enter returns the text, Ctrl-C and end-of-input return their own errors, a failing terminal's error is returned to the caller; clipboard, prompt or output failures never lose or change the text being edited or stop the editing. At the end the cursor is visible and all output has been sent, ending with exactly one line feed when a key ended the input.",
  ["fault_sequences", "crash_points", "inputs"], "a fault at every environment call (open, size, each key read, prompt, clipboard read and write, output) of every key sequence up to a bound",
  "The tests' terminal never fails.",
  ["main.go", "gommand.go", "isearch.go", "tty8.go"],
  [("deferred close and cursor restore", "main.go ReadLine"), ("error returns", "main.go")],
  ["calls on the terminal object", "result and error of ReadLine", "terminal output"])
p("C16", "Resizing at any moment is safe and leaves the line correctly shown",
  "A change of the terminal width notified at any moment, before, between or during key handling, never corrupts the text, the output or the editor's state, and never blocks it. Once the notification has been handled the row shows the prompt and line correctly for the new width, and after the input has ended a late notification writes nothing.",
  ["schedules", "inputs", "configurations"], "all interleavings (bounded preemptions) of the editor with one or more resize notifications and of notifications with each other, for key sequences up to a bound and growing and shrinking widths",
  "No test resizes.",
  ["main.go", "repaints.go", "buffer.go", "tty8.go", "tty10/main.go"],
  [("editor mutex", "main.go ReadLine onResize"), ("last line repaint", "repaints.go RepaintLastLine")],
  ["bytes written, terminal emulator", "result of ReadLine", "overlap of callbacks"],
  [("termWidth/ViewStart", "shared between the two threads", "buffer.go")])
p("C17", "Killed text goes to the clipboard and pastes back exactly",
  "Kill-to-end, kill-to-start and kill-word put exactly the removed text on the clipboard, and paste inserts the clipboard text at the cursor unchanged except for trailing line ends and nulls; other keys leave the clipboard alone. Quoted paste inserts it, each line separately, enclosed in double quotes with inner quotes doubled, exactly when it contains a space and is not already quoted. Killing and pasting at the same place restores the line.",
  ["inputs", "histories"], "all sequences up to a bound of kill, paste, movement and editing keys, over lines and clipboard contents of small alphabets with composed and control characters and line ends",
  "No test uses the clipboard.",
  ["gommand.go", "buffer.go"],
  [("kill and yank commands", "gommand.go cmdKillLine, cmdUnixWordRubout, cmdUnixLineDiscard, cmdYank, cmdYankWithQuote")],
  ["clipboard contents", "text after each key"])
p("C18", "Colouring paints each character by its colour and never leaks or changes text",
  "Each visible character of the line is painted with the colour that the configured colouring gives for it when fed the line from its beginning with the cursor mark at the cursor, regardless of scrolling and of which key was pressed; text, cursor and layout are the same as without colouring. After the line is drawn the colouring's default is in force. Colour sequences combine and print as exactly the codes they were built from.",
  ["inputs", "configurations", "histories"], "all key sequences up to a bound under position-, content- and cursor-sensitive colourings and widths, and all colour codes and combinations up to the sequence capacity",
  "Tests print a few colour constants; none colours a line.",
  ["repaints.go", "buffer.go", "color.go", "coloring/vimbatch.go"],
  [("per-cell colours", "repaints.go refreshColor; buffer.go puts"), ("packed codes", "color.go")],
  ["terminal emulator attributes", "calls made on the colouring object", "bytes of printed sequences"])
p("C19", "Any prompt leaves the line in the right place",
  "Whatever the prompt prints, in colours, titles, wide characters or several lines, the line being edited starts exactly where the prompt's last line ends; a prompt too wide for the terminal leaves the editing on a row of its own. Redrawing (clear screen, redraw, resize) shows the prompt once, with the line after it as before, and a failing or missing prompt function still gives a usable line.",
  ["inputs", "configurations"], "all prompts up to a bound over text, wide characters, colour and title sequences, backspaces and line ends, at all widths of a range, followed by key and redraw sequences",
  "One test passes one fixed prompt through.",
  ["main.go", "repaints.go"],
  [("prompt width", "main.go cutEscapeSequenceAndOldLine, callPromptWriter"), ("redraw", "repaints.go RepaintAll, RepaintLastLine")],
  ["terminal emulator"])
p("C20", "Composed characters typed key by key give the same text as pasted ones",
  "Typing the parts of a composed character one key at a time, a joiner, variation selector or skin tone after its base, gives the same text as inserting the whole, and no key of it is ever lost or moved, whatever key follows. Quoted insert puts the next key on the line literally, whatever it is.",
  ["inputs", "histories", "configurations"], "all key sequences up to a bound over bases, joiner, selectors, modifiers, quoted insert, movement and editing keys, for every terminal kind",
  "No test types a joiner or a selector.",
  ["gommand.go", "internal/moji/moji.go"],
  [("pending joiner", "gommand.go SelfInserter.Call"), ("quoted insert", "gommand.go cmdQuotedInsert")],
  ["text after each key and as returned"],
  [("pending", "base and joiner waiting for the next key", "buffer.go")])
p("C21", "Inputs and editors are independent of each other",
  "Nothing typed, scrolled, undone, predicted, searched or left half-done in one input shows up in the next one on the same editor or in another editor: each starts with the configured initial text, an empty undo record and the plain history, and works as on a new editor. Only what the application set (bindings, history, initial text), the editor's cursor field and the clipboard carry over, however the previous input ended.",
  ["histories", "configurations"], "all pairs of key sequences up to a bound run as consecutive inputs ending in Enter, Ctrl-C, end of input or an error, and interleaved on two editors",
  "Every test makes one input with a fresh editor.",
  ["main.go", "buffer.go", "keymap.go", "history.go", "internal/moji/width.go"],
  [("per-call buffer", "main.go ReadLine")],
  ["second input's texts, cursor, screen and result compared with a fresh editor's"])
p("C22", "The buffer operations offered to custom commands do what they say",
  "Commands written by the application can insert, delete, replace, move the cursor, query words, widths and substrings and redraw, in any order and at any position: each operation changes or reports exactly what its documentation says, out-of-range deletions do nothing, and after a redraw the screen shows the result. Text changed this way undoes like any other change.",
  ["programs", "inputs"], "all programs up to a bound over the exported buffer operations with all in-range positions and out-of-range deletions, from bounded lines and widths",
  "One test inserts one string; the operations' combinations are not exercised.",
  ["buffer.go", "repaints.go", "gommand.go", "keymap.go"],
  [("exported buffer operations", "buffer.go, repaints.go")],
  ["return values", "text, cursor and screen after each operation"])
p("C23", "Polling terminals deliver size changes while open and stop cleanly on close",
  "The alternative terminal reports its width to the editor regularly while it is open and never after it was closed; closing always completes, also while a report is in progress, and may be followed by opening again. The default terminal reports exactly the changes of width, in order, and closing it ends its reporting.",
  ["schedules", "fault_sequences"], "all interleavings (bounded) of ticks, size changes, size failures, key reads and close",
  "No test opens either terminal.",
  ["tty10/main.go", "tty8.go"],
  [("ticker goroutine and done channel", "tty10/main.go Open, Close"), ("resize goroutine", "tty8.go Open")],
  ["calls of the size callback", "return of close"])
p("C24", "Fields left unset act as their defaults, and any output writer gets all",
  "An editor some of whose fields (output, history, prompt, line feed, predictor, colouring) are left unset behaves exactly like one in which they are set to their defaults: no history, the prompt \"\\n> \", a line feed, prediction by the newest matching entry, plain colour, standard output. Whether the application gives Out, a plain or a buffered Writer, or calls Init before and prints through Out, everything printed appears in order and is on the terminal whenever the editor waits for a key and at the end. Commands are given the context that ReadLine was called with.",
  ["configurations", "inputs"], "all subsets of unset fields, all ways to give the output, all key sequences up to a bound",
  "The tests use one configuration, writing to io.Discard or a buffer that is read once at the end.",
  ["main.go", "history.go", "color.go", "buffer.go"],
  [("defaults", "main.go Init"), ("flushing", "main.go ReadLine")],
  ["screen, line and cursor at every key compared with a fully configured editor's"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
