#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["process stdout/stderr/exit status"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SC='src/streamConsumer.cpp'; SO='src/simpleOutput.cpp'; CO='src/curseOutput.cpp'; CS='src/curseSimpleOutput.cpp'
CP='src/curseSplitOutput.cpp'; LV='src/levenshtein.cpp'; LM='include/levenshteinMatrice.hpp'

prop("C01","Redirected output denotes the same JSON value as the input",
 "For every well-formed JSON document (RFC 8259, no duplicate keys, up to a few hundred levels deep), what the program writes when its output is redirected is itself well-formed JSON denoting the same value: same structure, same keys, same array order, same strings, same literals, integers in the signed 64-bit range exactly, and every other number as the same nearest double. This holds with any combination of --compress, --ascii, --keep-order and -W. An integer is never turned into a fraction nor a fraction into an integer, and no diagnostic is printed.",
 ["inputs","configurations"],"every well-formed document, every combination of output options",
 "The tests parse a handful of literals and never look at the output; a value lost for one escape, exponent or nesting is invisible to them.",
 [SC,SO,'src/jsonPrimitive.cpp','src/jsonObject.cpp','src/jsonArray.cpp'],
 [("recursive parser","StreamConsumer::readNext/readObject/readArray"),("number reader","StreamConsumer::consumeNumber"),("writer","SimpleOutput::write*"),("shortest round-trip of doubles","JSonPrimitive<double>::toString")])

prop("C02","Layout of redirected output: one item per line, or nothing superfluous",
 "Without --compress, redirected output puts every scalar item, every key/scalar pair and every opening and closing bracket on its own line, indented by 4 spaces per nesting level, with the separating comma at the start of every item but the first of its container; the value of a key follows its colon on the same line without a space if it is a scalar, and starts on the next line at the same indentation as the key if it is an array or an object. With --compress, the output has no whitespace nor newline outside strings, not even at the end. Feeding either output back to the program with the same options reproduces it byte for byte.",
 ["inputs","configurations"],"every well-formed document, with and without --compress",
 "No test looks at the output at all.",
 [SO,'include/config.h'],[("indentation and commas","SimpleOutput::writeObjectEntry/writePrimitive/writeContainer/getIndent")])

prop("C03","Members come out sorted by key, or in input order with --keep-order",
 "By default the members of every object, at every depth, are written in ascending byte order of their keys (as the keys are displayed: unescaped except for control characters and backslashes), and with --keep-order in the order in which they appear in the input. Array elements always keep their input order. No member is lost or repeated by the ordering.",
 ["inputs","configurations"],"every document, every number and order of members, both ordering modes",
 "Tests only look members up by key; they never observe order.",
 ['src/jsonObject.cpp','src/jsonObjectEntry.cpp',SC,'src/params.cpp'],
 [("sorted insertion","JSonSortedObject::push"),("key comparison","JSonObjectEntry::operator<"),("mode choice","StreamConsumer::readObject")])

prop("C04","Malformed input is reported and never printed",
 "If the first value of an input is not well-formed (unbalanced or mismatched brackets, missing or superfluous comma or colon, non-string key, repeated key (with --ascii: spelt alike), misspelt literal, invalid escape or hex digit, number that is not one, illegal character, truncation anywhere, empty input), nothing of that input is written to standard output and exactly one diagnostic naming the input goes to standard error. Conversely every well-formed first value (numbers fitting a double, a scalar at the root being followed by white space or the end) is accepted, whatever follows it. In both cases the program terminates normally with status 0. The same holds when the inputs are viewed, compared or given to --diff-cmd: the same diagnostic, and a malformed input is not shown.",
 ["inputs"],"every byte sequence: any corruption of any document at any place",
 "Tests contain no malformed document.",
 [SC,'src/jsonException.cpp','src/main.cpp'],
 [("token checks","StreamConsumer::readObject/readArray/consume*"),("reporting","readOneFile/displayException")])

prop("C05","-W tolerates exactly the non-blocking errors, one warning for each",
 "With -W, a repeated key keeps only the last value given for it, literals true/false/null are accepted in any letter case, and an unknown escape sequence is kept as written; each occurrence yields exactly one warning on standard error naming the input and the position, in input order, and nothing else changes in the result; the warnings are the same when the documents are viewed, compared or given to --diff-cmd instead. Without -W each of these is an error that rejects the document. Documents free of them give the same output and no warning with and without -W, and every other malformation is still rejected with -W.",
 ["inputs","configurations"],"every document and every placement and number of tolerable errors",
 "No test uses -W nor a tolerable error.",
 [SC,'src/warning.cpp','src/main.cpp','src/jsonObject.cpp'],
 [("strictness","StreamConsumer::readObject/consumeEscapedChar/consumeBool/consumeNull"),("replacement","JSonObject::erase"),("warning list","StreamConsumer::getMessages, runStdout")])

prop("C06","Diagnostics point at the exact line, column and text of the error",
 "A diagnostic for a malformed document gives the line and column (both from 1; lines end with LF, CR or CRLF) of the last character of the offending token: an illegal character, an unexpected bracket, comma, colon, string or number, the character after a backslash that does not form an escape, the fourth digit of an invalid hex escape, the first wrong character of true/false, the fourth one of null, the colon after a repeated key. It then shows the last characters of that line up to that position (at most 45), and on the next line a caret placed under the last of them after as many tildes. This holds wherever the error is: after any number of lines, and on lines of any length.",
 ["inputs"],"every kind of error, at every position, after every kind of preceding text and line ends",
 "wrapped_test checks a few operations of the underlying buffer, never a diagnostic.",
 ['src/linearHistory.cpp','include/wrappedBuffer.hpp',SC,'src/jsonException.cpp','src/main.cpp'],
 [("bounded history","WrappedBuffer::put/pop_back/toString"),("line count","LinearHistory::put"),("display","displayException")])

prop("C07","No crash, memory error, undefined behaviour or hang on any input",
 "Whatever the bytes given as file, standard input or argument, and whatever the options, a run with redirected output performs no invalid memory access, no undefined behaviour and no read of uninitialised memory, and ends by itself with status 0 or 1. The only limit is nesting: documents up to 1000 levels deep are handled.",
 ["inputs","configurations"],"every byte sequence and option combination",
 "Tests run a few well-formed literals without sanitizers.",
 ['src/*.cpp','include/*'],[("whole program","main()")],observe=["AddressSanitizer/UBSan reports","valgrind memcheck reports","termination status"])

prop("C08","Unicode escapes become UTF-8 characters, or stay untouched with --ascii",
 "In keys and string values, every escape \\uXXXX (any letter case) of a character that may stand unescaped in JSON is written as that character in UTF-8, a high and low surrogate escape in a row as the one character they form, and the quotation mark, backslash, control characters and unpaired surrogates as an escape of the same code unit. With --ascii every \\uXXXX escape is written exactly as it was read. Characters that were not escaped are written unchanged in both modes.",
 ["inputs","configurations"],"all 65536 code units, all surrogate pairs, in keys and values, in any neighbourhood, both modes",
 "unicode_test decodes one code point.",
 [SC,'src/unicode.cpp','include/unicode.hpp',SO],
 [("decoding","StreamConsumer::consumeEscapedChar/appendUnicode"),("hex digits","hexbyte")])

prop("C09","Arguments decide what is read and printed, independently of its source",
 "The same document gives the same output whether it comes from a file, from standard input in any chunking, or from the arguments after -- (joined by single spaces and never taken as options); several inputs are processed in argument order with their outputs concatenated, and processing stops at the first bad one after the outputs of the previous ones. An unknown option, an unreadable file, a file given twice, a repeated --diff-cmd or a bad --color mode prints a message on standard error and the usage and ends with status 1 without reading any input; -h/--help and -v/--version print usage or version and end with status 0; --diff with fewer than two or more than three inputs prints a message and the usage. On a terminal the inputs are viewed one after the other instead, unless --compress is given. Input files are never modified.",
 ["inputs","configurations","histories"],"every argument list, every split of the input over sources and chunks",
 "No test runs the program.",
 ['src/params.cpp','src/main.cpp','include/fifoMap.hpp'],
 [("argument parsing","Params::read"),("input list","Params::getInputs, fifoMap"),("loop over inputs","runStdout")])

prop("C10","External diff gets one private file per input and leaves none behind",
 "With --diff-cmd, the command is run once, without a shell, with the given arguments verbatim and each {} argument replaced by the paths of one temporary file per input, in input order; while it runs these files are all distinct and hold exactly the redirected output of their input under the same options. When the program ends, however the command ended (status, signal, not runnable), every temporary file is gone, and no file that existed before has been overwritten, followed or removed, also when several instances run at once. If an input is malformed it is reported, the command is not run and no temporary file is left.",
 ["inputs","histories","schedules","fault_sequences"],"every set of input names and contents, command line, command outcome, pre-existing file and concurrent instance",
 "No test runs the program, let alone an external command.",
 ['src/main.cpp','src/diffCmd.cpp','src/params.cpp'],
 [("temporary names","getOutputFile, DiffCmd::hashString"),("argv expansion","DiffCmd::computeArgv"),("fork/exec/wait/unlink","doRunExternalDiff, runExternalDiff")],
 observe=["argv, file contents and directory as seen by the command","/tmp before and after"])

prop("C11","A search pattern selects exactly the items its text and flags describe",
 "In the viewer, a search text[/flags] highlights exactly the scalar values and keys (their lines) whose displayed text contains the pattern text, where leading blanks are dropped, \\/ stands for a slash, and the flags restrict or change the match: i ignores case, w needs whole space-separated words, f needs the whole text, e takes the pattern as an ECMAScript regular expression searched in the text, and b, n, s or o keep only booleans, numbers, strings or keys. Escapes \\uXXXX in the pattern stand for their character unless --ascii. An invalid regular expression matches nothing, and an empty pattern clears the highlighting.",
 ["inputs"],"every document and every pattern and combination of flags",
 "No test searches anything.",
 ['src/searchPattern.cpp','src/jsonElement.cpp',CO,CS],
 [("pattern parsing","SearchPattern::SearchPattern/evalFlags"),("matching","SearchPattern::match"),("prompt","CurseOutput::inputSearch")],
 observe=["screen cells and colours at each key wait"])

prop("C12","The viewer always shows a contiguous window of the document",
 "At every moment when the viewer waits for a key on a screen wider than the indentation, the screen shows the input's name on its first line and below it consecutive items of the document's rendering, in document order without gap, repetition or stale content: 4 more columns of indentation per level (2 for the bracket under a key), keys followed by a colon and a space, strings unquoted, collapsed containers as { ... } or [ ... ], empty containers of a key as { } or [ ], each text in the colour of its type (no colour with --color=never). Text longer than the screen is wide continues on the following rows and is never lost. Nothing below the last item is shown, and the window never goes past the end while it has content to show.",
 ["inputs","histories","configurations"],"every document, terminal size, and sequence of keys and resizes",
 "No test starts the viewer.",
 [CS,CO],[("redraw","CurseSimpleOutput::redraw/writeContainer/writeContent/writeKey/write"),("bottom test","CurseOutput::hasReachedBottom/getNbLines")],
 observe=["screen cells and colours at each key wait"])

prop("C13","Navigation keys walk the document and keep the selection visible",
 "In the viewer exactly one item is selected, shown highlighted, and visible on screen after every key (unless a message covers the last line): Down/j goes to the next visible item in document order (at the bottom of the screen it may first scroll, keeping the selection visible) and Up/k to the previous one, so that repeated presses visit every visible item and stop at the ends. Left/h collapses an expanded container that is not empty or is the root and otherwise goes to the enclosing container, Right/l expands a collapsed container and otherwise enters a non-empty one; PageUp goes to the previous sibling or the enclosing container, PageDown to the next sibling or the next item after the closest enclosing container that has one. Any other key changes nothing, except that a control key takes the next key with it.",
 ["inputs","histories","configurations"],"every document, terminal size and key sequence",
 "No test starts the viewer.",
 [CS,CO,'src/jsonElement.cpp','src/inputSequence.cpp'],
 [("moves","CurseSimpleOutput::select*/expandSelection/collapseSelection"),("siblings","JSonElement::findNext/findPrev"),("scrolling","CurseSimpleOutput::checkSelection/redraw")],
 observe=["screen cells and colours at each key wait"])

prop("C14","Search visits every match in document order, wraps, and reports failure",
 "After a search, and on every n, the selection moves to the first match that follows it in document order, whether visible, off screen or inside collapsed containers, whose ancestors are then expanded; when no match follows, it moves to the first match of the document and the last line reads \"Search hit BOTTOM, continuing at TOP\". When there is no match, or nothing was searched yet, the selection does not move and the last line reads \"Pattern not found\". Escape leaves the prompt without searching, and Backspace removes the last character typed.",
 ["inputs","histories"],"every document, pattern, starting selection, collapse state and repetition",
 "No test starts the viewer.",
 [CS,CO],[("result list","CurseSimpleOutput::search"),("next match","CurseSimpleOutput::jumpToNextSearch/nextResult"),("expanding","CurseOutput::unfold"),("message","CurseOutput::redraw(msg)")],
 observe=["screen cells and colours at each key wait"])

prop("C15","The viewers survive any keys, resizes and signals, and restore the terminal",
 "Whatever the document, the sequence of keys (including half-typed sequences and garbage), terminal resizes and suspend/resume, the viewer and the diff viewer perform no invalid memory access or undefined behaviour and keep answering keys; after a resize they draw for the new size. q leaves the current document, the next input then starting afresh (nothing selected, collapsed or searched in the previous one remains), and SIGINT or SIGTERM ends the display at any time without waiting for a key. On leaving, the terminal modes are those from before, with the cursor visible, and the program ends with status 0.",
 ["inputs","histories","schedules"],"every key/resize/signal history on one or several documents",
 "No test starts the viewer.",
 [CO,CS,CP,'src/inputSequence.cpp','src/main.cpp'],
 [("signal handling","CurseOutput::onsig/_resizeFnc"),("loop","CurseOutput::loop/readInput"),("shutdown","CurseSimpleOutput::shutdown, CurseSplitOutput::shutdown")],
 observe=["sanitizer reports","screen at each key wait","termios of the pty","exit status"])

prop("C16","The diff marks exactly what differs",
 "Comparing two documents pairs some of their nodes: pairing is symmetric, one to one, between the two documents, consistent with nesting (paired children have paired parents) and order-preserving among siblings. A node is left unmarked if and only if it is paired with a node of identical content (same type and displayed text, and for objects and arrays identical members in the same order); every unpaired node is marked as added on its side, and a document compared with an identical one has every node paired with its own position and nothing marked. For two arrays of scalars the pairing is a cheapest one: no other order-preserving pairing leaves fewer items that are unpaired or paired with a text at most 70% similar, and the arrays themselves are paired unless that number is the length of the longer one. Equal arguments give equal results, the order in which members are given does not matter unless --keep-order is, and swapping the two documents never turns a difference into no difference.",
 ["inputs"],"every pair of documents",
 "levenshtein_test has all its assertions commented out.",
 [LV,LM],[("alignment","LevenshteinMatrice::build/shortestPath"),("dispatch on types","LevenshteinMatrice_base::Builder::build"),("roots","LevenshteinMatrice::addRoot"),("scores","LevenshteinMatriceWithScore")],
 observe=["operation and counterpart of every node after a comparison"])

prop("C17","The diff view shows both documents, aligned, with their markers",
 "In the diff view of two documents on a terminal tall enough for both, each half shows its whole document in order under its name; paired items start on the same row, an item present on one side only is marked ++ on its side and faced by -- on the other, a paired item that differs is marked and one that is identical is not. The selection is highlighted in the active half and on its counterpart when there is one, arrows move it as in the single view, and collapsing or expanding applies to both sides of a pair. Ctrl-W then w, h/l or the left/right arrow changes the active half, and searching acts on the items of the active half. On a smaller terminal each half shows consecutive rows of its document, the active half including the selection.",
 ["inputs","histories"],"every pair of documents and key sequence",
 "No test starts the viewer.",
 [CP,LV],[("row alignment","CurseSplitOutput::redraw"),("markers","CurseSplitOutput::displayDiffOp/getFlag"),("coupled selection","CurseSplitOutput::setSelection/changeWindow")],
 observe=["screen cells and colours at each key wait"])

prop("C18","The parsed tree is consistent, and released completely",
 "After parsing any well-formed document, every node except the root appears exactly once in its parent and points back to it, levels grow by one per step down, previous/next links of siblings are inverse of each other and follow document order, member lookup by key finds exactly the members present, and the values and types are those of the document. Removing a member removes exactly it. Destroying the parser releases every byte allocated while parsing.",
 ["inputs"],"every well-formed document, every node, every key",
 "json_test reads four small documents and checks a few values.",
 [SC,'src/jsonElement.cpp','src/jsonContainer.cpp','src/jsonObject.cpp','src/jsonObjectEntry.cpp','src/jsonArray.cpp','include/jsonPrimitive.hh'],
 [("links","JSonElement::setParent/getParent/findPrev/findNext/getLevel"),("lookup","JSonObject::find/contains/get/erase"),("ownership","destructors of JSonArray, JSonObject, JSonObjectEntry, StreamConsumer")],
 observe=["tree accessors","allocation balance"])

prop("C19","The history buffer holds exactly the last characters written",
 "After any sequence of single and multiple appends (of any length, also more than its capacity), removals of the last item and resets, the bounded buffer's content is exactly what the reference list would hold limited to the newest capacity-many items still remembered, its size never exceeds the capacity, and its total count is the number of items appended minus those removed since the last reset. The line-aware variant additionally restarts at the first character after a line end and counts lines (LF, CR and CRLF being one line end each). Removing from an empty buffer changes nothing.",
 ["histories"],"every sequence of operations, every capacity",
 "wrapped_test runs a fixed script of single appends and a few batches on one capacity.",
 ['include/wrappedBuffer.hpp','include/linearHistory.hh','src/linearHistory.cpp'],
 [("ring indices","WrappedBuffer::put/pop_back/size/toString"),("line restart","LinearHistory::put/pop_back")],
 observe=["content, size and count after each operation"])

prop("C20","Text similarity is the edit distance",
 "The distance between two texts is their Levenshtein distance (least number of insertions, deletions and substitutions of one byte): symmetric, zero exactly for equal texts, never above the longer length, and satisfying the triangle inequality. The relative similarity is one minus the distance over the longer length, hence between 0 and 1, and 1 for two empty texts.",
 ["inputs"],"every pair (and triple) of texts",
 "levenshtein_test has all its assertions commented out.",
 [LV,'include/levenshtein.hpp'],[("dynamic programme","levenshtein"),("ratio","levenshteinPercent")],
 observe=["returned values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
