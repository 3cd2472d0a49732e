#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are readable)."""
import json, os
GB="src/buffer/gap_buffer.rs"; CU="src/buffer/cursor.rs"; BU="src/buffer/mod.rs"; OP="src/buffer/operation/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
      "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],"observe_at":list(observe),"hook_needed":None}})

p("C01","Insertion puts exactly the given text at exactly the given position",
 "Inserting text at a position that exists makes the content the old text before that position, followed by the inserted text, followed by the rest of the old text, byte for byte. Inserting at a position that does not exist leaves the content unchanged. This holds for every text (multi-byte, combining, with any line endings, empty) and for whatever editing came before.",
 ["inputs","histories"],"every content, inserted text, position (existing or not) and prior editing sequence (gap location, spare capacity)",
 "Tests insert a few ASCII strings at a few places; reallocation, the gap's place and cluster boundaries vary with the whole editing history and input.",
 [GB,OP+"insert.rs"],[("reallocating insertion and gap movement",GB),("insert operation at the cursor",OP+"insert.rs")],
 [("bytes with gap","content is the bytes outside the gap",GB)],["buffer content after an insertion"])
p("C02","Deletion removes exactly the given range, with the documented clamping",
 "Deleting a range removes exactly the text between its two positions and leaves all other text as it was, byte for byte; if the start does not exist, nothing is removed. If the end does not exist, everything up to the start of the line after the range's last line is removed, or up to the end of the content if there is no such line. Deleting at the cursor removes the one character after it, joins with the next line at the end of a line, and does nothing at the end of the content.",
 ["inputs","histories"],"every content, range (start/end inside or outside the content, empty, across lines) and prior editing sequence",
 "Tests cover a handful of ASCII ranges from freshly built buffers; clamping, multi-byte text and the gap's place combine in unboundedly many ways.",
 [GB,OP+"delete.rs"],[("range deletion by widening the gap",GB),("single character deletion",OP+"delete.rs")],
 [("bytes with gap","content is the bytes outside the gap",GB)],["buffer content after a deletion"])
p("C03","Reading a range returns exactly the text between two existing positions",
 "Reading a range returns exactly the text between its two positions when both exist, and nothing when either does not. Reading never changes the buffer, and the whole content read back is always the text that the edits made so far produce.",
 ["inputs","histories"],"every content, range and prior editing sequence",
 "Tests read a few ASCII ranges; whether the range straddles the gap or multi-byte text depends on history and input.",
 [GB,BU],[("range reading around the gap",GB),("content as a string",GB)],[],["the text returned by a read"])
p("C04","Which positions exist, and what they denote, depends on the text alone",
 "A position (line, offset) exists exactly when the text has that line and the line has at least that many grapheme clusters, where lines end with LF or CRLF; it denotes the place just before that cluster (or the line's end). This never depends on how the text came to be: buffers with the same text accept the same positions and give the same results for them. The number of lines reported is one more than the number of line feeds.",
 ["inputs","histories"],"every text (all of Unicode, CRLF, clusters formed across an edit boundary), position and editing history producing the text",
 "Tests check single grapheme examples on fresh buffers; a cluster can straddle the internal gap only after particular edits.",
 [GB,BU,CU],[("mapping positions to places in the text",GB),("line count",BU)],[],["bounds checks, reads and edits at a position; line count"])
p("C05","No editing sequence panics, corrupts memory or produces invalid text",
 "No sequence of buffer, cursor and text-structure operations, with any positions, ranges and texts (short of positions at the largest representable integer), panics, accesses memory outside the buffer's own or overflows. The content is well-formed UTF-8 after every operation, and no inserted byte is lost, duplicated or replaced.",
 ["inputs","histories"],"every sequence of public operations on a buffer, with any arguments",
 "Tests run a few short sequences; the unsafe length change and the index arithmetic must be right for every reachable gap state.",
 [GB,OP+"insert.rs",OP+"delete.rs",CU],[("unsafe extension of the vector to its capacity",GB),("gap arithmetic",GB)],
 [("gap start and length","gap lies inside the vector, both halves are valid text",GB)],["absence of panics; content validity"])
p("C06","Undo restores exactly the text before the last change",
 "Undo makes the text exactly, byte for byte, what it was before the most recent change that has not been undone, whatever that change was (insertion, deletion, replacement, group, reload), wherever it was and whatever characters it combined with. Repeated undo walks back through every earlier text to the first one, and then does nothing.",
 ["histories","inputs"],"every sequence of edits, undos and redos, and every text involved",
 "Tests undo one or two ASCII edits; reversal must be exact for every history, including edits that did nothing, clamped deletions and combining characters.",
 [BU,OP+"history.rs",OP+"insert.rs",OP+"delete.rs",OP+"replace.rs"],[("undo",BU),("history stacks",OP+"history.rs"),("reversal of each operation",OP)],
 [("history","operations that were run, in order, and those that were undone",OP+"history.rs")],["content after undo"])
p("C07","Redo restores exactly the text that undo took away; a new change ends redo",
 "Redo makes the text exactly what it was before the undo it takes back, and repeated redo walks forward through the undone texts to the last one and then does nothing; any mix of undo and redo only moves along that one line of texts. Any new change made after an undo, inside a group or not, discards what could be redone: redo then changes nothing.",
 ["histories","inputs"],"every interleaving of edits, groups, undos and redos",
 "Tests do one undo and one redo; the line of texts must be right for every interleaving.",
 [BU,OP+"history.rs",OP+"group.rs"],[("redo",BU),("history stacks",OP+"history.rs")],
 [("history","operations that were run, in order, and those that were undone",OP+"history.rs")],["content after redo"])
p("C08","A group of operations is undone and redone as one step",
 "All changes made between the start and the end of an operation group are one step of the history: one undo takes all of them back, one redo brings all of them again, in order. Starting a group inside an open one changes nothing, ending an empty group or ending without one adds no step, and an undo while a group is open takes back the whole open group.",
 ["histories"],"every sequence of edits, group starts and ends, undos and redos",
 "Tests use one group of two insertions; nesting, empty groups and undo inside an open group are combinations they do not reach.",
 [OP+"group.rs",BU],[("group start/end",OP+"group.rs"),("running/reversing members",OP+"group.rs")],
 [("open group","operations run since the group was started",BU)],["content after undo/redo around groups"])
p("C09","A buffer is reported unmodified only when its text is what its file holds",
 "A buffer reports itself as unmodified only if its text is exactly the text last loaded from or saved to its file. After loading, saving or reloading it is unmodified; after any change it is modified; undoing or redoing back to that same point of its history makes it unmodified again. A buffer that was never loaded or saved is always modified.",
 ["histories"],"every sequence of edits, groups, undos, redos, saves and reloads",
 "Tests check a few fixed sequences; the marked point must be followed correctly through every history, including discarded branches and open groups.",
 [BU,OP+"history.rs",OP+"group.rs"],[("marking the history",OP+"history.rs"),("modified flag",BU)],
 [("marked point","where in the history text and file agree",OP+"history.rs")],["the modified flag"])
p("C10","Cursor movement never leaves the text",
 "A cursor at an existing position is at an existing position after every movement, and after a move to a given position or a replacement of the whole content; a move to a position that does not exist is refused, says so, and leaves the cursor where it was. No movement changes the text.",
 ["inputs","histories"],"every text, every starting position (existing or not) and every sequence of movements, edits and replacements",
 "Tests move a few times in short ASCII texts; line ends, empty lines, CRLF and clusters make boundary cases that are unbounded.",
 [CU,GB,OP+"replace.rs"],[("bounds-checked move",CU),("fallback to line ends",CU)],
 [("cursor position","line and offset","src/buffer/cursor.rs")],["the cursor's position"])
p("C11","Cursor movements go where they say, remembering the desired column",
 "Left and right move by one cluster within the line and up and down by one line, doing nothing when there is nowhere to go; start and end of line go exactly there. Moving up, down, or to the first or last line lands on the desired column, or on the end of the target line if that line is shorter; the desired column is the one last moved to by any movement other than up and down, and survives any number of those. Edits do not move the cursor.",
 ["inputs","histories"],"every text and every sequence of movements from any position",
 "Tests cover a few lines of ASCII; the remembered column must survive arbitrary sequences over lines of arbitrary content.",
 [CU],[("movement functions",CU),("sticky offset",CU)],[("sticky offset","the desired column",CU)],["the cursor's position"])
p("C12","Replacing the content sets exactly the new text and keeps the cursor if it can",
 "Replacing the content makes the text exactly the given one; the cursor keeps its position if that exists in the new text, otherwise goes to the start of its line if that line exists, otherwise to the start of the text. Replacing the text with itself changes nothing: no new undo step, no notification, no cursor movement. Identity, path, syntax definition and change callback are kept.",
 ["inputs","histories"],"every old text, new text, cursor position and prior history",
 "Tests replace a few ASCII texts; cursor retention has three cases that depend on both texts and the position.",
 [OP+"replace.rs",BU],[("replacement and cursor retention",OP+"replace.rs")],[],["content, cursor and history after a replacement"])
p("C13","The change callback is told of every change, after it has been made",
 "With a change callback set, every insertion, deletion (that has a place to happen), replacement, undo and redo calls it with the position where the change happened (the start of the content for a replacement), once for each elementary change in the order they are made, when the new text is already in place. Nothing that leaves the text alone (reading, searching, moving the cursor, saving, replacing with equal text, undo or redo with nothing to do) calls it.",
 ["histories","inputs"],"every sequence of operations on a buffer with a callback",
 "Tests check one call per operation on one example each; groups, no-op edits and the text visible in the callback are not covered.",
 [OP+"insert.rs",OP+"delete.rs",OP+"replace.rs",OP+"group.rs"],[("callback invocation in each operation",OP)],[],["calls of the change callback"])
p("C14","Loading, saving and reloading transfer the text exactly",
 "A buffer loaded from a file holds exactly the file's text, with the cursor at its start, the file's canonical path and nothing to undo; a save that succeeds leaves the file at the buffer's path holding exactly the buffer's text, whatever it held before; a reload that succeeds makes the text exactly the file's, as a step that undo can take back, keeping the cursor as a replacement does. A failing load, save or reload (missing file, no path, invalid UTF-8) returns an error and leaves text, history, cursor and modified flag of the buffer as they were; they fail for no other reason than that the file cannot be read or written.",
 ["inputs","histories","fault_sequences"],"every text, file content, path (including missing and invalid files) and prior history",
 "Tests save and load one short ASCII file; shrinking files, multi-byte text, gaps in the buffer and failing calls are not covered.",
 [BU],[("load, save, reload",BU)],[],["file contents; buffer content and modified flag"])
p("C15","Search finds exactly the occurrences, as valid positions in order",
 "Searching returns, in order and without repetition, exactly the positions of the characters (grapheme clusters) of the text's lines at which the line's remaining text begins with the search text. Every returned position exists in the buffer, and reading the text after it yields the search text.",
 ["inputs"],"every text and every search text (empty, longer than the line, multi-byte, overlapping occurrences)",
 "Tests search ASCII words in two lines; multi-byte text, overlaps and ends of lines are inputs they do not sample.",
 [BU],[("search over lines and clusters",BU)],[],["positions returned by a search"])
p("C16","Line iteration splits the text into its lines, losing nothing",
 "Iterating over a text's lines yields each line with its line ending, numbered consecutively from zero; concatenated, the lines are exactly the text. Every line but the last ends with a line feed and contains no other; the last contains none (it is empty if the text is empty or ends with a line feed). After the last line the iteration stays finished.",
 ["inputs"],"every text",
 "Tests iterate over three texts; boundaries, empty lines and multi-byte characters are unbounded inputs.",
 ["src/util/line_iterator.rs"],[("line iterator","src/util/line_iterator.rs")],[],["items of the iteration"])
p("C17","Tokens reproduce the text, at the right positions, with the right scopes",
 "Unless tokenising reports an error, the tokens of a buffer, with newline tokens standing for line feeds, concatenate to exactly the buffer's text. Each lexeme is reported at its line and at the number of clusters of its line that begin before it, in increasing order, and carries the scope stack that the syntax definition gives at that place. On an error the iteration stops there and reports it; there is one only if the syntax definition itself fails on the text.",
 ["inputs","configurations"],"every text and every syntax definition",
 "Tests tokenise two short snippets with two syntaxes; text and syntax definitions are unbounded.",
 ["src/buffer/token/token_iterator.rs","src/buffer/token/token_set.rs","src/util/line_iterator.rs"],[("token building from scope events","src/buffer/token/token_iterator.rs"),("line advance","src/buffer/token/token_iterator.rs")],
 [("current line, byte offset, position, pending events","what of the text has been turned into tokens","src/buffer/token/token_iterator.rs")],["tokens of a buffer"])
p("C18","Positions, ranges, line ranges and distances obey their algebra",
 "Positions are totally ordered by line, then offset; a range always has its start at or before its end, whichever order it is built with, and includes exactly the positions from its start up to, not including, its end; line ranges do the same for lines and convert to the range from the start of the first line to the start of the last (or of the line after it, when inclusive). The distance of a text is its number of line feeds and the number of clusters after the last one. Adding a distance to a position adds the lines and, within the same line, the offset, otherwise takes the distance's offset.",
 ["inputs"],"all positions, lines, distances and texts",
 "Tests compare a few values; the laws quantify over all of them.",
 ["src/buffer/position.rs","src/buffer/range.rs","src/buffer/line_range.rs","src/buffer/distance.rs"],[("ordering and addition","src/buffer/position.rs"),("normalising constructors","src/buffer/range.rs"),("distance of a string","src/buffer/distance.rs")],[],["results of comparisons, membership and addition"])
p("C19","A workspace keeps every open buffer, in order, through every switch",
 "Adding a buffer puts it right after the current one and makes it current; next and previous select the neighbour, wrapping around; closing removes only the current buffer and selects the one before it (or the new first, or none when none are left). Through all of this every other open buffer keeps its place in the order and all of its state: text, cursor, history, modified flag, path. The current buffer and current index always agree.",
 ["histories"],"every sequence of adding, opening, selecting, closing and editing buffers",
 "Tests do a few steps with two or three buffers; check-out/check-in of the current buffer must be right for every sequence.",
 ["src/workspace.rs"],[("selection by swapping buffers in and out","src/workspace.rs")],
 [("buffer list, current buffer, current index","the current buffer is held outside the list, with a placeholder in it","src/workspace.rs")],["order and state of the open buffers"])
p("C20","Opening a path never opens a duplicate, and paths are reported correctly",
 "Opening a path that some open buffer already has, in any spelling, selects that buffer, unchanged, instead of loading the file again; otherwise it adds a buffer holding the file's text after the current one; a failing open leaves the workspace as it was. The list of paths has one entry per open buffer, in order, and each entry (and the current buffer's path) is the buffer's path relative to the workspace's own path when it lies below it, the full path otherwise, and none for a buffer without a path.",
 ["histories","inputs"],"every set of open buffers, paths inside and outside the workspace, spellings of paths and selections",
 "Tests open one or two sample files; which buffer is current, relative spellings, and buffers without paths multiply the cases.",
 ["src/workspace.rs"],[("selection by canonical path","src/workspace.rs"),("path listing","src/workspace.rs")],[],["open buffers and reported paths"])
p("C21","Buffer ids are unique, and every added buffer gets the right syntax",
 "Every buffer added to a workspace gets an id that no other buffer of that workspace has or ever had, and keeps it. A buffer added without a syntax definition gets the one its file extension (or else file name) selects in the workspace's syntax set, or plain text if there is none, and updating the syntax of the current buffer assigns likewise; a definition it already has when added is kept. The current buffer's tokens are those of its current text under its current syntax definition, and are an error without a buffer or a definition. The syntax set holds the default definitions and those of the directory the workspace was created with; creating it fails if and only if that directory cannot be loaded or the workspace's path does not exist.",
 ["histories","configurations"],"every sequence of adding, closing and switching buffers; every path and syntax set",
 "Tests add three buffers and check two syntaxes; uniqueness and assignment must hold over every history.",
 ["src/workspace.rs"],[("id counter","src/workspace.rs"),("syntax lookup","src/workspace.rs")],
 [("next id","greater than every id handed out","src/workspace.rs")],["buffer ids, syntax definitions and tokens"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
