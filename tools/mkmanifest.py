#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "Postconditions of GapBuffer::insert/insert_at/write_to_gap/move_gap and of the insert operation: new content = old[..place] + text + old[place..], byte for byte, for every content, gap state and position.",
 "C02": "Postconditions of GapBuffer::delete/delete_at and of the delete operations: exactly the bytes between two places go; the clamping of out-of-range ends and the single-character deletion are spelled out as specification functions.",
 "C03": "Postconditions of GapBuffer::read and Display (data()): a read is the subrange between two places, for every position of the gap.",
 "C04": "content_offset/in_bounds/find_offset are proved equal to a specification that sees the text only (lines, clusters), never the gap; line_count likewise.",
 "C05": "Every index, slice, arithmetic, unwrap and unsafe set_len obligation in every function of the buffer and utilities, and the representation invariant (gap inside the vector, halves valid UTF-8) kept by each.",
 "C06": "Representation invariant on the history: each recorded operation's reverse maps its after-text to its before-text; undo's postcondition is the text of the previous history point.",
 "C07": "As C06 for redo; adding to the history empties what could be redone (postconditions of History::add and Buffer::redo).",
 "C08": "Group invariant: an operation group is the composition of its members' before/after texts; run/reverse loops proved over it; start/end contracts.",
 "C09": "Ghost text of the marked point: modified() returns false only at the marked history point with no open group, where the invariant gives text = file text.",
 "C10": "Each movement's postcondition: an existing position stays an existing position, refused moves change nothing; text untouched.",
 "C11": "Each movement's postcondition gives the exact target position and sticky column, through the recursion free loops of up/down/last line.",
 "C12": "Postconditions of Buffer::replace and replace_content: new text, three-way cursor retention, no step when equal, identity fields kept.",
 "C13": "Ghost log of callback calls (position, text at the time of the call): every operation's contract gives the exact log it appends.",
 "C14": "Ghost file-system state threaded through save/reload/from_file: success gives file = text resp. text = file; failure leaves the buffer unchanged.",
 "C15": "search() is proved equal to a specification listing the matching cluster positions in order, over all lines.",
 "C16": "LineIterator::next proved against a specification of the next line; lemmas give concatenation and numbering.",
 "C17": "TokenIterator: invariant relating emitted tokens to the text; position = line and clusters before; scopes = the parser's, as given by the trusted syntect contract.",
 "C18": "Postconditions of ordering, range and line-range constructors and membership, distance and addition.",
 "C19": "Workspace invariant (current buffer held outside the list); every operation's contract states the resulting list of buffers with all their state.",
 "C20": "open_buffer/select_buffer_by_path contracts over the ghost file system's path resolution; buffer_paths loop proved entry by entry.",
 "C21": "Id counter invariant (greater than every id handed out), syntax assignment and token contracts of add_buffer, update_current_syntax, current_buffer_tokens.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough",
               technique="contract-based deductive verification (Verus) of the functions extracted from /repo on every run", level="proof",
               level_note=NOTES[p] + " Trusted: Verus/Z3, the extractor's rewrite rules, the contracts on std, unicode-segmentation, syntect and the file system (listed in the evidence). "
               "A short seeded search on the real crate runs beside the proof (bounded; it turns failed obligations into failing inputs, and stands in, labelled so, where the verifier cannot take a changed function).")
          for p in props]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the verified text is extracted from /repo's sources on every run. Repaired defects are listed in known-findings.txt; seeded/ holds planted bugs."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
