"""Which functions carry which property.

`DIRECT[p]` lists the functions whose contracts state property p: a failed obligation in one of
them is a failed obligation of p.  What they rely on (the transitive closure of their calls, by
name) is computed from the extractor's map on every run; p counts as proved only if every
obligation in the closure is discharged.
"""

def _e(ty, names):
    return [f"{ty}::{n}" for n in names.split()]

PLACES = _e("GapBuffer", "content_offset data_offset find_offset in_bounds")
EDITS = _e("Buffer", "insert delete delete_range replace")
HISTORY = _e("History", "new add previous next")
GROUP = _e("OperationGroup", "new add is_empty run reverse clone_operation") + _e("Buffer", "start_operation_group end_operation_group")
DYN = _e("DynOperation", "run reverse clone_operation")
CLONES = [f"{t}::{n}" for t in ("Insert", "Delete", "Replace") for n in ("clone", "clone_operation", "new")]
RUNS = [f"{t}::run" for t in ("Insert", "Delete", "Replace")] + ["replace_content"]
REVERSES = [f"{t}::reverse" for t in ("Insert", "Delete", "Replace")] + _e("GapBuffer", "insert_at delete_at")
CURSOR = _e("Cursor", "new move_to move_up move_down move_left move_right move_to_start_of_line move_to_end_of_line move_to_last_line move_to_first_line")

DIRECT = {
    "C01": PLACES + _e("GapBuffer", "new insert insert_at write_to_gap move_gap") + _e("Insert", "new run") + ["Buffer::insert"],
    "C02": PLACES + _e("GapBuffer", "delete delete_at move_gap") + _e("Delete", "new run") + _e("Buffer", "delete delete_range") + _e("Range", "new start end"),
    "C03": PLACES + _e("GapBuffer", "new read fmt") + _e("Buffer", "data read") + _e("Range", "new start end"),
    "C04": PLACES + ["Buffer::line_count"],
    "C05": None,  # every function of the buffer and of text utilities: see safety_relevant()
    "C06": ["Buffer::undo", "Buffer::reload"] + EDITS + HISTORY + GROUP + DYN + CLONES + RUNS + REVERSES,
    "C07": ["Buffer::undo", "Buffer::redo", "Buffer::reload"] + EDITS + HISTORY + GROUP + DYN + CLONES + RUNS + REVERSES,
    "C08": ["Buffer::undo", "Buffer::redo"] + EDITS + HISTORY + GROUP + DYN,
    "C09": _e("Buffer", "default new from_file save reload modified undo redo") + EDITS + HISTORY + _e("History", "mark at_mark") + GROUP,
    "C10": CURSOR + ["Replace::run", "Replace::reverse", "replace_content", "Buffer::replace"],
    "C11": CURSOR + _e("Buffer", "insert delete delete_range"),
    "C12": ["Buffer::replace", "replace_content"] + _e("Replace", "new run reverse clone clone_operation"),
    "C13": EDITS + RUNS + [f"{t}::reverse" for t in ("Insert", "Delete", "Replace", "OperationGroup")] + ["OperationGroup::run", "Buffer::undo", "Buffer::redo", "Buffer::reload"] + DYN,
    "C14": _e("Buffer", "from_file save reload data new default") + _e("GapBuffer", "new fmt") + ["Buffer::replace", "replace_content"],
    "C15": ["Buffer::search"],
    "C16": _e("LineIterator", "new next"),
    "C17": _e("TokenIterator", "new build_next_token parse_next_line next") + _e("TokenSet", "new iter") + _e("LineIterator", "new next"),
    "C18": _e("Position", "default partial_cmp add add_assign new") + _e("Range", "clone new start end includes")
           + _e("LineRange", "new start end to_range to_inclusive_range includes") + ["Distance::of_str"],
    "C19": _e("Workspace", "new add_buffer open_buffer current_buffer_index close_current_buffer previous_buffer next_buffer select_buffer select_buffer_by_path buffer_paths"),
    "C20": _e("Workspace", "new add_buffer open_buffer current_buffer_path select_buffer select_buffer_by_path buffer_paths"),
    "C21": _e("Workspace", "new add_buffer open_buffer current_buffer_tokens update_current_syntax") + _e("Buffer", "file_name file_extension") + ["TokenSet::new"],
}
ALL = sorted(DIRECT)
# properties about sequences of calls: contracts/theorems.vspec proves them from the contracts of the calls
THEOREMS = {"C03", "C04", "C06", "C07", "C08", "C09", "C14", "C16", "C17", "C19", "C20"}
NOT_C05 = {"workspace"}

def direct(prop, functions):
    if prop == "C05":
        return {f["key"] for f in functions if f["module"] not in NOT_C05 and not f["key"].startswith("lemmas of ")}
    return set(DIRECT[prop])

def closure(prop, functions):
    """direct functions, everything they may call (by name), and the lemmas of the modules involved"""
    by_name, by_key = {}, {}
    for f in functions:
        by_key[f["key"]] = f
        by_name.setdefault(f["key"].split("::")[-1], []).append(f["key"])
    todo, seen = list(direct(prop, functions)), set()
    while todo:
        k = todo.pop()
        if k in seen or k not in by_key:
            seen.add(k)
            continue
        seen.add(k)
        for c in by_key[k]["calls"]:
            if c in by_key:
                todo.append(c)
            else:
                todo += by_name.get(c.lstrip(".").split("::")[-1], []) if c.startswith(".") else [x for x in by_name.get(c.split("::")[-1], []) if "::" not in c or c.split("::")[0] in ("Self", x.split("::")[0])]
    mods = {by_key[k]["module"] for k in seen if k in by_key}
    seen |= {f"lemmas of {m}" for m in mods if f"lemmas of {m}" in by_key}
    if prop in THEOREMS:
        seen.add("lemmas of theorems")
    return {k for k in seen if k in by_key}

def safety_relevant(message):
    m = message.lower()
    return any(s in m for s in ("precondition", "overflow", "underflow", "index", "bounds", "unreachable", "division", "decreases", "terminat"))
