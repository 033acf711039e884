#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property); run to regenerate it."""
import json, os
R = "rust/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[R+f for f in files],
                          mechanism=[dict(name=n, where=R+w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=R+c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    return d
ps = [
P("E01", "Document text is exactly its live edits, through any undo and redo",
  "After any sequence of edits and of undo/redo requests naming any set of edit groups, the document text consists of exactly the characters whose inserting group is not undone and that no live edit has deleted, in one fixed document order. Undoing a set of groups and later restoring the earlier set gives back exactly the earlier text, whatever edits of other groups came in between.",
  ["histories"], "all sequences of edits (against the head or an older revision, any priority and group) interleaved with undo requests for arbitrary group sets",
  "The engine tests replay about a dozen fixed histories; the claim is over every interleaving of edits with undo sets, including groups sharing several edits and edits arriving in an already undone group.",
  ["rope/src/engine.rs", "rope/src/multiset.rs", "rope/src/delta.rs"],
  [("Engine::edit_rev / mk_new_rev", "rope/src/engine.rs"), ("Engine::undo / compute_undo / find_first_undo_candidate_index", "rope/src/engine.rs"), ("deletes_from_union, tombstones", "rope/src/engine.rs")],
  [("union string", "every character ever inserted and not collected, split in text and tombstones", "rope/src/engine.rs")],
  ["Engine::get_head after every call"]),
P("E02", "Edits against an older revision are rebased and nothing is lost",
  "An edit made against any retained revision deletes exactly the characters it named that are still there, inserts its text at the corresponding place, and leaves all concurrently inserted text intact, with ties between concurrent inserts decided by priority. The text of every retained revision stays readable, and the difference reported between it and the head turns the one into the other; an edit whose base revision is unknown or whose length does not fit its base is refused and changes nothing.",
  ["histories", "inputs"], "all edit histories, all retained base revisions, all edits on them, and malformed edits",
  "Tests rebase one or two hand-picked edits over a fixed string; the property is about every base revision in every history.",
  ["rope/src/engine.rs", "rope/src/delta.rs"],
  [("Engine::mk_new_rev, try_edit_rev", "rope/src/engine.rs"), ("Engine::try_delta_rev_head", "rope/src/engine.rs"), ("Engine::rev_content_for_index, deletes_from_union_for_index", "rope/src/engine.rs")],
  None, ["Engine::get_rev / try_delta_rev_head for every retained revision after every call"]),
P("E03", "Replicas that have exchanged the same edits converge",
  "When independent replicas of a document edit concurrently and merge each other's histories, any two replicas that have received the same edits have the same text, regardless of the order and direction in which the merges happened and of repeated merges. Each replica's own edits survive the merge: no inserted character is lost, duplicated or reordered relative to its neighbours, and deletions stay deleted.",
  ["schedules", "histories"], "all interleavings of local edits and pairwise merges among up to three replicas",
  "Merge tests run a few fixed three-replica scripts; convergence quantifies over every edit/merge schedule.",
  ["rope/src/engine.rs"],
  [("Engine::merge, rearrange, find_common, compute_deltas, rebase", "rope/src/engine.rs"), ("session ids and revision ids", "rope/src/engine.rs")],
  None, ["Engine::get_head of every replica after every merge"]),
P("E04", "Collecting old history never changes what the user sees",
  "Discarding the history of a set of edit groups never changes the current text, and afterwards every further edit, undo or redo of the groups that were kept produces the same text as if nothing had been discarded. The current revision stays readable and a valid base for edits and differences.",
  ["histories"], "all histories of edits and undos with collection of arbitrary group sets at any point",
  "Four tests collect one fixed set at one point of a fixed script.",
  ["rope/src/engine.rs"],
  [("Engine::gc, gc_dels", "rope/src/engine.rs"), ("Editor::gc_undos", "core-lib/src/editor.rs")],
  None, ["Engine::get_head after gc and after every later call"]),
P("U01", "Undo and redo walk back and forth through the user's edit groups",
  "Each undo reverts exactly the most recent not-yet-undone edit group and each redo re-applies exactly the most recently undone one, so any number of undos followed by as many redos restores the text; a new edit discards the redo branch, and at least the last nineteen groups remain undoable. Consecutive edits of one typing or deleting kind form one group, and any other command that edits, or a cursor movement or click in between, starts a new group.",
  ["histories"], "all sequences of editing commands, cursor movements, undo and redo, including more groups than the undo limit and collection of old groups while a plugin lags",
  "Tests undo one or two edits; grouping, the depth limit, the redo cut-off and history collection interact over long sequences.",
  ["core-lib/src/editor.rs", "core-lib/src/event_context.rs", "core-lib/src/recorder.rs"],
  [("Editor::calculate_undo_group, do_undo, do_redo, gc_undos", "core-lib/src/editor.rs"), ("EditType::breaks_undo_group", "core-lib/src/editor.rs")],
  [("live groups, undone groups, cursor", "the undo stack", "core-lib/src/editor.rs")],
  ["document contents through the core protocol after every command"]),
P("U02", "The unsaved-changes flag tells the truth",
  "The modified/pristine state reported to the front-end with every update is pristine right after the file is loaded, reloaded or saved, and never pristine while the text differs from what was last loaded or saved. Undoing or redoing back to the saved point makes it pristine again while that history is retained, and any later edit of the text makes it modified.",
  ["histories"], "all sequences of edits, undos, redos and saves",
  "No test follows the flag through undo/redo past a save point.",
  ["core-lib/src/editor.rs", "rope/src/engine.rs", "core-lib/src/event_context.rs", "core-lib/src/view.rs"],
  [("Editor::is_pristine, set_pristine", "core-lib/src/editor.rs"), ("Engine::is_equivalent_revision", "rope/src/engine.rs")],
  None, ["the pristine field of view updates"]),
P("C01", "Editing commands change the text exactly as specified, at every caret",
  "Every editing command (insertion, newline, tab, deletion in each direction, indentation, case change, transposition, duplication, number increment, kill and yank) transforms the text as specified at every selection region at once, left to right, leaving all text outside the affected ranges unchanged and placing the resulting carets after their edits. Moving, clicking, selecting and scrolling never change the text.",
  ["inputs", "histories"], "all documents, selections (single, multiple, adjacent, reversed) and editing commands",
  "Tests check a few commands on one short text; the multi-region interactions are unbounded.",
  ["core-lib/src/edit_ops.rs", "core-lib/src/editor.rs", "core-lib/src/movement.rs", "core-lib/src/backspace.rs", "core-lib/src/view.rs"],
  [("edit_ops functions", "core-lib/src/edit_ops.rs"), ("View::set_selection_for_edit, Selection::apply_delta", "core-lib/src/view.rs")],
  None, ["document contents and selection after every command"]),
P("C02", "Selections stay well formed and motions land where specified",
  "After any sequence of motions, clicks, gestures, selection commands and edits, the selection is a non-empty sorted list of regions lying inside the document on character boundaries, no two of which overlap or touch in a way that should merge. Each motion moves every region's caret to the position specified for it (character, word, line, paragraph, page or document), collapsing or extending the region as requested.",
  ["inputs", "histories"], "all documents (including multi-byte text, empty lines and a missing final newline), selections and motion or selection commands",
  "Tests sample few selections and motions on fixed text.",
  ["core-lib/src/selection.rs", "core-lib/src/movement.rs", "core-lib/src/view.rs", "core-lib/src/word_boundaries.rs", "core-lib/src/line_offset.rs"],
  [("Selection::add_region, delete_range, apply_delta", "core-lib/src/selection.rs"), ("region_movement, selection_movement", "core-lib/src/movement.rs")],
  None, ["selection of the view after every command"]),
P("V01", "The front-end's copy of the view is always faithful",
  "A front-end that applies every update it receives by the documented cache rules always has the right number of lines, and every line it holds as valid has the text and logical line number that the core has for that line. After each update the lines of the visible window are valid, and show the carets, the selection and the highlighted matches where the core has them.",
  ["histories"], "all sequences of edits, motions, scrolls, resizes, line requests, wrapping changes and style changes",
  "The one protocol test checks the shape of a single update; fidelity is a property of the whole sequence of incremental updates.",
  ["core-lib/src/view.rs", "core-lib/src/line_cache_shadow.rs", "core-lib/src/client.rs", "core-lib/src/linewrap.rs"],
  [("View::send_update_for_plan, encode_line", "core-lib/src/view.rs"), ("LineCacheShadow, RenderPlan", "core-lib/src/line_cache_shadow.rs")],
  [("shadow", "what the core believes the front-end holds", "core-lib/src/line_cache_shadow.rs")],
  ["update notifications of the core protocol"]),
P("V02", "Incremental line wrapping equals wrapping from scratch",
  "After any edits, the visual lines are those that wrapping the whole text afresh at the current width would give once pending wrap work is done, and at every moment they partition the text, breaking after every newline. Mapping an offset to its visual line and a visual line to its start offset are mutually inverse, and every visual line carries the right logical line number.",
  ["inputs", "histories"], "all texts, widths and edit sequences, with wrap work pending or done",
  "Tests wrap a dozen short strings once; incremental invalidation after arbitrary edits is not sampled.",
  ["core-lib/src/linewrap.rs", "rope/src/breaks.rs", "core-lib/src/width_cache.rs"],
  [("Lines::after_edit, rewrap_chunk, merged breaks", "core-lib/src/linewrap.rs"), ("Breaks, BreaksMetric", "rope/src/breaks.rs")],
  None, ["Lines::iter_lines, visual_line_of_offset, offset_of_visual_line"]),
P("P01", "Every plugin's mirror of the buffer follows the core exactly",
  "A plugin that applies the updates it receives, in order, to its copy of the buffer always has the text the core had at the revision named in the update, with the announced length and line count, and data it fetches for a revision is that revision's text. Edits that a plugin sends against any revision it has not yet acknowledged past are rebased and never corrupt the buffer, however many of the user's and other plugins' edits they race with.",
  ["schedules", "histories"], "all interleavings of user edits, undos, plugin edits, update deliveries and acknowledgements with up to three plugins",
  "Plugin traffic is not tested at all (the tests say so); the races between acknowledgement, history collection and late plugin edits are schedule properties.",
  ["core-lib/src/event_context.rs", "core-lib/src/editor.rs", "core-lib/src/tabs.rs", "core-lib/src/plugins/rpc.rs", "core-lib/src/plugins/mod.rs"],
  [("EventContext::update_plugins, do_plugin_update, do_plugin_cmd", "core-lib/src/event_context.rs"), ("Editor::apply_plugin_edit, increment/dec_revs_in_flight, plugin_get_data", "core-lib/src/editor.rs")],
  [("revisions in flight", "updates sent and not yet acknowledged; blocks history collection", "core-lib/src/editor.rs")],
  ["update requests received and requests answered on the plugin's side"]),
P("P02", "The plugin library's document cache never returns stale or wrong text",
  "Whatever mixture of updates and queries a plugin makes, every line, region, document, line offset and line number its cached view returns is that of the current document, whichever parts of the document happen to be cached. Per-line state kept across updates is only ever reported for the line start it was set for, and a plugin that does the work the frontier names until none is left has computed every line of the current text, from the state the text before it gives.",
  ["histories", "inputs"], "all sequences of buffer updates (inserts, deletes, replacements, unspecified large changes) and queries, with any chunking of fetched data",
  "Sixteen tests apply one or two updates to fixed chunk positions.",
  ["plugin-lib/src/base_cache.rs", "plugin-lib/src/state_cache.rs"],
  [("ChunkCache::update, get_line, get_region, offset_of_line, line_of_offset", "plugin-lib/src/base_cache.rs"), ("StateCache::update_line_cache, frontier", "plugin-lib/src/state_cache.rs")],
  None, ["results of the Cache queries"]),
P("P03", "Spans and annotations stay attached to the text they describe",
  "Styles and annotations that a plugin reports for a range of some revision are shown on exactly the characters of that range that are still there, however the text was edited since that revision and afterwards, and replace only what that plugin had reported for that range. Text that was never covered, including text inserted at the edge of a range, is not covered. Annotations behind an edit may be dropped until they are reported again, but never show anywhere else.",
  ["histories", "schedules"], "all interleavings of edits with span or annotation reports for current and older revisions from several plugins",
  "Tests update an annotation store once; racing edits and multiple layers are not sampled.",
  ["core-lib/src/editor.rs", "core-lib/src/layers.rs", "core-lib/src/annotations.rs", "rope/src/spans.rs"],
  [("Editor::update_spans, update_annotations", "core-lib/src/editor.rs"), ("Layers::update_all, update_layer", "core-lib/src/layers.rs"), ("Spans::apply_shape, delete_after, edit", "rope/src/spans.rs")],
  None, ["styles and annotations of view updates"]),
P("F01", "Search results are kept exact while the text changes",
  "At all times the highlighted matches of a search are exactly the ones a fresh left-to-right search of the whole current text finds, whether they were found incrementally or patched after edits. Find-next and find-previous select the nearest such match in their direction, wrapping around only when asked to, and replacing changes only matches.",
  ["histories", "inputs"], "all texts, queries (plain, case-insensitive, whole-word, regular expression), edit sequences and find commands",
  "Tests run single searches on short texts; none edits the text under a live search and compares.",
  ["core-lib/src/find.rs", "rope/src/find.rs", "rope/src/compare.rs", "core-lib/src/view.rs"],
  [("Find::update_highlights, update_find, next_occurrence", "core-lib/src/find.rs"), ("find, find_progress", "rope/src/find.rs"), ("View::do_find_next, do_find_all", "core-lib/src/view.rs")],
  None, ["find annotations and find_status of the core protocol, selection after find commands"]),
P("R01", "A rope is the sequence of characters it was built from",
  "However a rope was assembled (parsing, slicing, concatenation, replacement, in any order and size), its contents, length, slices and line, character and UTF-16 counts and conversions are those of the plain string. Cursors visit exactly the boundaries of their unit, in order, forwards and backwards, from any starting position.",
  ["inputs", "histories"], "all texts (multi-byte, CRLF, very long lines) and all sequences of rope operations, across leaf and node boundaries",
  "Tests mostly use ropes that fit in one leaf; boundary behaviour depends on tree shape, which only construction history determines.",
  ["rope/src/rope.rs", "rope/src/tree.rs"],
  [("Node::concat, merge_nodes, TreeBuilder", "rope/src/tree.rs"), ("Cursor next/prev/at_or_*", "rope/src/tree.rs"), ("BaseMetric, LinesMetric, Utf16CodeUnitsMetric", "rope/src/rope.rs")],
  None, ["results of the rope API"]),
P("R02", "Edit deltas compose, transform and invert consistently",
  "For every edit description, applying it, splitting it into its insertions and deletions and recombining them, summarising it, and mapping positions through it all agree with each other as operations on text. The set algebra on position sets used for this (union, subtraction, complement, shrinking and expanding through another set, counting and mapping) obeys its set meaning for all inputs.",
  ["inputs"], "all edit descriptions and position sets over texts of bounded length, and all pairs of them",
  "Tests cover single examples of each operation plus one randomized transform test.",
  ["rope/src/delta.rs", "rope/src/multiset.rs", "rope/src/interval.rs"],
  [("Delta::factor, synthesize, summary, apply; InsertDelta::transform_*", "rope/src/delta.rs"), ("Subset operations, Mapper", "rope/src/multiset.rs"), ("Transformer", "rope/src/delta.rs")],
  None, ["results of the delta and subset API"]),
P("R03", "Computed differences reproduce the target text",
  "The difference computed between any two texts, applied to the first, yields exactly the second, and text common to both at the ends is kept rather than rewritten. Comparing two ropes reports the first difference from either end correctly, whatever their internal chunking.",
  ["inputs"], "all pairs of texts, including repeated lines, moved blocks and texts longer than a leaf",
  "Tests diff a handful of fixed documents.",
  ["rope/src/diff.rs", "rope/src/compare.rs"],
  [("LineHashDiff::compute_delta, DiffBuilder", "rope/src/diff.rs"), ("RopeScanner, ne_idx", "rope/src/compare.rs")],
  None, ["results of the diff and compare API"]),
P("S01", "Saving writes exactly the buffer and never destroys foreign changes",
  "A successful save leaves the target file with exactly the buffer's text in the encoding it was opened with, opening it again gives the same buffer, and a failed or interrupted save leaves the previous content of the file in place. A save never overwrites a file that was changed on disk since the editor last read or wrote it, and it then neither claims success nor clears the modified flag.",
  ["histories", "fault_sequences", "inputs"], "all sequences of open, edit, external change, save, save-as and close on a few paths, with I/O failures at each step",
  "Saving is not tested at all (the tests say so).",
  ["core-lib/src/file.rs", "core-lib/src/tabs.rs", "core-lib/src/event_context.rs"],
  [("FileManager::open, save, save_existing, check_file", "core-lib/src/file.rs"), ("CoreState::do_save", "core-lib/src/tabs.rs")],
  None, ["bytes on disk, view contents, alerts"]),
P("K01", "Effective settings follow the precedence of the configuration layers",
  "At all times the settings in effect for a buffer are, key by key, those of the most specific layer that sets the key: the user's override for that buffer, then detected buffer settings, then the language's user and default settings, then the user's and built-in general settings. Every change of a layer, language or path is announced with exactly the keys whose effective value changed, and an invalid change is refused as a whole.",
  ["histories", "configurations"], "all sequences of configuration changes, language changes and buffer openings over several buffers",
  "Five tests set one layer at a time.",
  ["core-lib/src/config.rs", "core-lib/src/tabs.rs"],
  [("ConfigManager::set_user_config, table_for_update, generate_buffer_config, TableStack", "core-lib/src/config.rs"), ("CoreState::do_modify_user_config, set_config", "core-lib/src/tabs.rs")],
  None, ["get_config responses and config_changed notifications"]),
P("M01", "Every request is answered exactly once, in order, and never hangs",
  "Each well-formed request received over the protocol is answered exactly once with its own id, messages are handled one at a time in arrival order, and scheduled idle tasks and timers all run, never before their time and never ahead of a waiting message. A request made to a peer completes exactly once, with the peer's answer to that id or with an error when the peer goes away, under every interleaving of threads: nothing deadlocks or waits for ever.",
  ["schedules", "fault_sequences"], "all interleavings of reader thread, main loop, other threads sending requests, peer answers in any order, malformed input and disconnection at any point",
  "Integration tests run single-threaded happy paths and one disconnect; the claim is about every interleaving.",
  ["rpc/src/lib.rs", "rpc/src/parse.rs"],
  [("RpcLoop::mainloop, next_read", "rpc/src/lib.rs"), ("RawPeer::send_rpc_request_common, handle_response, disconnect", "rpc/src/lib.rs")],
  [("pending", "requests sent and not yet answered", "rpc/src/lib.rs")],
  ["bytes written to the peer, results delivered to callers, order of handler calls"]),
P("L01", "No sequence of client messages can crash the core",
  "Once the client has started, no sequence of well-formed front-end messages, in any order and with any in-range or out-of-range argument, terminates or wedges the core or corrupts a buffer the message does not concern; messages naming a view that does not exist are ignored or answered with an error. View and buffer identifiers are never reused, and closing a view releases its buffer and only that.",
  ["histories", "inputs"], "all sequences of protocol messages over several views, with stale or unknown view ids and extreme numeric arguments",
  "Tests send each message once to one fresh view.",
  ["core-lib/src/tabs.rs", "core-lib/src/event_context.rs", "core-lib/src/view.rs", "core-lib/src/edit_ops.rs", "core-lib/src/movement.rs"],
  [("CoreState::client_notification, client_request, do_new_view, do_close_view, handle_idle", "core-lib/src/tabs.rs")],
  None, ["responses and notifications of the core protocol; the core staying responsive"]),
P("T01", "Recorded commands replay as recorded, as one undoable step",
  "Playing a recording has the effect of issuing again, in order, the commands recorded in it, where an undo takes back the command recorded before it and a redo that undo, and is undone as a whole by one undo. Starting, switching, stopping, clearing and playing recordings by name never affects other recordings, and a recording that is still being made cannot be played.",
  ["histories"], "all sequences of record, play, clear, edit, motion, undo and redo commands over several recording names",
  "Tests exercise the recorder's data structure with a few fixed scripts, and playback of one.",
  ["core-lib/src/recorder.rs", "core-lib/src/event_context.rs", "core-lib/src/editor.rs"],
  [("Recorder::toggle_recording, record, save_recording_buffer, play", "core-lib/src/recorder.rs"), ("EventContext::do_edit play loop", "core-lib/src/event_context.rs")],
  None, ["document contents after every command"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(ps))
