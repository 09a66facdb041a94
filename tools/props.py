#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note="", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook),
        _t=technique, _n=note))

p("C01", "The audio rendered is exactly the graph drawn in the matrix",
  "Once an accepted layout has been taken over by the audio side, every output sample equals what the drawn graph defines: a linked input reads the signal its neighbouring cell's output produces in the same block, with nodes evaluated in dependency order, and an input without a link reads its own parameter value. Links exist exactly between adjacent cells whose touching edges carry an output and an input, and cells that are not linked, directly or indirectly, to an output do not change what is heard.",
  ["programs", "configurations"], "all assignments of small cells (node type and port per edge, repeated node instances, empty cells) to a small grid, all edge labellings of every adjacent pair at both column parities, and chains/diamonds whose placement order contradicts the dependency order",
  "The tests build a few fixed 3-5 cell patches and compare recorded numbers; the space of placements, edge labellings, instance sharing and orderings is never swept.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs", "src/nodes/node_graph_ordering.rs", "src/cell_dir.rs"],
  [("edge list construction from adjacent cells", "Matrix::create_intermediate_nodes / update_graph_ordering_and_edges / build_prog in src/matrix.rs"), ("topological order", "NodeGraphOrdering::calculate_order"), ("port index translation", "NodeInstance::in_local2global/out_local2global, NodeConfigurator::set_prog_node_exec_connection"), ("block execution", "NodeExecutor::process")],
  state=[("edges/graph_ordering", "links derived from the grid", "src/matrix.rs"), ("NodeProg", "executable program", "src/nodes/node_prog.rs")],
  observe=["samples of the Out node returned by NodeExecutor::process", "Matrix::get_connections"],
  technique="exhaustive enumeration of small matrix layouts executed on the real engine, against a reference graph interpreter",
  note="Every layout in the bounded space is executed on the real Matrix/NodeExecutor and compared sample by sample with an independent interpreter; larger grids and other node types are covered only by the uniformity of the code.")

p("C02", "Layouts with cycles or doubly driven inputs are refused without any effect",
  "A layout in which the links form a cycle or one input is driven by more than one output is refused by every way of changing the layout (checking, syncing, editing in a transaction, placing several cells), and every layout without such a fault is accepted. A refused edit leaves the cells, the parameter values, the saved patch and the sound exactly as they were before the edit, and later valid edits still work.",
  ["programs", "histories"], "all small layouts as a proposed edit over an existing running layout, through each of the editing entry points, followed by a further edit",
  "Tests try a handful of hand written bad layouts; acceptance exactly when acyclic and singly driven, and the absence of side effects, are statements about every layout and every previous state.",
  ["src/matrix.rs", "src/nodes/node_graph_ordering.rs"],
  [("transaction save/restore", "Matrix::save_matrix/restore_matrix/change_matrix/change_matrix_err/place_multiple"), ("fault detection", "Matrix::check, NodeGraphOrdering::calculate_order, assigned_inputs in update_graph_ordering_and_edges")],
  observe=["result of change_matrix / place_multiple / check / sync", "Matrix::get_copy of every cell, to_repr().serialize()", "audio output"],
  technique="exhaustive enumeration of layout edits on the real matrix, against an independent cycle/duplicate checker and a no-side-effect comparison",
  note="Complete over the enumerated layouts and edit entry points.")

p("C03", "Every accepted edit reaches the sound, whatever the timing of the audio",
  "For every sequence of frontend edits (parameter, setting, modulation amount, layout change, clear, patch load) and every interleaving of those edits with audio blocks, the engine never panics and, once the audio side has caught up and the smoothing time has passed, the sound is the one a fresh engine given only the final state produces. No edit is lost, applied to a different node or applied twice, no matter how many edits are pending.",
  ["schedules", "histories"], "all edit sequences up to a depth over a small alphabet on a two/three node patch, interleaved with 0 or 1 audio blocks after every edit, and with a callback before every queue operation in the middle of an edit (and edits in the middle of a callback); bursts of every size around the internal capacities",
  "Tests run one fixed edit/process order with generous settling in between; interleavings and bursts are not explored.",
  ["src/nodes/node_conf.rs", "src/nodes/node_exec.rs", "src/nodes/node_prog.rs", "src/matrix.rs"],
  [("frontend to audio queues", "GraphMessage/QuickMessage handling in NodeExecutor::process_graph_updates and NodeConfigurator::set_param"), ("smoothers", "NodeExecutor::set_param / process_smoothers")],
  state=[("smoothers, target_refresh", "parameter ramps in flight", "src/nodes/node_exec.rs"), ("params/param_values/atom_values", "frontend truth", "src/nodes/node_conf.rs")],
  observe=["audio output after settling compared with a fresh engine", "panics"],
  technique="exhaustive enumeration of edit/audio-block interleavings on the real engine, with a fresh-engine differential oracle",
  note="Audio callbacks run between frontend calls and, in one space, in the middle of them before every ring buffer operation; the operations themselves (external crate) are trusted.")

p("C04", "Parameter changes are smoothed the same way whatever the audio block sizes",
  "A parameter change while audio runs reaches the node input as a straight ramp from the current value to the new value over the fixed smoothing time, ending exactly on the new value, without overshoot or jump. The sequence of values is the same for every partition of the run into audio blocks, and a new change during a ramp continues from the value reached.",
  ["inputs", "schedules"], "all partitions of the run into blocks over candidate cut positions, all pairs of change times, several parameters in flight at once, several sample rates",
  "Tests observe one ramp at one block size.",
  ["src/nodes/node_exec.rs", "src/util.rs"],
  [("linear smoother", "Smoother in src/util.rs"), ("per block smoothing and refresh", "NodeExecutor::process_smoothers/process_param_updates")],
  observe=["input slices seen by a user supplied DSP node"],
  technique="exhaustive enumeration of block partitions and change times on the real executor, against a reference ramp",
  note="Bounded by the enumerated cut positions and parameter counts.")

p("C05", "A modulation amount scales the linked signal around the parameter value",
  "A linked input with a modulation amount receives parameter value plus amount times signal, sample by sample; a linked input without an amount receives the signal itself; an unlinked input receives the parameter value. Setting, changing or removing an amount at any time has exactly this effect on that input and none on any other input.",
  ["histories", "inputs"], "all sequences of amount set/change/remove, parameter change and link/unlink steps on several inputs of one node, interleaved with audio blocks",
  "Tests check a few fixed amounts on one input.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs"],
  [("modulation op", "ModOp::process in src/nodes/node_prog.rs"), ("amount bookkeeping", "NodeConfigurator::set_param_modamt, GraphMessage::ModamtUpdate"), ("resync on toggle", "Matrix::set_param_modamt")],
  observe=["input slices seen by a user supplied DSP node", "Matrix::get_param_modamt"],
  technique="exhaustive enumeration of modulation histories on the real engine, against a reference formula",
  note="Complete over the enumerated histories.")

p("C06", "Editing the running patch does not disturb the nodes that are not edited",
  "When cells are added, removed, moved or rewired while audio runs, every node that stays linked the same way keeps producing the samples it would have produced without the edit: its internal state, its parameter values and ramps in flight carry on across the edit without a jump or a repeated or missing sample.",
  ["histories", "schedules"], "all sequences of edits over an alphabet touching other cells, at all audio block positions, for a set of stateful nodes under observation",
  "Tests do not compare an edited with an unedited run.",
  ["src/nodes/node_exec.rs", "src/nodes/node_prog.rs", "src/matrix.rs", "src/nodes/node_conf.rs"],
  [("program swap carrying buffers", "NodeProg::swap_previous_outputs, GraphMessage::NewProg"), ("node reuse", "NodeConfigurator::create_node / unique index")],
  observe=["audio output of the untouched chain"],
  technique="exhaustive enumeration of edit histories with a differential oracle (same run without the edit)",
  note="Complete over the enumerated edits and positions.")

p("C07", "What a node computes does not depend on how audio is cut into blocks",
  "For every node type, the output over a stretch of audio is bit for bit the same whatever the sizes of the blocks in which the host asks for it, from one frame up to the maximum block size, including for inputs that change within the stretch. (The coefficient inputs of BiqFilt, documented as not meant for automation, are read once per block, and a tracker takes over one changed pattern column per block.)",
  ["inputs", "schedules"], "every node type and mode, with driven inputs, over all partitions of the stretch into blocks over candidate cuts",
  "Tests always run with one block size.",
  ["src/dsp/node_*.rs", "src/nodes/node_exec.rs"],
  [("per node DSP state carried between blocks", "DspNode::process implementations in src/dsp/node_*.rs")],
  observe=["audio output"],
  technique="exhaustive enumeration of block partitions per node type and mode on the real engine, differential against the one-block run",
  note="Complete over node types, modes and the enumerated partitions.")

p("C08", "Saving and loading a patch reproduces it completely",
  "Saving a patch and loading it into a fresh engine reproduces every cell with its edges, every parameter and setting value, every modulation amount, all tracker patterns, all block programs and all properties; the loaded patch saves to the same data again and renders the same sound.",
  ["programs", "inputs"], "all small patches over an alphabet of cells, edge values, parameters incl. extreme and special values of every setting kind, modulation amounts, patterns, block programs and properties",
  "Tests round trip a few fixed patches.",
  ["src/matrix_repr.rs", "src/matrix.rs", "src/nodes/node_conf.rs", "src/dsp/tracker/pattern.rs", "src/wblockdsp/language.rs"],
  [("serialisation", "MatrixRepr::serialize/deserialize, CellRepr, PatternRepr, serialize_atom/deserialize_atom"), ("capture and restore", "Matrix::to_repr/from_repr, NodeConfigurator::dump_param_values/load_dumped_param_values, PatternData::to_repr/from_repr")],
  observe=["Matrix getters, PatternData getters, serialised text, audio output"],
  technique="exhaustive enumeration of small patches on the real save/load code, structural and audio comparison",
  note="Complete over the enumerated patches.")

p("C09", "Loading a patch gives the same result whatever was loaded before",
  "Loading a patch, or clearing the matrix, leads to the same cells, parameters, modulation amounts, patterns, block programs, properties and sound as doing it on a fresh engine, no matter what was placed, edited, played or loaded before and how far the audio side had got.",
  ["histories", "schedules"], "all short histories of edits, loads, clears and audio blocks followed by a load or clear",
  "Tests load into fresh engines.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_exec.rs"],
  [("reset of all state", "Matrix::clear, Matrix::from_repr, NodeConfigurator::delete_nodes, GraphMessage::Clear")],
  observe=["to_repr().serialize()", "audio output"],
  technique="exhaustive enumeration of prior histories with a fresh-engine differential oracle",
  note="Complete over the enumerated histories.")

p("C10", "Damaged patch data is reported as an error, never a crash",
  "Reading any byte string as a patch either yields a patch or reports an error; it never panics or hangs. Loading whatever was read into a matrix never panics either, and a patch that cannot be applied leaves the engine usable.",
  ["inputs", "fault_sequences"], "all truncations, all single-byte substitutions over a byte alphabet, and all single structural mutations (each JSON value replaced by each of a set of wrong values, removed, duplicated) of a representative patch",
  "Tests feed well-formed patches only.",
  ["src/matrix_repr.rs", "src/matrix.rs", "src/dsp/tracker/pattern.rs", "src/wblockdsp/language.rs"],
  [("checked deserialisation", "MatrixRepr::deserialize, deserialize_atom, PatternRepr::deserialize, BlockFunSnapshot::deserialize")],
  observe=["Result of MatrixRepr::deserialize/read_from_mem, Matrix::from_repr; panics"],
  technique="fault enumeration: every truncation, byte and structural mutation of representative patches on the real loader",
  note="Complete over single faults of the representative patches.")

p("C11", "Saving a patch is atomic against crashes and I/O errors",
  "If saving a patch over an existing file is interrupted at any point by a crash, or any file operation fails, the file afterwards holds either the complete old patch or the complete new patch; a save that reports success has stored the new patch, and a failed one reports an error.",
  ["crash_points", "fault_sequences"], "every system call of a save as a crash point, every failing and short-writing variant of each call, and the post-crash disk states allowed without a sync",
  "Tests only save successfully.",
  ["src/matrix_repr.rs"],
  [("write to temporary file then rename", "MatrixRepr::write_to_file")],
  observe=["file content after the fault", "result of write_to_file"],
  technique="crash-point and I/O fault enumeration over the intercepted system calls of the real save path",
  note="Complete over the calls a save makes.")

p("C12", "The tracker plays exactly what the pattern says",
  "For every pattern content, column kind, row count and sequence of clock and trigger inputs, the value, gate and note signals of every tracker column are those the pattern defines for the row selected: cells hold or interpolate as their column kind prescribes and gates open with the length, ratcheting and probability written in the cell, the probability being drawn anew for each pass of the row.",
  ["programs", "inputs"], "all small patterns per column kind and all short sequences of row positions, with block partitions",
  "Tests play a few fixed patterns.",
  ["src/dsp/tracker/sequencer.rs", "src/dsp/tracker/pattern.rs", "src/dsp/node_tseq.rs"],
  [("column data generation", "PatternData::get_out_data/sync_out_data"), ("playback", "PatternSequencer::get_at")],
  observe=["PatternSequencer output", "TSeq node output"],
  technique="exhaustive enumeration of small patterns and phase sequences on the real sequencer, against a reference player",
  note="Complete over the enumerated patterns.")

p("C13", "Every pattern edit reaches the playing tracker",
  "For every sequence of pattern edits and every interleaving of edit, publishing and audio blocks, the pattern heard after the publishing has caught up equals the pattern in the editor; no edit is lost, however many are pending.",
  ["schedules", "histories"], "all interleavings of edits, publish calls and audio-side update calls up to a depth; bursts around the queue capacity",
  "Tests edit once and then play.",
  ["src/dsp/tracker/mod.rs", "src/dsp/tracker/pattern.rs"],
  [("dirty columns and update messages", "Tracker::send_one_update, TrackerBackend::check_updates, PatternData dirty tracking")],
  observe=["TrackerBackend/TSeq output vs PatternData"],
  technique="exhaustive enumeration of edit/publish/consume interleavings on the real tracker",
  note="Complete over the enumerated interleavings.")

p("C14", "MIDI events take effect exactly once, in order, at their frame",
  "Each MIDI event handed to the engine for a block, or injected by the frontend, reaches the MIDI nodes exactly once, in the order given, at the frame it is stamped with (injected ones at the start of the next block), for every block size and every number of events within the documented capacities, and is reported to the frontend once; note nodes then show pitch, gate and velocity for the selected channel and gate mode, and controller nodes the value of every selected controller, for the selected channel only.",
  ["inputs", "schedules"], "all short event sequences over notes, channels, controllers and frame stamps, all block partitions, external and injected delivery mixed",
  "Tests feed a few events at fixed frames.",
  ["src/nodes/midi.rs", "src/nodes/node_exec.rs", "src/dsp/node_midip.rs", "src/dsp/node_midicc.rs"],
  [("event windowing", "EventWindowing, MidiEventPointer"), ("delivery", "NodeExecutor::feed_midi_events_from")],
  observe=["MidiP/MidiCC outputs sample by sample"],
  technique="exhaustive enumeration of event sequences and block partitions on the real nodes, against a reference note/controller tracker",
  note="Complete over the enumerated sequences.")

p("C16", "A feedback path returns the written signal unchanged after a fixed delay",
  "What is written into a feedback writer comes out of the reader of the same instance unchanged (times the reader's volume) and exactly 138 frames later (3.14 ms at 44.1 kHz), for all block sizes, whatever the order in which reader and writer are executed and whenever either of them was added to the running patch; different instances do not mix, and a reader whose instance was never written is silent.",
  ["schedules", "configurations"], "all arrangements of writers and readers over two and three instances, all block partitions of a run longer than the internal buffer, all start/stop histories of three segments, and closed loops at every block size",
  "Tests use one arrangement and block size.",
  ["src/shared_feedback.rs", "src/dsp/node_fbwr_fbrd.rs"],
  [("shared delay buffer", "SharedFeedback, SharedFeedbackWriter/Reader")],
  observe=["audio output"],
  technique="exhaustive enumeration of arrangements and block partitions on the real engine, against a reference delay line",
  note="Complete over the enumerated arrangements.")

p("C17", "The signal monitor shows the true minima and maxima, in order",
  "For each of the (up to six) ports of the cell that the matrix reports as monitored, the values shown are the exact minima and maxima of successive stretches of 900 frames of that port's signal, newest last, with no frame lost, repeated or taken from another port while the monitoring thread keeps up, for every block size, signal level and history of edits. Switching the monitored cell keeps the values shown so far and goes on with the new cell's signal; a port without a signal, an empty cell and a node that does not run contribute nothing.",
  ["schedules", "inputs"], "all short block sequences and monitor switches with the processing steps interleaved",
  "Tests check one constant or sine signal.",
  ["src/monitor.rs", "src/nodes/node_exec.rs", "src/nodes/node_conf.rs"],
  [("min/max accumulation", "MonitorMinMax::process, MonitorProcessor"), ("buffer recycling", "MonitorBackend")],
  observe=["MonitorProcessor::minmax_slice_for_signal, Matrix::get_minmax_monitor_samples"],
  technique="exhaustive enumeration of feed/process interleavings on the real monitor, against reference minima/maxima",
  note="Complete over the enumerated schedules.")

p("C18", "The audio callback never allocates, frees, blocks or prints",
  "No audio callback (taking over updates, MIDI events, rendering), whatever node types and settings run and whatever edits it takes over, allocates or frees heap memory, waits for a lock that the frontend can hold, sleeps, or does input/output; samples, programs and user supplied nodes that are replaced are freed outside the callback, exactly once, while the engine goes on running.",
  ["histories", "schedules"], "every node type and mode, every edit kind, and sequences of edits with any number of audio blocks in between",
  "Tests never look at allocations of the audio side.",
  ["src/nodes/node_exec.rs", "src/nodes/drop_thread.rs", "src/nodes/node_prog.rs", "src/dsp/node_*.rs", "src/dsp/tracker/mod.rs"],
  [("hand over of retired objects", "DropMsg / DropThread"), ("preallocated buffers", "NodeProg, NodeExecutor")],
  observe=["allocator and system calls on the thread that runs the callback"],
  technique="exhaustive enumeration of node types, edits and block schedules under an allocator and system-call monitor",
  note="Complete over the enumerated histories; relies on interposing the global allocator and write/futex calls.")

p("C19", "The programmatic synth builder renders the graph written down",
  "A graph written with the node builder API sounds exactly as the nodes, parameters, modulation amounts and connections written down, for every graph shape and every node type's builder functions; nodes, links and values of earlier uploads stay until overwritten or cleared; parameter updates reach the sound, and an upload that is refused because of a cycle leaves the previous sound running and does not affect later uploads.",
  ["programs", "histories"], "all small builder graphs (chains, diamonds, shared nodes, cycles, duplicates) and short sequences of uploads and updates",
  "Tests build a few fixed graphs.",
  ["src/synth_constructor.rs", "src/build.rs"],
  [("graph walk", "walk_upload"), ("upload / update", "SynthConstructor::upload/update_params")],
  observe=["audio output", "Result of upload/update_params"],
  technique="exhaustive enumeration of builder graphs and upload histories on the real constructor, against a reference interpreter",
  note="Complete over the enumerated graphs.")

p("C20", "Execution order respects every dependency and detects every cycle",
  "For every directed graph of nodes, ordering succeeds exactly when the graph has no cycle, and then lists every node exactly once after all nodes it depends on; path queries answer correctly on every graph.",
  ["programs"], "all directed graphs on up to 4 (5 thorough) labelled nodes with every insertion order class, and wide/deep families around internal capacities",
  "Tests try a few graphs.",
  ["src/nodes/node_graph_ordering.rs"],
  [("Kahn's algorithm", "NodeGraphOrdering::calculate_order"), ("reachability", "NodeGraphOrdering::has_path")],
  observe=["calculate_order, has_path"],
  technique="exhaustive enumeration of all small digraphs on the real ordering code, against brute-force reachability",
  note="Complete up to the stated node count.")

p("C21", "Hexagonal neighbourhood geometry is consistent",
  "For every cell and direction, stepping to the neighbour and back returns to the cell; adjacency, opposite directions, input/output sides, free-neighbour searches and paths between cells all agree with the stepping rule and stay inside the matrix.",
  ["inputs"], "all cell positions of a bounded grid, all directions and all pairs of cells",
  "Tests check a few positions.",
  ["src/cell_dir.rs", "src/matrix.rs"],
  [("offset table by column parity", "CellDir::as_offs/offs_pos"), ("adjacency and path", "CellDir::are_adjacent/path_from_to"), ("free neighbour search", "Cell::find_first_adjacent_free/find_all_adjacent_free/find_unconnected_ports")],
  observe=["return values"],
  technique="exhaustive enumeration of all positions, directions and pairs on the real functions, against cube-coordinate geometry",
  note="Complete over the bounded grid.")

p("C22", "Parameter values survive the knob scale and stay in range",
  "For every parameter of every node, converting a knob position to a value and back returns the position (or one with the same value), the conversion is monotone and finite over the whole range, snapping to coarse or fine steps is monotone, close and stable, and every position and setting has a text. Positions, settings, defaults, limits and shown texts mean what they meant when patches were stored with them. Names, indices and defaults of every node agree between all queries, and a freshly placed node has its defaults.",
  ["inputs"], "every parameter, setting and port of every node type, on a dense complete grid of knob positions",
  "Tests check a few parameters.",
  ["src/dsp/mod.rs", "src/dsp/node_*.rs"],
  [("norm/denorm/round functions", "macros n_*/d_*/r_* and ParamId in src/dsp/mod.rs")],
  observe=["ParamId::norm/denorm/round/param_min_max/norm_def/setting_min_max"],
  technique="exhaustive enumeration of all parameters over a complete position grid on the real functions",
  note="Complete over the grid; values between grid points follow from monotonicity.")

p("C23", "Editing block programs never corrupts the program",
  "Every sequence of block program editing operations (placing, moving, cloning, shifting ports, taking, cloning and placing chains, removing, resizing) does to the program exactly what the operation says and keeps it well formed: blocks never overlap, vanish or leave their area unless removed, a refused operation changes nothing, the areas inside a block belong to that block alone, every change advances the generation, and saving and restoring reproduces the program.",
  ["histories"], "all operation sequences up to a depth over a small board and a small set of block types",
  "Tests apply a few scripted edits.",
  ["src/wblockdsp/language.rs"],
  [("area editing", "BlockFun, BlockArea")],
  observe=["BlockFun::block_at / area queries / save_snapshot"],
  technique="exhaustive enumeration of edit sequences on the real block editor, with a well-formedness invariant and reference board",
  note="Complete over the enumerated sequences.")

p("C24", "A block program computes what its blocks say",
  "A compiled block program computes, sample by sample, what the drawn blocks define, whatever their placement and the order of their ports: each block is evaluated once per sample, the ends of the program from top to bottom, variables keep their value within the sample and `*` variables from sample to sample; every block and variable the language offers does what it stands for at every output of the Code node it belongs to; a program that cannot be compiled is reported and leaves the previously running program playing.",
  ["programs"], "all small block programs of arithmetic/variable/input/output blocks in all placements of a small board; short histories of good and bad programs",
  "Tests compile a few fixed programs.",
  ["src/wblockdsp/compiler.rs", "src/wblockdsp/definition.rs", "src/wblockdsp/language.rs", "src/dsp/node_code.rs"],
  [("AST generation and JIT", "Block2JITCompiler"), ("hand over", "NodeConfigurator::check_block_function, CodeEngine")],
  observe=["audio output of the Code node"],
  technique="exhaustive enumeration of small block programs on the real compiler and JIT, against a reference evaluator",
  note="Complete over the enumerated programs.")

p("C26", "A user supplied DSP node is handed over whole and exactly once",
  "Every audio block of a placed Rust1x1 instance is processed exactly once, with all its frames, by exactly one user supplied node: the one installed last for that instance before the block began, or one installed while the block ran, and never by one that was replaced or installed for another instance. A supplied node is told the sample rate in force before it processes and whenever the rate changes, and is dropped exactly once, never on the audio thread or while it processes.",
  ["schedules", "histories"], "all sequences of install/replace/remove/audio steps up to a depth over two instances",
  "Tests install once.",
  ["src/dsp/node_rust.rs", "src/nodes/node_conf.rs"],
  [("swap of boxed node", "SharedNode1x1 / DynNode1x1 in src/dsp/node_rust.rs")],
  observe=["calls recorded by the supplied node", "drop thread id"],
  technique="exhaustive enumeration of install/replace/audio histories on the real engine with recording nodes",
  note="Complete over the enumerated histories.")

p("C27", "The sample player reproduces the loaded sample",
  "The sample player outputs the part of the loaded sample chosen by offs and len, forward or backward (mirrored, at a distance of the position from the end), once or looped as set, at the chosen speed and the sample's own rate, with the chosen fades, restarting at the frame of a trigger, and never reads outside the part; without a sample of at least two values it is silent. Loading a sample file yields exactly the first channel of the file (its first 60 seconds) or an error, and a file that cannot be loaded is reported.",
  ["inputs", "configurations"], "all combinations of mode, direction, small sample lengths including empty, start/length settings and trigger positions; all small files and damaged files",
  "Tests play two sample files in a few modes.",
  ["src/dsp/node_sampl.rs", "src/sample_lib.rs"],
  [("sample reader", "Sampl::play/next_sample"), ("file loading", "SampleLibrary::load")],
  observe=["audio output", "SampleLibrary::load"],
  technique="exhaustive enumeration of sampler configurations and small samples on the real node, against a reference reader",
  note="Complete over the enumerated configurations.")

p("C28", "The chain builder places the chain described, with its parameters",
  "Placing a described chain puts exactly the described cells, in order, along the given directions from the start cell, each with the described input and output, and leaves every other cell alone. Every link gets a node instance that is not in use, and no two links get the same one. Every given parameter is applied to the instance that was placed and to no other. An unknown node, input, output or parameter name anywhere in the description is returned as an error by placing, without any effect on the matrix and without a panic.",
  ["programs", "configurations"], "all chains of up to three links over several node types and directions from every start cell; all subsets of instances already in use; all positions of a bad name in a description",
  "Tests and docs place a few chains on an empty matrix.",
  ["src/chain_builder.rs", "src/matrix.rs", "src/nodes/node_conf.rs"],
  [("placement", "MatrixCellChain::place"), ("unused instance selection", "Matrix::get_unused_instance_node_id"), ("description errors", "MatrixCellChain::node_io/set_denorm/set_norm/set_atom")],
  observe=["Matrix cells", "get_param", "result of MatrixCellChain::place"],
  technique="exhaustive enumeration of chains, directions and prior matrices on the real builder, against a reference placement",
  note="Complete over the enumerated chains; which instances are in use is known to the builder once the layout was synced; links that fall outside the matrix are not placed.")

p("C29", "All running nodes use the sample rate last set",
  "For every order of creating nodes, setting the sample rate and processing audio, every node that runs afterwards computes with the sample rate set last.",
  ["schedules", "configurations"], "all interleavings of set-rate, node creation, upload and audio steps for every node type",
  "Tests set the rate once before anything runs.",
  ["src/nodes/node_exec.rs", "src/nodes/node_conf.rs"],
  [("rate distribution", "NodeExecutor::set_sample_rate, GraphMessage::NewNode handling")],
  observe=["audio output vs an engine whose rate was set first"],
  technique="exhaustive enumeration of set-rate/create/upload/process interleavings, differential against the canonical order",
  note="Complete over the enumerated orders.")

p("C30", "Feedback shown to the user belongs to the node and output asked for",
  "The LED, phase and output values shown for a node are those that node and output produced last, for every history of placing, removing, clearing, loading and rendering and for every number of nodes; a value is never shown for another node or for a node of an earlier patch, and asking for a node or output that does not exist answers neutrally. A filtered value is the largest negative and positive value of that node's last ten samples, one taken for each round of updating in which it is asked for.",
  ["histories", "configurations"], "all histories up to a depth of placing, removing, loading, clearing and rendering (with and without taking over the pending layout) over several nodes, queried for every node and output in every state; patches of every size up to several hundred nodes; all orders of rendering, updating and querying",
  "Tests read a few values in fixed patches.",
  ["src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs", "src/nodes/feedback_filter.rs", "src/nodes/visual_sampling_filter.rs", "src/matrix.rs"],
  [("feedback buffers", "NodeProg output feedback triple buffer, node_ctx_values"), ("filtered feedback", "FeedbackFilter, VisualSamplingFilter")],
  observe=["out_fb_for, led_value_for, phase_value_for, filtered_led_for, filtered_out_fb_for"],
  technique="exhaustive enumeration of layout, rendering and query histories on the real engine, against the values the nodes produced",
  note="Complete over the enumerated histories; the triple buffer (external crate) is trusted.")

p("C31", "Questions about the grid and its connections agree with its cells",
  "Everything the matrix answers about its geometry and connections follows from its cells: neighbouring cells are those of the hexagonal grid, directions and their opposites fit together, a path between two cells consists of neighbouring steps and arrives, the connections, connected ports, free neighbours, unconnected ports, adjacent outputs and edge labels reported for a cell are exactly those its own and its neighbours' ports define, at the borders too; editing a cell's edge or saving and restoring it changes only what was asked for.",
  ["configurations", "inputs"], "all pairs of cells of several grid sizes, all directions, all port assignments of a cell and its neighbours over small node sets, all edge edits of a cell",
  "Tests look at a few neighbours and one labelled edge.",
  ["src/cell_dir.rs", "src/matrix.rs"],
  [("grid geometry", "CellDir::offs_pos/as_offs/path_from_to/are_adjacent"), ("connection queries", "Matrix::get_connections/get_adjacent/get_adjacent_output/edge_label, Cell::is_port_dir_connected/find_all_adjacent_free/find_unconnected_ports"), ("edge edits", "Cell::set_io_dir/clear_io_dir/set_input_by_name/set_output_by_name")],
  observe=["return values of the queries"],
  technique="exhaustive enumeration of grid positions, directions and cell port assignments on the real matrix, against plane geometry and the cells",
  note="Complete over the enumerated grids and port sets.")

p("C32", "An observer is told about every change",
  "A client that mirrors the matrix and re-reads only what the notifications name always agrees with it: every parameter or modulation amount change sends one notification naming that parameter, every property change one naming that property, choosing a cell to monitor one with that cell, publishing a layout one about the matrix (and the monitored cell if it is refreshed), clearing and loading end with one about everything; refused or rolled back edits send none. The generation counter grows with every such change and not with a refused one. The chosen cell stays monitored until another is chosen or the matrix is cleared. MIDI events are handed to the observer registered at that time, once each and in order.",
  ["histories"], "all operation sequences up to a depth over the editing operations from an empty and from a running matrix; all orders of injecting, rendering and handing out MIDI events",
  "Tests check the generation counter and a few notifications in one fixed order.",
  ["src/matrix.rs", "src/nodes/node_exec.rs", "src/nodes/node_conf.rs"],
  [("notifications", "MatrixObserver calls in src/matrix.rs"), ("generation counter", "Matrix::gen_counter"), ("MIDI events to the frontend", "NodeExecutor::feed_midi_events_from, Matrix::handle_graph_events")],
  observe=["recorded notifications, get_generation and matrix state"],
  technique="exhaustive enumeration of operation sequences with a mirroring observer on the real matrix",
  note="Complete over the enumerated sequences; placed cells count as changed once published; modulation amounts are set while no unpublished cells are pending.")

p("C15", "The oscilloscope shows exactly what its inputs carried",
  "While a scope's time, threshold and trigger source stay constant, its 512 shown stretches per input are the exact minima and maxima of successive stretches of that input's signal, each covering the displayed time divided by 512 (below one frame each: the frames repeated accordingly), none lost, repeated or mixed with other inputs or other scopes. Free running, each recording starts where the previous one ended; with a trigger (the trigger input, or the first input crossing the threshold upwards), a recording starts only at a trigger, and what is shown afterwards begins there; triggers during a recording change nothing. The offset, gain, threshold and marker settings shown are those of the node. All this at every sample rate, block size and number of running scopes.",
  ["inputs", "schedules", "configurations"], "all displayed times, sample rates and block partitions of a table, all trigger words of a length on both trigger sources, triggers at every frame around the end of a recording, settings of up to eight scopes",
  "Tests compare a handful of shown values for one constant block size and two displayed times.",
  ["src/dsp/node_scope.rs", "src/scope_handle.rs"],
  [("recording", "Scope::process"), ("shared buffers", "ScopeHandle")],
  observe=["ScopeHandle::read, is_active and the settings"],
  technique="exhaustive enumeration of display times, block partitions and trigger words on the real engine with frame-numbering input signals, against reference stretches",
  note="Complete over the enumerated tables. A restart may begin at the trigger frame or the one after; below 512 frames the displayed time is quantized to whole copies.")

p("C33", "No signal makes a node panic, hang or put out something that is not a number",
  "Whatever values the inputs of a node have or whatever signals within their documented ranges drive them, in any setting and at every usual sample rate from 44.1 kHz on, rendering neither panics nor overflows nor fails to terminate, and every output sample is a finite number. Signals outside of the documented ranges (any signal between -1 and 1 on any input) do not make it panic or hang either.",
  ["inputs", "configurations"], "all node types in every setting with every pair (and triple) of their inputs at all combinations of lowest value, highest value and extreme signals",
  "Tests run each node with a few moderate settings.",
  ["src/dsp/mod.rs", "src/dsp/node_sfilter.rs", "src/dsp/node_fvafilt.rs", "src/dsp/node_biqfilt.rs", "src/dsp/node_pverb.rs", "src/dsp/node_delay.rs", "src/dsp/node_sampl.rs", "src/dsp/node_formfm.rs", "src/dsp/node_vosc.rs", "src/dsp/node_bosc.rs", "src/dsp/node_bowstri.rs"],
  [("rendering", "DspNode::process of every node")],
  observe=["audio output of the nodes"],
  technique="exhaustive enumeration of extreme input combinations for every node and setting on the real engine, checking every sample",
  note="Complete over the enumerated combinations. Known finding: the 24 dB Moog filter with an extremely modulated cutoff.")

p("C34", "Amp, Mix3, Map, SMap, Mux9, Quant, CQnt, Inp and Out compute their functions",
  "In every frame and for every input value: the amplifier multiplies by gain and attenuation (negative values as its setting says); the mixer adds its inputs with their gains and offsets; the range mappers map linearly between the given ranges, clipped or not as set; the switch passes exactly one of its inputs, the one the slot signal names or the triggers and the input count select; the quantizers give the nearest (or, for CQnt, evenly distributed) selected key in the given octave, never one that is not selected, and a change trigger exactly when the pitch changes; Inp and Out pass the audio channels unchanged times gain, mono or stereo as set. The result does not depend on the block size.",
  ["inputs", "configurations"], "all combinations of tabulated input values for every setting and block partition, all trigger words of a length for the switch, all (quick: a subset of) 4096 key masks for the quantizers",
  "Tests check single values with default settings.",
  ["src/dsp/node_amp.rs", "src/dsp/node_mix3.rs", "src/dsp/node_map.rs", "src/dsp/node_smap.rs", "src/dsp/node_mux9.rs", "src/dsp/node_quant.rs", "src/dsp/node_cqnt.rs", "src/dsp/node_inp.rs", "src/dsp/node_out.rs"],
  [("per frame functions", "DspNode::process of each node")],
  observe=["audio output of the nodes"],
  technique="exhaustive enumeration of tabulated inputs, settings, key masks and trigger words on the real engine, against the documented functions",
  note="Complete over the tables; exact switching borders, ties and empty input ranges are not judged.")

p("C35", "Envelopes, LFO, delays and the random walker keep their times and shapes",
  "With constant parameters: every trigger (rising gate) starts the envelope's attack at once from the level reached so far, each stage takes its set time (the attack the part of it that remains), goes monotonically (linearly for the middle shape) from its start to its target times the input level, ADSR holds the sustain level until the gate falls, and one end trigger follows each completed envelope and none otherwise. The LFO is a triangle/saw of the set period and turning point between 0 and 1, restarted by triggers. An impulse into the delay, comb and allpass returns at multiples of the set (or clocked) time with the heights that feedback and mix dictate and nowhere else. The random walker moves only on triggers, by at most its step and offset, stays within its range and keeps its slew limit. None of it depends on the block size.",
  ["inputs", "histories", "configurations"], "all trigger or gate words of a length for all combinations of tabulated times, shapes, levels, sample rates and block partitions; the impulse responses for all combinations of tabulated times, feedbacks and mixes",
  "Tests compare recorded samples of a few settings and one trigger.",
  ["src/dsp/node_ad.rs", "src/dsp/node_adsr.rs", "src/dsp/node_tslfo.rs", "src/dsp/node_delay.rs", "src/dsp/node_comb.rs", "src/dsp/node_allp.rs", "src/dsp/node_rndwk.rs"],
  [("stages", "Ad/Adsr::process"), ("phase", "TsLFO::process"), ("delay lines", "Delay, Comb, AllP process"), ("random walk", "RndWk::process")],
  observe=["audio output of the nodes"],
  technique="exhaustive enumeration of trigger/gate words, parameter tables and block partitions on the real engine, against stage, phase and echo descriptions",
  note="Complete over the tables; times are judged to two frames (per round of a delay loop).")

p("C36", "Oscillators, noise and external parameters put out what their settings name",
  "Every oscillator puts out exactly the waveform its settings name at the set frequency plus detune, with a phase that advances by frequency / sample rate per frame and never jumps, also while waveform, frequency or modulation change in the middle of a run: the sine, the four band limited waveforms with their pulse width, the formant oscillator with its formant and attack/decay slopes, the phase distorting oscillator with its damping and overdrive; the bowed string sounds the set pitch. Noise fills the range its mode, attenuation and offset name, evenly. The external parameter nodes put out the values of their own parameters, slewed and attenuated as set.",
  ["inputs", "histories", "configurations"], "all combinations of tabulated frequencies, detunings, settings, modulations, sample rates and block partitions; all pairs of waveforms switched in a run",
  "Tests compare the spectrum or some samples of single settings.",
  ["src/dsp/node_sin.rs", "src/dsp/node_bosc.rs", "src/dsp/node_vosc.rs", "src/dsp/node_formfm.rs", "src/dsp/node_noise.rs", "src/dsp/node_bowstri.rs", "src/dsp/node_ext.rs"],
  [("waveforms", "process of Sin, BOsc, VOsc, FormFM"), ("noise", "Noise::process"), ("external values", "ExtA to ExtF process")],
  observe=["audio output of the nodes"],
  technique="exhaustive enumeration of tabulated settings, parameters, switches and block partitions on the real engine, against reference waveforms",
  note="Complete over the tables. Start phases of BOsc and VOsc are not promised; the bowed string is judged by its pitch.")

p("C37", "Filters pass what type, cutoff and resonance say; the reverb keeps its settings",
  "Each filter type passes every frequency with the gain of its transfer function for the set cutoff and resonance at every sample rate (the one pole, state variable, Hal Chamberlin, Simper and biquad types exactly, the Moog and the virtual analog types in pass band, stop band and slope), linear types are linear, stereo channels stay apart, and what type, mode, cutoff or sample rate were set before does not matter for how the filter sounds with the current ones. The reverb puts out the crossfade the mix names between its input and the reverb sound of the current values of its twelve parameters; with one input connected it is heard on both sides, the pre-delay moves the response as a whole, decay and the cutoffs act in their direction.",
  ["inputs", "histories", "configurations"], "all combinations of types, modes, tabulated cutoffs, resonances, sample rates and block partitions; all pairs of virtual analog modes and of filter types after one another, with changes of the sample rate",
  "Tests print or compare the response of some types for one cutoff at one rate and never change the type in a run.",
  ["src/dsp/node_sfilter.rs", "src/dsp/node_biqfilt.rs", "src/dsp/node_fvafilt.rs", "src/dsp/node_pverb.rs"],
  [("types", "SFilter::process"), ("biquads", "BiqFilt::process"), ("virtual analog", "FVaFilt::process, set_sample_rate"), ("reverb", "PVerb::process")],
  observe=["audio output of the nodes"],
  technique="exhaustive enumeration of types, modes, parameters and setting histories on the real engine, comparing whole impulse responses with transfer functions or with the filter of the DSP crate driven directly",
  note="Complete over the tables. The Moog type is judged up to a resonance of 0.3; the virtual analog and reverb cores are those of the synfx-dsp crate.")

p("C38", "Log messages arrive whole, once and in order",
  "For every schedule of logging threads and retrieval, each retrieved message is exactly one message some thread logged (messages of up to 510 bytes unchanged, longer ones cut at a character), carries that thread's name, comes in the order that thread logged in and at most once. A message is missing only if its thread's queue had no room for it; messages are never merged or split, and no log or retrieve call panics, whatever bytes were logged.",
  ["schedules", "inputs", "fault placements"], "all schedules of two loggers and a receiver at the granularity of queue operations up to a preemption bound; all message lengths around the limits, all fill levels of the queue, all single bytes and cut characters, nested log calls",
  "Tests log a few short messages in one thread and retrieve them afterwards.",
  ["src/log.rs"],
  [("logging", "Log::log, Log::log_buf, hexodsp::log"), ("retrieval", "LogReceiver::retrieve_messages")],
  state=[("producer/consumers", "one byte queue per registered thread", "src/log.rs")],
  observe=["messages retrieved", "panics"],
  technique="exhaustive enumeration of thread schedules on the real code with a controlled scheduler that switches at every ring buffer operation, bounded by preemptions",
  note="A ring buffer operation is atomic (external crate, built from a vendored copy that only adds a call back before each operation).")

p("C39", "Preview graphs show the node's envelope or waveform",
  "The curve a node's preview graph draws depends only on the current settings of that node, not on what was drawn before or in between, and is the node's envelope or waveform: attack and decay of Ad with their shapes rise to and fall from 1 in proportion to the settings, the four stages of Adsr are drawn with their times, sustain level and shapes, BOsc and VOsc show their waveform with the set wave type, pulse width, distortion and damping, TsLFO shows its ramp with time and reverse point. Envelopes and the LFO stay within 0 to 1.",
  ["inputs", "histories"], "all combinations of tabulated settings per node, all pairs of curves drawn after one another",
  "No test looks at more than one preview graph.",
  ["src/dsp/node_ad.rs", "src/dsp/node_adsr.rs", "src/dsp/node_bosc.rs", "src/dsp/node_vosc.rs", "src/dsp/node_tslfo.rs"],
  [("graphs", "graph_fun of Ad, Adsr, BOsc, VOsc, TsLFO")],
  observe=["points of the curve"],
  technique="exhaustive enumeration of settings and of drawing histories on the real functions, compared with a reference envelope or waveform",
  note="Complete over the tables.")


NA = {}
DONE = set(open(os.path.join(os.path.dirname(__file__), "done.txt")).read().split())
out = os.path.join(os.path.dirname(__file__), "..")
with open(os.path.join(out, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[], notes="All checks run the single harness binary built from /verif/harness against /repo's working tree; see DESIGN.md.")
for q in P:
    if q["id"] in DONE:
        man["checks"].append(dict(property=q["id"], quick_cmd=f"bash /verif/run.sh {q['id']} quick", thorough_cmd=f"bash /verif/run.sh {q['id']} thorough",
            evidence_file=f"evidence/{q['id']}.json", technique=q["_t"], level="fault_enumeration" if q["id"] in ("C10","C11") else "model_checking", level_note=q["_n"]))
    else:
        man["not_applicable"].append(dict(property=q["id"], reason=NA.get(q["id"], "check not built yet")))
json.dump(man, open(os.path.join(out, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
