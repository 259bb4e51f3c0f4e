package main

func init() {
	parse := []string{"storage and network behind the io.Reader (the reader itself is the simulated component)"}
	register(&Prop{ID: "C01", Level: "exploration", Gen: genC01, Run: runC01, Quick: 7000, Stubs: parse,
		Rule: "one run = one generated or real map delivered 1-3 times under seeded delivery faults and once as a byte slice; every record compared with the map specification, and all deliveries bit by bit with each other; non-trivial = some read was short or empty; distinct by the hash of map content and read history"})
	register(&Prop{ID: "C02", Level: "exploration", Gen: genC02, Run: runC02, Quick: 20000, Stubs: parse,
		Rule: "one run = one map read 1-4 times, the reader failing at a seeded byte offset with a seeded error kind, or one over-long line; non-trivial = the failure was delivered; distinct by the hash of executed steps and fail offsets"})
	register(&Prop{ID: "C03", Level: "exploration", Gen: genC03, Run: runC03, Quick: 4000, Stubs: parse,
		Rule: "one run = one map text stored in 4 encodings with seeded line ends, each delivered with seeded splits (biased to land inside characters, surrogate pairs, byte-order mark and line ends), each compared with the specification and with the others; distinct by content and execution hash"})
	register(&Prop{ID: "C04", Level: "exploration", Gen: genDamaged, Run: runC04, Quick: 24000, Stubs: parse,
		Rule: "one run = one map with 1-6 seeded storage faults parsed within a step and allocation budget, and if accepted evaluated by all four calculation entry points under two settings; distinct by damaged bytes and execution hash"})
	register(&Prop{ID: "C05", Level: "fault_enumeration", Gen: genC05, Run: runC05, Quick: 6000, Stubs: parse,
		Rule: "one run = one map cut off at 12 seeded byte offsets (biased to record ends), every hundredth run at every byte offset; the surviving records are compared with the specification of the prefix; distinct by content, offsets and execution hash"})
	register(&Prop{ID: "C06", Level: "exploration", Gen: genC06, Run: runC06, Quick: 36000, Stubs: parse,
		Rule: "one run = one map with the content of seeded lines overwritten, compared record by record with the specification of the undamaged rest; distinct by content and execution hash"})
	register(&Prop{ID: "C07", Level: "exploration", Gen: genC07, Run: runC07, Quick: 4000, Race: true,
		Rule: "one run = 2-6 simulated callers on one shared beatmap under a seeded preemptive schedule (preemption possible at every statement of the library), each result compared bit by bit with a solo run on a fresh copy with process state reset; part of the runs execute under the race detector with the scheduler's own synchronisation hidden from it; non-trivial = at least one preemption inside a calculation; distinct by schedule hash"})
	register(&Prop{ID: "C08", Level: "exploration", Gen: genC08, Run: runC08, Quick: 5000, Race: true, Stubs: parse,
		Rule: "one run = 1-4 simulated callers parsing the same or different files, some failing, damaged or panicking in the reader, under a seeded preemptive schedule; each result compared with a solo parse from pristine process state, then each beatmap is scrambled and the others are re-checked; non-trivial = at least two parses; distinct by schedule hash"})
	register(&Prop{ID: "C09", Level: "exploration", Gen: genC09, Run: runC09, Quick: 5000,
		Rule: "one run = one seeded history of calculations, settings changes, playback queries and re-parses on 1-3 maps; each result compared with a fresh parse in pristine process state, and the map's full state after every step with its state before; distinct by execution hash"})
	register(&Prop{ID: "C10", Level: "exploration", Gen: genC10, Run: runC10, Quick: 50000,
		Rule: "one run = seeded histories of setter calls of one or more simulated callers, interleaved, each difficulty compared bit by bit after every step with a fresh one built from its final values; distinct by execution hash"})
	register(&Prop{ID: "C11", Level: "exploration", Gen: genC11, Run: runC11, Quick: 36000,
		Rule: "one run = seeded histories of evaluations by one or more callers with reused calculators, interleaved, each compared with a new calculator, earlier values re-checked at the end; distinct by execution hash"})
	register(&Prop{ID: "C12", Level: "exploration", Gen: genC12, Run: runC12, Quick: 9000,
		Rule: "one run = one map rated step by step and compared at seeded stopping points with the full rating of the map ended there, and all entry points with each other; distinct by execution hash"})
	register(&Prop{ID: "C13", Level: "exploration", Gen: genC13, Run: runC13, Quick: 24000,
		Rule: "one run = seeded playback clocks (running, stalling, seeking, jumping backwards) of 1-4 simulated players, interleaved, querying timing points and positions, compared with a reference model and with fresh single queries; distinct by schedule and execution hash"})
	register(&Prop{ID: "C14", Level: "exploration", Gen: genC14, Run: runC14, Quick: 5000, Stubs: parse,
		Rule: "one run = a seeded interleaving of parses, calculations and overwriting of caller memory (input bytes, read buffers, returned lists), every value held re-checked afterwards; distinct by schedule and execution hash"})
	register(&Prop{ID: "C15", Level: "exploration", Gen: genDamaged, Run: runC15, Quick: 60000, Stubs: parse,
		Rule: "one run = one map with 1-6 seeded storage faults; if accepted, the structure of the beatmap and its ratings are checked; non-trivial = accepted; distinct by damaged bytes and execution hash"})
	register(&Prop{ID: "C16", Level: "exploration", Gen: genC16, Run: runC16, Quick: 14000,
		Rule: "one run = 1-3 simulated editors, interleaved, adding timing points in seeded order and steps, finalizing, applying the timing to the hit objects, playing and calculating in between; after every finalize all lookups are compared with a linear-scan model, and after every application the hit objects and ratings with a parse of the same map holding all points from the start in pristine process state; non-trivial = at least two applications; distinct by schedule and execution hash"})
	register(&Prop{ID: "C17", Level: "exploration", Gen: genC17, Run: runC17, Quick: 9000, Stubs: parse,
		Rule: "one run = one map whose sections are taken apart into pieces and whose records are written in 1-3 other seeded orders, delivered with seeded reader behaviour, each compared with the specification and bit by bit with the map in the editor's order; distinct by content and execution hash"})
	register(&Prop{ID: "C18", Level: "exploration", Gen: genC18, Run: runC18, Quick: 36000,
		Rule: "one run = 1-3 simulated players, interleaved on shared maps, each playing, failing, abandoning and retrying with seeded player faults (100s, 50s, misses, slider breaks, dropped slider ends) or a long play given by its counts; after every object the performance is compared with that of a flawless play, of the counts left out, and of plays with one more fault; non-trivial = at least two ratings; distinct by schedule and result hash"})
	register(&Prop{ID: "C19", Level: "exploration", Gen: genC19, Run: runC19, Quick: 30000, Race: true,
		Rule: "one run = 1-3 simulated callers, interleaved, writing mod sets as text and reading them back, reading text damaged by seeded storage faults (cut off, overwritten, flipped bits, zeroed, lost, inserted and repeated bytes, wide characters), and asking which sets exclude each other, each compared with a table of the mods, difficulty settings and ratings compared with those of the set itself; distinct by schedule and result hash"})
	register(&Prop{ID: "C20", Level: "exploration", Gen: genC20, Run: runC20, Quick: 10000, Stubs: parse,
		Rule: "one run = one map saved by 1-4 simulated programs one after another, each adding foreign sections, keys, storyboard events, comments, blank lines and fields at seeded places, delivered with seeded reader behaviour after every save and compared with the specification and bit by bit with the map without them; distinct by content and execution hash"})
	register(&Prop{ID: "C21", Level: "exploration", Gen: genC21, Run: runC21, Quick: 16000, Race: true, Stubs: parse,
		Rule: "one run = 1-3 simulated callers, interleaved, each opening 1-3 files one after another with a text reader or a line scanner and reading them in seeded sizes, to the end or abandoned, while the storage below splits, delays, stalls and fails; text, lines, end and error compared with a reference decoding; non-trivial = some read was short or empty; distinct by schedule and result hash"})
	register(&Prop{ID: "C22", Level: "exploration", Gen: genC22, Run: runC22, Quick: 14000, Race: true,
		Rule: "one run = 1-3 simulated callers, interleaved on one map, each driving up to six skills over the objects in turns and asking for values, strain peaks and previous objects and overwriting lists in between; every answer compared with that of a skill asked only once, on a fresh parse in pristine process state, and with the calculations; non-trivial = something was asked; distinct by schedule and result hash"})
}
