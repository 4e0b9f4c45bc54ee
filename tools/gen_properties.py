#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

SMOKE = "The stable tests run a random generator for one second per allocator with the in-tree checker as the only oracle; it always uses one register file, three fixed classes, no dedicated scratch register, no Limit/Stack constraints and one block layout."

prop("P01", "Backtracking allocator preserves dataflow",
 "For every well-formed function, the backtracking allocator's output makes every use read, on every control-flow path, exactly the value that the input program's definitions and block parameters give to that operand. Moves inserted for splits, spills, reloads, evictions, control-flow edges, block parameters, reused inputs and multiply-constrained values together implement the original program, and no value is read from a location that has been overwritten since.",
 ["programs", "configurations"], "every SSA function (CFG, operands, constraints, clobbers, block parameters), every machine environment, every path through the allocated code",
 SMOKE, ["src/ion/mod.rs", "src/ion/liveranges.rs", "src/ion/merge.rs", "src/ion/process.rs", "src/ion/spill.rs", "src/ion/moves.rs", "src/ion/requirement.rs", "src/ion/data_structures.rs", "src/cfg.rs"],
 [("liverange construction", "ion/liveranges.rs build_liveranges"), ("bundle merging", "ion/merge.rs"), ("split/evict/spill loop", "ion/process.rs process_bundle"), ("spillslot sharing", "ion/spill.rs"), ("edge, in-block and fixup moves", "ion/moves.rs apply_allocations_and_insert_moves")],
 [("Output.allocs/edits", "the allocated program", "src/lib.rs Output")], ["Output of run()/run_with_ctx()"])

prop("P02", "Single-pass allocator preserves dataflow",
 "For every well-formed function, the single-pass (fast) allocator's output makes every use read, on every control-flow path, exactly the value that the input program's definitions and block parameters give to that operand. No value is read from a location that has been overwritten since it was put there.",
 ["programs", "configurations"], "every SSA function within the fast allocator's documented feature set, every machine environment, every path through the allocated code",
 SMOKE, ["src/fastalloc/mod.rs", "src/fastalloc/iter.rs", "src/fastalloc/lru.rs", "src/fastalloc/vregset.rs"],
 [("reverse scan with lazily assigned spillslots", "fastalloc/mod.rs alloc_inst"), ("branch blockparam and livein placement", "fastalloc/mod.rs process_branch, reload_at_begin"), ("eviction/LRU", "fastalloc/mod.rs evict_vreg_in_preg, lru.rs")],
 [], ["Output of run() with Algorithm::Fastalloc"])

prop("P03", "Every operand gets an allocation that satisfies its constraint",
 "In every successful allocation by either algorithm, each operand has exactly one allocation, and it satisfies that operand's constraint: a register operand gets an allocatable register of its class, a limited operand a register below its limit, a fixed operand exactly its register or fixed stack location, a stack operand a stack location, and a reusing definition the very same register as the input it reuses. Operands naming a non-allocatable register are given exactly that register, and multiple definitions of one value in one instruction get one common location.",
 ["programs", "configurations"], "every function mixing operand constraints (including several different constraints on one value in one instruction) and every machine environment",
 SMOKE + " Limit, Stack, multiple-definition mode and their combinations are never generated.",
 ["src/ion/requirement.rs", "src/ion/liveranges.rs", "src/ion/moves.rs", "src/ion/process.rs", "src/ion/reg_traversal.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("requirement merging", "ion/requirement.rs"), ("multi-fixed-register fixups", "ion/liveranges.rs fixup_multi_fixed_vregs, ion/moves.rs"), ("fastalloc operand allocation", "fastalloc/mod.rs allocate_operand")],
 [], ["Output::inst_allocs"])

prop("P04", "Operands, clobbers and reserved registers never collide",
 "Within one instruction, no two operands that are live at the same moment share a location unless they are the same value: early definitions are disjoint from all uses, late uses from all definitions, definitions from each other, and no early definition, late use or definition sits in a clobbered register. No value is ever kept in a clobbered register, in a dedicated scratch register or in an unlisted register across an instruction, and no inserted move writes a register outside the listed, scratch and fixed-stack sets.",
 ["programs", "configurations"], "every function with early/late operands, dead definitions and clobbers, and every machine environment",
 SMOKE + " The in-tree checker used there does not look at early-definition overlap.",
 ["src/ion/liveranges.rs", "src/ion/process.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("early/late liverange extension", "ion/liveranges.rs"), ("clobber reservations", "ion/liveranges.rs add_liverange_to_preg"), ("available register sets per operand position", "fastalloc/mod.rs available_pregs")],
 [], ["Output.allocs", "Output.edits"])

prop("P05", "Inserted moves are well formed, ordered and executable",
 "Inserted moves are sorted by program point and lie inside the function, never connect two stack locations (spill slots or fixed stack slots), never mix register classes, never read an undefined location for a value that is later used, and never appear after a block's terminating instruction. Walking a block yields every inserted move of that block exactly once, in order, at its point, interleaved with every instruction exactly once.",
 ["programs", "configurations"], "every function, both algorithms, with and without dedicated scratch registers and fixed stack slots",
 SMOKE, ["src/ion/moves.rs", "src/fastalloc/mod.rs", "src/moves.rs", "src/lib.rs"],
 [("edit ordering by point and priority", "ion/moves.rs InsertMovePrio; fastalloc Edits"), ("stack-to-stack breakup", "src/moves.rs MoveAndScratchResolver"), ("block iteration", "src/lib.rs block_insts_and_edits/OutputIter")],
 [], ["Output.edits", "Output::block_insts_and_edits"])

prop("P06", "Spill slots are in the frame, aligned, sized and never overlap live values",
 "Every spill slot mentioned in an output lies entirely within the reported frame size, is aligned to its class's slot size and is named by its first or last unit as the client requested. Two values live at the same time never occupy overlapping slot units, whatever their classes and slot sizes.",
 ["programs", "configurations"], "every function with spills, every assignment of slot sizes to classes, both naming conventions, both algorithms",
 "The smoke tests use a single set of slot sizes (1,1,2) and never the last-unit naming convention.",
 ["src/ion/spill.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("slot allocation", "ion/spill.rs allocate_spillslot / fastalloc Stack::allocstack"), ("slot probing and sharing", "ion/spill.rs allocate_spillslots")],
 [("Output.num_spillslots", "frame size in units", "src/lib.rs")], ["Output.num_spillslots", "Output.allocs", "Output.edits"])

prop("P07", "Every allocatable input is allocated, without panic or endless loop",
 "For every well-formed function whose constraints can be met instruction by instruction in the given machine environment, allocation terminates and returns an allocation rather than an error or a panic, however high the register pressure between instructions is. This holds for unreachable blocks, dead values, empty operand lists, any placement of spills and any of the documented environment features.",
 ["programs", "configurations"], "every feasible function and environment",
 SMOKE, ["src/ion/process.rs", "src/ion/liveranges.rs", "src/ion/spill.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("split-to-minimal fallback and eviction order", "ion/process.rs"), ("second-chance/spill fallback", "ion/spill.rs"), ("fixed/any operand order", "fastalloc/mod.rs")],
 [], ["run() result"])

prop("P08", "Impossible register demands are reported as an error",
 "When an instruction needs more registers at once than the environment offers, allocation returns the too-many-live-registers error; it neither panics nor loops nor returns an allocation that breaks a constraint. The error is never returned for an instruction whose demands can be met.",
 ["programs", "configurations"], "every combination of register-constrained operands, limits, fixed operands and clobbers at one instruction, under every small environment",
 "No stable test exercises the error path; the random environment has 32 registers per class, so demands are always met.",
 ["src/ion/process.rs", "src/fastalloc/mod.rs"],
 [("TooManyLiveRegs detection", "ion/process.rs process_bundle; fastalloc/mod.rs evict_any_reg/alloc_reg_for_operand")], [], ["run() result"])

prop("P09", "SSA validation accepts exactly the valid functions",
 "With validation requested, a function is rejected with an error if any value is defined twice, is used where its definition does not dominate the use, is used with an out-of-range number, or is passed to a block parameter without dominating the branch or in the wrong number, if a block does not end in exactly one terminator, or if the entry block has block parameters. Every valid function is accepted, and validation never panics.",
 ["programs"], "every small function, valid or broken at one place",
 "The random generator only produces valid functions, so no stable test sees a rejection.",
 ["src/ssa.rs", "src/cfg.rs", "src/ion/liveranges.rs"],
 [("validate_ssa", "src/ssa.rs"), ("dominance queries", "src/domtree.rs dominates")], [], ["run() with validate_ssa"], None)

prop("P10", "Malformed control flow is rejected, well-formed control flow accepted",
 "A function with a critical edge (counting the entry block as having an implicit predecessor), with operands on a branch whose successor has several predecessors, or with a value live into the entry block is rejected with the corresponding error by the backtracking allocator, whatever the block order. Functions without these defects are never rejected for them.",
 ["programs"], "every control-flow graph up to a size bound and every placement of a branch operand or live-in value",
 "The random generator splits every critical edge first; no stable test sees these errors.",
 ["src/cfg.rs", "src/ion/liveranges.rs", "src/ssa.rs"],
 [("critical-edge and branch-argument checks", "src/cfg.rs CFGInfo::init"), ("EntryLivein", "ion/liveranges.rs compute_liveness")], [], ["run() result"])

prop("P11", "A reused context gives the same result as a fresh one",
 "Running the allocator with a reused context gives exactly the result (output or error) that a fresh context gives for the same function, environment and options, whatever sequence of earlier runs, including failed runs, runs of the other algorithm and runs whose output was taken out, the context has been through. The result of a run never depends on earlier runs.",
 ["histories", "programs"], "every history of earlier runs over a set of functions and environments that differ in size, class use, errors and algorithm",
 "The smoke tests reuse one context but never compare with a fresh one, and never after an error.",
 ["src/ion/mod.rs", "src/ion/data_structures.rs", "src/cfg.rs", "src/lib.rs", "src/ion/liveranges.rs"],
 [("Ctx reset on entry", "ion/mod.rs run, ion/data_structures.rs Ctx/PrioQueue/reset"), ("repopulate/cleared/preallocate", "src/lib.rs VecExt")],
 [("Ctx", "all allocator scratch state", "src/ion/data_structures.rs")], ["run_with_ctx() vs run()"])

prop("P12", "Results depend only on the inputs, not on logging or validation options",
 "Allocating the same function in the same environment twice gives identical outputs, and turning on verbose logging or SSA validation changes nothing in the result of a valid function. Adding debug-value labels changes neither allocations, nor inserted moves, nor the frame size.",
 ["programs", "configurations"], "every function, both algorithms, every option combination",
 "No stable test compares two runs.",
 ["src/ion/mod.rs", "src/ion/dump.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("annotations and dumps", "ion/dump.rs"), ("debug label processing", "ion/moves.rs, fastalloc/mod.rs")], [], ["run() result"])

prop("P13", "Parallel moves are sequentialised without losing a value",
 "Resolving a set of simultaneous moves produces a sequence which, executed one move at a time, leaves every destination with the value its source held at the start. Locations that are neither destinations nor the scratch keep their values, and a scratch location is used only when the moves contain a cycle.",
 ["inputs"], "every set of simultaneous moves with distinct destinations over up to a bounded number of locations, including self-moves, fan-out and multiple cycles",
 "The smoke test samples move sets for one second.",
 ["src/moves.rs"], [("ParallelMoves::resolve", "src/moves.rs")], [], ["ParallelMoves::add/resolve"], "re-export of the private moves module")

prop("P14", "Scratch and stack-to-stack resolution is exact and non-destructive",
 "Turning a sequential move list into executable moves removes every stack-to-stack move and every abstract scratch use while still giving every destination its source's value and preserving all other locations that hold live values. It works for every combination of a dedicated scratch register, free registers and no free register at all, in which case a register is saved and restored around the move.",
 ["inputs", "configurations"], "every small move set over registers, fixed stack slots and spill slots, every subset of free registers, with and without a dedicated scratch register and a borrowable register",
 "The smoke test samples with one victim register and fresh scratch slots only.",
 ["src/moves.rs"], [("MoveAndScratchResolver::compute", "src/moves.rs")], [], ["MoveAndScratchResolver::compute"], "re-export of the private moves module")

prop("P15", "Redundant-move elimination never removes a needed move",
 "A move reported as redundant can be dropped without changing the contents of any location, for every sequence of moves, clobbers, definitions and instruction boundaries processed before it. Eliding moves never changes what any later use reads.",
 ["histories"], "every sequence of moves, definitions and clears up to a length bound over a small set of locations and values",
 "Only exercised indirectly by the smoke tests.",
 ["src/ion/redundant_moves.rs", "src/ion/moves.rs"], [("RedundantMoveEliminator", "ion/redundant_moves.rs")], [("allocs/reverse_allocs", "known copies", "ion/redundant_moves.rs")], ["process_move"], "re-export of the private module")

prop("P16", "Dominators, traversal order and loop depths are exact",
 "For every control-flow graph, reducible or not, the computed immediate dominators, dominance queries and postorder equal their definitions on the reachable part, and unreachable blocks are neither visited nor dominated. Block entry and exit points and the instruction-to-block mapping match the function's structure, and loop depths equal the number of enclosing loops in reducible functions whose loops are laid out contiguously.",
 ["programs"], "every directed graph with up to a bounded number of blocks, any entry block and any block order",
 "The smoke test samples random graphs for a second, always with entry block 0.",
 ["src/domtree.rs", "src/postorder.rs", "src/cfg.rs"], [("Cooper-Harvey-Kennedy iteration", "src/domtree.rs"), ("iterative postorder", "src/postorder.rs"), ("CFGInfo::init", "src/cfg.rs")], [], ["domtree::calculate", "postorder::calculate", "CFGInfo"], "re-export of private modules")

prop("P17", "The sparse index set behaves as a set",
 "Inserting, removing, querying, unioning, copying and iterating the sparse index set give the results of a mathematical set of integers under every sequence of operations. The change flag returned by union is exact, and behaviour is the same on either side of its small-to-large representation switch.",
 ["histories", "inputs"], "every operation sequence up to a bound over indices that share and do not share words, from states just below, at and above the representation switch",
 "One unit test covers one sequence.",
 ["src/indexset.rs"], [("AdaptiveMap small/large", "src/indexset.rs")], [("elems/cache", "word map with last-lookup cache", "src/indexset.rs")], ["IndexSet API"])

prop("P18", "Physical-register sets behave as sets",
 "Building, adding, adding a prefix, removing, intersecting, uniting, inverting, comparing, counting, finding the maximum and iterating physical-register sets agree with mathematical sets of (register, class) pairs, for all three classes and all hardware encodings. Operations never lose or invent members.",
 ["histories", "inputs"], "all registers of all classes at word boundaries, all operation sequences up to a bound",
 "Three unit tests check a handful of single-operation cases.",
 ["src/lib.rs"], [("PRegSet", "src/lib.rs")], [], ["PRegSet API"])

prop("P19", "Packed encodings round-trip and preserve order",
 "Registers, values, operands, allocations, spill slots, program points and index ranges give back every field they were constructed from, convert losslessly to and from their raw bit forms, and never alias two different values. Program points order exactly by instruction and then before/after, with next and previous as inverse steps; operand builder helpers produce the documented kind, position and constraint.",
 ["inputs"], "the full domain of small fields and boundary values of the large ones",
 "No stable test covers the encodings.",
 ["src/lib.rs", "src/index.rs"], [("Operand::new / accessors", "src/lib.rs"), ("Allocation, ProgPoint", "src/lib.rs"), ("InstRange and index macros", "src/index.rs")], [], ["constructors and accessors"])

prop("P20", "Reported debug-value locations are true (backtracking allocator)",
 "For every label, at every program point inside a reported range and on every path that reaches it, the reported location really holds the value the label was attached to. Reported ranges are sorted by label and point, disjoint within a label's requested range, non-empty, and cover only points that were requested. Every requested point before an instruction at which the value is live is covered. (A point before or after an instruction means the state after the moves inserted there.)",
 ["programs"], "every function, every set of label ranges, both spilled and split values",
 "The random generator attaches labels but nothing ever looks at the result for the backtracking allocator.",
 ["src/ion/moves.rs", "src/ion/liveranges.rs"], [("debug location emission", "ion/moves.rs apply_allocations_and_insert_moves")], [], ["Output.debug_locations"])

prop("P21", "Reported debug-value locations are true (single-pass allocator)",
 "For every label, at every program point inside a reported range and on every path that reaches it, the reported location really holds the value the label was attached to. Ranges are reported only for values and labels that were requested, each overlapping the requested range, are non-empty, and are sorted by label; a requested range that lies inside the life of a value used only in the block of its definition is reported. (The points after an instruction include every moment before, between and after the moves inserted there. Reporting in blocks that the definition does not dominate is a known finding.)",
 ["programs"], "every function, every set of label ranges, both spilled and evicted values",
 "Two unit tests with one straight-line function each.",
 ["src/fastalloc/mod.rs"], [("build_debug_info", "fastalloc/mod.rs")], [], ["Output.debug_locations"])

prop("P22", "The checker rejects every wrong allocation",
 "For every function and every candidate output for it, the checker reports an error whenever, on some path, a use would read a wrong or undefined value, an operand's constraint is not met, a value is read after a clobber destroyed it, or an inserted move connects two stack locations (spill slots or fixed stack slots). Early operands are judged against the state before the instruction, late operands against the state after it. Conflicting values arriving at a join from different predecessors are never mistaken for agreement.",
 ["programs", "inputs"], "every small function with every single change to a correct output (each allocation replaced, each move dropped, redirected, duplicated or reordered)",
 "The checker is only ever run on correct outputs; no stable test feeds it a wrong one.",
 ["src/checker.rs"], [("symbolic dataflow with meet", "src/checker.rs CheckerValue/CheckerState"), ("constraint checks", "src/checker.rs check_constraint")], [], ["checker::Checker"])

prop("P23", "The checker accepts every correct allocation",
 "For every well-formed function, the checker accepts the output of either allocator and every other output that implements the program, including outputs with extra copies or different but valid locations. It terminates on every control-flow graph, including loops and unreachable blocks, and never panics on a well-formed output.",
 ["programs", "inputs"], "every small function, with allocator outputs and with all correctness-preserving single changes to them",
 SMOKE, ["src/checker.rs"], [("symbolic dataflow with meet", "src/checker.rs")], [], ["checker::Checker"])

prop("P24", "A captured function behaves exactly like the original",
 "A captured (serializable) copy of a function and environment answers every query as the original does, survives serialization and deserialization unchanged, and leads both allocators to the identical output. Serialized outputs read back equal.",
 ["programs"], "every small function and environment exercising each captured aspect",
 "The feature is not enabled in any stable test.",
 ["src/serialize.rs", "src/lib.rs", "src/index.rs"], [("SerializableFunction", "src/serialize.rs"), ("serde derives", "src/lib.rs, src/index.rs")], [], ["serialize::SerializableFunction"], None)

prop("P25", "Register probe order covers exactly the permitted registers",
 "When looking for a register, the backtracking allocator tries every allocatable register of the class that is below the limit, and no other register, each exactly once, with a valid hint first and preferred before non-preferred registers. A fixed requirement yields only that register.",
 ["inputs", "configurations"], "every small register file split into preferred and non-preferred, every hint, limit and starting offset",
 "Only exercised indirectly.",
 ["src/ion/reg_traversal.rs"], [("RegTraversalIter", "ion/reg_traversal.rs")], [], ["RegTraversalIter"], "re-export of the private module")

prop("P26", "Computed liveness is exact",
 "For every function, the sets of values computed as live into and out of each block equal the textbook definition on the input program: some path from that point reaches a use before a redefinition. Nothing that is live is missing and nothing dead is included in reachable blocks.",
 ["programs"], "every small function over every small control-flow graph and block order",
 "Liveness is never looked at by a test; over-approximation is invisible to the checker.",
 ["src/ion/liveranges.rs", "src/indexset.rs"], [("backward worklist", "ion/liveranges.rs compute_liveness")], [("liveins/liveouts", "per-block live sets", "ion/data_structures.rs Ctx")], ["Ctx liveins/liveouts"], "accessor for the context's live sets")

prop("P27", "Eviction order and value-set bookkeeping structures are exact",
 "The fast allocator's recency list always yields the least recently used register among those permitted and never loses or duplicates a register under any sequence of touches and queries, and its live-value set behaves as a set under any sequence of insertions and removals. The backtracking allocator's range maps treat ranges as conflicting exactly when they overlap.",
 ["histories"], "every operation sequence up to a bound over a small register file or value universe",
 "One unit test covers one sequence of the value set; the recency list has none.",
 ["src/fastalloc/lru.rs", "src/fastalloc/vregset.rs", "src/ion/data_structures.rs"], [("Lru", "fastalloc/lru.rs"), ("VRegSet", "fastalloc/vregset.rs"), ("LiveRangeKey/CodeRange ordering, PrioQueue", "ion/data_structures.rs")], [], ["Lru, VRegSet, LiveRangeKey"], "re-export of private modules")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
