"""What each check covers; the one source of properties.jsonl and MANIFEST.json (see gen_docs.py)."""

COMMON_ASSUMPTIONS = [
    "a clean batch is evidence from sampled runs, not a proof",
    "the simulator's own interpreters (LLVM IR, dataflow graph, memory, environment) are trusted; the graph interpreter "
    "and the IR interpreter are independent of each other and cross-checked on every run",
    "jlm runs single-threaded; LLVM's verifier, IR data structures and mem2reg-style set-up passes are trusted",
]

PROG_REAL = [
    "LLVM IR to graph construction (jlm/llvm/frontend)", "the graph and its operations (jlm/rvsdg, jlm/llvm/ir)",
    "the passes under test (jlm/llvm/opt)", "graph to LLVM IR code generation (jlm/llvm/backend)"]
PROG_STUB = [
    "the machine executing programs: memory, pointers, heap, devices (sim/src/machine.cpp)",
    "the environment: callers, external functions, callbacks, failing malloc, process exit",
    "clang and the parser: programs are generated as in-memory LLVM modules"]
PROG_TIME = "simulated_steps operations executed by the simulated machines; the programs have no clock"
PROG_RULE = (
    "One run draws from its seed a program (several functions, globals, loops, switches, irreducible control flow, "
    "pointers, external and indirect calls), a pass sequence, an environment (arguments, external results, writes to "
    "escaped memory, callbacks, malloc failures, process exit, changing device registers, heap layout) and execution "
    "schedules; it executes the source program, and after the passes the graph and the emitted program, against the same "
    "environment and compares the complete observable histories. A run is non-trivial when it ran to the end and reached "
    "at least one history/graph/schedule combination no earlier run of the batch had reached.")
PROG_MEASURE = "hash of (observable history, graph after the passes or emitted module, executed order of the nodes)"


def prog(**kw):
    d = dict(rule=PROG_RULE, time=PROG_TIME, measure=PROG_MEASURE, real=PROG_REAL, stub=PROG_STUB, quick_s=60,
             thorough_s=600, min_completed=0.8,
             over=["programs", "schedules", "histories", "fault_sequences"],
             observe=["the sequence of external calls with arguments and reachable memory, volatile accesses, returns and "
                      "final memory of one simulated execution"],
             technique="deterministic simulation: seeded schedules and environment faults over generated programs, "
                       "compared with a reference execution")
    d.update(kw)
    return d


F = "jlm/llvm/frontend/"
B = "jlm/llvm/backend/"
O = "jlm/llvm/opt/"
A = "jlm/llvm/opt/alias-analyses/"

PROPS = {
    "C01": prog(
        title="Conversion to the dataflow graph and back preserves behaviour",
        statement="A program converted from LLVM IR into jlm's dataflow representation and back, with no optimization in "
                  "between, behaves exactly like the original: with every environment it makes the same external calls with "
                  "the same arguments and memory contents in the same order, performs the same volatile accesses, and "
                  "returns the same values. The emitted module is valid LLVM IR.",
        text="for every program of the supported subset (any control flow, including irreducible), every argument and "
             "external-call result, every write of the environment to memory that escaped to it",
        why="The tests convert a few dozen hand-written modules and look at the shape of the result; hardly any is ever "
            "executed, and the c-tests that do execute need clang, which is not installed.",
        files=[F, B, "jlm/llvm/ir/", "jlm/rvsdg/"],
        mechanism=[("control-flow restructuring and graph construction", F + "InterProceduralGraphConversion.cpp"),
                   ("LLVM instruction conversion", F + "LlvmInstructionConversion.cpp"),
                   ("graph to control flow", B + "RvsdgToIpGraphConverter.cpp"),
                   ("LLVM code emission", B + "IpGraphToLlvmConverter.cpp")]),
    "C02": prog(
        title="Every execution order the dataflow graph permits gives the same result",
        statement="The dataflow graph built for a program carries every ordering the program needs: executing its nodes in "
                  "any order that respects the graph's edges, and any subset of it that the results demand, gives the "
                  "program's observable behaviour.",
        text="for every program, every environment and every topological order of the nodes of every region",
        why="Tests compare graph shapes of single programs; whether an edge is missing only shows under an order of nodes "
            "that no existing consumer happens to choose.",
        files=[F, "jlm/llvm/ir/operators/", "jlm/rvsdg/"],
        mechanism=[("memory and I/O state threading", F + "InterProceduralGraphConversion.cpp"),
                   ("operation signatures with states", "jlm/llvm/ir/operators/")]),
    "C03": prog(
        title="Points-to based memory ordering keeps every dependent access ordered",
        statement="After memory is split into independent ordering chains by points-to analysis, with either mod/ref "
                  "summarizer, every execution order that the graph still permits shows the program's behaviour: no "
                  "two accesses that can touch the same memory, in the program or in code it calls or is called from, "
                  "become unordered.",
        text="for every program, every aliasing the environment can set up (arguments, globals, escaped objects, callbacks) "
             "and every permitted order of nodes",
        why="The analysis tests compare points-to sets and mod/ref sets with hand-computed ones for some 60 modules; a "
            "missing ordering is only visible under an adverse schedule together with an adverse environment.",
        files=[A],
        mechanism=[("points-to constraints", A + "Andersen.cpp"), ("constraint solving", A + "PointerObjectSet.cpp"),
                   ("mod/ref summaries", A + "RegionAwareModRefSummarizer.cpp"),
                   ("agnostic summaries", A + "AgnosticModRefSummarizer.cpp"),
                   ("state edge insertion", A + "MemoryStateEncoder.cpp")]),
    "C04": prog(
        title="Redundancy elimination and node reduction preserve behaviour",
        statement="Common-node elimination, dead-node elimination, invariant-value redirection and node reduction never "
                  "change what a program does: after any of them, in any order and however often, every execution order the "
                  "graph permits still shows the program's behaviour, and the graph stays well formed.",
        text="for every program and environment, every preceding pass sequence, every permitted order of nodes",
        why="Unit tests check the rewritten graph for small hand-built inputs per rule; rules interact with each other and "
            "with states in ways those inputs do not contain, and the result is never executed.",
        files=[O + "CommonNodeElimination.cpp", O + "DeadNodeElimination.cpp", O + "InvariantValueRedirection.cpp",
               O + "NodeReduction.cpp"],
        mechanism=[("congruence sets", O + "CommonNodeElimination.cpp"), ("liveness marking", O + "DeadNodeElimination.cpp"),
                   ("redirection of invariant values", O + "InvariantValueRedirection.cpp"),
                   ("local rewrites", O + "NodeReduction.cpp"), ("load and store normal forms", "jlm/llvm/ir/operators/")]),
    "C05": prog(
        title="Memory-access optimizations preserve every value read from memory",
        statement="Forwarding stored values to loads, separating chains of loads, and splitting aggregate stack variables "
                  "never change a value the program reads, writes or leaves in memory, whatever aliases, partially overlaps "
                  "or is modified by calls in between.",
        text="for every program and environment, every aliasing between accesses of any offset and width, every permitted "
             "order of nodes",
        why="Unit tests cover a handful of store/load pairs each; partial overlap, aliasing through calls and loops, and "
            "races between separated loads and later stores need many programs and schedules.",
        files=[O + "StoreValueForwarding.cpp", O + "LoadChainSeparation.cpp", O + "AggregateAllocaSplitting.cpp",
               A + "LocalAliasAnalysis.cpp"],
        mechanism=[("tracing of stored values", O + "StoreValueForwarding.cpp"),
                   ("reader/writer chains", O + "LoadChainSeparation.cpp"),
                   ("splitting by element", O + "AggregateAllocaSplitting.cpp"),
                   ("alias queries", A + "LocalAliasAnalysis.cpp")]),
    "C06": prog(
        title="Loop transformations run every iteration with the same values",
        statement="Loop unrolling, loop unswitching, strength reduction and the scalar-evolution analysis they use preserve "
                  "behaviour: each loop executes the same iterations with the same values and effects, and leaves the loop "
                  "with the same results, for every trip count.",
        text="for every program with nested, chained and data-dependent loops, every trip count and start value, every "
             "permitted order of nodes",
        why="Tests check the produced structure for fixed loops; wrong iteration counts, wrong recurrences and wrong "
            "routing show only when loops with other shapes are executed.",
        files=[O + "unroll.cpp", O + "LoopUnswitching.cpp", O + "LoopStrengthReduction.cpp", O + "ScalarEvolution.cpp"],
        mechanism=[("unrolling", O + "unroll.cpp"), ("theta/gamma inversion", O + "LoopUnswitching.cpp"),
                   ("new induction variables", O + "LoopStrengthReduction.cpp"), ("recurrences", O + "ScalarEvolution.cpp")]),
    "C07": prog(
        title="Code motion and control-flow rewriting preserve behaviour",
        statement="Hoisting, sinking, if-conversion, predicate correlation and removal of I/O barriers preserve behaviour: "
                  "nothing is executed that can trap or be observed where the program would not execute it, and no effect is "
                  "lost, duplicated or reordered under any execution order the graph permits.",
        text="for every program and environment, every branch outcome, every permitted order of nodes",
        why="Unit tests check where nodes end up in fixed graphs, not whether moved code still runs under the right "
            "conditions with the right states in programs they do not list.",
        files=[O + "pull.cpp", O + "push.cpp", O + "IfConversion.cpp", O + "PredicateCorrelation.cpp",
               O + "IOBarrierElimination.cpp"],
        mechanism=[("hoisting", O + "push.cpp"), ("sinking", O + "pull.cpp"), ("if-conversion", O + "IfConversion.cpp"),
                   ("predicate correlation", O + "PredicateCorrelation.cpp"),
                   ("barrier removal", O + "IOBarrierElimination.cpp")]),
    "C08": prog(
        title="Inlining preserves behaviour of callers, callees and recursion",
        statement="Inlining calls preserves behaviour for every call graph: recursive and mutually recursive functions, "
                  "functions whose address is taken, calls with mismatched signatures, and callees that use other functions "
                  "and globals, before and after memory ordering has been refined.",
        text="for every call graph and environment, every preceding pass sequence, every permitted order of nodes",
        why="Tests inline a few fixed calls and check that the call is gone; routing of context, stack-variable lifetime and "
            "memory-state re-routing depend on combinations they do not contain.",
        files=[O + "inlining.cpp"],
        mechanism=[("inlining decision and routing", O + "inlining.cpp"), ("call and lambda state splits/merges",
                                                                            "jlm/llvm/ir/operators/MemoryStateOperations.cpp")]),
    "C09": prog(
        title="Any sequence of optimizations compiles and preserves behaviour",
        statement="Any sequence of jlm's optimizations, in any order and with repetition, including the one used for -O3, "
                  "terminates without failing on valid input, and the LLVM IR emitted afterwards is valid and behaves "
                  "exactly like the source program.",
        text="for every program, every sequence of passes (with the pass objects reused), every environment",
        why="Each pass is tested alone on its own input; what one pass leaves for the next, and for code generation, is "
            "covered by no test.",
        files=[O, B, "jlm/rvsdg/Transformation.cpp", "jlm/tooling/Command.cpp"],
        mechanism=[("pass sequencing", "jlm/rvsdg/Transformation.cpp"), ("the passes", O), ("code generation", B)]),
    "C10": dict(
        rule="One run draws a points-to problem of the shape the module analysis produces (registers defined by copies, loads, "
             "addresses, function arguments and call results; stack, heap, global, imported and function objects; copies, "
             "loads, stores, indirect calls, escapes, scalar accesses), several orders in which the objects are numbered and "
             "the constraints are added, and solver configurations (offline variable substitution, normalization, naive or "
             "work list with each scheduling policy, online/hybrid/lazy cycle detection, difference propagation, implicit "
             "pointees). Each solution is compared with the least solution computed by a reference model. A run is "
             "non-trivial when it solved at least one (problem, order, configuration) no earlier run had solved.",
        time="no clock: the computation is untimed; one unit is one solved problem",
        measure="hash of (problem, order of objects and constraints, solver configuration)",
        real=["the constraint set, its offline preprocessing and all solvers (PointerObjectSet.cpp, DifferencePropagation, "
              "LazyCycleDetection, OnlineCycleDetection, work lists, union-find)"],
        stub=["the module analysis that produces the constraints (its output is drawn; C03 runs the real one)"],
        quick_s=45, thorough_s=600, min_completed=0.99,
        over=["inputs", "schedules", "configurations"],
        observe=["the points-to, escape and points-to-external relations of one solution"],
        technique="deterministic simulation: seeded schedules of the constraint solver (numbering, constraint order, work "
                  "list policy, on-line unification) over generated problems, compared with a reference model",
        title="The points-to solution does not depend on how it is computed",
        statement="For every set of points-to constraints, every configuration of the constraint solver and every order in "
                  "which objects are numbered and constraints are added, the solver terminates with the least solution: no "
                  "pointer that may point to an object, escape or come from outside the module is missed, and (unless "
                  "offline substitution merges through pointers that point to nothing) nothing is added.",
        text="for every constraint problem, every processing order and all solver configurations",
        why="Tests solve a few hand-made problems with each configuration in one order; whether unification, difference "
            "propagation and implicit pointees interact correctly depends on the order in which cycles and escapes appear.",
        files=["jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp", "jlm/llvm/opt/alias-analyses/PointerObjectSet.hpp",
               "jlm/llvm/opt/alias-analyses/DifferencePropagation.hpp",
               "jlm/llvm/opt/alias-analyses/LazyCycleDetection.hpp",
               "jlm/llvm/opt/alias-analyses/OnlineCycleDetection.hpp", "jlm/util/Worklist.hpp",
               "jlm/util/TarjanScc.hpp"],
        mechanism=[("constraint solving", "jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp"),
                   ("cycle detection", "jlm/llvm/opt/alias-analyses/OnlineCycleDetection.hpp")]),
    "C11": dict(
        rule="One run draws a program for the hardware back end (loops, branches, helper functions, arrays passed as pointers, "
             "global, constant and local arrays), extracts the function, generates a circuit with a drawn assumed memory "
             "latency and executes several calls of the circuit cycle by cycle in three environments: a benign one and two "
             "with drawn memory stalls, bursts, latencies, response order, limits on outstanding requests, a late consumer of "
             "results and late callers. Calls are compared with the reference execution of the original LLVM IR. A run is "
             "non-trivial when at least one execution had a schedule of memory requests no earlier run had.",
        time="simulated clock cycles of the circuit",
        measure="hash of (program, cycle and port of every memory request) of an execution",
        real=["LLVM IR to graph construction and the extraction of the function (split_hls_function)", "code generation",
              "every transformation of the hardware pipeline (createTransformationSequence): state separation, gamma and theta "
              "conversion, address queues, decoupling, memory conversion, forks, sinks, buffers, verification"],
        stub=["the circuit's components (forks, muxes, branches, buffers, queues, state gates, loads, stores, local memory) are "
              "executed by a cycle-level model written after the FIRRTL generator, which can not be built here",
              "memory, its arbitration and the caller"],
        quick_s=60, thorough_s=600, min_completed=0.75,
        over=["programs", "schedules", "fault_sequences"],
        observe=["return values, stores and final memory of each call of the circuit", "progress per clock cycle"],
        technique="deterministic simulation: seeded cycle-level execution of the generated circuit under memory stalls, latency, "
                  "response reordering and back pressure, compared with the reference execution of the function",
        title="Generated hardware computes what the function does, under any timing",
        statement="The circuit generated for a function delivers, for every call, the result the function returns and leaves "
                  "memory as the function does, accessing only memory the function may access, for every memory latency, stall "
                  "pattern and response order across ports and every delay of its caller and consumer; every call completes "
                  "once the environment makes progress, and nothing happens after it.",
        text="for every function the back end supports, every sequence of calls and every timing of memory and caller",
        why="Tests check the shape of small circuits or that conversion does not fail; whether a circuit deadlocks, loses or "
            "reorders a memory access depends on the timing of its environment, which no test executes.",
        files=["jlm/hls/backend/rvsdg2rhls/", "jlm/hls/ir/hls.cpp", "jlm/hls/ir/hls.hpp", "jlm/hls/opt/"],
        mechanism=[("hardware generation", "jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp"),
                   ("memory disambiguation", "jlm/hls/backend/rvsdg2rhls/mem-queue.cpp"),
                   ("buffers", "jlm/hls/backend/rvsdg2rhls/add-buffers.cpp")]),
    "C12": prog(
        rule="One run draws a program and an environment as for the other program checks, a few passes to run beforehand, a "
             "configuration of the points-to analysis and of the local alias analysis, and two schedules. While the graph "
             "executes, every memory access is recorded with the region executions it is part of; for every two accesses of "
             "one execution of their common region every analysis (local, points-to graph, chained) is asked about the two "
             "pointers, both ways round, and every pointer value is looked up in the points-to graph. A run is non-trivial "
             "when it reached a history/answers combination no earlier run had reached.",
        measure="hash of (observable history, answers of the analyses, graph)",
        real=["LLVM IR to graph construction (jlm/llvm/frontend)", "the graph and its operations", "the preceding passes",
              "Andersen's analysis, the points-to graph and the alias analyses (jlm/llvm/opt/alias-analyses)"],
        observe=["address and size of every memory access and the value of every pointer in one simulated execution"],
        technique="deterministic simulation: answers of the analyses checked as invariants against every address used in "
                  "seeded executions under environment faults",
        title="Alias answers and points-to sets hold in every execution",
        statement="Whenever an alias analysis answers that two accesses never overlap, no execution makes them overlap; "
                  "whenever it answers that two pointers are equal, they are equal in every execution; and whatever a pointer "
                  "points to in any execution, in a module that other modules call, share memory with and replace parts of, "
                  "is in its points-to set.",
        text="for every program, every pair of accesses, every aliasing the environment can set up, every analysis "
             "configuration",
        why="Tests query a few dozen pairs of pointers in hand-built graphs for the expected answer; no test runs the program "
            "and compares the answer with the addresses that occur.",
        files=[A],
        mechanism=[("tracing of pointers to their origins", A + "LocalAliasAnalysis.cpp"),
                   ("queries on points-to sets", A + "PointsToGraphAliasAnalysis.cpp"),
                   ("points-to constraints from the program", A + "Andersen.cpp"),
                   ("value tracing", "jlm/llvm/ir/Trace.cpp")]),
    "C13": dict(
        rule="One run draws a directory of source and object files, one to three invocations of jlc, jhls or jlm-opt (one or "
             "several translation units, -c, -###, every option that changes the set of commands, output formats, statistics and "
             "dump options) or of the helper that starts another program, and one fault plan per invocation: none, one fault at a "
             "drawn operation, random faults, a small disk, one failing allocation, or a process killed at a drawn operation, on "
             "top of harmless short and interrupted reads, writes and waits and of a jumping clock. A fork of the simulator runs "
             "the same invocation without faults as the reference; the next invocation starts from the files the failed one left. "
             "A run is non-trivial when one of its invocations had a history of operations and faults no earlier run had.",
        time="simulated_steps operations of the C library the tools made; the clock they read jumps by up to an hour per reading",
        measure="hash of (operations on files, processes and the standard output with their faults, exit status)",
        real=["main() of jlm-opt, jlc and jhls", "command line parsing, the command graph and its commands (jlm/tooling)",
              "everything jlm-opt runs: conversion, passes, code generation, printers, statistics",
              "jlm::util::executeProgramAndWait, StatisticsCollector, File"],
        stub=["the C library's files, processes, standard output, exit, clock and random device (interposed, over a scratch "
              "directory)", "clang, llc, opt, llvm-link and jlm-hls: deterministic stand-ins that read their inputs and write "
              "outputs which tell what they were made from", "the shell of system(): words, quotes and redirection only"],
        quick_s=60, thorough_s=600, min_completed=0.9,
        over=["inputs", "fault_sequences", "crash_points", "histories"],
        observe=["exit status, standard output, files and started commands of one simulated invocation"],
        technique="deterministic simulation: seeded faults of files, disk, processes and memory under the tools' own main(), "
                  "compared with a fault-free reference run",
        title="Tools report success only when the complete result was delivered",
        statement="When jlm-opt, jlc or jhls exits with success, every file it was asked to write and its standard output are "
                  "complete and equal to those of an undisturbed run, and every command it started succeeded; the commands of the "
                  "driver run only after all commands they depend on, and none after a failed one; without a fault it succeeds, "
                  "also after an earlier invocation failed or was killed; it never damages its inputs; and the commands printed by "
                  "-### do the job when a shell runs them.",
        text="for every command line, every set of translation units, every point at which a file, process, disk or memory "
             "operation fails and every point at which a process is killed",
        why="Tests compare command strings and single command graphs; none runs a command graph, and none lets an operating "
            "system call fail, be interrupted or be cut short.",
        files=["jlm/tooling/", "jlm/util/Program.cpp", "jlm/util/Statistics.cpp", "jlm/util/file.hpp", "tools/"],
        mechanism=[("command graph execution", "jlm/tooling/CommandGraph.cpp"),
                   ("commands", "jlm/tooling/Command.cpp"),
                   ("generation of command graphs", "jlm/tooling/CommandGraphGenerator.cpp"),
                   ("program execution", "jlm/util/Program.cpp"),
                   ("statistics files", "jlm/util/Statistics.cpp")]),
    "C14": dict(
        rule="One run is a history of 20 to 160 operations on one graph: creating, diverting, removing, copying and pruning nodes "
             "and regions, adding and removing variables of every kind of structural node (several at once), routing values "
             "inwards, importing and exporting, copying the whole graph and destroying the original; in between, traversals of "
             "both directions are begun, advanced and abandoned and observers attached and detached in a drawn interleaving, "
             "also of regions that are destroyed under them; the injected faults are edits that break a rule of the graph and "
             "must be refused without a trace. A model of the graph without any incremental state is edited alongside and the "
             "whole graph compared after every operation. A run is non-trivial when it reached a combination of operation, "
             "graph size and active traversals no earlier run had reached.",
        time="simulated_steps operations on the graph",
        measure="hash of (operation, number of regions and nodes, active traversals of each direction)",
        real=["the graph library (jlm/rvsdg): regions, nodes, inputs, outputs, gamma, theta, lambda and phi nodes, copying, "
              "observers, traversers, substitution maps"],
        stub=["the operations of simple nodes (opaque, distinguishable ones of the simulator)"],
        quick_s=45, thorough_s=600, min_completed=0.9,
        over=["histories", "schedules", "fault_sequences"],
        observe=["the whole graph after every operation", "every step of every traversal", "every notification of observers"],
        technique="deterministic simulation: seeded histories of edits interleaved with traversals and observers and with "
                  "rejected edits, compared with a reference model after every operation",
        title="Edited graphs stay consistent for traversals and observers",
        statement="After every public operation on a graph its regions hold exactly the nodes, arguments, results and edges the "
                  "edits so far amount to, and everything derived from them (users and their counts, top and bottom nodes, "
                  "indices, owners, the variables of gamma, theta, lambda and phi nodes) agrees; copies are isomorphic to what "
                  "was copied and substitution maps lead from one to the other; a refused edit changes nothing. A traversal "
                  "visits every node that existed at its beginning and still exists exactly once, none created later, and "
                  "respects the dependencies there are at the time of the visit, however the graph is edited meanwhile. "
                  "Region observers are told of every creation, change and end of a node or input.",
        text="for every history of edits, and every interleaving of edits with traversals and observers",
        why="Tests make a handful of edits on graphs of a few nodes and check the counters they are about; traversals are "
            "tested with single edits at fixed points.",
        files=["jlm/rvsdg/"],
        mechanism=[("regions and their node lists", "jlm/rvsdg/region.cpp"),
                   ("inputs, outputs and users", "jlm/rvsdg/node.cpp"),
                   ("traversal trackers", "jlm/rvsdg/traverser.cpp"),
                   ("structural nodes", "jlm/rvsdg/gamma.cpp"),
                   ("loops", "jlm/rvsdg/theta.cpp"),
                   ("recursion", "jlm/rvsdg/Phi.cpp")]),
}

# Properties that are not simulation targets here: listed, not claimed.
NOT_APPLICABLE = {
    "N01": dict(
        title="Command lines are parsed into the options they denote",
        statement="Every command line of the compiler driver and the optimizer is either rejected with an error message or "
                  "yields the file names, optimization list, output format and flags it denotes.",
        over=["inputs"], text="for every argument vector",
        why="Tests parse a few fixed argument vectors per option.",
        files=["jlm/tooling/CommandLine.cpp"], mechanism=[("option parsing", "jlm/tooling/CommandLine.cpp")],
        reason="A pure function of the argument vector: no schedule, time, I/O, fault or second party takes part, so there "
               "is nothing for a simulator to control."),
    "N02": dict(
        title="Debug renderings show the graph that exists",
        statement="The textual, tree, XML, Graphviz and JSON renderings of a graph mention every region, node, edge and "
                  "attribute of it, and nothing else.",
        over=["inputs"], text="for every graph",
        why="Tests compare the rendering of a few small graphs with literals.",
        files=["jlm/rvsdg/view.cpp", "jlm/util/GraphWriter.cpp", "jlm/llvm/DotWriter.cpp", O + "RvsdgTreePrinter.cpp"],
        mechanism=[("graph writing", "jlm/util/GraphWriter.cpp")],
        reason="A pure function from a graph to text, with no execution, interleaving or fault to simulate (their file "
               "output under disk faults is a different matter and part of the tool property)."),
    "N03": dict(
        title="Graphs survive conversion to MLIR and back",
        statement="Converting a graph to the MLIR dialect and back gives an equivalent graph.",
        over=["programs"], text="for every graph of the supported subset",
        why="The MLIR tests are not built here.",
        files=["jlm/mlir/"], mechanism=[("MLIR generation and parsing", "jlm/mlir/")],
        reason="MLIR and its dialect are not installed, so the component cannot be built or run in this sandbox."),
    "N04": dict(
        title="Emitted FIRRTL and Verilog implement the hardware graph",
        statement="The FIRRTL and Verilog emitted for a hardware graph behave cycle by cycle as the graph's handshake "
                  "semantics prescribe.",
        over=["programs", "schedules"], text="for every hardware graph and every timing of its environment",
        why="Tests only check that conversion runs.",
        files=["jlm/hls/backend/rhls2firrtl/", "jlm/hls/backend/firrtl2verilog/"],
        mechanism=[("FIRRTL generation", "jlm/hls/backend/rhls2firrtl/RhlsToFirrtlConverter.cpp")],
        reason="The FIRRTL and Verilog back ends need CIRCT, which is not installed; they are not compiled in this sandbox."),
    "N05": dict(
        title="Fixed-width integer and symbolic bit arithmetic is exact",
        statement="Arithmetic, comparison and conversion on fixed-width bit values give the two's-complement result, and "
                  "propagate unknown and undefined bits conservatively.",
        over=["inputs"], text="for every width and pair of values",
        why="Tests try a few widths and values.",
        files=["jlm/rvsdg/bitstring/value-representation.hpp"],
        mechanism=[("bit value arithmetic", "jlm/rvsdg/bitstring/value-representation.hpp")],
        reason="A pure function of two values; nothing to schedule and no fault to inject. Its use in constant folding is "
               "exercised indirectly by C04 and C09."),
}
