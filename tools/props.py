"""The properties, and how each is decided: the source of properties.jsonl and
MANIFEST.json (tools/gen.py)."""

XO = "internal/xo/"
PUB = "the public API, outside the solver: every call and result is seen by a shadow of the problem"
NOTE = ("Held on the executions of the run, whose number, diversity and observed events are in the evidence "
        "file; trusts the harness's own reference solver, whose models are evaluated and whose unsat answers "
        "are cross-checked against brute force in its unit test. ")

PROPS = [
 dict(id="C01", title="Solve answers and models are right",
  statement="For any set of clauses, including empty, tautological, duplicated, repeated-literal and unused-variable ones, Solve terminates with 1 if and only if the clauses are satisfiable and with -1 if and only if they are not. After 1, Value gives every literal and its negation opposite values and makes every added clause true.",
  over=["inputs"], forall="every finite sequence of Add calls over any variables, of any size and structure, built literal by literal, through Dimacs or through any constructor, followed by Solve",
  why="The tests solve a few fixed or random 3-SAT instances without an independent oracle; answers depend on conflict analysis, minimisation, restarts, garbage collection, phase and heap state reached only on particular inputs.",
  files=["gini.go", XO+"s.go", XO+"derive.go", XO+"trail.go", XO+"cdat.go", XO+"cgc.go", XO+"cdb.go", XO+"guess.go", XO+"watch.go"],
  mech=[("CDCL search loop", XO+"s.go Solve"), ("learning and minimisation", XO+"derive.go"), ("propagation", XO+"trail.go Prop"), ("clause garbage collection", XO+"cgc.go, "+XO+"cdat.go")],
  observe=["Add", "Solve", "Value"],
  technique="runtime monitoring: online oracle (independent CDCL, by-construction answers, model evaluation) over generated workloads",
  level_note=NOTE+"For instances too hard for the reference the answer is known by construction."),
 dict(id="C02", title="Incremental solving under assumptions equals solving afresh",
  statement="Each Solve answers for exactly the clauses added so far together with the assumptions made since the previous Solve, no matter what was added, assumed, solved or asked before: the answer is the one a fresh solver gives, and after 1 the model satisfies all clauses and all those assumptions. Assumptions hold for one Solve only, and a satisfiable set of clauses stays so after any number of calls under failing assumptions.",
  over=["histories"], forall="every interleaving of Add, Assume, Solve, Value and Why over any clauses and assumptions (repeated, contradictory, implied, unit, new variables in between)",
  why="Tests run a handful of fixed sequences; wrong answers come from stale trail, reasons, watches, level 0 state or learned clauses left by a particular earlier call.",
  files=["gini.go", XO+"s.go", XO+"trail.go", XO+"cdb.go", XO+"vars.go"],
  mech=[("assumption levels", XO+"s.go makeAssumptions, Solve, cleanupSolve"), ("adding between solves", XO+"s.go ensure0, "+XO+"cdb.go Add"), ("variable growth", XO+"s.go growToVar")],
  observe=["Add", "Assume", "Solve", "Value"],
  technique="runtime monitoring: shadow session replaying each history against an independent reference solver",
  level_note=NOTE),
 dict(id="C03", title="Failed assumptions are a sufficient subset of the assumptions",
  statement="After Solve (or Test) answers -1, Why returns without repetition only literals assumed for that answer, and the clauses are unsatisfiable together with just the returned literals; it returns no literals only if the clauses alone are unsatisfiable. Why appends to the slice it is given and leaves what was there.",
  over=["histories"], forall="every history of Add, Assume, Solve, Test, Untest and activation calls which ends in -1, for assumptions which conflict directly, by propagation, at level 0 or only after search and learning",
  why="Tests check single hand-written cores; a wrong core needs a particular conflict shape and an oracle which decides that the core suffices.",
  files=[XO+"s.go", XO+"derive.go"], mech=[("failed literal collection", XO+"s.go Why, final"), ("assumption bookkeeping", XO+"s.go makeAssumptions")],
  observe=["Assume", "Solve", "Test", "Why"],
  technique="runtime monitoring: every core seen is decided by an independent reference solver",
  level_note=NOTE),
 dict(id="C04", title="Test, Untest and Reasons scopes nest and are sound",
  statement="Test(assumptions so far) answers 1 or -1 only if that is the true answer for the clauses and the assumptions of the open scopes, and never 0 when unit propagation alone shows a conflict; each literal it reports is implied by the clauses and the open assumptions, Reasons gives for a literal only literals in scope which imply it, and a report made before any Solve covers everything unit propagation implies. Untest takes back exactly the last scope: it answers -1 only if the clauses and the remaining scopes are unsatisfiable by propagation, and Solve inside scopes answers under all scopes' assumptions and leaves them open.",
  over=["histories"], forall="every nesting of Assume, Test, Solve, Untest, Reasons, Why and adds between scopes, over any clauses",
  why="The tests open one or two scopes on one formula; state to restore (trail, levels, learned units, assumption counts) depends on the history.",
  files=["gini.go", XO+"s.go", XO+"trail.go"], mech=[("scopes", XO+"s.go Test, Untest, endTestLevel"), ("reasons", XO+"s.go Reasons"), ("backtracking", XO+"trail.go Back")],
  observe=["Test", "Untest", "Reasons", "Solve", "Why"],
  technique="runtime monitoring: shadow scope stack with independent unit propagation and reference solving",
  level_note=NOTE+"Literals reported in scopes opened after a Solve inside a scope are only checked for soundness, since there the API does not say what counts as new."),
 dict(id="C05", title="Activation literals switch clauses on and off exactly",
  statement="A clause added with Activate or ActivateWith is in force exactly when its activation literal is assumed, and after Deactivate it has no effect for ever, however many solves, learned clauses, clause collections and reuses of the literal come in between. Activation literals handed out are distinct from each other and from all variables in use while active, and no answer, model or core over the other variables is affected by retired ones.",
  over=["histories"], forall="every interleaving of Activate, ActivateWith, ActivationLit, Deactivate, Add, Assume, Test, Untest and Solve, with reuse of literals",
  why="Tests activate one clause once; a defect needs learned clauses which depend on a guard, reuse of the guard, or compaction in between.",
  files=["gini.go", XO+"active.go", XO+"cgc.go", XO+"s.go"], mech=[("activation", XO+"active.go"), ("removal of dependent learned clauses", XO+"cgc.go"), ("guard recycling", XO+"active.go Deactivate")],
  observe=["Activate", "ActivateWith", "ActivationLit", "Deactivate", "Solve"],
  technique="runtime monitoring: shadow set of live guarded clauses against an independent reference solver",
  level_note=NOTE),
 dict(id="C06", title="Copies behave as the original and are independent of it",
  statement="A copy of a solver taken between calls holds the same clauses, assumptions, scopes and activations: given the same calls as the original it gives the same answers, models and cores. From then on the two share nothing: no call on one, of any kind and in any order, changes any later result of the other.",
  over=["histories"], forall="every history, every point at which a copy (or a copy of a copy) is taken, and every pair of continuations",
  why="Tests copy once and solve once; a shared slice or a field left out shows only when one side grows, collects or backtracks in a way which touches it.",
  files=["gini.go", XO+"s.go", XO+"cdat.go", XO+"cdb.go", XO+"cgc.go", XO+"guess.go", XO+"trail.go", XO+"vars.go", XO+"derive.go", XO+"active.go", XO+"phases.go", XO+"luby.go"],
  mech=[("deep copy", XO+"s.go Copy and the Copy/CopyTo of each part")],
  observe=["Copy", "all other calls on both sides"],
  technique="runtime monitoring: lockstep comparison of copy and original, and shadow sessions on diverging copies",
  level_note=NOTE),
 dict(id="C07", title="Write gives an equivalent, readable problem",
  statement="Write gives well formed dimacs whose header states the number of clauses written and a variable bound covering them; every clause written is implied by the clauses in the solver, every clause in the solver follows from those written, and a solver read from it answers the same under all assumptions, at any point of a history. If the writer fails, Write returns an error.",
  over=["histories", "fault_sequences"], forall="every history of adds, solves, activations and deactivations before Write; every point at which the writer fails",
  why="Write is not tested after solving, learning, collection or deactivation, nor with failing writers.",
  files=["gini.go", XO+"s.go", XO+"cdb.go", XO+"cdat.go"], mech=[("writing", XO+"cdb.go Write, "+XO+"cdat.go Dimacs, Forall")],
  observe=["Write", "NewDimacs"],
  technique="runtime monitoring: written clauses re-parsed independently and decided by a reference solver; writers with injected failures",
  level_note=NOTE),
 dict(id="C08", title="Background and limited solves answer right and can be given up",
  statement="A solve started with GoSolve or limited with Try gives the answer Solve would give, whatever polling, pausing, resuming, waiting and stopping goes on, and gives 0 only to a caller who stopped it or whose time was up; Wait, Stop, Test, Pause, Unpause and Try all return. While paused the solver may be copied, and the copy is used next to the resumed original without affecting it; after giving up, clauses, scopes and activations are as before and later calls answer right. No data races.",
  over=["schedules", "histories"], forall="every timing of Test, Pause, Unpause, Try, Wait and Stop relative to the search, within any history of other calls, on easy and hard clauses",
  why="The tests stop or pause one solve at one moment; what is left behind depends on where in the search the request arrives.",
  files=[XO+"s.go", XO+"ctl.go", "gini.go", "inter/solve.go"], mech=[("control of a solve in the background", XO+"ctl.go"), ("polling and giving up", XO+"s.go Solve, Try, GoSolve")],
  observe=["GoSolve", "Test", "Pause", "Unpause", "Wait", "Stop", "Try"],
  technique="runtime monitoring: race detector and shadow sessions with a reference solver under random interruption, with clauses made to propagate slowly so that searches are caught in the middle",
  level_note=NOTE+"No answer depends on the clock: limits only decide how often 0 is seen."),
 dict(id="C09", title="Variable maps are bijections and Sv hides inner variables",
  statement="z.Vars maps outer variables to inner ones one to one: ToInner and ToOuter are inverse on everything mapped, keep signs, never use variable 0, and Inner and Free never give or take a variable which stands for an outer one. A solver wrapped by an Sv answers, models and explains in terms of the caller's variables exactly as a fresh solver over those would, and changes no literal the caller passed; literal conversions (Dimacs, Not, Sign, Var, String) are consistent for all literals.",
  over=["histories"], forall="every history of mapping, inner allocation, freeing and copying, and of adds, assumptions, solves, tests and activations through an Sv",
  why="The tests map a few variables once; reuse after Free, copies, growth and sign handling depend on the history.",
  files=["z/var.go", "z/lit.go", "z/dv.go", "z/c.go", "sv.go"], mech=[("inner/outer maps and free list", "z/dv.go"), ("mapping of calls", "sv.go")],
  observe=["ToInner", "ToOuter", "Inner", "Free", "Copy", "Sv calls"],
  technique="runtime monitoring: model-based shadow map; shadow sessions with reference solver through Sv",
  level_note=NOTE),
 dict(id="C10", title="The dimacs cnf reader gives exactly the file's problem",
  statement="For every well formed cnf text, in any layout and delivered in any pieces, the visitor gets the header numbers, each literal and clause end in order, and Eof, exactly once each, and NewDimacs gives a solver for exactly those clauses. Malformed or truncated text, and a reader which fails, give an error and never a panic, a hang or a success with part of the clauses.",
  over=["inputs", "fault_sequences"], forall="every text (comments and white space anywhere, missing header, any numbers, mutations and truncations) and every way a reader delivers it or fails",
  why="Tests read a few fixed strings delivered whole; silent truncation and piecewise delivery are not covered.",
  files=["dimacs/cnf.go", "dimacs/int.go", "dimacs/lit.go", "dimacs/cfilt.go", "gini.go"], mech=[("reader", "dimacs/cnf.go ReadCnf"), ("numbers", "dimacs/int.go"), ("comment filter", "dimacs/cfilt.go")],
  observe=["visitor events", "error"],
  technique="runtime monitoring: event traces against those the text was made from, and an independent reading of mutated text, with fault-injecting readers",
  level_note=NOTE+"Texts on which readings of the format differ are only checked for termination."),
 dict(id="C11", title="Icnf and solver output readers give exactly what is written",
  statement="For every well formed incremental cnf (p inccnf, clauses and assumption lines) and every solver output (status and value lines), in any layout and delivered in any pieces, the visitor gets exactly the clauses, assumptions, status and values in order, and the end once. Malformed or truncated text and failing readers give an error and never a panic, a hang or a silently shortened result.",
  over=["inputs", "fault_sequences"], forall="every text and mutation of it, every way a reader delivers it or fails",
  why="Tests read one or two fixed strings; truncation and layout are not covered.",
  files=["dimacs/icnf.go", "dimacs/solve.go", "dimacs/int.go"], mech=[("reader", "dimacs ReadICnf"), ("output reader", "dimacs ReadSolve")],
  observe=["visitor events", "error"],
  technique="runtime monitoring: event traces against those the text was made from, and an independent reading of mutated text, with fault-injecting readers",
  level_note=NOTE+"Texts on which readings of the format differ are only checked for termination."),
 dict(id="C12", title="Circuits compute what they say, with sharing",
  statement="Every literal given by And, Or, Xor, Implies, Choice, Ands, Ors and the other constructors has the Boolean function asked for, over all inputs; equal gates are shared, trivial ones simplify, and nodes only depend on earlier nodes. Eval and Eval64 give every node its value, and a copy is equal to and independent of its original.",
  over=["histories"], forall="every sequence of circuit operations, of any capacity hint and length, over all input values",
  why="Tests build single gates; hash collisions, growth, copies and degenerate operands need long sequences.",
  files=["logic/c.go"], mech=[("structural hashing", "logic/c.go And, grow"), ("evaluation", "logic/c.go Eval, Eval64")],
  observe=["all C methods"],
  technique="runtime monitoring: truth-table shadow of each literal over 64 patterns with audits of all nodes",
  level_note="Held on the executions of the run; a wrong function would have to agree on all 64 patterns (exhaustive for up to 6 inputs) to be missed."),
 dict(id="C13", title="Cnf of circuits is equivalent and restricted to the roots",
  statement="ToCnf, ToCnfFrom and CnfSince give clauses satisfied exactly by the consistent values of the gates written: the value of every gate follows from its inputs by unit propagation, no clause excludes a consistent valuation, only gates under the roots appear, and nothing marked as written is written again. Solving the clauses with roots assumed answers whether the circuit can make them true, with models which evaluate.",
  over=["histories"], forall="every circuit, set of roots and growth of the circuit between incremental writes",
  why="Tests count clauses or solve one circuit.",
  files=["logic/c.go"], mech=[("Tseitin clauses", "logic/c.go addAnd, ToCnf, ToCnfFrom, CnfSince")],
  observe=["inter.Adder calls", "Solve"],
  technique="runtime monitoring: every clause emitted is evaluated on the truth tables and unit-propagated by an independent checker",
  level_note="Held on the executions of the run; circuits have at most 6 inputs so that truth tables are exhaustive."),
 dict(id="C14", title="Cardinality predicates count",
  statement="Leq, Geq, Less and Gr of a CardSort over any literals, including none, repeated, complementary and constant ones, are true exactly when the number of true literals is in the relation to the bound, for every bound including negative and too big ones. For distinct inputs, a partial valuation which decides a predicate decides it by unit propagation in the cnf.",
  over=["inputs"], forall="every list of literals and every bound, over all values of the inputs",
  why="Tests sample a few sizes and bounds.",
  files=["logic/card.go"], mech=[("sorting network", "logic/card.go")],
  observe=["Leq", "Geq", "Less", "Gr"],
  technique="runtime monitoring: predicates evaluated in 64 patterns against counting; propagation checked independently",
  level_note="Held on the executions of the run."),
 dict(id="C15", title="Unrolling a sequential circuit simulates it",
  statement="Roll.At(m, d) is a literal of the combinational circuit which has, under all input values, the value m has after d steps from the initial state: latches start at their initial value, or free if uninitialised, and take the previous step's next value. This holds for any order of questions and for circuits which grow meanwhile; Latches, Next, Init, Type and Copy tell what was built, and SetNext panics for what is no latch.",
  over=["histories"], forall="every sequential circuit, every order of At calls and depths",
  why="Tests unroll one small counter.",
  files=["logic/s.go", "logic/roll.go"], mech=[("unrolling", "logic/roll.go At"), ("latches", "logic/s.go")],
  observe=["At", "Len", "MaxLen", "Latch", "SetNext", "SetInit", "Copy"],
  technique="runtime monitoring: unrolled circuit evaluated in 64 patterns against step-by-step simulation",
  level_note="Held on the executions of the run."),
 dict(id="C16", title="Written aigers mean the circuit",
  statement="WriteAscii and WriteBinary write well formed aiger 1.9 which means the same sequential circuit: by position the same inputs, latches with next functions and initial values, outputs, bad, constraint, justice and fairness properties, and names; reading it back gives the same again, and a failing writer gives an error. Copies are equal to and independent of their originals, and names are taken only for what exists.",
  over=["histories", "fault_sequences"], forall="every aiger built through the API: any order of inputs, latches and gates, constants as properties, unreachable gates, any names",
  why="Tests compare the text of one example, and counts of a few.",
  files=["logic/aiger/aiger.go", "logic/aiger/dfs.go"], mech=[("writers", "logic/aiger/aiger.go WriteAscii, WriteBinary"), ("copy", "logic/aiger/aiger.go Copy"), ("gate order", "logic/aiger/dfs.go")],
  observe=["WriteAscii", "WriteBinary", "ReadAscii", "ReadBinary", "Copy", "Name*"],
  technique="runtime monitoring: what is written is parsed by an independent aiger reader and simulated in 64 patterns",
  level_note="Held on the executions of the run. Two defects which existing tests require are listed as known findings."),
 dict(id="C17", title="Aiger readers give exactly the file's circuit or an error",
  statement="For every well formed aiger 1.9 (or 1.0) file, in ascii with any numbering and order or in binary, delivered in any pieces, the reader gives by position the inputs, latches, next functions, initial values, properties and names of the file, also where gates simplify. Malformed, truncated or lying files (undefined, doubly defined or cyclic gates, literals out of bounds, wrong counts) and failing readers give an error and never a panic, a hang or memory use out of proportion to the data.",
  over=["inputs", "fault_sequences"], forall="every file, mutation and truncation, every way a reader delivers it or fails",
  why="Tests count the sections of a few files.",
  files=["logic/aiger/aiger.go"], mech=[("readers", "logic/aiger/aiger.go ReadAscii, ReadBinary, commit, mapAnds"), ("header", "logic/aiger/aiger.go readHeader")],
  observe=["ReadAscii", "ReadBinary"],
  technique="runtime monitoring: circuits read are simulated against an independent reading, with fault-injecting readers and a memory limit",
  level_note="Held on the executions of the run. Binary headers which promise millions of (implicit) inputs are out of scope."),
 dict(id="C18", title="An assumption exchange answers each request once, and right",
  statement="Every request an ax accepts gets exactly one response, and nothing else does; its result is the answer for the prototype's clauses and the request's assumptions, 0 only where the request has a limit, with the whole model or the failed assumptions exactly if asked for, the number of pending requests, and the request unchanged. At most cap solvers are made and run, each used by one thing at a time. Ex and TryEx may be called from any goroutines, and after Stop all calls return and all goroutines end. Requests of a generator, made from any goroutines, have different ids, assumptions of their own, and the flag and limit set last. No data races.",
  over=["schedules", "histories"], forall="every sequence and interleaving of exchanges, polls and Stop from one or more clients, any capacity, any assumptions, flags and limits",
  why="Tests run one client with one kind of request; lost or doubled responses, shared solvers and goroutines left behind depend on the schedule.",
  files=["ax/ax.go", "ax/req.go", "ax/resp.go"], mech=[("exchange and dispatch", "ax/ax.go serve, handleReq, handleResp"), ("units", "ax/ax.go unit, getunit"), ("requests", "ax/req.go RequestGen")],
  observe=["Ex", "TryEx", "Stop", "the prototype's methods"],
  technique="runtime monitoring: race detector, exactly-once and answer monitors on exchanges, a probe solver which sees each use, and goroutine accounting after Stop",
  level_note=NOTE),
 dict(id="C19", title="Crisp clients get what a local solver would give",
  statement="A crisp session (client or netsolve solver against the repository's server) answers as a local solver given the same calls: adds, assumptions, solves in the foreground, background, with limits, stopped or ended, values, models, failed assumptions and reasons, for clauses with any literals, in sessions of any length and several at a time on one server, over tcp and unix sockets. What the server reports as an error reaches the client as an error, a connection lost or a peer which talks nonsense gives an error, not a wrong answer or a hang, and Quit, Shutdown and Close release everything. A local solver behind the same interface (inter/net) answers as without, and with no errors. No data races.",
  over=["histories", "schedules", "fault_sequences"], forall="every sequence of client calls, every number of clients at a time, every point at which the connection or peer fails",
  why="Tests run one short session; buffering, request order, values of earlier solves and lost connections depend on the history and on when bytes arrive.",
  files=["crisp/client.go", "crisp/netsolve.go", "crisp/vu32io.go", "crisp/handler.go", "crisp/server.go", "inter/net/net.go", "inter/net/netsolve.go"],
  mech=[("client requests", "crisp/client.go"), ("remote solving as an inter.Solve", "crisp/netsolve.go"), ("variable length numbers and buffering", "crisp/vu32io.go"), ("server side", "crisp/handler.go, crisp/server.go"), ("local solvers behind the interface", "inter/net")],
  observe=["Client methods", "Shutdown", "Serve"],
  technique="runtime monitoring: race detector and shadow sessions with a reference solver over real sockets, and a fake server which fails on purpose",
  level_note=NOTE),
 dict(id="C20", title="Crisp server follows the protocol against any peer",
  statement="To every peer the server answers each request which the protocol lets it make, in order, with the right result, and each request made out of turn, of an unknown operation or with a literal which is not one, with an error code; it never ends, hangs, blocks or mixes up other sessions, whatever bytes arrive, however they are cut up, and wherever the connection is dropped, and solves of peers which have gone are stopped. Extensions which are installed get exactly their requests, wrong ones cannot be installed. Shutdown ends the server, its sessions and its goroutines. No data races.",
  over=["inputs", "schedules", "fault_sequences"], forall="every byte sequence and its division in time over any number of connections, every extension, every point of disconnecting or shutting down",
  why="Tests only speak to the server through the repository's own client, in one fixed good order.",
  files=["crisp/handler.go", "crisp/vu32io.go", "crisp/server.go", "crisp/exts.go", "crisp/err.go", "crisp/proto.go"],
  mech=[("request state machine", "crisp/handler.go"), ("numbers", "crisp/vu32io.go"), ("accepting and shutting down", "crisp/server.go"), ("extensions", "crisp/exts.go")],
  observe=["bytes on raw connections", "goroutines", "Serve", "RegisterExt"],
  technique="runtime monitoring: an independent protocol peer and reference solver check every byte of the answers, race detector, goroutine accounting",
  level_note=NOTE+"Garbage is limited to literals whose variables fit in memory."),
 dict(id="C21", title="Long sessions hold only what is in force",
  statement="What a session holds does not grow with its length. Guards deactivated (unless their clauses fixed them), assumptions, closed scopes, background and limited solves which ended or were given up, dropped copies, exchange requests answered, crisp sessions ended in any way, and gates, cnf and unrollings asked for again leave no variables, clauses, goroutines, open files or memory behind, beyond learned clauses; a stopped exchange or ended server leaves nothing.",
  over=["histories", "schedules"], forall="every long history of such calls in which the clauses, guards, copies, requests and peers in force at a time stay bounded",
  why="A test makes a few calls; what each leaves behind shows after thousands.",
  files=[XO+"active.go", XO+"cdb.go", XO+"cgc.go", XO+"cdat.go", XO+"ctl.go", "ax/ax.go", "crisp/server.go", "crisp/handler.go", "logic/c.go", "logic/roll.go"],
  mech=[("recycling of guards", XO+"active.go Deactivate, Lit"), ("removal and compaction of clauses", XO+"cgc.go, "+XO+"cdat.go"), ("background solves", XO+"ctl.go"), ("handlers", "crisp/handler.go cleanup"), ("strash", "logic/c.go And")],
  observe=["MaxVar", "Write", "reachable heap, goroutines and file descriptors of the process"],
  technique="runtime monitoring: variables, clauses, goroutines, descriptors and reachable memory measured during thousands of rounds",
  level_note="Held on the executions of the run. Memory may double, and 64 to 256 KB more, between an eighth of the rounds and the end (measured growth stays well below); a smaller leak is not seen."),
 dict(id="C22", title="The commands give right answers, output and exit codes",
  statement="gini, for each readable input in order (dimacs or icnf by name; plain, gzipped or bzip2ed; file, link or standard input; solved in the process or by crispd), prints the status which the problem under the -assume literals has, or UNKNOWN within its limit or when interrupted, with a whole model or sufficient failed assumptions exactly when asked for; with -satcomp it exits 10, 20 or 0 accordingly. Bad arguments and inputs give a message, no answer, and do not keep other inputs, however many, from being solved, and a solve given up does not go on. crispd serves until told to end and frees its address; bench selects, runs, compares and deletes as the package does; none panics or hangs.",
  over=["inputs", "schedules", "fault_sequences"], forall="every combination of options and inputs of the commands gini, crispd and bench, readable or not, every time of signals and limits",
  why="The commands have no tests.",
  files=["cmd/gini/main.go", "cmd/gini/icnf.go", "cmd/gini/sigs.go", "cmd/crispd/crispd.go", "cmd/crispd/sigs.go", "cmd/bench/bench.go"],
  mech=[("inputs and results", "cmd/gini/main.go"), ("cubes", "cmd/gini/icnf.go"), ("daemon", "cmd/crispd"), ("benchmarks", "cmd/bench/bench.go")],
  observe=["standard output and error", "exit codes", "sockets", "files"],
  technique="runtime monitoring: the commands are run as processes, their output and exit codes are judged against an independent reference solver",
  level_note=NOTE),
 dict(id="C23", title="Generators give the problems they name",
  statement="Each problem generator adds complete clauses whose models are exactly the solutions of the problem it names: pigeon holes, partitions into sets, pythagorean triple colourings, graph colourings with one variable per node and colour, random 3-CNF of the given size and distinct variables, and binary cycles; the graphs and cubes produced are the ones asked for. The random scripted solver answers each solve, given up, stopped, polled or not, as documented, and its copy behaves as it.",
  over=["inputs"], forall="every parameter of every generator in gen, every random choice",
  why="Tests solve a few generated problems and check only the answer; a generator which misses or adds constraints usually gives the same answer.",
  files=["gen/gen.go", "gen/color.go", "gen/pt.go", "gen/cubes.go", "gen/rands.go"],
  mech=[("problem families", "gen/gen.go Php, Partition, Rand3Cnf, BinCycle"), ("graph colouring", "gen/color.go"), ("pythagorean triples", "gen/pt.go"), ("cubes", "gen/cubes.go"), ("scripted solver", "gen/rands.go")],
  observe=["the clauses added"],
  technique="runtime monitoring: clauses recorded from the generators are evaluated against independent predicates of the problems",
  level_note="Held on the executions of the run. Py2Triples(n) constrains other numbers than its documentation says, as an existing test requires: a known finding."),
 dict(id="C24", title="Benchmark suites and runs record what happened",
  statement="A suite made from selected files has exactly those as instances, with links to them, also after it is opened again; a run records for each instance the result, times, output and error of the command given, timeouts and failures included; listings, totals, comparisons, scatter and cactus data agree with the results recorded, and removing or selecting runs leaves all others as they were. No files are left open.",
  over=["inputs", "histories"], forall="every tree of instance files, selection, command behaviour and history of making, opening, running, selecting and removing",
  why="The package has no tests; a wrong or shifted record looks like any other.",
  files=["bench/suite.go", "bench/run.go", "bench/instrun.go", "bench/sel.go", "bench/cmp.go"],
  mech=[("selection", "bench/sel.go"), ("suites on disk", "bench/suite.go"), ("runs", "bench/run.go, bench/instrun.go"), ("comparison", "bench/cmp.go")],
  observe=["Suite, Run and InstRun methods", "the files of the suite"],
  technique="runtime monitoring: suites and runs of a scripted command are compared with what was made and what the command did",
  level_note="Held on the executions of the run, each in a scratch directory. Times are only compared within bounds which hold on any machine."),
 dict(id="C25", title="Objects which are not shared can be used at the same time",
  statement="Solvers, circuits, readers, generators and their copies which different goroutines have for themselves can be used at the same time: no data race happens and each gives the results it gives alone. A solver or circuit and its copies are such objects, whatever each does.",
  over=["schedules", "histories"], forall="every set of goroutines, each with objects of its own of any kind or copies of one object, and every interleaving",
  why="Tests use one object at a time; memory which copies share, or state of a package, shows only when both sides are used, and to a race detector.",
  files=[XO+"s.go", XO+"cdat.go", XO+"active.go", "logic/c.go", "logic/s.go", "gen/gen.go", "internal/xo/dimacs.go"],
  mech=[("copies", XO+"s.go Copy; logic/c.go Copy"), ("generators' randomness", "gen/gen.go rng, mu")],
  observe=["the race detector", "results of all calls"],
  technique="runtime monitoring: race detector, and the monitors of the other properties in each goroutine",
  level_note=NOTE),
]

NOT_APPLICABLE = []
NOTES = "All checks build the harness (Go) against /repo and observe the real code through its public API; see DESIGN.md."
