DB = "include/database/"
prop(id="C09", title="Gate creation is exact and structurally hashed",
 statement="For every network and every choice of operands (constants, complements, inputs, gates), each gate creation function (and, or, nand, nor, lt, le, xor, xnor, ite, maj, xor3 and the n-ary versions) returns a signal computing that function; the network never holds two gates with the same fanins, a gate with a constant, equal or unordered fanins, or a wrong fanout count, phase or gate count; asking for an existing gate returns it and asking whether it exists agrees; this stays true at any network size and after gates are removed.",
 over=["inputs", "histories"], text="all small networks x all operand tuples; long creation/removal histories past every growth of the tables",
 why="Tests create a few gates with chosen operands; no test reaches the size at which the hash table grows or looks at a table after removals.",
 files=[DB+"network/aig_network.hpp", DB+"network/details/storage.hpp"], mech=[("create_and with trivial cases and hashing", DB+"network/aig_network.hpp"), ("open-addressing table with growth", DB+"network/details/storage.hpp")], obs=["create_*", "find_and", "fanout_size", "num_gates"],
 tech="exhaustive enumeration of networks x operand tuples on the real code, and deterministic long creation/removal histories against an independent table")
prop(id="C10", title="In-place edits keep the network consistent",
 statement="After any sequence of in-place edits (substitute a gate by any signal that does not make a cycle, substitute several gates at once, remove an unreferenced gate, create a gate, add an output) every output computes what the edited system of equations says, no live gate or output reads a removed gate, there is no cycle, no two gates have the same fanins, no gate has a constant or duplicated fanin, fanout and gate counts are exact and hashing finds every live gate.",
 over=["histories", "inputs"], text="all edit sequences up to the depth bound over all small AIGs",
 why="Tests substitute a few chosen nodes in two XOR networks; the failures need merges that cascade, a target that dies while it is pending, or a history of several edits.",
 files=[DB+"network/aig_network.hpp", DB+"network/details/storage.hpp"], mech=[("substitute_node worklist", DB+"network/aig_network.hpp"), ("replace_in_node / replace_in_outputs / take_out_node", DB+"network/aig_network.hpp"), ("hash_erase and hash_insert", DB+"network/details/storage.hpp")], obs=["substitute_node", "substitute_nodes", "take_out_node", "create_and", "create_po"],
 tech="explicit-state exploration: every edit history up to the bound is executed on the implementation and compared after every step with a model (system of equations over truth tables)", level="model_checking",
 note="The model is the edited equation system evaluated on all assignments; each model step is replayed on the real network and compared, so the model is bound to the code by construction. Histories and networks beyond the bounds are not covered; for several simultaneous replacements that are not functionally consistent and collide with each other, order dependent results are excluded.")
prop(id="C25", title="Levels and depth are exact",
 statement="A depth view reports for every gate in the cone of an output the length of the longest path from an input (optionally counting inverters) and as depth the maximum over the outputs; this stays true for gates and outputs added afterwards through the view or the network and after a recomputation following substitutions. After construction and after a recomputation exactly the nodes on a longest path to an output are reported as critical.",
 over=["inputs", "histories", "configurations"], text="all small AIGs, additions and substitutions",
 why="Tests check the depth of one or two networks right after construction.",
 files=[DB+"views/depth_view.hpp"], mech=[("recursive level computation and creation events", DB+"views/depth_view.hpp")], obs=["depth_view::level", "depth_view::depth", "print_stats"],
 tech="bounded-exhaustive enumeration of networks and edits on the real code, compared with an independent longest-path computation")
prop(id="C26", title="Reference counting and topological traversal are exact",
 statement="Dereferencing a gate reports exactly the size of its fanout-free cone and referencing it restores every reference count; a topological view visits each gate in the cone of an output exactly once, after its fanins, and no other gate.",
 over=["inputs"], text="all gates of all small AIGs, before and after a substitution",
 why="Cone sizes decide which replacements pay off; tests never compare them with an independent computation.",
 files=[OPS+"algorithms/ref_deref.hpp", DB+"views/topo_view.hpp"], mech=[("recursive deref/ref", OPS+"algorithms/ref_deref.hpp"), ("depth-first order", DB+"views/topo_view.hpp")], obs=["deref_node_recursive", "ref_node_recursive", "topo_view::foreach_node"],
 tech="bounded-exhaustive enumeration of networks on the real code, compared with an independent cone computation")
IO = "include/operations/io/"
prop(id="C11", title="Writing AIGER is lossless",
 statement="For every combinational AIG, including results of the passes, networks with dangling gates, constant, complemented, repeated or missing outputs and networks large enough for multi-byte deltas, the written file is a valid binary AIGER file with the same inputs and outputs in the same order, every output computing the same function, and reading it back gives a network with the same functions, gate count and depth whose writing gives the same bytes.",
 over=["inputs"], text="all combinational AIGs",
 why="Tests do not parse a written file; encoding errors appear for particular deltas, polarities, outputs or gate orders.",
 files=[IO+"detail/write_aiger.hpp", IO+"writer.hpp", IO+"reader.hpp"], mech=[("binary encoding of gates in creation order", IO+"detail"), ("AIGER parser callbacks", IO+"reader.hpp")], obs=["write_aiger", "command write_aiger", "Reader"],
 tech="bounded-exhaustive enumeration of networks on the real writer and reader, against an independent strict AIGER decoder")
prop(id="C12", title="Reading AIGER gives exactly the network and names in the file",
 statement="For every valid combinational binary AIGER file, whatever the gate fanins (constants, equal or opposite literals, any topological shape), outputs, symbol table (any subset of ports named, any order, special characters) and comment section, the network read has the ports of the file in order, each output computes the function in the file, and every named port has the name in the file and every other port a name of its own.",
 over=["inputs"], text="all valid combinational binary AIGER files",
 why="Tests read the benchmark files only, which have no degenerate gates and name all ports or none.",
 files=[IO+"reader.hpp", "libs/lorina/lorina/aiger.hpp"], mech=[("AIGER parser callbacks and port naming", IO+"reader.hpp")], obs=["Reader", "command read_aiger", "names in exported netlists"],
 tech="bounded-exhaustive enumeration of files from an independent encoder, read by the real reader")
prop(id="C13", title="Verilog export computes the network",
 statement="For every AIG and every port naming (default, given names, names that need escaping, vectors, mixed), the exported Verilog module is well-formed (every name declared once, every net driven once, no undeclared or undriven reference, no cycle), has the ports of the network in order with the given names and every output computes the function of the network.",
 over=["inputs", "configurations"], text="all AIGs x all port namings",
 why="Tests compare one or two exported files; constants, inputs driving outputs, complemented outputs, empty port lists and vectors go through different code.",
 files=[IO+"detail/write_verilog.hpp", IO+"writer.hpp"], mech=[("writer of modules, declarations and assignments", IO+"detail/write_verilog.hpp")], obs=["write_verilog", "command write_verilog"],
 tech="bounded-exhaustive enumeration of networks and namings on the real writer, against an independent parser and evaluator of the Verilog subset")
prop(id="C14", title="LUT netlist export computes the mapped network",
 statement="For every mapped LUT network and every subset of named ports, the exported netlist is well-formed (declarations, one driver per net, one INIT of the right width per LUT instance, no cycle), has the ports of the network in order, as many LUTs of each size as the network needs, and every output computes the function of the network when each LUT is read through its INIT mask.",
 over=["inputs", "configurations"], text="all networks the mapper produces x all subsets of named ports",
 why="Tests never read an exported netlist back; masks, pin order, constant and complemented outputs can each be wrong on their own.",
 files=[IO+"detail/writer_lut.hpp"], mech=[("LUT netlist writer with INIT masks", IO+"detail")], obs=["write_fpga", "command write_fpga"],
 tech="bounded-exhaustive enumeration of mapped networks on the real writer, against an independent netlist parser and evaluator")
prop(id="C15", title="DOT export draws exactly the network",
 statement="For every AIG and every LUT network, the DOT output has one node per input, gate and output, one edge per connection drawn with the polarity of that connection, ranks equal to logic levels, and nothing else; evaluating the drawing gives the function of every output.",
 over=["inputs"], text="all AIGs and all mapped networks",
 why="Tests do not look at the drawings.",
 files=[IO+"detail/write_dot.hpp"], mech=[("node, edge and rank drawers", IO+"detail/write_dot.hpp")], obs=["write_dot", "command write_dot"],
 tech="bounded-exhaustive enumeration of networks on the real writer, against an independent DOT parser and evaluator")
CLI = "cli/command/"
SHELL = "explicit-state exploration of the real shell: every command sequence up to the depth is executed by forking the process at each state, states already seen are merged, each step is compared with a session model"
SHNOTE = "The transition relation is the implementation itself (each transition is a command executed in a forked process), so no model has to be trusted beyond the session model used as oracle. Sequences longer than the bounds, other circuits and other parameter values are not covered."
prop(id="C16", title="A shell session keeps the functions of the file that was read",
 statement="After any sequence of read, optimisation (rewrite, refactor, balance, lut_opt, cleanup) and mapping commands with any accepted options, the current AIG and the last mapping result compute for every output the function in the AIGER file read last, with its ports and names; an optimisation leaves the mapping result and the history alone, a mapping leaves the AIG alone, and reading a file replaces everything.",
 over=["histories", "configurations"], text="all command sequences up to the depth bound",
 why="Tests call the passes one at a time; results of one pass are the input of the next and share storage with the history and the mapping.",
 files=["cli/cache.hpp", CLI+"rewrite.hpp", CLI+"refactor.hpp", CLI+"balance.hpp", CLI+"lut_opt.hpp", CLI+"map_fpga.hpp", CLI+"cleanup.hpp", CLI+"io/read_aiger.hpp"], mech=[("commands on the stores of the session", "cli/command"), ("command parsing", "libs/alice/include/alice/command.hpp")], obs=["imap shell", "write_aiger", "write_fpga"],
 tech=SHELL, level="model_checking", note=SHNOTE)
prop(id="C17", title="The history holds exactly the AIGs that were stored",
 statement="history -a appends the current AIG (at most five; a full history is reported and stays usable), -r i replaces entry i if it exists, -c empties the history and -s reports its size; an entry never changes afterwards whatever is done to the current AIG, reading another file empties the history, and mapping with choices uses the stored AIGs and gives a network with the functions of the file read last, also when the history is empty.",
 over=["histories"], text="all sequences of history, optimisation, mapping and read commands up to the depth bound",
 why="No test runs the history command; entries that share storage with the current AIG or survive a new file only show in longer sequences.",
 files=[CLI+"history.hpp", CLI+"map_fpga.hpp", CLI+"io/read_aiger.hpp"], mech=[("history slots in the AIG store", CLI+"history.hpp")], obs=["history", "map_fpga -t 1"],
 tech=SHELL, level="model_checking", note=SHNOTE)
prop(id="C18", title="Printing, exporting and invalid commands change nothing and tell the truth",
 statement="print_stats, every write command, and every command with an invalid option, a missing file or without the network it needs leave the whole session as it was, also when repeated; ports, area and depth printed are those of the network, exported files compute its functions with the names of the file read, invalid commands are reported and write nothing.",
 over=["histories"], text="all sequences of observing, invalid and changing commands up to the depth bound, from the empty session",
 why="Tests do not look at the session after a report or a refused command.",
 files=[CLI+"print_stats.hpp", CLI+"io", "include/database/network/klut_network.hpp", "include/database/views/depth_view.hpp"], mech=[("reporting commands", CLI+"print_stats.hpp"), ("export commands", CLI+"io")], obs=["print_stats", "write_*", "messages"],
 tech=SHELL, level="model_checking", note=SHNOTE)
prop(id="C20", title="A command depends only on the networks and its own options",
 statement="The effect of a command is determined by the networks in the session and the options given in that call: the same command on the same network has the same result whatever commands, options (accepted or refused), files, reports or mappings came before, and a repeated run gives the same result.",
 over=["histories", "configurations"], text="all command sequences with different options up to the depth bound",
 why="Tests run every command once in a fresh process with fresh memory.",
 files=["libs/alice/include/alice/command.hpp", "cli/command", "include/operations"], mech=[("binding and parsing of options", "libs/alice/include/alice/command.hpp")], obs=["imap shell"],
 tech=SHELL+"; results of equal commands on equal networks reached in different ways are compared", level="model_checking", note=SHNOTE)
prop(id="C19", title="Cut enumeration is sound, irredundant and complete",
 statement="For every AIG, cut size and cut limit, every cut reported for a node separates it from the inputs, has at most cut-size leaves, none contains another, the trivial cut is there, no more than the limit are kept, and the function stored with a cut computes the node from the cut's leaves; where no limit is reached, all irredundant cuts are found.",
 over=["inputs", "configurations"], text="all AIGs x cut sizes x cut limits",
 why="Tests count the cuts of one or two small networks; merging, dominance, trimming and function computation must agree for every reconvergence.",
 files=[DB+"cut/cut_enumeration.hpp", DB+"cut/cut_set.hpp", DB+"cut/cut.hpp", DB+"cut/rewrite_cut_enumeration.hpp"], mech=[("merging and dominance", DB+"cut/cut_set.hpp"), ("bottom-up enumeration with truth tables", DB+"cut/cut_enumeration.hpp")], obs=["cut_enumeration"],
 tech="bounded-exhaustive enumeration of AIGs x parameters on the real code, against an independent complete cut enumeration and evaluator")
prop(id="C21", title="Equivalence verdicts, counter-examples and CNF are right",
 statement="The miter of two networks is 1 exactly where they differ; the equivalence check says equivalent exactly if they are and otherwise gives an input assignment that tells them apart; the CNF of a network admits exactly the consistent valuations; every circuit-validator query, in any order in one session, gives the right verdict and a real counter-example; generated patterns satisfy the request.",
 over=["inputs", "histories"], text="all pairs of small networks; all queries on all nodes of small networks in one incremental session",
 why="Tests check a few pairs; choice computation relies on the verdicts, and a wrong one only shows for particular structures, constants or query orders.",
 files=[OPS+"algorithms/equivalence_checking.hpp", OPS+"algorithms/miter.hpp", OPS+"algorithms/cnf.hpp", OPS+"algorithms/circuit_validator.hpp"], mech=[("Tseitin encoding", OPS+"algorithms/cnf.hpp"), ("incremental SAT queries", OPS+"algorithms/circuit_validator.hpp")], obs=["equivalence_checking", "miter", "circuit_validator"],
 tech="bounded-exhaustive enumeration of network pairs and query sequences on the real code, against complete evaluation")
prop(id="C22", title="Simulation computes the function of every node",
 statement="For every AIG and LUT network and every kind of simulation value (Boolean, word, static and dynamic truth table, partial patterns), simulation gives every node and output the value of its function, and patterns added later extend partial simulation without changing earlier ones. Packing patterns with don't-care inputs keeps every pattern's cared values in some pattern and the initial patterns in place.",
 over=["inputs", "histories"], text="all small networks x all simulators x all assignments; pattern additions across block boundaries",
 why="Tests simulate one or two networks; SAT sweeping and choice computation start from these values.",
 files=[OPS+"algorithms/simulation.hpp", DB+"network/aig_network.hpp", DB+"network/klut_network.hpp"], mech=[("simulators and compute() of the networks", OPS+"algorithms/simulation.hpp")], obs=["simulate", "simulate_nodes", "compute"],
 tech="bounded-exhaustive enumeration of networks x simulators on the real code, against an independent evaluator")
prop(id="C23", title="The 4-input rewriting library computes every function",
 statement="For every Boolean function of up to four variables, rewriting a node with the library offers at least one structure and every structure offered computes exactly that function of the given leaves, whatever the leaves are.",
 over=["inputs"], text="all functions of up to 4 variables x all library structures",
 why="Tests build a handful of functions; each of the 222 classes has its own structures, permutation and phase.",
 files=[OPS+"optimization/detail/node_rewriting.hpp"], mech=[("NPN canonisation and database of structures", OPS+"optimization/detail/node_rewriting.hpp")], obs=["node_rewriting", "rewrite"],
 tech="complete enumeration of all functions of up to 4 variables on the real code, every structure evaluated on all assignments")
prop(id="C24", title="SOP factoring computes every function",
 statement="For every Boolean function, the factored form built from its irredundant sum of products computes that function of the given leaves.",
 over=["inputs"], text="all functions of up to 4 variables; families of functions of 5 to 9 variables",
 why="Tests factor a few covers; kernel division, literal handling and constants differ for every cover.",
 files=[OPS+"optimization/detail/sop_refactoring.hpp", OPS+"optimization/detail"], mech=[("algebraic division and factoring", OPS+"optimization/detail")], obs=["sop_factoring", "refactor"],
 tech="complete enumeration of functions up to 4 variables and bounded enumeration above on the real code, every result evaluated on all assignments")
prop(id="C28", title="LUT networks are created and converted faithfully",
 statement="Every creation function of a LUT network returns a node computing the requested function, substituting a node replaces it everywhere, and converting any LUT network or mapped AIG into an AIG keeps the inputs, outputs and every output function.",
 over=["inputs"], text="all LUT functions of up to 4 inputs, all pairs of small LUTs with all fanins, all operand tuples",
 why="Tests convert mapped benchmarks, whose LUTs never have constant, repeated or unused fanins.",
 files=[OPS+"algorithms/detail/convert_to_aig.hpp", DB+"network/klut_network.hpp"], mech=[("cube-wise conversion of LUT functions", OPS+"algorithms"), ("function cache", DB+"network/klut_network.hpp")], obs=["convert_klut_to_aig", "create_node", "command lut_opt"],
 tech="bounded-exhaustive enumeration of LUT networks on the real code, compared with an independent evaluator")
prop(id="C29", title="Annotating nodes leaves the network as it is",
 statement="Setting, incrementing, decrementing and clearing custom values, visited marks and the traversal id of an AIG or LUT network returns and keeps exactly the values of an independent model and changes nothing about nodes, inputs, outputs, fanins, functions or reference counts.",
 over=["histories"], text="all sequences of annotation calls up to the depth bound",
 why="Passes keep their state in node fields; tests never check that fields do not overlap with the structure.",
 files=[DB+"network/aig_network.hpp", DB+"network/klut_network.hpp", DB+"network/details/storage.hpp"], mech=[("data fields of storage nodes", DB+"network/details/storage.hpp")], obs=["set_value", "incr_value", "set_visited"],
 tech="explicit-state exploration: all sequences of annotation calls up to a depth, each executed on the implementation and compared with a model after every call", level="model_checking",
 note="The model is a table of values; every model step is executed on the real network and the complete observable structure compared. Longer sequences and other networks are not covered.")
prop(id="C27", title="SOP balancing preserves functions and never increases depth",
 statement="For every AIG, cut size, cut limit and critical-path setting, balancing with sum-of-products re-expression returns a network with the same inputs and outputs, every output computing the same function, and no larger depth; the covers cached by an earlier run do not change this, and the network given stays as it was.",
 over=["inputs", "configurations"], text="all AIGs x cut sizes x cut limits",
 why="Nothing in the test suite runs it; every cut function has its own cover, arrival times and AND/OR tree.",
 files=[OPS+"optimization/balancing.hpp", OPS+"optimization/balancing/sop_balancing.hpp", OPS+"optimization/balancing/utils.hpp"], mech=[("re-expression of cut functions with minimal arrival", OPS+"optimization/balancing.hpp"), ("cover and tree construction", OPS+"optimization/balancing/sop_balancing.hpp")], obs=["balancing() with sop_rebalancing"], tech=BOUND)
prop(id="C30", title="Reconstruction keeps functions, LUTs and ports as requested",
 statement="Cleaning a LUT network keeps the inputs, outputs and functions and leaves no dangling LUT, constant fanin or fanin a LUT does not depend on as requested; optional removal of ports removes exactly the unused inputs and trivial outputs; copying a network onto any leaves of an existing network gives the composed functions and disturbs nothing there.",
 over=["inputs", "configurations"], text="all LUT networks with any fanins; all AIGs x all tuples of leaves",
 why="Tests clean two or three networks; constants, repeated fanins and complemented or equal leaves collapse the copied logic in ways only enumeration reaches.",
 files=[OPS+"algorithms/cleanup.hpp", DB+"network/klut_network.hpp", DB+"network/aig_network.hpp"], mech=[("topological copy with leaf substitution", OPS+"algorithms/cleanup.hpp"), ("support and constant reduction of LUTs", OPS+"algorithms/cleanup.hpp")], obs=["cleanup_dangling", "cleanup_luts"],
 tech="bounded-exhaustive enumeration of networks x leaf tuples on the real code, compared with an independent evaluator")
prop(id="C31", title="The checks of mapped networks accept exactly the right ones",
 statement="For every mapped network, with or without structural choices, the built-in check accepts the mapping, the miter check finds its conversion equivalent to the source, and neither accepts a mapping some output of which computes another function.",
 over=["inputs", "configurations", "fault_sequences"], text="all mappings of the enumerated circuits x every single-bit corruption and inversion of every LUT function",
 why="Tests never corrupt a mapping; a check that accepts everything, or one LUT too many, would pass them all.",
 files=[OPS+"algorithms/detail/checker_4_mapped_graph.hpp", OPS+"algorithms/equivalence_checking.hpp", OPS+"algorithms/detail/convert_to_aig.hpp"], mech=[("SAT check of every LUT against its cone", OPS+"algorithms/detail/checker_4_mapped_graph.hpp")], obs=["debug_mapped_aig_by_origin", "debug_by_miter"],
 tech="exhaustive enumeration of mappings and single faults on the real code, every verdict compared with complete evaluation")
prop(id="C32", title="Side tables and iteration report exactly what is stored",
 statement="After any sequence of calls, a mapping (add, remove, clear, set function), a dense or sparse node map (write through a node or a signal of either polarity, reset, resize after the network has grown, erase, deep copy) and the truth table cache report exactly what was stored last, and using them leaves the network unchanged; every iteration function visits exactly its elements, once, in order, with the right indices, without removed gates, and stops as soon as the callback asks for it.",
 over=["histories", "inputs"], text="all call sequences up to the depth bound; all small networks x callback signatures x stopping points",
 why="Every algorithm stores its state in these tables and walks networks through these functions; tests use one call pattern and one callback signature each.",
 files=[DB+"views/mapping_view.hpp", "include/utils/node_map.hpp", "include/utils/truth_table_cache.hpp", DB+"network/details/foreach.hpp", DB+"network/aig_network.hpp", DB+"network/klut_network.hpp", "include/utils/range.hpp"], mech=[("mapping table with leaf lists", DB+"views/mapping_view.hpp"), ("normal functions and literals", "include/utils/truth_table_cache.hpp"), ("filtered and transformed iteration", DB+"network/details/foreach.hpp")], obs=["mapping_view", "node_map", "unordered_node_map", "truth_table_cache", "foreach_*", "pi_at", "po_at"],
 tech="explicit-state exploration: every call sequence up to the depth is executed on the implementation and compared with a table model after every call", level="model_checking",
 note="Depth 4-5 (6 in the thorough tier) over an alphabet of 11-13 calls on two networks; the model is a plain table bound to the code by executing every step on both.")
prop(id="C33", title="The batch flow writes files that compute the network read",
 statement="A run of the batch flow (flow manager, ifpga program) on a file, or on a folder with the original and two equivalent versions, with any configuration, writes a Verilog file and a LUT netlist that compute the functions of the original under its port names, respects the LUT size of the configuration, reports exactly the LUTs in the netlist, finds its own result equivalent when verification is on, and leaves the input files as they were.",
 over=["inputs", "configurations"], text="all circuits of the families x configurations x input forms",
 why="No test runs the flow; it chains reading, two optimisation scripts that share storage, choices, mapping, conversion and export.",
 files=["include/flow/flow_manager.hpp", "include/flow/configer.hpp", OPS+"algorithms/choice_miter.hpp", OPS+"io/writer.hpp", DB+"network/klut_network.hpp"], mech=[("optimisation scripts and choice synthesis", "include/flow/flow_manager.hpp"), ("configuration", "include/flow/configer.hpp"), ("output files and report", "include/flow/flow_manager.hpp")], obs=["flow_manager::run", "files written", "printed report"],
 tech="bounded-exhaustive enumeration of circuits x configurations on the real code, output files parsed strictly and evaluated on all assignments")
