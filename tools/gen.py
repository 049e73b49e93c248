#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below, so that they cannot drift apart."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "include/operations/"
P = []   # id, title, statement, over, quantifier text, why_tests_cant, files, mechanism[(name, where)], observe_at, technique, level, level_note
def prop(**k): P.append(k)
BOUND = "bounded-exhaustive enumeration of circuits and parameters on the real code, compared with an independent evaluator"
EXPL = "Every case of the enumerated families is executed on the code built from /repo; nothing is said about circuits outside the families. Trusts the reference evaluator (harness/common.hpp) and the compiler."

prop(id="C01", title="Rewriting preserves every output function",
 statement="For every combinational AIG and every accepted combination of cut size, priority size, level preservation and zero-gain acceptance, rewriting terminates without failing and returns a network with the same inputs and outputs in which every output computes the same Boolean function as before.",
 over=["inputs", "configurations"], text="all AIGs (including dangling, constant and shared logic) and all rewrite parameters",
 why="The tests rewrite a handful of benchmark circuits with default parameters and mostly look at sizes; equivalence must hold for every structure and parameter choice, including replacements that destroy or merge nodes another replacement relies on.",
 files=[OPS+"optimization/rewrite.hpp", OPS+"optimization/detail", "include/database/network/aig_network.hpp", "include/database/cut/cut_enumeration.hpp"],
 mech=[("cut rewriting with an NPN library and batch substitution", OPS+"optimization/rewrite.hpp")], obs=["rewrite()", "command rewrite"], tech=BOUND)
prop(id="C02", title="Refactoring preserves every output function",
 statement="For every combinational AIG and every accepted combination of cone size, leaf count, level preservation and zero-gain acceptance, refactoring terminates without failing and returns a network with the same inputs and outputs in which every output computes the same Boolean function as before.",
 over=["inputs", "configurations"], text="all AIGs and all refactor parameters",
 why="Tests run refactor on one or two benchmarks with default parameters; cone computation, ISOP/factoring and in-place substitution must be right for every reconvergence pattern and limit.",
 files=[OPS+"optimization/refactor.hpp", OPS+"optimization/detail", "include/database/network/aig_network.hpp"],
 mech=[("MFFC collapse, SOP factoring, substitution", OPS+"optimization/refactor.hpp")], obs=["refactor()", "command refactor"], tech=BOUND)
prop(id="C03", title="Balancing preserves functions and never increases depth",
 statement="For every combinational AIG, balancing returns a network with the same inputs and outputs, every output computing the same Boolean function, and a logic depth that is not larger than before.",
 over=["inputs"], text="all AIGs",
 why="Tests balance a few circuits; conjunction collection across shared, complemented, duplicate and contradictory operands has many structural cases that only exhaustive small structures reach.",
 files=[OPS+"optimization/and_balance.hpp"], mech=[("supergate collection and level-ordered reconstruction", OPS+"optimization/and_balance.hpp")], obs=["balance_and()", "command balance"], tech=BOUND)
prop(id="C04", title="LUT-based optimisation preserves every output function",
 statement="For every combinational AIG and every accepted number of LUT inputs and cuts, LUT-based optimisation (map to LUTs, convert back to an AIG) terminates without failing and returns an AIG with the same inputs and outputs in which every output computes the same Boolean function.",
 over=["inputs", "configurations"], text="all AIGs and all lut_opt parameters",
 why="Tests check the size for a few benchmarks; the mapping cover, the LUT functions and their re-expression as AND nodes must agree for every structure.",
 files=[OPS+"algorithms/klut_mapping.hpp", OPS+"algorithms/network_to_klut.hpp", OPS+"algorithms/detail/convert_to_aig.hpp"], mech=[("priority-cut mapping", OPS+"algorithms/klut_mapping.hpp"), ("LUT to AIG conversion", OPS+"algorithms/detail/convert_to_aig.hpp")], obs=["command lut_opt"], tech=BOUND)
prop(id="C05", title="Cleanup keeps exactly the live logic",
 statement="For every AIG, removing dangling nodes keeps all inputs, outputs, functions, the number of live gates and the depth, leaves no dangling gate, and is idempotent.",
 over=["inputs"], text="all AIGs, with any set of dangling gates",
 why="Tests clean networks that are already clean or have one dangling gate.",
 files=[OPS+"algorithms/cleanup.hpp"], mech=[("reconstruction of the transitive fanin of the outputs", OPS+"algorithms/cleanup.hpp")], obs=["cleanup_dangling()", "command cleanup"], tech=BOUND)
prop(id="C06", title="Any sequence of passes preserves every output function",
 statement="Any sequence of optimisation passes, in any order and with any mix of options, leaves the function of every output, and the number of inputs and outputs, unchanged.",
 over=["inputs", "histories", "configurations"], text="all pass sequences over all AIGs",
 why="Unit tests call single passes on fresh networks; passes leave marks, levels, dead nodes and shared storage behind that only another pass can trip over.",
 files=[OPS+"optimization", OPS+"algorithms", "include/database/network"], mech=[("every pass re-establishes the network invariants", "include/database/network/aig_network.hpp")], obs=["scripts of commands"], tech="exhaustive enumeration of all pass sequences up to a length, over enumerated circuits, on the real code")
prop(id="C07", title="LUT mapping is an equivalent, legal LUT network",
 statement="For every combinational AIG and every accepted parameter set, mapping yields a LUT network with the same inputs and outputs computing the same functions; no LUT has more inputs than requested, the network is acyclic, it needs no more LUTs than the AIG has gates (plus one per output polarity), its depth never exceeds the gate depth, and a network with at most as many inputs as a LUT maps to depth one.",
 over=["inputs", "configurations"], text="all AIGs and all mapping parameters",
 why="Tests map benchmark files and look at totals; a wrong LUT function, a missing cover node or an oversized cut shows up only for particular structures.",
 files=[OPS+"algorithms/klut_mapping.hpp", OPS+"algorithms/network_to_klut.hpp", "include/database/cut"], mech=[("priority cuts, required times, area recovery", OPS+"algorithms/klut_mapping.hpp"), ("network extraction", OPS+"algorithms/network_to_klut.hpp")], obs=["command map_fpga"], tech=BOUND)
prop(id="C08", title="Mapping with structural choices stays equivalent",
 statement="For every set of functionally equivalent snapshots of a network, merging them and computing structural choices yields a network with the same output functions, in which every recorded choice computes its representative's function up to the recorded phase; mapping that network yields a LUT network with the same output functions within the LUT size limit.",
 over=["inputs", "histories", "configurations"], text="all networks, all optimisation histories that produced the snapshots, all mapping parameters",
 why="Tests run the choice flow on one benchmark; phases, SAT proofs, class splitting and cut transfer between class members matter for every coincidence of functions.",
 files=[OPS+"algorithms/choice_miter.hpp", OPS+"algorithms/choice_computation.hpp", OPS+"algorithms/aig_with_choice.hpp", OPS+"algorithms/klut_mapping.hpp"], mech=[("simulation classes proved by SAT", OPS+"algorithms/choice_computation.hpp"), ("cut sets of representatives extended by those of the choices", OPS+"algorithms/klut_mapping.hpp")], obs=["command map_fpga -t 1"], tech="exhaustive enumeration of circuits x snapshot histories on the real code, compared with an independent evaluator")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None
NA = globals().get("NA", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": [], "not_applicable": NA}
for p in P:
    if p["id"] in na: continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash checks/run.sh {p['id']} quick", "thorough_cmd": f"bash checks/run.sh {p['id']} thorough", "technique": p["tech"], "level": p.get("level", "exploration"), "level_note": p.get("note", EXPL)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
