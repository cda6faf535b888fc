#!/usr/bin/env python3
"""Compose DESIGN.md: tools/design_head.md + one section per property (text below, rules from the sources, repaired
defects from known_findings.txt) + tools/design_tail.md + the table of planted bugs (tools/catches.txt)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HOW = {
"P01": "The four functions that move a vehicle between places (waiting queue, link, ended) are evaluated symbolically; removal and insertion events must carry the same guards, the same vehicle and the right end of the queue; every other function of the program must not touch the containers (ownership query over all functions of both engines).",
"P02": "Insertions into and removals from a link are paired with increments of the last entry of the count arrays by one platoon under the same guards; the link update is compared with the reference 'append the previous value'; nothing else may write the arrays.",
"P03": "Guards of departure and transfer must imply each capacity condition (decided by Fourier-Motzkin on the guard conjunctions); the decrements are paired with the moves; refills are compared with reference formulas.",
"P04": "The candidate set of the transfer (comprehension or loop, in both engines) is analysed for the condition 'signal phase in the group of the link, or a single phase'; every insertion into a link must come from departure or transfer.",
"P05": "Queue ends: the removal term must be index 0 of the deque of the link and the insertion an append; the vehicle of the transfer must be the first of its link by the guards or by how it was chosen.",
"P06": "Final values of x_next/x/v/move_remain compared with the reference formulas for every path (with and without leader, at the link end, as taxi), all writers of positions enumerated. The invariant 'never behind, never through the leader' follows from these by induction over steps; the entry case is decided on the min() structure.",
"P07": "Pointer updates at insertion and removal compared pairwise; lane indices compared with the cyclic formula; the leader must be the vehicle number_of_lanes places ahead.",
"P08": "State writes with their guards compared with the life-cycle automaton home-wait-run-end/abort; flags, arrival times and registries are paired with the transitions.",
"P09": "The main loop is flattened into a sequence of passes (loops over LINKS/NODES/VEHICLES with the calls they make, inlining helpers); order, completeness and separateness of the passes are compared with the reference. In C++ also the barrier structure (omp for / single / nowait) is read.",
"P10": "Effect query over all functions reachable from the simulation: reads of process-wide generators, clock, environment, hash order (iteration over sets, keys by object, sorting by id) with a taint from such values to anything kept. Generators must be made from the seed of the world and the kind and number of the element.",
"P11": "Parallel regions are read from the OpenMP directives in the clang AST; for each, per-iteration read and write sets are computed as access paths from the iteration element through the call graph; overlaps between iterations are violations unless the path runs through the element itself.",
"P12": "signal_control/signal_update evaluated for the phase step; initial phase walk compared by fixed term comparison and by a finite model (setmodel) of the derived terms for offsets and cycle lengths; flow of signal arguments from the user call to the field.",
"P13": "Values written into the adjacency matrix/cost vectors compared with reference; finite-model comparison of the derived terms for parallel links and closures; share update compared as linear combination with the two weights summing to 1.",
"P14": "Every assignment of the next link is shown to be a member of the out-links (by guard or by construction of the candidates); specified routes by index with a counter of links; requests of a transfer need a fresh choice.",
"P15": "The candidate list at a node and at departure is a chain of set operations; the derived chain is compared with the reference as functions on a finite model of membership (setmodel enumerates memberships of the abstract elements, no code is run).",
"P16": "Reference formulas and pairing; replay of buffered travel times in the wrapper checked for order and coverage of every reader.",
"P17": "Loop bounds of exec_simulation as terms over start, duration, until and the simulation length; guards of finalisation; return values.",
"P18": "Call events of user functions: exactly one per update path (guards of the union is the whole condition), element as argument, order after the update; no other caller.",
"P19": "Demand loops compared with the accumulate-and-emit reference (initial value, step, threshold, carry); argument binding of every nested call (names matched to parameters).",
"P20": "Constructors: events on registries, duplicate handling paths (exactly raise, rename or accept), order of raise and registration. Ownership over both engines and the wrapper.",
"P21": "Return terms of lookups; operations with element arguments must pass them through a lookup before use (dataflow from the parameter); operator[] on C++ maps with non-registered keys is a violation.",
"P22": "Syntax and escape queries: mutable defaults that are stored/mutated/returned, class attributes mutated through instances, module variables written from functions, memoising decorators, list repetition of mutable entries, shallow copies.",
"P23": "Writer and reader tables are extracted from the AST: parameters of constructors and adders against keys written and keys read; guards of omissions against default values.",
"P24": "Signatures, attributes and defaults of both modes compared; each parameter of the C++ mode must reach the engine or raise/warn; bindings.cpp is read through the clang AST (names of py::arg against position of the C++ parameter).",
"P25": "Effect summaries of every query/analysis function (write sets as access paths by class and field) must not intersect the state from which the simulation continues.",
"P26": "Caching flags: a return of stored results must be guarded by a comparison with the current step; accumulators must be reset in the same function; remembered values in the wrapper must be dropped when the simulation goes on.",
"P27": "Statistics formulas (platoon size factors, conditions, denominators) compared as terms; tables: column name to value.",
"P28": "Index terms of queries: floor(time/step) clamped to [0, recorded-1], decided by linear arithmetic on the min/max structure; derived quantities as formulas.",
"P29": "Append events per column must have identical guards; record calls per update path counted; C++ log array layout compared by stride and offset terms.",
"P30": "Call/registration events of taxi module evaluated with Vehicle.update/add_dest; pairing, order, ownership and reference values.",
"P32": "Solver loops: the world simulated in an iteration must be the value freshly returned by the factory in the same iteration; recorded values must be terms over that world; final solution/ best-so-far comparisons; C++ result ids and setup order.",
"P33": "Comparisons that guard a swap: operands must be the cost of the alternative and of the current best, strict; probability draws guard the change; otherwise the travelled route is kept (value analysis).",
"P34": "Enumeration loops: counters, distinctness tests, endpoints; conversions preserve order (index mapping terms).",
"P35": "Final values of the link parameters per combination of given parameters compared with the closed forms of the triangular diagram (polynomial normal form), setters included.",
"P31": "Summaries of the analyses (guards, values, recurrences, container changes derived from the source) are compared with the definitions on finite models of logs and links (vf/stats.py, vf/live.py): trajectories at every kind of start and end, cells crossed, touched and rested in, empty cells, last periods, parts behind the last cell, every selection of links; cell sizes, periods and empty tables by the terms assigned in the constructors.",
"P36": "All print/show/save calls with guard implication of the switch; taint of switches towards simulation state; division by zero in progress output.",
}
NA = {
}


def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    man = json.load(open(V + "/MANIFEST.json"))
    na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
    fixed = {}
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if m:
            fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
    n = 0
    for p in props:
        i = p["id"]
        out.append("### %s %s" % (i, p["title"]))
        if i in na:
            out += ["", "Not applicable: " + na[i], ""]
            continue
        out += ["", HOW.get(i, ""), ""]
        t = open(V + "/vf/r/%s.py" % i.lower()).read()
        for m in re.finditer(r'@rule\("(P\d+)", "(R\w+)", "(.*?)"\)', t):
            n += 1
            out.append("- %s: %s" % (m.group(2), m.group(3)))
        if i in fixed:
            out += ["", "Defects found and repaired: " + "; ".join("%s (%s)" % (b, a) for a, b in fixed[i]) + "."]
        out.append("")
    out += [open(V + "/tools/design_tail.md").read().rstrip(), ""]
    cf = V + "/tools/catches.txt"
    if os.path.exists(cf):
        out += ["| planted bug | property | check | reported construct |", "|---|---|---|---|"]
        for l in sorted(open(cf)):
            a = l.rstrip("\n").split("\t")
            if len(a) == 4:
                out.append("| %s | %s | %s | %s |" % tuple(x.replace("|", "\\|") for x in a))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
    print("%d properties, %d rules" % (len(props), n))


if __name__ == "__main__":
    main()
