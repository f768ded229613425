"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the property texts, METHOD below, the last evidence and the planted bugs."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props

M = {}
M["C01"] = ("Networks of every element type (alone, sharing buses/equations/equal parameters, and all together) are built through the "
  "repository's classes; the real stamping (sympy derivation, lambdify, input maps, matrix builder) runs on symbolic parameters, state and "
  "homotopy factor and the assembled matrix/right-hand side are compared entry by entry with the derivative of the "
  "network's equations, taken by dual numbers from the *residual* side of the code (independently anchored to physics by C03–C05) and, for "
  "multipliers, by derivatives of the Lagrangian.",
  "Tests compare a few converged voltages; a wrong Jacobian entry still converges, more slowly or from fewer starts.")
M["C02"] = ("Assembly/residual calls in several orders at different symbolic states (same and different iteration numbers, second runs); the residual "
  "must equal the reference physics at exactly the state asked for, and maximum/position those of the largest absolute sum.",
  "Stale caches show only in particular call histories.")
M["C03"] = ("Residual contributions of each element at a symbolic state against textbook formulas written with complex numbers; parameters include zero parts and signs.", "Tests use a handful of cases where many terms vanish.")
M["C04"] = ("As C03 for three-phase elements: lines of 1–3 conductors incl. unsymmetric impedance, charging, split-phase transformers, regulators, switches, fuses, capacitors, wye/delta transformers.", "Feeders in the tests use few symmetric parameter sets.")
M["C05"] = ("Each element's equations at a symbolic factor: equality at 0, exact values at 1 and monotonicity between as solver queries.", "Tests look only at the end of the homotopy.")
M["C06"] = ("The inner Newton run is replaced by an arbitrary (symbolic) outcome per call; the controller's protocol is decided for every sequence of outcomes.", "A failing step in the middle of the schedule does not occur in the tests.")
M["C07"] = ("The linear solver returns arbitrary vectors; the run is compared with the prescribed protocol for every answer, tolerance and residual up to the stated number of iterations.", "Only converging histories are tested.")
M["C08"] = ("Every value (also exact zero, thereby every combination of skipped entries) in stamp/clear histories of the matrix builder.", "Leftovers matter only after a longer earlier stamp.")
M["C09"] = ("Each device's answer in each round and each solver outcome is a symbolic choice; the loop is followed to its bound of ten rounds.", "Tests never exhaust the rounds or fail in the middle.")
M["C10"] = ("Two successive symbolic voltages/currents against the control law.", "Boundary and history values are not sampled by tests.")
M["C11"] = ("Integer tap position, limits, increments and step fraction symbolic; equations against the Kersting regulator relations.", "Feeders hold few tap positions.")
M["C12"] = ("Every composition (solver-chosen presence of each element kind, mode), index multiset decided; stamping under that assignment stays inside.", "A clash between two kinds needs the right composition.")
M["C13"] = ("Symbolic declared values in every composition; the whole vector is compared, not only the expected entries.", "Starts barely influence converged results.")
M["C14"] = ("Previous and proposed vectors entirely symbolic, reassignment histories.", "Limiting is active in one test only.")
M["C15"] = ("Result objects and exported tables (file writes to a scratch directory) computed from a symbolic solved state.", "Reports are not compared with S=V·I* anywhere.")
M["C16"] = ("Every choice of element kind between places and any nominal voltages; oracle is an own union-find.", "Tests contain only consistent networks.")
M["C17"] = ("Symbolic load tables and declared loads; power flow replaced by symbolic voltages; verdict thresholds decided for all states.", "Two table rows are tested.")
M["C18"] = ("Symbolic swing output per solve, oracle updates declared loads; islands with every kind of element on either side.", "One feeder is tested.")
M["C19"] = ("Symbolic powers and factors; the command line runs with symbolic argument text, the solver being a recorder.", "No test passes a factor.")
M["C20"] = ("A writer (`checks/_raw.py`) produces the text of whole RAW files in four revisions with symbolic numbers in the fields; the real reader, column parser and "
  "conversion run on it and the elements of the network are compared, per bus, with what the records state by the format's definition (independent oracle `meaning`).",
  "The samples use few columns and one base.")
M["C21"] = ("As C20, with solver-chosen bus types and statuses and symbolic limits.", "Combinations of statuses do not occur in the samples.")
M["C22"] = ("As C20, for transformer records; the oracle converts unit codes by the format's definition and forms the star.", "Unit codes 2 and 3 and partial outages do not occur in the samples.")
M["C23"] = ("A writer (`checks/_glm.py`) produces the text of whole GLM feeders in two styles with symbolic numbers; the real preprocessor, reader and network builder run on it, and the demand "
  "between every pair of buses is compared with the declared one.", "The samples hold few combinations of connection, kind and phases.")
M["C24"] = ("As C23, for transformers: terminals, ratio, rating and series admittance of each winding pair (or of the three center-tap coils) against the definition of the connection.",
  "The samples declare each connection in one notation.")
M["C25"] = ("As C23, for lines: the phases, terminals and series matrix (ohm) of the loaded line against Carson's equations written anew from the declared data; the matrix inverse of a large reduction, logarithms and k-th roots are functions of their arguments (equal arguments, equal values; log additive), so the identity is decided without evaluating them.",
  "The samples have a few configurations with fixed geometry.")
M["C26"] = ("As C23, for the other devices: states, terminals, limits, susceptances, ratios, bands and source phasors of the loaded network against those worked out from the declared data, for every combination of given and missing states and any values. Not claimed: an open device whose phases are said to be closed, delta capacitors, regulators other than three-phase wye.",
  "The samples have complete objects with closed switches and few tap positions.")
M["C27"] = ("The reader runs on two texts that say the same with shared symbolic numbers (plain against another layout, nesting, order, without names, or a quantity in another unit against the number in the documented one), and the two loaded networks (terminals and every number) are compared; the texts' numbers are tokens, so the reader's tokenizer, converters and arithmetic are the real ones. Not claimed: polar complex numbers, objects sharing one name, unknown units.",
  "The samples are written in one style.")
M["C28"] = ("Histories over small models that differ in one place (constants, variables, multipliers, coefficient, factor, names) and over the program's own elements: each step derives a model in this or a new process (a fresh import next to the cache its predecessor left, whole or cut as by a process that ended while writing), stamps it with symbolic parameters and solution, and matrix, right-hand side and residuals are compared with equations written by hand.",
  "Tests derive each model once, from whatever cache is there.")
try:
    from design_more import M as M2
    M.update(M2)
except ImportError:
    pass

t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
out = []
for p in props.P:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
        continue
    out.append(f"### {pid} – {p['title']}\n\n{p['statement']}\n")
    how, why = M[pid]
    out.append(f"*How.* {how}\n\n*Reach beyond tests.* {why}\n")
    ev = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        q = c["queries"]
        out.append("*Bounds.* " + "; ".join(f"`{k}`: {v}" for k, v in c["bounds"].items()) + ".\n")
        out.append(f"*Cost ({e['tier']}).* {c['complete_paths']} paths, {q['queries']} queries, {q['solver_s']:.0f} s in z3, {e['wall_s']:.0f} s wall on 8 cores.\n")
        if e["violations"]:
            print("evidence of", pid, "is not from the clean tree")
if props.NA:
    out.append("### Not applicable\n")
    for k, v in props.NA.items():
        out.append(f"* {k}: {v}")
t = t.replace("@@PROPS@@", "\n".join(out))
f = []
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, pr, commit, text = l.strip().split(" ", 3)
        f.append(f"* {pr[9:]} (repaired, {commit}): {text}")
    elif l.startswith("KNOWN-FINDING:") and "capacitor-direction" not in l:
        _, pr, fid, text = l.strip().split(" ", 3)
        f.append(f"* {pr[9:]} *{fid}* (finding, not repaired): {text}")
t = t.replace("@@FINDINGS@@", "\n".join(f))
b = ["| planted change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    esc = lambda s: s.replace("|", "\\|")
    b.append(f"| {n} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {m['property']} |")
t = t.replace("@@BUGS@@", "\n".join(b))
miss = os.path.join(HERE, "tools", "misses.md")
t = t.replace("@@MISSES@@", open(miss).read() if os.path.exists(miss) else "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
