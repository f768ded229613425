"""Writes /verif/properties.jsonl (kept as a script so that the entries are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))


S = "src/"
prop("C01", "Each Newton step is the exact linearisation of the network equations",
     "For every network, operating point and homotopy factor, the linear system assembled for a Newton step is the first-order Taylor expansion of the network's stationarity/current-balance equations around the previous iterate: matrix entries equal the partial derivatives and right-hand sides equal derivative-times-point minus function value, each exactly once per element. This holds for every element type, for elements that share equations, buses or equal parameter values, in both plain power-flow and optimisation (infeasibility) mode.",
     ["inputs", "programs", "configurations"],
     "all element parameter values, all previous iterates, all homotopy factors, several instances and mixes of every element type, both modes",
     "Tests solve a handful of networks to convergence; a slightly wrong Jacobian still converges and any instance/parameter mix outside those files is unvisited.",
     [S + "logic/stamping/lagrangesegment.py", S + "logic/stamping/lagrangestampdetails.py", S + "logic/stamping/matrixstamper.py"],
     [("symbolic differentiation split into constant/linear/linearised parts", S + "logic/stamping/lagrangesegment.py"),
      ("batched evaluation of shared expressions", S + "logic/stamping/matrixstamper.py")],
     ["linear system (matrix, right-hand side) of one Newton step"])
prop("C02", "Reported residuals are the current-balance mismatch of the returned voltages",
     "After any sequence of linear/nonlinear assemblies and earlier solves, the residual vector computed for a state equals the network equations evaluated at that same state and homotopy factor, summed over all elements per equation, and its reported maximum and position are those of the largest absolute entry. Hence a run that reports success has met the tolerance at the voltages it returns.",
     ["inputs", "histories"],
     "all states, homotopy factors, element parameters; call sequences of assemblies/residual evaluations with repeated iteration numbers",
     "Tests read only the final residual of converged runs, where an evaluation at a stale state looks the same.",
     [S + "logic/stamping/matrixstamper.py", S + "logic/residualdetails.py", S + "logic/nrsolver.py"],
     [("residual evaluation and input refresh", S + "logic/stamping/matrixstamper.py"), ("maximum search", S + "logic/residualdetails.py")],
     ["residual vector, maximum residual and its index"])
prop("C03", "Positive-sequence elements draw the currents their physics prescribes",
     "For all parameter values and voltages, the current contributions of branches, shunts, constant-power/current/impedance loads, generators, the slack source and two-winding phase-shifting transformers satisfy Kirchhoff's current law with the textbook two-port relations: S=V*conj(I) for loads and generators, the voltage set-point equation for generators and slack, ideal ratio/phase shift plus series admittance for transformers. What leaves one terminal enters the other except where the element has a ground path.",
     ["inputs"], "all parameters and terminal voltages of each element",
     "The test networks fix every parameter; sign or pairing errors that cancel for symmetric data are not seen.",
     [S + "models/components/line.py", S + "models/components/load.py", S + "models/components/generator.py", S + "models/components/slack.py", S + "models/components/transformer.py", S + "models/components/shunt.py"],
     [("element Lagrangians", S + "models/components/")], ["network equations evaluated at a state"])
prop("C04", "Three-phase elements draw the currents their physics prescribes",
     "For all parameters and voltages, multi-phase lines carry I=Y(V_from-V_to) with the full mutual admittance matrix (the inverse of length times the per-length impedance) and half of the total shunt admittance at each end; center-tap transformers follow the Kersting split-phase relations with winding impedances on the rated-power base; capacitors, fuses, switches, regulators and transformers act as their rated admittance, sensor, short/open and ratio elements.",
     ["inputs", "configurations"], "all impedance/shunt matrices of 1 to 3 phases, lengths, winding data, ratios and voltages",
     "Test feeders use a few impedance matrices; transposed or mis-indexed mutual terms vanish for symmetric data.",
     [S + "models/components/unbalanced_line.py", S + "models/components/center_tap_transformer.py", S + "models/components/capacitor.py", S + "models/components/fuse.py", S + "models/components/switch.py", S + "models/components/regulator.py"],
     [("element stamps", S + "models/components/")], ["network equations evaluated at a state"])
prop("C05", "The homotopy starts relaxed and ends at the original network",
     "For every element, parameters and voltages: at homotopy factor 0 its equations are exactly the original ones; the factor enters so that growing it only relaxes the problem (series admittance grows, loads and shunts do not grow, transformer ratio tends to 1 and shift to 0) and at factor 1 loads and shunt injections have vanished where the element defines such a relaxation and transformers are unity.",
     ["inputs"], "all parameters, voltages and factors in [0,1]",
     "Tests with homotopy only look at the end result of two cases.",
     [S + "models/components/line.py", S + "models/components/transformer.py", S + "models/components/load.py", S + "models/components/generator.py", S + "models/components/center_tap_transformer.py"],
     [("tx_factor in element Lagrangians", S + "models/components/")], ["network equations at a homotopy factor"])
prop("C06", "A solve succeeds only when the unrelaxed network converged",
     "Whatever each inner Newton run returns, a power-flow run reports success only if the inner run at homotopy factor 0 succeeded, and then returns that run's state with residuals of the unrelaxed network; the reported factor is always that of the last inner run. With homotopy disabled there is exactly one inner run; with it enabled and the direct attempt failed, factors descend from 1 to 0 in equal steps, each started from the previous state, and the first failure ends the run unsuccessfully.",
     ["fault_sequences", "configurations"], "all success/failure outcomes and states of the inner solver at each of the homotopy steps",
     "Tests never make an inner homotopy step fail at a chosen factor.",
     [S + "logic/homotopycontroller.py"], [("homotopy loop", S + "logic/homotopycontroller.py")],
     ["returned success flag, state, factor, residuals; calls to the inner solver"])
prop("C07", "Newton steps start from the latest state and stop exactly on tolerance",
     "For every sequence of linear-solve results, each iteration assembles the system at the state produced by the previous one (after voltage limiting, if enabled), keeps the linear part and replaces only the nonlinear part, and a run reports success exactly when an iteration's residual is below the tolerance, returning that iteration's state. It never runs more than the configured number of iterations, never modifies the caller's initial state and refuses solutions that are not numbers.",
     ["fault_sequences", "inputs", "histories"], "all linear-solver outcomes and initial states over a bounded number of iterations",
     "Tests only see convergent histories of the bundled networks.",
     [S + "logic/nrsolver.py", S + "logic/stamping/matrixbuilder.py"], [("Newton loop", S + "logic/nrsolver.py")],
     ["returned tuple; systems handed to the linear solver"])
prop("C08", "The assembled matrix is the sum of exactly the live contributions",
     "After any history of stamping values and truncating back to an earlier mark, the matrix produced equals the sum of the contributions stamped since the last truncation plus those retained, duplicates adding up and truncated ones leaving no trace. Validity checks judge exactly these live contributions.",
     ["histories", "inputs"], "all stamp/truncate histories of bounded length with all values including zeros",
     "Tests never stamp fewer nonzero values after a truncation than before.",
     [S + "logic/stamping/matrixbuilder.py"], [("growable triplet store", S + "logic/stamping/matrixbuilder.py")],
     ["the sparse matrix and the validity verdict"])
prop("C09", "Device control returns only states in which no device wants to move",
     "With device control on, a successful run returns a solution at which every controllable device has been asked and made no adjustment, solved after the last adjustment; all devices are offered the chance in each round. A failed solve is returned as such at once, and when adjustments never cease within the allowed rounds the run raises instead of returning; with control off or for transmission networks nothing is adjusted.",
     ["fault_sequences", "histories", "configurations"], "all device responses and solver outcomes over all rounds",
     "Tests contain at most one adjustment round.",
     [S + "logic/devicecontroller.py"], [("adjust-and-resolve loop", S + "logic/devicecontroller.py")],
     ["returned result, exceptions, calls to devices and solver"])
prop("C10", "Automatic capacitors and fuses follow their control law",
     "A voltage-controlled capacitor disconnects above its high set-point and connects below its low set-point, keeps its state in between, and reports an adjustment exactly when its state changed; a manual one never moves and unsupported modes are refused. A fuse blows exactly when the magnitude of its current exceeds its limit, stays blown, reports that once and then no longer connects its terminals.",
     ["inputs", "histories"], "all voltages, currents, set-points and prior states, sequences of adjustments",
     "Tests never drive a capacitor or fuse across its thresholds from each side.",
     [S + "models/components/capacitor.py", S + "models/components/fuse.py"], [("device adjustment", S + "models/components/capacitor.py, fuse.py")],
     ["switch/fuse state, reported adjustment, connections"])
prop("C11", "Regulator ratio and raise/lower equations follow tap and configuration",
     "For all tap positions and settings, a regulator's effective ratio is the one given by its type, tap and per-step fraction, bounded by its configured tap limits, and its terminal equations are those of that ratio with the stated voltage/current transformation and no power created.",
     ["inputs", "configurations"], "all tap positions, step fractions, types, control modes and voltages",
     "Tests use the taps stored in their feeder files.",
     [S + "models/components/regulator.py"], [("tap to ratio", S + "models/components/regulator.py")],
     ["regulator ratio and equations"])
prop("C12", "Every unknown and equation gets its own contiguous index",
     "For every network composition and mode, index assignment gives each unknown a distinct index, the indexes are exactly 0..n-1 where n is the system size, every assembled entry lies inside, ground never receives one, and reassigning starts afresh with the same result.",
     ["configurations", "programs"], "all mixes and counts of element types in both modes, repeated assignment",
     "Each test network exercises one composition.",
     [S + "logic/network/networkmodel.py", S + "models/components/bus.py"], [("index assignment", S + "logic/network/networkmodel.py")],
     ["indexes used by unknowns and stamps, system size"])
prop("C13", "The initial estimate starts every unknown at its declared value",
     "For every network and setting the starting vector holds each bus's declared initial voltage in rectangular form (transmission flat start: one at angle zero), transmission generators at their declared reactive power (flat start: the middle of their limits), sources at their declared start (flat: zero), optimisation multipliers of buses and generators at their small nonzero start, and zero elsewhere. No entry belonging to another unknown is overwritten and asking again gives the same.",
     ["inputs", "configurations"], "all initial magnitudes/angles, device starts, settings and modes",
     "Converged results hide a wrong start.",
     [S + "logic/network/networkmodel.py", S + "models/components/bus.py", S + "models/components/generator.py", S + "models/components/slack.py", S + "logic/devicecontroller.py"],
     [("initial vector", S + "logic/network/networkmodel.py")],
     ["starting vector of the solve"])
prop("C14", "Voltage limiting bounds each step and touches nothing else",
     "For all previous and proposed states, limiting leaves entries that are not bus voltages unchanged, moves each bus voltage component from its previous value toward the proposed one by at most one per unit and keeps it within plus or minus two per unit; steps and values within these limits pass exactly, longer ones move by the full limit. It limits the bus entries of the network as currently indexed, also after the network was reassigned.",
     ["inputs", "histories"], "all previous/proposed states, networks reassigned between uses",
     "No test enables limiting on a step that is actually clipped and inspects it.",
     [S + "logic/v_limiting.py"], [("step clipping", S + "logic/v_limiting.py")], ["limited state"])
prop("C15", "Reported quantities match the solved state",
     "For every solved state each non-virtual bus is reported once with magnitude and angle of its solved voltage; generators, sources and transformers are reported with active/reactive power V*conj(I) of the current entering them (loads and generators: their set powers and solved reactive power in the consumption sense), and infeasibility currents with the power they inject, values below 1e-5 as zero, and totals as their sums. The exported tables hold these same numbers rounded, one row per element in order, and a failed run exports a failure marker instead.",
     ["inputs"], "all solved states and element parameters",
     "Tests compare a few voltages and no powers of slack or branches.",
     [S + "logic/powerflowresults.py"], [("result extraction", S + "logic/powerflowresults.py")], ["result objects and exported files"])
prop("C16", "Only one connected network with consistent nominal voltages is solved",
     "For every network, a solve is refused unless all its buses are joined into one whole by lines, closed switches, intact fuses, transformers and regulators; open switches, blown fuses, loads, sources and grounded elements join nothing. It is also refused when places joined without a transformer or regulator in between have nominal voltages clearly apart (more than 21 volts between any two), never when they agree (within 9 volts) or are only joined across transformers or regulators.",
     ["configurations", "inputs"], "all ways of joining several places by every kind of element, all nominal voltages",
     "Tests only solve connected feeders and look at two refusals.",
     [S + "logic/graphanalyzer.py", S + "logic/powerflow.py"], [("graph construction and checks", S + "logic/graphanalyzer.py")],
     ["whether the solve starts or raises; island list"])
prop("C17", "Time series: each hour is solved with its loads, results and verdicts are right",
     "For every load table and hour range, each hour from start up to but excluding end is solved once with every named load at that hour's (non-negative) magnitude and its own declared power factor, also after hours at zero; loads without a column stay as they are and results are filed under their hour. A successful snapshot is flagged as violating ratings exactly when a transformer's apparent power or a line phase's series current (mutual coupling included) exceeds its rating, or a bus voltage is five percent or more off nominal.",
     ["inputs", "histories"], "all load magnitudes incl. zero over several hours, all hour ranges, all solved states against all ratings",
     "No test runs a time series or looks at a rating verdict.",
     [S + "logic/network/timeseriesprocessor.py", S + "logic/powerflowresults.py"],
     [("load values and ratings", S + "logic/network/timeseriesprocessor.py")],
     ["loads at each solve, results per hour, rating flag, written files"])
prop("C18", "Generation adjustment and island selection change exactly what they should",
     "With an artificial swing bus and negative loads, each solve whose swing output (sum of apparent powers over its phases) is at least 0.1 is followed by adding the swing's power to the negative load of the same phase and solving again; the first solve below it is returned and nothing else ever changes. Selecting an island keeps exactly the buses and elements of the island containing the chosen bus, grounded ones included, and drops all others.",
     ["histories", "configurations"], "all swing outputs over successive solves, all phases; islands joined by every kind of element, with open ties between them",
     "No test uses adjustment or island selection.",
     [S + "logic/network/timeseriesprocessor.py"], [("adjust_generator_output / select_island", S + "logic/network/timeseriesprocessor.py")],
     ["loads at each solve, returned result, remaining elements"])
prop("C19", "Load scaling multiplies every constant-power load exactly once",
     "Scaling the loads of any network multiplies the active and the reactive constant power of every load by the respective factor and changes nothing else; without factors nothing changes. A command-line run applies the requested factor once (one if not given), solves that network with the requested options and time-series settings, and shows and exports its result.",
     ["inputs", "configurations"], "all loads, factors and option combinations",
     "Tests never call the command line or the scaling.",
     [S + "logic/network/loadfactor.py", S + "run_solver.py"], [("load scaling", S + "logic/network/loadfactor.py"), ("command line", S + "run_solver.py")],
     ["loads at the solve, settings passed on"])


R = S + "logic/network/parsers/raw/"
prop("C20", "RAW records become elements with exactly the quantities they state",
     "For every RAW case of revision 30 to 34 and any system base, buses start at the declared voltage and each bus has the constant-power, constant-current and admittance load, shunt (fixed, switched, of the bus record or at a branch terminal), machine set-point, power and reactive limits (also of wind machines and continuous switched shunts) and each branch the impedance and charging its records state. Quantities are converted to per unit of 100 MVA and radians with power counted as consumption; fields left empty take the format's defaults.",
     ["inputs"], "all numbers of the records, all revisions, layouts and system bases",
     "Test cases hold one revision each, a base of 100 MVA, no constant-current or admittance loads, terminal shunts or wind machines.",
     [R + "parser.py", R + "Data.py", R + "data_classes.py"], [("records to elements", R + "parser.py"), ("columns", R + "Data.py"), ("units", R + "data_classes.py")],
     ["elements of the loaded network"])
prop("C21", "Only in-service RAW records take part, and those at one bus add up",
     "Whatever the order of records and their statuses, buses of type 4, elements with status zero and elements at such buses take no part. Machines act only at buses of type 2 (as one machine with summed powers and limits) or 3 (as one voltage source with summed power); a machine whose reactive limits coincide acts as a constant-power injection, one without power and range takes no part, and continuous switched shunts join the machine at their bus or act as one.",
     ["inputs", "configurations"], "all statuses and bus types, several elements per bus, all values",
     "Test cases have everything in service and one machine per bus.",
     [R + "parser.py"], [("selection and aggregation", R + "parser.py")],
     ["elements of the loaded network"])
prop("C22", "RAW transformers get the ratio, shift, impedance and star their records state",
     "For every unit code, a two-winding transformer of a RAW case connects its buses with the ratio of its winding voltages in per unit of the bus base voltages, its phase shift, its impedance referred to the second winding and its magnetising admittance, all on the solver's base. A three-winding one becomes one star bus at the declared voltage with three such windings of star impedances from the pairwise ones, magnetised at the first, and windings or buses out of service drop out without disturbing other transformers.",
     ["inputs", "configurations"], "all unit codes, values, statuses and system bases",
     "Test cases use unit codes 1 only and no three-winding transformer in most.",
     [R + "parse_transformers.py", R + "parser.py", R + "Data.py"], [("two and three windings", R + "parse_transformers.py")],
     ["transformers and buses of the loaded network"])

G = S + "ditto/readers/gridlabd/"
L = S + "logic/network/"
prop("C23", "Feeder loads draw exactly the declared demand at the declared terminals",
     "Every load of a GridLAB-D feeder draws the constant power, constant current and constant impedance its object declares per phase: between phase and neutral, between the two phases of a pair (by the pair's name or, for a delta load, by its first phase), or between leg and neutral or the two legs of a split-phase service. It does so at the buses of its own node, or of the node or meter it is attached to, and nothing undeclared is drawn.",
     ["inputs", "configurations"], "all demands, connections, subsets of phases and places of attachment",
     "Sample feeders use few connections, and solutions are compared with tolerances.",
     [G + "load_parser.py", G + "read.py", L + "parsers/threephase/"], [("loads of a feeder", G + "load_parser.py")],
     ["loads and buses of the loaded network"])
prop("C24", "Feeder transformers get the windings, ratio and impedance they declare",
     "A GridLAB-D transformer connects each of its phases with the turns ratio of the declared winding voltages (for a delta-wye bank times the square root of three), between the terminals of its connection (wye-wye, delta-delta, delta-wye, single phase, center-tapped), with the configured series impedance referred to its own voltage and rating; a center-tapped one splits the impedance by the format's rule or as given per winding, over inner buses of its own. Units given with voltages or ratings, total or per-phase ratings, the order of objects and sharing of a configuration make no difference.",
     ["inputs", "configurations"], "all voltages, ratings, impedances, connections and notations",
     "Sample feeders contain a few connections in one notation each.",
     [G + "read.py", L + "parsers/threephase/"], [("transformers and configurations", G + "read.py")],
     ["transformers and buses of the loaded network"])

prop("C25", "Feeder lines get the series impedance their configuration states",
     "A GridLAB-D overhead, underground (concentric neutral) or triplex line connects each phase it declares with the series self and mutual impedances of the modified Carson equations (the program's earth constants) for the conductors and distances of its configuration, reduced by the neutrals, or with the impedance matrix the configuration states, times the line's length. Units given with lengths, distances, resistances or radii (ft, km, in, Ohm/km, cm), conductors or distances of wires the line does not have, and other lines sharing the configuration make no difference.",
     ["inputs", "configurations"], "all lengths, distances, resistances and radii, sets of phases and notations",
     "Sample feeders contain a few configurations with fixed distances and conductors.",
     [G + "read.py", G + "line_impedance.py", L + "parsers/threephase/", "src/models/components/unbalanced_line.py"],
     [("lines and configurations", G + "read.py"), ("Carson equations and reduction", G + "line_impedance.py")],
     ["lines and buses of the loaded network"])

prop("C26", "Feeder sources, switches, fuses, capacitors and regulators are as declared",
     "Each phase of a GridLAB-D switch, recloser or fuse is connected between its nodes and open or blown exactly when its object says so, for the whole device or that phase; fuses keep their current limit. The swing node holds its given phase voltages (without them its nominal voltage at 0, -120, 120 degrees), children share their ancestors' buses, and a capacitor is at its parent's connected phases with its rated susceptance, switch states and voltage control. A three-phase wye regulator scales its voltage by the tap positions within their limits, for either regulator type.",
     ["inputs", "configurations"], "all voltages, sizes, limits and taps; sets of phases; given and missing states",
     "Sample feeders have closed switches, good fuses, complete objects and few tap positions.",
     [G + "read.py", L + "parsers/threephase/"], [("switches, fuses, capacitors, regulators, nodes", G + "read.py"), ("building of the network's elements", L + "parsers/threephase/")],
     ["switches, fuses, capacitors, regulators, sources and buses of the loaded network"])

prop("C27", "A feeder file's meaning is independent of its layout, object order and units",
     "The same objects give the same network whether a file puts each property on a line of its own, several or the whole object on one line, uses comments or braces in them, writes complex numbers with spaces, separates phases by bars, uses exponents, nests an object in its parent instead of naming the parent, or leaves out names nobody refers to; the order of the objects doesn't matter. A quantity followed by another unit of its kind (V, kV, A, kA, VA, kVA, MVA, VAr, ft, in, yd, mile, m, km, cm, mm, Ohm/mile, Ohm/km, Ohm/ft) means the same as the converted number.",
     ["inputs", "configurations"], "all numbers; layouts, nestings and orders of objects; units of each kind",
     "Sample feeders are written in one style, with few units.",
     [G, L + "parsers/threephase/"], [("statements, nesting and units", G + "read.py")],
     ["the loaded network"])

prop("C28", "Cached derivations never change the equations",
     "The equations and residuals an element contributes depend only on its model, its parameters and the solution at hand: not on which models were derived before in this process or an earlier one, nor on what the derivation cache on disk holds, including files a process that ended while writing them left behind. Two models that differ in any part (the expression, which symbols are constants, variables or multipliers, or their order) never share derived equations, and neither do solving with and without optimisation.",
     ["histories", "crash_points"], "all parameters and solutions; histories of derivations, new processes and ends while writing",
     "Tests start with whatever cache is there and derive each model once.",
     [S + "logic/stamping/lagrangesegment.py", S + "logic/stamping/lagrangepickler.py", S + "logic/stamping/matrixstamper.py"], [("cache on disk", S + "logic/stamping/lagrangepickler.py"), ("cache in memory", S + "logic/stamping/matrixstamper.py")],
     ["stamped matrix, right-hand side and residuals"])

NA = {}
DEFAULT_NOTE = "Bounded exhaustive: every assertion is decided for all values of the symbolic inputs in the stated ranges, on networks/histories of the stated size; real arithmetic stands for floating point, and sampled points of every path are re-run on the unmodified code."
NOTE = {}
