#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

p("C01", "Component tables stay coherent under any edit history",
  "After any sequence of add, remove, rename and attribute edits, every component's static table holds exactly the live component names once, with every attribute the caller gave or else its documented default; every time-dependent table is indexed by the network's snapshots and has columns only for live components, holding exactly the series given. An edit changes nothing but the components it names, and a rename also rewrites every reference to the renamed component. A call that is refused with an error (duplicate name without overwrite, wrong index, unknown class) leaves the network unchanged.",
  ["histories", "inputs"], "all finite sequences of add (single/multiple, scalar/list/Series/array/DataFrame, static/varying, overwrite on/off), remove and rename over several component classes, including refused calls",
  "tests make one or two edits on one fixture and look at one table; state left behind in another table or by an earlier edit (stale series, partial effects of a refused call, dangling references) needs longer histories",
  ["pypsa/networks.py", "pypsa/io.py", "pypsa/components/abstract.py"],
  [("Network.add / Network.remove", "pypsa/networks.py"), ("_import_components_from_df, _import_series_from_df", "pypsa/io.py"), ("Components.rename_component_names", "pypsa/components/abstract.py")],
  ["n.static(c)", "n.dynamic(c)"], [("static/dynamic tables", "component data", "pypsa/components/abstract.py")])

p("C02", "Re-indexing snapshots and investment periods preserves data and weightings",
  "Setting snapshots re-indexes every time-dependent table and the snapshot weightings together: entries at kept snapshots keep their values, new snapshots get the attribute's default (weight = the given default, or on request the hours to the next snapshot), and dropped snapshots disappear. Setting investment periods turns every table into one indexed by (period, snapshot), repeating the values in each period when snapshots were flat, and creates period weightings; periods that are not increasing integers, or that differ from the periods of multi-indexed snapshots, are refused.",
  ["histories", "inputs"], "all sequences of set_snapshots / set_investment_periods / direct assignment of snapshots, periods and weightings, flat or multi-indexed, growing, shrinking or reordering",
  "tests set snapshots once on an empty or small network; value preservation over repeated re-indexing, over every table and over overlaps is a history property",
  ["pypsa/networks.py"], [("Network.set_snapshots", "pypsa/networks.py"), ("Network.set_investment_periods", "pypsa/networks.py"), ("snapshot_weightings setters", "pypsa/networks.py")],
  ["n.snapshots", "n.snapshot_weightings", "n.investment_period_weightings", "n.dynamic(c)"])

p("C03", "Copying, slicing and merging networks conserve data and are independent",
  "A copy equals its original in all component data, snapshots, weightings, periods and metadata (restricted to the requested snapshots when asked), and later edits to either never show in the other. Slicing by buses and snapshots keeps exactly the selected buses, the components whose every connected bus is selected (a link with a further port outside is dropped), their series at the selected snapshots, and the weightings and carriers. Merging yields the union of both networks' components with their series, refuses overlapping names, and leaves the networks untouched unless in place.",
  ["inputs", "histories"], "all networks (any component mix, series, multi-port links, investment periods) and all selections, followed by any edit to either side",
  "tests compare one or two fixtures; aliasing between original and copy and data lost for a particular component class or index shape show only on other inputs and later edits",
  ["pypsa/networks.py"], [("Network.copy", "pypsa/networks.py"), ("Network.__getitem__", "pypsa/networks.py"), ("Network.merge", "pypsa/networks.py")],
  ["n.copy()", "n[...]", "n.merge()"])

p("C04", "Export followed by import reproduces the network, whatever was at the target",
  "Exporting a network to CSV, netCDF, HDF5 or Excel and importing it again yields the same components, attribute values (including infinities, missing values, booleans, integers and strings), series, snapshots, weightings, investment periods, metadata, name and CRS; in the text formats (CSV, Excel) numbers keep at least 13 digits, an empty text and a missing text are the same, and texts that read as a number, date or missing value are outside. This also holds when the target already contains an earlier export of a different network and when custom columns or multi-port links are present. Exporting does not modify the exported network.",
  ["inputs", "histories"], "all networks within the generator's feature space x four formats x histories of exports onto the same target",
  "tests export two fixtures into fresh directories; stale files of an earlier export, values equal to defaults, unusual dtypes and per-format index encodings are not sampled",
  ["pypsa/io.py"], [("_export_to_exporter / Exporter*", "pypsa/io.py"), ("_import_from_importer / Importer*", "pypsa/io.py")],
  ["export_to_*", "import_from_*"])

p("C05", "Attribute resolution: series overrides static; activity follows lifetime",
  "The value of a time-varying attribute of a component at a snapshot is its series entry if the component has a series for that attribute and its static value otherwise, for every component, selection of components and subset of snapshots, with snapshots in the requested and components in the network's order. A component is active in an investment period exactly when its active flag is set and build_year <= period < build_year + lifetime; over several periods it counts as active when active in any of them, and without periods the flag alone decides.",
  ["inputs", "configurations"], "all mixtures of static and varying attributes over components, selections and snapshot subsets; all build years, lifetimes, active flags and periods",
  "tests check a few attributes on one fixture; ordering and partially covered selections, boundary years and flags are combinatorial",
  ["pypsa/descriptors.py", "pypsa/components/abstract.py"], [("get_switchable_as_dense / get_switchable_as_iter", "pypsa/descriptors.py"), ("get_active_assets / get_activity_mask", "pypsa/descriptors.py")],
  ["n.get_switchable_as_dense", "n.get_active_assets"])

p("C06", "Network equality holds exactly when the data are the same",
  "Comparing two networks with == returns true if and only if they have the same component tables, series, snapshots, weightings, investment periods, name, metadata and CRS; it is reflexive and symmetric, never modifies either side, and never raises because one side was solved or analysed and the other not. A single changed cell, added or removed component, or changed weighting makes it false.",
  ["inputs", "histories"], "all pairs of networks related by any number of single-datum edits",
  "tests compare fixtures with themselves and a few edits; symmetry and sensitivity for every kind of datum quantify over all pairs",
  ["pypsa/networks.py", "pypsa/common.py", "pypsa/components/abstract.py"], [("Network.equals", "pypsa/networks.py"), ("equals", "pypsa/common.py")], ["n == m", "n.equals(m)"])

p("C07", "Topology: sub-networks are the connected components of active passive branches",
  "After determining the topology, every bus and every active line and transformer belongs to exactly one sub-network, two buses share a sub-network exactly when a path of lines and transformers active in the considered investment period joins them, and links never join sub-networks. Each sub-network has exactly one slack bus: that of its first active generator with control 'Slack', else of its first active generator, else its first bus; buses with an active voltage controlling generator are PV and the others PQ. The cycle matrix is a basis of the cycle space of each sub-network: its columns are signed cycles annihilated by the incidence matrix and their number is branches - buses + 1.",
  ["inputs", "configurations"], "all multigraphs over lines, transformers and links, with inactive branches, parallel branches, isolated buses and per-period activity",
  "tests use a handful of fixed topologies", ["pypsa/networks.py", "pypsa/graph.py", "pypsa/pf.py"],
  [("determine_network_topology", "pypsa/networks.py"), ("incidence_matrix, adjacency_matrix", "pypsa/graph.py"), ("find_cycles, find_slack_bus, find_bus_controls", "pypsa/pf.py")], ["n.sub_networks", "n.buses.sub_network", "sub_network.C"])

p("C08", "Linear power flow obeys Kirchhoff's laws with losses zero",
  "After a linear power flow, at every snapshot each bus's net injection (generation minus load plus storage plus link flows) equals the net outflow over its lines and transformers, every AC branch flow equals the voltage angle difference (minus any phase shift) divided by its effective per-unit reactance (in DC the voltage difference over the resistance), opposite ends of a branch carry opposite flow, and the imbalance of each sub-network is taken by its slack generator alone. Inactive components contribute nothing and snapshots or sub-networks not asked for keep their previous results.",
  ["inputs", "configurations"], "all networks (meshed, multi-sub-network AC/DC, transformers with tap/phase shift, links with efficiency, storage, shunt) and snapshot selections",
  "tests compare two fixtures with stored results", ["pypsa/pf.py"], [("network_lpf / sub_network_lpf", "pypsa/pf.py"), ("calculate_B_H", "pypsa/pf.py"), ("apply_line_types, calculate_dependent_values", "pypsa/pf.py")], ["n.lpf()"])

p("C09", "Converged AC power flow satisfies the complex power balance",
  "When the non-linear power flow of an AC (or single-bus) sub-network reports convergence, at every bus the specified injections equal, within tolerance, the complex power leaving through all connected branch models (series impedance, shunt admittance, tap ratio, tap side, phase shift) and shunt impedances, with PQ buses meeting P and Q set-points, PV buses meeting P and voltage magnitude, and the slack bus holding angle zero and its voltage set-point. The slack imbalance is taken by the slack generator, or shared according to the requested weights under distributed slack; a snapshot that did not converge is reported as such.",
  ["inputs", "configurations"], "all meshed AC and DC networks in the generator's range, transformer models and tap sides, control assignments, slack distributions and snapshot selections",
  "tests compare stored solutions of a few networks", ["pypsa/pf.py"], [("network_pf / sub_network_pf / newton_raphson_sparse", "pypsa/pf.py"), ("calculate_Y", "pypsa/pf.py")], ["n.pf()"])

p("C10", "Contingency analysis matches re-solving with the branch removed",
  "The linear contingency analysis reports, for every branch outage and every branch, the flow that a linear power flow of the network without the outaged branch would give with the same injections, for every outage that keeps the sub-network connected, zero on the outaged branch, and the unchanged base flow on branches of other sub-networks. PTDF and BODF factors agree with this for every pair of branches.",
  ["inputs"], "all meshed networks with several sub-networks, parallel branches, lines and transformers, and all single outages that keep the sub-network connected",
  "tests check one fixture and one snapshot", ["pypsa/contingency.py", "pypsa/pf.py"], [("network_lpf_contingency", "pypsa/contingency.py"), ("calculate_PTDF, calculate_BODF", "pypsa/pf.py, pypsa/contingency.py")], ["n.lpf_contingency()", "sub_network.BODF", "sub_network.PTDF"])

p("C11", "Optimisation admits exactly the dispatch that balances and respects limits",
  "The optimisation model accepts a dispatch exactly when, at every snapshot, all injections at every bus (generators with sign, storage, stores, links at every port with that port's efficiency and sign, lines, transformers, fixed set-points and loads) sum to zero and every component's operation lies between its per-unit minimum and maximum times its capacity; components inactive in the period contribute nothing. No feasible dispatch is excluded and no infeasible one admitted, for static and time-varying attributes alike.",
  ["inputs", "configurations"], "all small networks over every component class and every combination of sign, efficiency, p_set, per-unit bounds (static or varying), activity, multi-port links, snapshot subsets",
  "tests solve a few fixtures and compare totals: they only see the optimum, never the feasible set", ["pypsa/optimization/constraints.py", "pypsa/optimization/variables.py", "pypsa/optimization/optimize.py"],
  [("define_nodal_balance_constraints", "pypsa/optimization/constraints.py"), ("define_operational_constraints_for_*", "pypsa/optimization/constraints.py"), ("define_fixed_operation_constraints", "pypsa/optimization/constraints.py")], ["n.optimize.create_model()", "n.optimize()"])

p("C12", "Storage levels evolve by the storage balance and respect boundary conditions",
  "In the optimisation model the level of a storage unit or store at each snapshot equals its previous level times (1 - standing loss)^hours plus stored energy and inflow minus spillage and discharged energy with the respective efficiencies and hours, lies within its capacity limits, and starts from the initial level, or from the level at the end of the horizon when cyclic, or of the same investment period when cyclic or initialised per period. Spillage is non-negative and at most the inflow, and fixed level set-points are respected.",
  ["inputs", "configurations", "histories"], "all storage units and stores with any efficiencies, losses, hours, inflow, cyclicity options, set-points, activity and investment periods, over all schedules",
  "tests check a few runs at the optimum; a model too loose or too tight in one boundary case shows only off the sampled optimum", ["pypsa/optimization/constraints.py"],
  [("define_storage_unit_constraints", "pypsa/optimization/constraints.py"), ("define_store_constraints", "pypsa/optimization/constraints.py")], ["n.optimize.create_model()", "n.storage_units_t.state_of_charge", "n.stores_t.e"])

p("C13", "Unit commitment follows the on/off automaton exactly",
  "A committable generator or link may run only while its status is on and then between its minimum and maximum part load; after a start it stays on for at least its minimum up time and after a stop off for at least its minimum down time, counting the hours it was up or down before the horizon; start-up, shut-down and stand-by costs are charged for exactly the starts, stops and on-snapshots that happen. Every schedule satisfying this is accepted by the optimisation model and no other; the linearised unit commitment is a relaxation and accepts it as well.",
  ["schedules", "inputs", "configurations"], "all on/off and output schedules over the horizon for all up/down times, initial conditions, part-load limits, ramp limits and costs",
  "tests check one optimal schedule per scenario", ["pypsa/optimization/constraints.py", "pypsa/optimization/variables.py"],
  [("define_operational_constraints_for_committables", "pypsa/optimization/constraints.py")], ["n.optimize.create_model()", "n.generators_t.status"])

p("C14", "Ramp limits bound successive output changes and nothing else",
  "Between consecutive snapshots the output of a ramp-limited generator or link rises by at most ramp_limit_up and falls by at most ramp_limit_down times its capacity (for committable units: at most limit_up times the previous status plus the start-up limit times a start, and correspondingly for falls); components without a limit, the first snapshot of a fresh optimisation, and other components are unconstrained. In a rolling horizon the first snapshot is constrained by the last output of the previous window.",
  ["schedules", "inputs", "histories"], "all output schedules and all combinations of static/varying limits, fixed/extendable/committable units, and windows",
  "tests check one or two optimal runs", ["pypsa/optimization/constraints.py"], [("define_ramp_limit_constraints", "pypsa/optimization/constraints.py")], ["n.optimize.create_model()"])

p("C15", "Optimised flows obey Kirchhoff's voltage law on every cycle",
  "In the optimisation model flows on lines and transformers are accepted exactly when, at every snapshot and in every investment period's topology of active branches, there are bus angles whose differences explain all flows through the branches' effective per-unit reactances (resistances in DC); radial branches and links are not constrained by it.",
  ["inputs", "configurations"], "all meshed topologies with parallel branches, several sub-networks, carriers, investment periods with different active branches, and all flow patterns",
  "tests compare an optimum with a subsequent power flow on fixtures", ["pypsa/optimization/constraints.py", "pypsa/pf.py"], [("define_kirchhoff_voltage_constraints", "pypsa/optimization/constraints.py"), ("find_cycles", "pypsa/pf.py")], ["n.optimize.create_model()"])

p("C16", "Transmission losses are the convex piecewise-linear loss of the flow",
  "With transmission losses enabled, the loss of each active line and transformer is non-negative, no smaller than every tangent of the quadratic loss curve at the requested number of segments in both flow directions and no larger than the loss at full capacity; half of it is withdrawn at each end bus, and flow plus loss stays within the branch's capacity in both directions. Reported end flows include the losses, so what enters a branch minus what leaves equals its loss.",
  ["inputs", "configurations"], "all branches, capacities, resistances, per-unit limits, tangent counts and flow values",
  "tests only check that losses are positive at one optimum", ["pypsa/optimization/constraints.py", "pypsa/optimization/optimize.py"], [("define_loss_constraints", "pypsa/optimization/constraints.py")], ["n.optimize(transmission_losses=k)"])

p("C17", "Global constraints bound exactly the documented system-wide quantity",
  "A primary-energy constraint bounds the weighted emissions of generators, and of the net depletion (initial level minus level at the end of the scope) of non-cyclic storage, over its scope; operational limits bound the energy of a carrier, growth limits bound new capacity per period, technology capacity limits bound the carrier's extendable capacity (optionally at a bus), and transmission volume or cost limits bound length- or cost-weighted extendable branch capacity. Each applies with its sense and constant and only to its investment period if one is given, and its shadow price is reported.",
  ["inputs", "configurations"], "all constraint types, senses, scopes (investment period, carrier, bus), weightings, and all dispatch and investment decisions",
  "tests check a couple of constraint types at an optimum", ["pypsa/optimization/global_constraints.py"], [("define_primary_energy_limit and siblings", "pypsa/optimization/global_constraints.py")], ["n.optimize.create_model()", "n.global_constraints"])

p("C18", "The objective is the documented total system cost",
  "For every feasible decision the objective equals the sum over active components of operating costs (linear, quadratic, storage-level, spill and stand-by, weighted by snapshot and period weightings), of the start-up and shut-down cost of every start and stop, unweighted, plus annualised capital cost of extendable capacity per period it is active, with the cost of already existing capacity reported as the objective constant. The reported objective of a solved network equals this value at the reported solution.",
  ["inputs", "configurations"], "all decisions and all combinations of cost attributes (static/varying), weightings, investment periods, lifetimes and activity",
  "tests compare a few optimal objective values", ["pypsa/optimization/optimize.py"], [("define_objective", "pypsa/optimization/optimize.py")], ["n.objective", "n.objective_constant", "n.model.objective"])

p("C19", "Capacity decisions respect bounds, modules and lifetimes",
  "An extendable component's capacity lies between its minimum and maximum, is a whole number of modules where a module size is given, equals a fixed set-point where one is given, and limits operation at every snapshot of every period in which the component is active. Components not built yet, or past their lifetime, neither operate nor contribute.",
  ["inputs", "configurations"], "all extendable / modular / committable combinations over all component classes, periods and bounds, and all capacity and dispatch decisions",
  "tests check one optimum per scenario", ["pypsa/optimization/constraints.py", "pypsa/optimization/variables.py"], [("define_nominal_constraints_for_extendables", "pypsa/optimization/constraints.py"), ("define_modular_constraints", "pypsa/optimization/constraints.py")], ["n.optimize.create_model()", "*_nom_opt"])

p("C20", "Rolling-horizon windows cover all snapshots and carry state forward",
  "A rolling-horizon optimisation solves consecutive windows of the requested length and overlap that together cover every snapshot in order, and each window starts from what the previous one left: storage levels, on/off status with elapsed up and down times, and last outputs for ramping. The final results satisfy the operating rules across window boundaries as they do inside windows, and every snapshot has a result.",
  ["histories", "schedules", "configurations"], "all horizons, overlaps, numbers of snapshots and components with inter-temporal coupling",
  "tests check two window sizes on one network", ["pypsa/optimization/abstract.py", "pypsa/optimization/constraints.py"], [("optimize_with_rolling_horizon", "pypsa/optimization/abstract.py")], ["n.optimize.optimize_with_rolling_horizon"])

p("C21", "Solved networks report a consistent solution",
  "After a successful optimisation the reported outputs are mutually consistent: power at every port of a link is the input times that port's efficiency, line ends carry opposite flows, storage power is discharge minus charge, loads and fixed capacities are reported, optimal capacity equals the decision for extendable and the given capacity for other components, bus injections are the sum of attached one-ports, and nothing outside the optimised snapshots is changed. Marginal prices are the change of objective per unit of extra load at that bus and snapshot, and shadow prices are reported where the model has the constraint.",
  ["inputs", "configurations", "histories"], "all networks, snapshot selections, repeated solves and component mixes",
  "tests read a few columns of fixtures", ["pypsa/optimization/optimize.py"], [("assign_solution / assign_duals / post_processing", "pypsa/optimization/optimize.py")], ["n.*_t", "n.*.p_nom_opt", "n.buses_t.marginal_price"])

p("C22", "Security-constrained dispatch survives every listed outage",
  "In a security-constrained optimisation a dispatch is accepted exactly when it is accepted by the plain optimisation and, for every listed branch outage, the flows redistributed over the remaining branches of the same sub-network stay within their limits at every snapshot. Branches of other sub-networks are unaffected by an outage.",
  ["inputs", "configurations"], "all meshed networks, outage lists, fixed and extendable capacities and all dispatch decisions",
  "tests run one fixture", ["pypsa/optimization/abstract.py", "pypsa/contingency.py"], [("optimize_security_constrained", "pypsa/optimization/abstract.py")], ["n.optimize.optimize_security_constrained"])

p("C23", "Follow-up optimisations keep their promises to the first solve",
  "Fixing optimal capacities makes every optimised capacity a non-extendable given capacity and nothing else; the load-shedding helper adds one generator per bus at the given cost; an MGA solve minimises or maximises its given weighted objective while total cost stays within the slack of the previous optimum; iterative transmission expansion updates branch impedances in inverse proportion to capacity, respects its iteration and tolerance rules, and restores the network's original settings; discretised link capacities are whole units of the given size, chosen by the threshold rule. An optimisation followed by a power flow takes the optimised dispatch as set points at the optimised snapshots, leaves the set points of other snapshots alone, and the results satisfy the power flow equations.",
  ["histories", "inputs", "configurations"], "all solved networks, slack values, weights, senses, iteration counts and unit sizes",
  "tests run one scenario each", ["pypsa/optimization/abstract.py"], [("fix_optimal_capacities, add_load_shedding, optimize_mga, optimize_transmission_expansion_iteratively, discretized_capacity, optimize_and_run_non_linear_powerflow", "pypsa/optimization/abstract.py")], ["n.optimize.*"])

p("C24", "Statistics are weighted sums of the underlying results",
  "Every statistic equals its definition evaluated on the network's tables: capex, opex by cost type, installed/optimal/expanded capacity, supply, withdrawal, energy balance, transmission, curtailment, capacity factor, revenue and market value, with snapshot weightings of the component class (operating costs with those of the objective), only active components per investment period, and every port counted at its own bus. Grouping, filtering (component, carrier, bus carrier, port) and time aggregation partition these values: grouped values sum to the ungrouped, and energy balances at a bus sum to zero for a solved network.",
  ["inputs", "configurations"], "all networks and all combinations of component, carrier, bus-carrier, port, grouping and time-aggregation arguments",
  "tests check a few totals on one fixture", ["pypsa/statistics/expressions.py", "pypsa/statistics/abstract.py", "pypsa/statistics/grouping.py"], [("StatisticsAccessor", "pypsa/statistics/expressions.py"), ("_aggregate_components", "pypsa/statistics/abstract.py")], ["n.statistics.*"])

p("C25", "Optimisation expressions agree with post-solve statistics",
  "The symbolic expressions offered for a built model (capacity, capex, opex of marginal costs, operation, supply, withdrawal, energy balance, transmission, curtailment) evaluate at any values of the variables of a network without investment periods to what the corresponding statistic reports for them, with the same grouping, filtering and weighting. Being linear, supply and withdrawal go by the direction of the asset's coefficient instead of the sign of the result, curtailment is not clipped at zero, and transmission counts as the injection at the port.",
  ["inputs", "configurations"], "all solved networks and all argument combinations of the expression functions",
  "tests compare a few expressions for one fixture and default arguments", ["pypsa/optimization/expressions.py", "pypsa/statistics/abstract.py"], [("StatisticExpressionsAccessor", "pypsa/optimization/expressions.py")], ["n.optimize.expressions.*"])

p("C26", "Spatial clustering conserves totals and preserves structure",
  "Clustering by a bus map gives one bus per cluster; lines between different clusters are aggregated per cluster pair with capacities summed and parallel impedances combined, lines inside a cluster vanish; one-port components and links are moved to their bus's cluster, and when aggregated per carrier capacities, loads and costs follow the aggregation strategy, so total nominal capacity, load, and available generation energy are conserved. Snapshots, weightings, carriers and global constraints are carried over and the original network is not modified.",
  ["inputs", "configurations"], "all networks, bus maps, aggregation options and strategies",
  "tests cluster one fixture with default options", ["pypsa/clustering/spatial.py"], [("get_clustering_from_busmap, aggregatelines, aggregateoneport, aggregatebuses", "pypsa/clustering/spatial.py")], ["n.cluster.*"])

p("C27", "The consistency check reports a defect exactly when there is one",
  "The consistency check reports each documented kind of defect (unknown bus or carrier, disconnected bus, zero impedance, zero transformer rating, misaligned or surplus series, minimum above maximum, missing values, non-finite limits, both committable and extendable, contradictory initial state, wrong dtype, unknown investment period, dangling shape) whenever the network contains it, and is silent about kinds it does not contain. In strict mode for that kind it raises instead of logging, and it never modifies the network.",
  ["inputs"], "all networks obtained by injecting any subset of defects into any component", "tests inject one defect at one place each", ["pypsa/consistency.py"], [("consistency_check and check_*", "pypsa/consistency.py")], ["n.consistency_check()"])

p("C28", "Options form a scoped state machine",
  "Reading an option returns the value most recently set through any of the access styles, or its default; unknown names and whole categories are refused without effect; resetting restores all defaults; a context that sets options temporarily restores exactly the previous values when it ends, also when nested, repeated, ended by an exception, or refused half-way.",
  ["histories", "fault_sequences"], "all sequences of get/set/reset and nested contexts, including failing ones", "tests use one context and one set each", ["pypsa/_options.py"], [("OptionsNode, option_context", "pypsa/_options.py")], ["pypsa.options", "pypsa.option_context"])

p("C29", "Standard types and per-unit conversion give the documented electrical values",
  "A line of a standard type gets resistance, reactance and susceptance per length times length over (or for susceptance times) the number of parallel systems and the corresponding rating-independent values; a transformer of a standard type gets the values implied by its short-circuit voltage, losses and tap position; branches without a type keep the given values. Per-unit values follow from the bus voltage (lines) or rating (transformers), the effective values include tap ratio, and each AC sub-network uses reactance and each DC sub-network resistance.",
  ["inputs"], "all lines and transformers with and without type, lengths, parallel counts, tap positions and voltages", "tests cover one line type and stored power-flow results", ["pypsa/pf.py"], [("apply_line_types, apply_transformer_types, calculate_dependent_values", "pypsa/pf.py")], ["n.calculate_dependent_values()", "n.lines.x_pu_eff"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
