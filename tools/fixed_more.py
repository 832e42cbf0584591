MORE = [
 ("refusing empty snapshots", "C02", "set_snapshots([]) raised after it had already changed the network"),
 ("add must not give series to existing", "C01", "add without overwrite gave series to existing components it skipped"),
 ("overwriting a component must not keep", "C01", "overwriting a component kept its old series"),
 ("custom series of further components", "C01", "custom series of further components replaced those of others or were ignored"),
 ("renaming components to the name of another", "C01", "renaming a component to an existing name silently duplicated it"),
 ("renaming components other than buses", "C01", "renaming failed or missed references for components other than buses"),
 ("set flat snapshots on networks with investment", "C02", "set_snapshots from multi-indexed to flat snapshots raised"),
 ("dictionaries as attribute values", "C01", "dictionaries as attribute values were not refused"),
 ("existing links must get the default efficiency", "C01", "existing links got NaN as the efficiency of a port added by a later link"),
 ("adding two networks must return", "C03", "n + m returned None"),
 ("merging networks must skip the buses", "C03", "merge(components_to_skip=['Bus']) merged the buses all the same"),
 ("networks with equal snapshot weightings of different", "C03", "merge refused equal snapshot weightings stored as int and float"),
 ("the coordinate reference system of a network can be set", "C06", "n.crs = x raised for any x but the current one"),
 ("copies of a network must not share its meta", "C03", "copy(snapshots=...) shared the meta dictionary with the original"),
 ("copy the coordinate reference system of networks", "C03", "copy(snapshots=...) raised for a network with another CRS"),
 ("copy a part of the investment periods", "C03", "copy with a part of the investment periods, or with snapshots of a part of them, raised"),
 ("lists of multi-indexed snapshots", "C03", "a list of multi-indexed snapshots raised in copy and optimize"),
 ("slicing a network by the name of a single bus", "C03", "n['bus'] gave a network whose buses were the attribute names"),
 ("slicing a network by labels of its snapshots", "C03", "n[labels, buses] raised or mixed positions and labels"),
 ("slices of a network keep the investment period", "C03", "slices lost the investment period weightings"),
 ("slices of a network must not keep links", "C03", "slices kept links whose further buses were cut off"),
 ("networks which differ slightly are not equal", "C06", "cells differing by less than a relative 1e-5 compared equal"),
 ("comparing networks of which only one is solved", "C06", "== raised KeyError when only one network was solved, and missed another CRS"),
 ("comparing meta data of different type", "C06", "== raised for meta data of different type"),
 ("copies of networks with an optimisation model", "C06", "a network with a model differed from its copy"),
 ("networks with the same sub-networks are equal", "C06", "two networks analysed alike compared unequal"),
 ("copies, slices and added shapes", "C03", "copies and slices of networks with shapes and another CRS raised"),
 ("copy networks whose investment periods have no", "C03", "copying networks whose periods have no weightings raised KeyError"),
 ("a new port must get its tables in every", "C01", "a port used first in another network got no series table"),
 ("slices of a network must not share its snapshot", "C03", "editing the weightings of a slice changed the original"),
 ("custom series must not be shared", "C03", "custom series of a merged network were shared with the other network"),
 ("exports must not leave data of earlier", "C04", "exporting into an existing folder left files of an earlier export behind, which were imported again"),
 ("import snapshots which are not dates", "C04", "string and integer snapshots were not restored from csv and excel"),
 ("the name of an imported network", "C04", "network names that read as numbers came back as numbers"),
 ("meta data of any type in excel", "C04", "nested meta data was lost or raised with excel files"),
 ("export series which differ from the static", "C04", "series equal to the default but not to the static value were dropped by the export"),
 ("export columns of mixed type to hdf5", "C04", "custom columns of mixed type raised in the hdf5 export"),
 ("shapes of an imported network", "C04", "shapes were imported with the default coordinate reference system"),
 ("components without attributes in excel", "C04", "components with default attributes only were lost in excel files"),
 ("empty meta data in excel", "C04", "empty meta data raised in the excel export"),
 ("export the weightings of the investment periods of the snapshots", "C04", "exports stored weightings of the wrong investment periods"),
 ("import optional references to components", "C04", "references to components whose names read as numbers came back as floats"),
 ("export missing weightings of investment periods", "C04", "missing weightings of investment periods raised or changed in the export"),
 ("export columns of booleans stored as objects", "C04", "custom columns of booleans stored as objects raised in the netcdf export"),
 ("iterate over time-varying attributes", "C05", "static/dynamic switch: attributes iterated wrongly"),
 ("inactive generators must not control", "C07", "inactive generators were chosen as slack and set the bus control"),
 ("incidence matrix of networks without branches", "C07", "n.incidence_matrix raised for networks without branches"),
 ("power flow of sub-networks where all lines", "C08", "lpf and pf raised KeyError when all lines (or transformers) of a sub-network are inactive"),
 ("inactive links and shunt impedances", "C08", "inactive links injected their set point, inactive shunt impedances entered the admittance matrix"),
 ("distributed slack of sub-networks with a single bus", "C09", "distributed slack of a single-bus sub-network raised for custom weights and gave NaN for p_nom; unbalanced snapshots were reported as converged"),
 ("shunt impedances in the power flow of sub-networks with a single", "C09", "shunt impedances of single-bus sub-networks were ignored"),
 ("shares of the generators in the distributed slack", "C09", "inactive generators took slack, p_nom_opt weights were shared by p_nom, buses without p_nom got no shares"),
 ("power flow of sub-networks without generators", "C09", "pf raised for sub-networks without generators"),
 ("contingency analysis of all or named snapshots", "C10", "lpf_contingency raised for snapshots=None, an index or a named snapshot"),
 ("contingency analysis of networks with several", "C10", "contingency flows were NaN in other sub-networks, wrong or refused with inactive branches and isolated buses"),
 ("contingency analysis of multi-indexed", "C10", "lpf_contingency raised for multi-indexed snapshots"),
 ("restore options which option_context sets more", "C28", "an option named twice in option_context kept its temporary value afterwards"),
 ("strict consistency check for unknown carriers", "C27", "strict=['unknown_carriers'] never raised"),
 ("consistency check of custom columns", "C27", "custom columns starting with bus and ports with two digits were reported as unknown buses or raised"),
 ("strict consistency check for investment periods", "C27", "raised a ValueError which is no ConsistencyError"),
 ("consistency check of networks with misaligned", "C27", "misaligned series made the non-strict check raise a KeyError"),
 ("consistency check of the data types of shapes", "C27", "every network with shapes was reported to have wrong dtypes"),
 ("custom columns whose names start with bus", "C27", "custom columns such as bus_note were taken for ports of links (the check added an efficiency_note, power flow raised)"),
 ("fixed nominal capacities of components which", "C20", "p_nom_set of a component which is not extendable made every optimisation raise a KeyError"),
 ("inactive loads do not consume", "C21", "inactive loads were reported with their set-point and entered the bus injections"),
 ("optimisation results of other snapshots", "C21", "bus injections, angles and storage powers of snapshots outside the optimisation were overwritten"),
 ("branch outages of a security-constrained", "C22", "a MultiIndex of branch_outages, as documented, raised NotImplementedError"),
 ("security-constrained optimisation of networks with inactive", "C22", "networks with inactive branches raised a shape mismatch"),
 ("outages of a security-constrained optimisation follow", "C22", "with several investment periods the distribution factors of the last period were used for all; sub-networks without fixed or extendable branches of a kind raised"),
    ("the first iteration of transmission expansion starts from", "C23", "an extendable line whose s_nom_opt is 0 (never optimised) got a reactance of zero and the optimisation failed"),
    ("transmission expansion must not discretize branches which", "C23", "unit sizes changed the nominal capacity of lines and links which are not extendable, permanently"),
    ("transmission expansion must run the minimal number", "C23", "min_iterations=2 ran a single iteration"),
    ("weights of near-optimal alternatives can cover some", "C23", "weights of some components only gave NaN coefficients or a TypeError"),
    ("weights of near-optimal alternatives must not be multiplied", "C23", "weights={'Store': {'p': 3, 'e_nom': 0.5}} weighted the capacity once for each snapshot"),
    ("discretized capacities follow the threshold", "C23", "discretized_capacity(7.5, 10, 5, 0.5) did not follow the threshold when the last unit ends at the maximum"),
    ("a fixed dispatch must not be overwritten", "C23", "p_set of fix_optimal_dispatch was the same table as p, later results overwrote it"),
    ("the carrier of load shedding generators", "C23", "the carrier 'Load' was added but generators have carrier 'load'"),
    ("operating costs of links are part of the statistics", "C24", "n.statistics.opex() ignored links"),
    ("operating costs in statistics are weighted as in the objective", "C24", "opex used the generators/stores weightings, so that costs did not add up to the objective"),
    ("drop_zero=False keeps zero values", "C24", "n.statistics.capex(drop_zero=False) dropped zeros"),
    ("inactive assets are not curtailed in statistics", "C24", "curtailment of generators which are not built yet or switched off was p_max_pu * p_nom_opt in tables with several columns"),
    ("expanded capacities of multi-investment", "C24", "expanded_capacity of an asset without given capacity was 0 in multi-investment networks"),
    ("system costs of components without operating", "C24", "system_cost raised or mangled group names when there are no operating costs or groupby=False"),
    ("time series of capacity factors in multi", "C24", "capacity_factor(aggregate_time=False) raised in multi-investment networks"),
    ("capacity factors of branches with a given bus", "C24", "capacity_factor(bus_carrier='AC') divided the operation at the first port by the net capacity at all ports (0 for lines)"),
    ("statistics at given ports only", "C24", "at_port='0' was the same as all ports"),
    ("statistics at all ports must not count empty", "C24", "a link without bus2 counted its capacity or costs once more at its empty port"),
    ("statistics at all ports of components whose", "C24", "n.statistics.opex(at_port=True, groupby=False) raised"),
    ('expressions for fixed capacities of all components', 'C25', 'capex and capacity expressions of components without extendable assets, or with fixed lines, transformers or stores, were silently dropped'),
    ('curtailment expressions of assets without availability', 'C25', 'curtailment expression divided by an availability of zero and became NaN'),
    ('energy balance expressions of solved networks', 'C25', 'energy balance, supply and withdrawal expressions raised on a model which already has a solution'),
    ('aggregating a single group of an expression across components', 'C25', 'aggregate_across_components with a single group raised KeyError'),
    ('operating cost expressions are weighted as in the objective', 'C25', 'opex expression used the weightings of the component instead of those of the objective, unlike the statistic and the objective'),
    ('energy balance expressions of stores are made of their power', 'C25', 'energy balance expression of a store was made of its filling level instead of its power'),
    ('assign fixed capacities to their component in expressions', 'C25', 'with as many extendable as fixed assets of a component, fixed capacities were added to the extendable ones by position'),
    ('expressions over several ports must be added up by group', 'C25', 'with equally many groups at several ports, the expressions of different groups were added by position'),
    ('time series of filtered expressions', 'C25', 'filtered expressions which are not aggregated over time raised KeyError'),
    ('aggregating expressions across components without variables or of one component', 'C25', 'aggregate_across_components did nothing for expressions without variables and raised for a single component'),
    ('inactive assets are not curtailed in expressions', 'C25', 'the potential of inactive assets counted as curtailed in expressions'),
    ('time series of expressions of one component', 'C25', 'expressions of a single component type which are not aggregated over time raised KeyError'),
    ('clustered networks must not share the global constraints', 'C26', 'changing the global constraints of a clustered network changed those of the original network'),
    ('only aggregate the generators at the given buses', 'C26', 'aggregate_generators_buses had no effect, or aggregated generators of other carriers than those asked for'),
    ('cluster all buses of links', 'C26', 'further buses of links (bus2, ...) kept the names of buses that do not exist any more; links between clusters only through them were dropped'),
    ('cluster networks with time series of results', 'C26', 'clustering a network which has results raised KeyError'),
    ('let optimised dispatch be followed by a power flow', 'C23', 'optimize_and_run_non_linear_powerflow raised for networks without passive branches or with sub-networks without an active generator, overwrote the set points of other snapshots and gave shunt impedances a p_set'),
    ('accept a line threshold of zero', 'C23', 'line_threshold=0 in the iterative expansion was replaced by the default 0.3'),
    ('do not round up capacities of whole units', 'C23', 'with a threshold of zero an optimal capacity of whole units was rounded up by another unit, beyond the maximum'),
    ('correct the sign of the tightened ramp down', 'C13', 'the linearised unit commitment excluded starts of units with ramp limits because a term of the tightening had the wrong sign'),
    ('use the limits of the previous snapshot in the linearised', 'C13', 'with part loads varying in time the linearised unit commitment excluded feasible schedules'),
    ('use ramp limit series in the linearised', 'C13', 'the linearised unit commitment used static ramp limits even where series override them'),
    ('copy and slice networks with changed or missing standard types', 'C03', 'copies of selected snapshots and slices lost changes of standard types, and raised KeyError if one was missing'),
    ('merge custom line and transformer types', 'C03', 'merging dropped the types of the other network'),
    ('export networks without some of the standard types', 'C04', 'exporting raised KeyError if a standard type was missing'),
    ('weightings from timedelta with a single snapshot', 'C02', 'the weightings of a single snapshot became missing values'),
]
