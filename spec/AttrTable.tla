------------------------------ MODULE AttrTable ------------------------------
(* The documented attributes of every component class: default values of the   *)
(* static ones, and those that may vary over time.  Quantities are strings.    *)
(* Written by tools/mkattrs.py.                                                *)
StaticDefaults == [
  Bus |-> [v_nom |-> "1", type |-> "'", x |-> "0", y |-> "0", carrier |-> "'AC", unit |-> "'", location |-> "'", v_mag_pu_set |-> "1", v_mag_pu_min |-> "0", v_mag_pu_max |-> "inf", control |-> "'PQ", generator |-> "'", sub_network |-> "'"],
  Carrier |-> [co2_emissions |-> "0", color |-> "'", nice_name |-> "'", max_growth |-> "inf", max_relative_growth |-> "0"],
  Generator |-> [bus |-> "'", control |-> "'PQ", type |-> "'", p_nom |-> "0", p_nom_mod |-> "0", p_nom_extendable |-> "False", p_nom_min |-> "0", p_nom_max |-> "inf", p_min_pu |-> "0", p_max_pu |-> "1", p_set |-> "0", e_sum_min |-> "-inf", e_sum_max |-> "inf", q_set |-> "0", sign |-> "1", carrier |-> "'", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", active |-> "True", build_year |-> "0", lifetime |-> "inf", capital_cost |-> "0", efficiency |-> "1", committable |-> "False", start_up_cost |-> "0", shut_down_cost |-> "0", stand_by_cost |-> "0", min_up_time |-> "0", min_down_time |-> "0", up_time_before |-> "1", down_time_before |-> "0", ramp_limit_up |-> "nan", ramp_limit_down |-> "nan", ramp_limit_start_up |-> "1", ramp_limit_shut_down |-> "1", weight |-> "1", p_nom_opt |-> "0"],
  GlobalConstraint |-> [type |-> "'primary_energy", investment_period |-> "nan", carrier_attribute |-> "'co2_emissions", sense |-> "'==", constant |-> "0", mu |-> "0"],
  Line |-> [bus0 |-> "'", bus1 |-> "'", type |-> "'", x |-> "0", r |-> "0", g |-> "0", b |-> "0", s_nom |-> "0", s_nom_mod |-> "0", s_nom_extendable |-> "False", s_nom_min |-> "0", s_nom_max |-> "inf", s_max_pu |-> "1", capital_cost |-> "0", active |-> "True", build_year |-> "0", lifetime |-> "inf", length |-> "0", carrier |-> "'", terrain_factor |-> "1", num_parallel |-> "1", v_ang_min |-> "-inf", v_ang_max |-> "inf", sub_network |-> "'", x_pu |-> "0", r_pu |-> "0", g_pu |-> "0", b_pu |-> "0", x_pu_eff |-> "0", r_pu_eff |-> "0", s_nom_opt |-> "0"],
  LineType |-> [f_nom |-> "50", r_per_length |-> "0", x_per_length |-> "0", c_per_length |-> "0", i_nom |-> "0", mounting |-> "'ol", cross_section |-> "0", references |-> "'"],
  Link |-> [bus0 |-> "'", bus1 |-> "'", type |-> "'", carrier |-> "'", efficiency |-> "1", active |-> "True", build_year |-> "0", lifetime |-> "inf", p_nom |-> "0", p_nom_mod |-> "0", p_nom_extendable |-> "False", p_nom_min |-> "0", p_nom_max |-> "inf", p_set |-> "0", p_min_pu |-> "0", p_max_pu |-> "1", capital_cost |-> "0", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", stand_by_cost |-> "0", length |-> "0", terrain_factor |-> "1", committable |-> "False", start_up_cost |-> "0", shut_down_cost |-> "0", min_up_time |-> "0", min_down_time |-> "0", up_time_before |-> "1", down_time_before |-> "0", ramp_limit_up |-> "nan", ramp_limit_down |-> "nan", ramp_limit_start_up |-> "1", ramp_limit_shut_down |-> "1", p_nom_opt |-> "0"],
  Load |-> [bus |-> "'", carrier |-> "'", type |-> "'", p_set |-> "0", q_set |-> "0", sign |-> "-1", active |-> "True"],
  Shape |-> [component |-> "'", idx |-> "'", type |-> "'"],
  ShuntImpedance |-> [bus |-> "'", g |-> "0", b |-> "0", sign |-> "-1", g_pu |-> "0", b_pu |-> "0", active |-> "True"],
  StorageUnit |-> [bus |-> "'", control |-> "'PQ", type |-> "'", p_nom |-> "0", p_nom_mod |-> "0", p_nom_extendable |-> "False", p_nom_min |-> "0", p_nom_max |-> "inf", p_min_pu |-> "-1", p_max_pu |-> "1", p_set |-> "0", q_set |-> "0", sign |-> "1", carrier |-> "'", spill_cost |-> "0", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", marginal_cost_storage |-> "0", capital_cost |-> "0", active |-> "True", build_year |-> "0", lifetime |-> "inf", state_of_charge_initial |-> "0", state_of_charge_initial_per_period |-> "False", state_of_charge_set |-> "nan", cyclic_state_of_charge |-> "False", cyclic_state_of_charge_per_period |-> "True", max_hours |-> "1", efficiency_store |-> "1", efficiency_dispatch |-> "1", standing_loss |-> "0", inflow |-> "0", p_nom_opt |-> "0"],
  Store |-> [bus |-> "'", type |-> "'", carrier |-> "'", e_nom |-> "0", e_nom_mod |-> "0", e_nom_extendable |-> "False", e_nom_min |-> "0", e_nom_max |-> "inf", e_min_pu |-> "0", e_max_pu |-> "1", e_initial |-> "0", e_initial_per_period |-> "False", e_cyclic |-> "False", e_cyclic_per_period |-> "True", p_set |-> "0", q_set |-> "0", sign |-> "1", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", marginal_cost_storage |-> "0", capital_cost |-> "0", standing_loss |-> "0", active |-> "True", build_year |-> "0", lifetime |-> "inf", e_nom_opt |-> "0"],
  SubNetwork |-> [carrier |-> "'AC", slack_bus |-> "'"],
  Transformer |-> [bus0 |-> "'", bus1 |-> "'", type |-> "'", model |-> "'t", x |-> "0", r |-> "0", g |-> "0", b |-> "0", s_nom |-> "0", s_nom_mod |-> "0", s_nom_extendable |-> "False", s_nom_min |-> "0", s_nom_max |-> "inf", s_max_pu |-> "1", capital_cost |-> "0", num_parallel |-> "1", tap_ratio |-> "1", tap_side |-> "0", tap_position |-> "0", phase_shift |-> "0", active |-> "True", build_year |-> "0", lifetime |-> "inf", v_ang_min |-> "-inf", v_ang_max |-> "inf", sub_network |-> "'", x_pu |-> "0", r_pu |-> "0", g_pu |-> "0", b_pu |-> "0", x_pu_eff |-> "0", r_pu_eff |-> "0", s_nom_opt |-> "0"],
  TransformerType |-> [f_nom |-> "50", s_nom |-> "0", v_nom_0 |-> "0", v_nom_1 |-> "0", vsc |-> "0", vscr |-> "0", pfe |-> "0", i0 |-> "0", phase_shift |-> "0", tap_side |-> "0", tap_neutral |-> "0", tap_min |-> "0", tap_max |-> "0", tap_step |-> "0", references |-> "'"]]
(* default of a time-varying attribute *)
VaryingDefaults == [
  Bus |-> [v_mag_pu_set |-> "1", p |-> "0", q |-> "0", v_mag_pu |-> "1", v_ang |-> "0", marginal_price |-> "0"],
  Carrier |-> << >>,
  Generator |-> [p_min_pu |-> "0", p_max_pu |-> "1", p_set |-> "0", q_set |-> "0", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", efficiency |-> "1", stand_by_cost |-> "0", ramp_limit_up |-> "nan", ramp_limit_down |-> "nan", p |-> "0", q |-> "0", status |-> "1", start_up |-> "1", shut_down |-> "1", mu_upper |-> "0", mu_lower |-> "0", mu_p_set |-> "0", mu_ramp_limit_up |-> "0", mu_ramp_limit_down |-> "0"],
  GlobalConstraint |-> << >>,
  Line |-> [s_max_pu |-> "1", p0 |-> "0", q0 |-> "0", p1 |-> "0", q1 |-> "0", mu_lower |-> "0", mu_upper |-> "0"],
  LineType |-> << >>,
  Link |-> [efficiency |-> "1", p_set |-> "0", p_min_pu |-> "0", p_max_pu |-> "1", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", stand_by_cost |-> "0", ramp_limit_up |-> "nan", ramp_limit_down |-> "nan", p0 |-> "0", p1 |-> "0", status |-> "1", start_up |-> "1", shut_down |-> "1", mu_lower |-> "0", mu_upper |-> "0", mu_p_set |-> "0", mu_ramp_limit_up |-> "0", mu_ramp_limit_down |-> "0"],
  Load |-> [p_set |-> "0", q_set |-> "0", p |-> "0", q |-> "0"],
  Shape |-> << >>,
  ShuntImpedance |-> [p |-> "0", q |-> "0"],
  StorageUnit |-> [p_min_pu |-> "-1", p_max_pu |-> "1", p_set |-> "0", q_set |-> "0", spill_cost |-> "0", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", marginal_cost_storage |-> "0", state_of_charge_set |-> "nan", efficiency_store |-> "1", efficiency_dispatch |-> "1", standing_loss |-> "0", inflow |-> "0", p |-> "0", p_dispatch |-> "0", p_store |-> "0", q |-> "0", state_of_charge |-> "nan", spill |-> "0", mu_upper |-> "0", mu_lower |-> "0", mu_state_of_charge_set |-> "0", mu_energy_balance |-> "0"],
  Store |-> [e_min_pu |-> "0", e_max_pu |-> "1", p_set |-> "0", q_set |-> "0", marginal_cost |-> "0", marginal_cost_quadratic |-> "0", marginal_cost_storage |-> "0", standing_loss |-> "0", p |-> "0", q |-> "0", e |-> "0", mu_upper |-> "0", mu_lower |-> "0", mu_energy_balance |-> "0"],
  SubNetwork |-> << >>,
  Transformer |-> [s_max_pu |-> "1", p0 |-> "0", q0 |-> "0", p1 |-> "0", q1 |-> "0", mu_lower |-> "0", mu_upper |-> "0"],
  TransformerType |-> << >>]
(* attributes that exist as series only *)
SeriesOnly == [
  Bus |-> {"p", "q", "v_mag_pu", "v_ang", "marginal_price"},
  Carrier |-> {},
  Generator |-> {"p", "q", "status", "start_up", "shut_down", "mu_upper", "mu_lower", "mu_p_set", "mu_ramp_limit_up", "mu_ramp_limit_down"},
  GlobalConstraint |-> {},
  Line |-> {"p0", "q0", "p1", "q1", "mu_lower", "mu_upper"},
  LineType |-> {},
  Link |-> {"p0", "p1", "status", "start_up", "shut_down", "mu_lower", "mu_upper", "mu_p_set", "mu_ramp_limit_up", "mu_ramp_limit_down"},
  Load |-> {"p", "q"},
  Shape |-> {},
  ShuntImpedance |-> {"p", "q"},
  StorageUnit |-> {"p", "p_dispatch", "p_store", "q", "state_of_charge", "spill", "mu_upper", "mu_lower", "mu_state_of_charge_set", "mu_energy_balance"},
  Store |-> {"p", "q", "e", "mu_upper", "mu_lower", "mu_energy_balance"},
  SubNetwork |-> {},
  Transformer |-> {"p0", "q0", "p1", "q1", "mu_lower", "mu_upper"},
  TransformerType |-> {}]
=============================================================================
