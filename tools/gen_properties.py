#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "scikit-topt/sktopt/"
CD = S + "core/optimizers/common_density.py"

prop("C01", "Partial runs compose to one uninterrupted run",
 "However a caller mixes full runs and partial runs of any step counts on one optimizer, every iteration from the first to the configured maximum is executed exactly once and in order, and the densities after each iteration and the recorded history are the same as those of one uninterrupted run. A partial run executes exactly the requested number of iterations or whatever is left; a request for zero or a negative number of steps changes nothing. Once the run is complete, further run requests of any kind change neither densities, history nor saved checkpoints.",
 ["schedules", "histories"], "all sequences of run / run-n-steps calls (n negative, zero, small, larger than what is left), for both update rules and for user-defined update rules",
 "One test compares one split (of one size) with a full run; the claim is over every call sequence, including no-op and post-completion calls.",
 [CD, S+"core/optimizers/oc.py", S+"core/optimizers/logmoc.py"],
 [("optimize / optimize_steps / shared driver loop", CD), ("persistent iteration state between calls", CD), ("EMA state of the update rules", S+"core/optimizers")],
 )
prop("C02", "Early stop exactly when both convergence criteria hold",
 "With convergence checking enabled, the run stops at the first iteration at which the maximum density change is below its tolerance and the magnitude of the stationarity residual is below its tolerance (a non-finite residual does not block stopping), that iteration is checkpointed and the run is complete, so later run requests are no-ops. With convergence checking disabled the run never stops before the configured maximum, and with it enabled it never stops at an iteration where only one criterion holds.",
 ["histories", "configurations"], "all interleavings of the two criteria becoming true or false over iterations, chunked or not, including non-finite residuals, for scripted, OC and LogMOC updates",
 "No test enables convergence checking; the claim is about every sequence of criterion values.",
 [CD, S+"core/optimizers/oc.py", S+"core/optimizers/logmoc.py"],
 [("convergence evaluation and loop exit", CD), ("KKT residual", S+"core/optimizers/oc.py")])
prop("C03", "Checkpoints: saved when due and faithful",
 "A checkpoint is written at the first iteration, at every iteration that is a multiple of the recording interval derived from the requested number of recordings, at the last iteration of every run request and at the iteration that converges, and at no other iteration; together with each checkpoint the result mesh of that iteration is written. A checkpoint for iteration k contains exactly the design-element densities at the end of iteration k. Any positive number of recordings is accepted, including one exceeding the number of iterations (then every iteration is saved).",
 ["configurations", "schedules"], "all (maximum iterations, number of recordings) pairs, all splits into run requests, with and without convergence",
 "Tests run one or a few iterations with recordings equal to iterations and never open the saved files.",
 [CD], [("saving condition", CD), ("npz/vtu export", CD)])
prop("C04", "Restart resumes the right checkpoint of this run, after any crash",
 "A restarted optimizer continues at the iteration after the checkpoint it loads, with exactly the densities stored there, and runs to the configured maximum; automatic selection takes the newest complete checkpoint of the most recent fresh run in that directory, never a truncated or foreign file and never a leftover of an earlier fresh run, and an explicit iteration selects exactly that checkpoint. If the run was killed at any point, including in the middle of writing a checkpoint, automatic restart still succeeds from the newest complete checkpoint. If the requested checkpoint does not exist the restart fails with an error instead of starting from anything else.",
 ["crash_points", "histories", "configurations"], "every crash point of a run (before, while and after writing a checkpoint), every later restart mode, repeated crash/restart cycles, reused output directories, both update rules",
 "No test exercises restart at all, let alone a crash.",
 [CD, S+"core/misc.py"], [("checkpoint discovery", S+"core/misc.py find_latest_iter_file"), ("density initialisation on restart", CD), ("checkpoint writing", CD)])
prop("C05", "Recorded histories stay aligned with the executed iterations",
 "After any sequence of run requests, interruptions and restarts, every quantity the optimizer records has exactly one entry per iteration of the surviving run, in iteration order, with the entry for iteration k describing iteration k: restarting from checkpoint k keeps exactly the entries of iterations up to k and appends from k+1 on. The history file on disk contains the same entries whenever a checkpoint has been saved.",
 ["crash_points", "histories", "schedules"], "all sequences of partial runs, crashes, restarts from the newest or from an explicit checkpoint",
 "Tests never restart and never compare history lengths with iterations.",
 [CD, S+"tools/history.py"], [("history import on restart", CD), ("history export", CD+" and "+S+"tools/history.py")])
prop("C06", "History recorder: append order, statistics and lossless export/import",
 "A recorded series contains exactly the values fed to it, in order: a scalar (of any numeric scalar type) as itself and an array as its minimum, mean, maximum and, where requested, standard deviation, and feeding one series never changes another. Exporting and importing (in the same or in a fresh collection, any number of times, followed by further feeding) preserves every registered series, its entries and its kind (and, where the importing collection already registered it, its plot settings), including series with a single entry and registered series that are still empty. Latest-value queries return the last fed entry, and fail for unknown or empty series; arrays, attribute-style objects and progress plots show exactly the recorded entries.",
 ["histories", "inputs"], "all interleavings of register, feed, export, import and query operations over several series of every kind",
 "Tests only check that files appear; the export/import cycle is history dependent.",
 [S+"tools/history.py"], [("HistorySeries.add / data_to_array", S+"tools/history.py"), ("HistoryCollection export/import", S+"tools/history.py")])
prop("C07", "Densities stay within bounds and per-iteration move limits",
 "After every iteration of either update rule, every design density lies between the configured minimum and maximum and differs from its previous value by at most the move limit in effect at that iteration; the optimality-criteria rule additionally never multiplies a density by a factor outside its configured scaling interval. The initial densities also respect the bounds. No density ever becomes non-finite.",
 ["inputs", "configurations", "histories"], "all meshes, loads, bounds, move-limit schedules, filters, projection strengths, chunkings and restarts, and all inputs of the low-level update kernels",
 "Tests run one iteration with one configuration and do not look at the densities.",
 [S+"core/optimizers/oc.py", S+"core/optimizers/logmoc.py", CD], [("bisection_with_physical_volume clipping", S+"core/optimizers/oc.py"), ("lagrangian_log_update clipping", S+"core/optimizers/logmoc.py"), ("initialize_density", CD)])
prop("C08", "Passive, loaded and (unless opted in) supported elements stay solid",
 "In every state analysis of a run, elements outside the design domain, elements touching a loaded region and, unless supported elements are included in the design domain by option, elements touching a support have physical density one; the optimizer changes only design elements. This holds for elasticity and heat problems, from the first iteration on, for every filter, and across partial runs and restarts, while design elements start from the configured initial volume fraction.",
 ["configurations", "histories"], "all design-domain choices, support/load layouts, support-inclusion settings, physics, filters, restarts",
 "Tests never inspect which elements change.",
 [CD, S+"mesh/task_common.py", S+"filters/spacial.py", S+"filters/helmholtz_filter_nodal.py"], [("pinning of loaded/supported elements", CD), ("design mask pass-through", S+"filters")])
prop("C09", "Volume control: OC meets the target or saturates; LogMOC dual follows its law",
 "After each optimality-criteria update the volume-weighted mean physical (filtered and projected) density of the design domain equals the target in effect within the solver tolerance, unless every element that can still move towards the target already sits at its move limit; the reported volume error is that of the updated densities. For the log-space rule the reported volume error is that of the analysed densities, the multiplier follows the configured smoothing or accumulation law from its previous value, always stays within its bounds, and the constraint coefficient is the multiplier plus the augmentation term.",
 ["inputs", "configurations", "histories"], "all targets (reachable or not), target schedules, weights of unequal elements, move limits, projections and filters; all multiplier update modes, gains and bounds, over whole runs",
 "Tests never check the volume constraint.",
 [S+"core/optimizers/oc.py", S+"core/optimizers/logmoc.py"], [("bisection", S+"core/optimizers/oc.py"), ("dual update", S+"core/optimizers/logmoc.py")])
prop("C10", "Continuation schedules: endpoints, plateaus, monotonicity, validation",
 "For iterations one to the maximum, a step-type schedule takes exactly the requested number of plateau values, of equal length up to one iteration, starting at its initial value, changing monotonically, never leaving the interval between initial and target value, and being at the target from the final iteration on; accelerating and decelerating variants place the same plateaus at curvature-shaped levels, the to-one variants run from one over the number of steps to one, and a saw-tooth decays linearly within each cycle and resets at each new cycle. Constant schedules and schedules without a step count return the target at every iteration. Invalid specifications (missing or contradictory required parameters) are rejected with an error.",
 ["inputs", "configurations"], "all schedule kinds, endpoint orders (rising, falling, equal), numbers of steps, curvatures, iteration maxima and iterations, through configuration objects, scheduler classes and scheduler collections",
 "Tests sample a few schedules; the claim is over all totals, step counts and kinds.",
 [S+"tools/scheduler.py"], [("schedule_* functions", S+"tools/scheduler.py"), ("SchedulerConfig validation", S+"tools/scheduler.py"), ("Schedulers collection", S+"tools/scheduler.py")])
prop("C11", "The scheduled parameter values are the ones in effect at each iteration",
 "At iteration k the penalization exponent and load scale used in the state analysis, the filter radius and projection strength used for the physical density, and the volume target, move limit, exponent and percentile handed to the update are exactly the values of their schedules at k over the configured maximum number of iterations. This is independent of how the run is split into requests and of restarts.",
 ["schedules", "configurations", "histories"], "all combinations of schedules over all iterations, all chunkings, restarts from any checkpoint",
 "Tests check schedules in isolation, not their use in the loop.",
 [CD, S+"tools/scheduler.py"], [("init_schedulers / values_as_list", CD), ("filter radius update", CD)])
prop("C12", "Design domain, supports and loads are classified correctly",
 "For any mesh and any selection of support, load, convection and design regions (one region or several of different sizes, any constrained direction), the constrained nodes and degrees of freedom are exactly those of the selected regions, the constrained/loaded/convective element sets are exactly the elements touching them, the design set is the requested set minus loaded (and, unless opted in, convective) elements, the fixed set is its complement, and the free degrees of freedom are the complement of the constrained ones. Excluding supports removes exactly the support-touching elements from the design set. The result depends only on the given mesh and regions, not on meshes processed earlier, and an empty design set is rejected.",
 ["inputs", "histories"], "all small meshes (hexahedral, tetrahedral), region selections, directions, physics, construction routes (facets, tags), and sequences of constructions in one process",
 "Tests build two fixed problems and do not check the sets.",
 [S+"mesh/task_common.py", S+"mesh/task_elastic.py", S+"mesh/task_heat.py", S+"mesh/utils.py"], [("from_facets/from_nodes", S+"mesh/task_common.py"), ("from_mesh_tags", S+"mesh/task_elastic.py"), ("get_elements_by_nodes cache", S+"mesh/utils.py")])
prop("C13", "Applied loads and convection encode exactly what was requested",
 "For each load region the assembled load acts only on nodes of that region, only in the requested direction, is distributed in proportion to the adjoining surface area and sums to the requested total force; several regions give one load case each in the given order, and numbered tags are taken in numeric order. Convection contributes, per region, the surface integral of its coefficient and of coefficient times ambient temperature. Mismatched list lengths and malformed directions are rejected.",
 ["inputs", "configurations"], "all meshes, facet selections (unequal facet sizes, overlapping regions), directions, magnitudes, numbers of regions and tag numberings",
 "Tests use one load and never check the load vector.",
 [S+"mesh/task_elastic.py", S+"mesh/task_heat.py"], [("assemble_surface_forces", S+"mesh/task_elastic.py"), ("assemble_surface_robin", S+"mesh/task_heat.py"), ("from_mesh_tags ordering", S+"mesh/task_elastic.py")])
prop("C14", "State solves honour supports, balance every load case and never fail silently",
 "Every state solve reproduces the prescribed values at constrained degrees of freedom and satisfies equilibrium at all free ones for every load case, whichever backend is used; each load case's solution is the same as when it is solved alone, in any order and for any number of cases, also when the cases constrain different regions. Requesting an unsupported or unavailable backend or an unsupported combination raises an error instead of silently using another backend or returning an unconverged result; only automatic selection may fall back.",
 ["inputs", "configurations", "fault_sequences"], "all densities, penalizations, load-case lists, backends, iteration limits, physics; backends failing",
 "Tests only use the default direct solver with one case, and check nothing about the solution.",
 [S+"fea/solver_elastic.py", S+"fea/solver_heat.py", S+"fea/solver.py"], [("solve_u / solve_multi_load", S+"fea/solver_elastic.py"), ("solve_heat_system_multi", S+"fea/solver_heat.py")])
prop("C15", "Objective, energy and sensitivity are consistent and physical",
 "For elasticity, each load case's compliance equals load times displacement and twice the total strain energy, scales with the square of the load scale and linearly inversely with stiffness, and never increases when material is added or stiffened; the heat compliance equals temperature times system matrix (conduction plus convection) times temperature. The averaged-temperature objective is the sum of the nodal temperatures of each case, the heat-exchange objective is minus the sum over all convection regions of environment temperature times coefficient times the temperature excess over the environment, averaged over the material interface (zero for a uniform design, which has no interface), and a configured weight adds the averaged temperature to it. The sensitivities with respect to physical densities equal the derivative of the objective, for both interpolation models (for heat: convection-driven problems with zero prescribed temperatures), and the optimizer hands the update the load-case average of the sensitivities after projection and filter (for the spatial filter exactly the derivative with respect to the design densities).",
 ["inputs", "configurations"], "all density fields, penalizations, interpolation models, load-case counts, load scales, meshes",
 "Tests never compare objective, energy and gradient.",
 [S+"fea/solver_elastic.py", S+"fea/solver_heat.py", S+"fea/composer.py", S+"core/derivatives.py", CD], [("compliance", S+"fea/solver_elastic.py"), ("strain energy", S+"fea/solver_elastic.py"), ("dC_drho_simp/ramp", S+"core/derivatives.py")])
prop("C16", "Density filters: averaging, locality, pass-through, no hidden state",
 "Each density filter reproduces constant fields, is linear up to its passive contribution, and the spatial filter returns values within the range of its input, averages exactly the design elements within the radius with weights that do not increase with distance, and has a gradient that is exactly its adjoint on the design elements; the Helmholtz filter is the element average of the solution of u - r^2 laplace(u) = density, conserves the total for a domain without passive elements, and its gradient is the same smoothing of the (non-positive) design sensitivities, never positive. Passive elements come out unchanged for the spatial filter and solid for the Helmholtz filter. Inputs are not modified, and after a radius update the filter behaves exactly like a freshly built one with that radius, whatever it processed before.",
 ["inputs", "histories"], "all density fields, masks, radii, meshes and sequences of forward / gradient / radius-update calls",
 "No test touches the filters directly.",
 [S+"filters/spacial.py", S+"filters/helmholtz_filter_nodal.py"], [("forward/gradient/update_radius", S+"filters")])
prop("C17", "Threshold projection: range, order, endpoints, derivative, purity",
 "For inputs in [0,1], any positive sharpness and any threshold strictly between 0 and 1, the projected density lies in [0,1], maps 0 to 0 and 1 to 1, is non-decreasing, pushes values below and above the threshold apart as sharpness grows, and equals the normalised tanh step of the documentation. The in-place and the pure variants agree for value and derivative, the derivative matches the slope of the projection, and variants given an output buffer do not modify their input.",
 ["inputs"], "all densities, sharpness values from nearly linear to very sharp, thresholds, array shapes, with and without output buffer",
 "No test evaluates the projection.",
 [S+"core/projection.py"], [("heaviside_projection*", S+"core/projection.py")])
prop("C18", "Section timer accounts every elapsed time exactly once",
 "For any nesting and interleaving of timed sections, including sections left by an exception and recursive re-entry of a name, each section's total is the sum of the durations between its entries and exits, its count is the number of completed entries, and with hierarchical naming nested sections are reported under their enclosing path. Durations added directly are accounted like a section of that name, average and maximum agree with the recorded entries, self time is total time minus the time of direct children (never negative), and resetting one name or all forgets exactly that. Charts show one bar or wedge per section with exactly these numbers, or their average over the charts drawn so far.",
 ["schedules", "histories"], "all nested sequences of enter, leave, raise, add, query and reset with arbitrary clock advances, names and hierarchy modes",
 "No test exercises the timer.",
 [S+"tools/timer.py"], [("SectionTimer", S+"tools/timer.py")])
prop("C19", "Configurations survive export and import; command-line settings are faithful",
 "A configuration written to disk by the library and read back is equal to the original in every setting, including all schedules, solver settings and optional values, and drives an identical run; legacy keys in old files are ignored. Settings given on the command line arrive unchanged in the configuration, including schedules, and defaults of the command line form a valid configuration.",
 ["configurations"], "all combinations of non-default settings and schedule kinds for each configuration class; all subsets of command-line options",
 "No test imports a configuration.",
 [CD, S+"core/misc.py"], [("export/import_from", CD), ("args2OC_Config_dict", S+"core/misc.py")])
prop("C20", "Exported geometry and condition labels describe the actual design",
 "The exported final shape contains exactly the non-design elements plus the design elements whose density exceeds the threshold, with the same geometry and no unused points. The exported analysis-condition mesh labels each node by its role (convective over constrained over loaded over none) and each element by its role (design over fixed over free), for every combination of conditions present or absent, and exporting changes nothing in the problem.",
 ["inputs", "configurations"], "all density fields around the threshold, design domains and presence/absence of each kind of condition, hexahedral and tetrahedral meshes, both physics",
 "Tests only check that a run does not fail.",
 [S+"mesh/visualization.py", S+"mesh/task_common.py"], [("export_submesh", S+"mesh/visualization.py"), ("export_analysis_condition_on_mesh", S+"mesh/task_common.py")])
prop("C21", "Mesh utilities: volumes, orientation, adjacency and box meshes are right",
 "Element volumes equal the geometric volume of each element and add up to the domain volume; orientation repair yields positively oriented elements occupying the same region and leaves properly oriented ones untouched; element neighbourhood queries return exactly the other elements sharing a node (for the face adjacency of tetrahedra: a face); a mesh loaded from a file is the same mesh, properly oriented; and generated box meshes fill exactly the requested box with a node spacing along each axis no larger than requested.",
 ["inputs"], "all small hexahedral and tetrahedral meshes, node numberings (mirrored or not), non-uniform spacings and affine distortions",
 "Tests only use one uniform mesh.",
 [S+"mesh/utils.py", S+"fea/composer.py", S+"mesh/toy_problem.py"], [("get_elements_volume", S+"fea/composer.py"), ("fix_*_orientation", S+"mesh/utils.py"), ("adjacency", S+"mesh/utils.py"), ("create_box_*", S+"mesh/toy_problem.py")])
prop("C22", "Length/force scaling leaves the problem equivalent and is undone at the end",
 "For elasticity, running with geometry and load normalisation enabled keeps the number and order of load cases, works for one or several load cases, analyses and filters the same structure up to the normalisation (the filter radius is a length of the original geometry), and restores the original geometry, volumes and loads when the run completes, however it completes. It never alters boundary conditions, mesh tags, integration rule or the design domain.",
 ["configurations", "histories"], "all problems with one or several load cases, both with partial runs and full runs",
 "No test enables scaling.",
 [CD, S+"mesh/task_common.py", S+"mesh/task_elastic.py"], [("scale/unscale", CD), ("FEMDomain.scale", S+"mesh/task_common.py")])
prop("C23", "Update laws: one multiplier for all (OC); scaled Lagrangian step (LogMOC)",
 "Within its limits (move limit, density bounds, scaling interval) every design element is treated by one common rule. Optimality criteria: an element not at a limit changes by the factor (negative sensitivity over one multiplier common to all elements) to the scheduled exponent, elements at a limit are there because that factor points beyond it, and an element without a negative sensitivity shrinks as far as allowed. Log-space rule: the logarithm of each density moves by minus eta times the clipped derivative of the Lagrangian over the running scale, within the limits; that derivative is the handed sensitivity plus the constraint coefficient times the derivative of the physical volume fraction (through projection and filter, without any constant contribution of passive elements), with the configured centring, filtering, volume-chain normalisation and gains applied; the running scale starts as the configured (or scheduled) percentile of its magnitude and is then one fifth of the old plus four fifths of the new value.",
 ["inputs", "configurations", "histories"], "all sensitivities and densities met in whole runs, all exponents, limits, schedules, filters, projection thresholds and options of the log-space rule, chunkings and restarts",
 "Tests only check that a run does not fail, or that two runs agree.",
 [S+"core/optimizers/oc.py", S+"core/optimizers/logmoc.py"], [("bisection_with_physical_volume", S+"core/optimizers/oc.py"), ("LogMOC rho_update / lagrangian_log_update", S+"core/optimizers/logmoc.py")])
prop("C24", "Recorded histories and result meshes are those of the iteration they name",
 "After every iteration each recorded series has exactly one more entry, and entry k describes iteration k: the physical densities of the design elements, element energies and peak displacements (one per load case) that were analysed, the objective, the load scale in effect, the largest density change of the update, the scaling rates (within their interval), and the stationarity residual, i.e. the largest derivative of the Lagrangian (scaled for the log-space rule) over the design elements strictly between the density bounds. The result mesh is written for the first iteration, for each of the configured number of recording times and for the last iteration of each request, under the number of that iteration, and carries the physical densities analysed and energies of that iteration for every element.",
 ["configurations", "histories"], "all problems, update rules, load cases, schedules and options; every iteration of chunked and restarted runs",
 "Tests never inspect recorded values or result meshes.",
 [CD, S+"tools/history.py", S+"mesh/visualization.py", S+"core/visualization.py"], [("recorder.feed_data calls", CD), ("export of info_mesh", CD), ("HistorySeries.add", S+"tools/history.py")])
prop("C25", "Element energies, stresses and matrices follow the material law",
 "For any mesh, numbering, integration order, densities, material constants and either interpolation model: the stiffness of an element is Emin + (E0 - Emin) rho^p (SIMP) or Emin + (E0 - Emin) rho / (1 + p (1 - rho)) (RAMP), and the derivatives offered for it and for the compliance are those of these laws. The elastic matrix is symmetric, couples only nodes sharing an element, costs nothing for rigid motions, and its bilinear form is the integral of stress (2 mu strain + lambda trace) times strain; the strain energy of an element is half that integral over it, for one or several load cases and through every entry point; stresses are reported as that tensor at every integration point, and the von Mises stress is the invariant of it. The conduction matrix and thermal energies are the same for the temperature gradient, the element temperature excess is its integral, the adjoint product is the integral of the gradients' product, and the exchanged heat is averaged over the material interface. No call modifies its inputs.",
 ["inputs", "configurations"], "all meshes, densities, exponents, stiffness limits, Poisson ratios, displacement and temperature fields, load-case counts, entry points",
 "Tests never look at an energy, a stress or a matrix entry.",
 [S+"fea/composer.py", S+"fea/solver_elastic.py", S+"fea/solver_heat.py", S+"core/derivatives.py"], [("assemble_stiffness_matrix / strain_energy_skfem / stress_tensor_skfem", S+"fea/composer.py"), ("strain_energy_skfem_multi / energy_multi_load", S+"fea/solver_elastic.py"), ("heat_energy_skfem / avg_temp_skfem / *_grad_density_multi", S+"fea/solver_heat.py"), ("dE_drho_* / dC_drho_*", S+"core/derivatives.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
