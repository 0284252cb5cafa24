"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FE = ["flory/free_energy/base.py", "flory/free_energy/flory_huggins.py", "flory/interaction/flory_huggins.py", "flory/interaction/flory_huggins_block.py",
      "flory/entropy/ideal_gas.py", "flory/entropy/ideal_gas_polydispersed.py"]
FIND = ["flory/mcmp/finder.py", "flory/mcmp/_finder_impl.py"]
STEP = "flory/mcmp/_finder_impl.py:multicomponent_self_consistent_metastep"
RUN = "flory/mcmp/finder.py:CoexistingPhasesFinder.run"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))


prop("C01", "Free energy density equals the documented Flory-Huggins expression",
     "For every mixture (any number of components, any symmetric or asymmetric interaction input which is then symmetrised, any positive sizes, plain or block-structured) and every composition with non-negative fractions, the reported free energy density is sum_i phi_i ln(phi_i)/l_i + 1/2 sum_ij chi_ij phi_i phi_j. Absent components contribute nothing and the value is finite.",
     ["inputs"], "all mixtures, sizes and compositions, including exact zeros, fractions which do not sum to one, and all ways to construct the model",
     "tests compare a handful of two- and three-component values, mostly with unit sizes",
     FE + ["flory/common/math.py", "flory/common/utilities.py"],
     [("interaction and entropy energies", "flory/interaction/flory_huggins.py:_energy_impl, flory/entropy/ideal_gas.py:_energy_impl"), ("x ln x", "flory/common/math.py:xlogx")],
     "generated mixtures against a plain-Python reference formula", "closed-form oracle written independently in pure Python")
prop("C02", "Jacobian and Hessian are the exact derivatives of the free energy",
     "For every mixture and every strictly positive composition the reported first and second derivatives of the free energy density equal those of the reported free energy itself, both with all fractions independent and with any one component as the dependent one that fills the volume. The Hessian is symmetric.",
     ["inputs"], "all mixtures, positive compositions, and choices of the dependent component (including none)",
     "tests check one derivative at a few points with equal sizes; unequal sizes in second derivatives were in fact wrong", FE,
     [("derivatives", "flory/free_energy/base.py:jacobian, hessian"), ("entropy derivatives", "flory/entropy/ideal_gas.py:_jacobian_impl, _hessian_impl")],
     "generated mixtures against formulas and finite differences", "analytic oracle plus finite differences of the code's own free energy")
prop("C03", "Chemical potentials, exchange potentials and osmotic pressure",
     "For every mixture and composition the chemical potential of component i is f - sum_j phi_j df/dphi_j + df/dphi_i, the exchange chemical potential relative to a chosen solvent is the difference of the derivatives (zero for the solvent and equal to the conserved derivative otherwise), and the osmotic pressure is minus the chemical potential of the solvent. The potentials satisfy sum_i phi_i mu_i = f and stay defined for present components when others are absent.",
     ["inputs"], "all mixtures, compositions (including absent components) and solvent indices",
     "tests evaluate few fixed compositions and only one of the identities", FE[:1] + FE[4:5],
     [("chemical potentials", "flory/free_energy/base.py:chemical_potentials"), ("exchange potentials and pressure", "flory/free_energy/base.py:exchange_chemical_potentials, pressure")],
     "generated mixtures against reference formulas and thermodynamic identities", "includes the response of the total free energy to added volume by finite differences")
prop("C04", "Stability analysis counts the unstable directions",
     "For every mixture and positive composition the reported number of unstable modes is the number of negative curvature directions of the free energy, restricted to composition changes which conserve volume (default) or unrestricted; a composition is reported stable exactly when this number is zero. The answer does not depend on which component is listed first.",
     ["inputs"], "all mixtures, compositions and both conventions; boundary cases with an eigenvalue at rounding level excluded",
     "tests use symmetric two-component cases", FE[:1],
     [("eigenvalues of the Hessian", "flory/free_energy/base.py:num_unstable_modes, is_stable")],
     "generated mixtures against independent inertia of the projected Hessian", "also compared with the analytic spinodal and with actual small splits")
prop("C05", "Equilibration error measures the imbalance of chemical potentials",
     "For every set of phases the equilibration error is the requested norm of the deviations of the chemical potentials from their average over the phases, per phase, per component or in total, with infinite potentials of absent components ignored. It vanishes for exactly coexisting phases, is not negative, and follows a reordering of the phases.",
     ["inputs"], "all mixtures, sets of phases, norm orders and axes", "tests check one converged pair", FE[:1],
     [("equilibration error", "flory/free_energy/base.py:equilibration_error")],
     "generated phases against reference and exact binary coexistence", "coexisting pairs from an independent common-tangent solver")
prop("C06", "Evaluation is per phase, validates its input and has no side effects",
     "Every thermodynamic function evaluated on a batch of compositions gives for each phase what it gives for this phase alone, for any leading shape and container. Compositions with a negative fraction or a wrong number of components are rejected with an error, and neither accepted nor rejected calls change the arguments or the model.",
     ["inputs", "histories"], "all functions, batch shapes, containers and orders of evaluation", "tests evaluate single compositions or one batch shape",
     FE + ["flory/common/exceptions.py"], [("input validation", "flory/free_energy/base.py:check_volume_fractions"), ("component index is last", "flory/free_energy/base.py")],
     "metamorphic: batch against single evaluations, generated invalid input", "")
prop("C07", "Parameter objects reflect exactly the last values they were given",
     "After any sequence of assignments to interaction matrices, sizes, mean fractions, activities and constraint coefficients (scalars, rows, integers, asymmetric or non-contiguous arrays, uniform or random matrices), an object is indistinguishable from one freshly constructed with the last values. Objects never change because an array handed to them, or another object, is changed later.",
     ["histories", "inputs"], "all histories of assignments, interleaved over two objects of any class, with later modification of the arrays handed in",
     "tests construct objects once; setters, integer input and aliasing are not covered and several were wrong",
     ["flory/interaction/flory_huggins.py", "flory/interaction/flory_huggins_block.py", "flory/entropy/ideal_gas.py", "flory/entropy/ideal_gas_polydispersed.py",
      "flory/ensemble/canonical.py", "flory/ensemble/grandcanonical.py", "flory/constraint/linear_local.py", "flory/constraint/linear_global.py", "flory/common/utilities.py"],
     [("property setters", "flory/interaction, flory/entropy, flory/ensemble, flory/constraint"), ("broadcast and copy", "flory/common/utilities.py:convert_and_broadcast")],
     "stateful model-based histories", "the model is a dictionary of plain arrays; comparison includes the compiled objects")
prop("C08", "Feature-based and component-wise descriptions are equivalent",
     "A block-structured or polydispersed mixture behaves like the expanded component-wise mixture: all thermodynamic functions agree, and the finder finds the same phases with either description. Splitting a component into identical twins splits its fractions in proportion and changes nothing else.",
     ["inputs", "configurations"], "all groupings of components into features, with different sizes inside a feature", "tests have one fixed polydispersed example",
     FE[3:4] + FE[5:] + FIND + ["flory/common/utilities.py"], [("expansion into blocks", "flory/common/utilities.py:make_square_blocks"), ("mapping components to features", "flory/entropy/ideal_gas_polydispersed.py:comp_to_feat, partition")],
     "differential: two descriptions of generated mixtures", "equal initial conditions where trajectories are compared")
prop("C09", "The canonical finder conserves material and fills space",
     "Whatever the mixture, options and number of steps, a canonical run returns one row per compartment with non-negative fractions and positive volumes that sum to one. As long as no compartment has died the volume-weighted mean composition is the prescribed one, up to the change of volumes in the last step; in converged results every phase is filled completely and material is conserved within the tolerance, also after clustering.",
     ["inputs", "configurations"], "all canonical mixtures, numbers of compartments, seeds and numerical options, at any stopping point", "tests check two or three fixed mixtures",
     FIND + ["flory/ensemble/canonical.py", "flory/common/phases.py"], [("normalisation by partition functions", "flory/ensemble/canonical.py:normalize"), ("final result", RUN)],
     "generated runs with invariants over the result", "")
prop("C10", "Converged canonical results are mutually balanced phases",
     "Whenever a canonical run reports convergence, all compartments have equal chemical potentials within a small multiple of the tolerance, and the average free energy of the returned phases is not above that of the homogeneous mixture. Ordinary mixtures do converge, with fast as well as default numerical options.",
     ["inputs", "configurations"], "all canonical mixtures of moderate interaction, seeds, tolerances and options",
     "tests look at a few fixed mixtures", FIND + FE[2:], [("self-consistent iteration", STEP)],
     "generated runs, chemical potentials from an independent reference", "")
prop("C11", "Binary mixtures reproduce the exact phase diagram",
     "For every two-component mixture a converged result is the pair of phases given by the common tangent with volumes given by the lever rule when the mean composition lies inside the spinodal, and the homogeneous mixture when it lies outside the binodal. In between only these two answers occur.",
     ["inputs"], "all binary mixtures (sizes, interactions, self-interactions, mean compositions) away from the critical point and the immediate vicinity of the binodal",
     "tests check the symmetric mixture at a few interactions", FIND, [("self-consistent iteration", STEP), ("clustering", "flory/common/phases.py:get_clusters")],
     "generated binary mixtures against an independent common-tangent solver", "oracle: bisection/Newton on the common-tangent conditions in float64")
prop("C12", "Grand canonical results are in equilibrium with the prescribed reservoir",
     "Whenever a grand canonical run converges, every phase is filled, obeys ln(phi_i)/l_i + dU/dphi_i + xi = ln(activity_i)/l_i with one xi per phase, and all phases have the same pressure; activities and chemical potentials describe the same reservoir via activity = l exp(l mu). At a reservoir prepared from exactly coexisting binary phases only compositions consistent with it are returned, and away from it a single phase.",
     ["inputs"], "all mixtures and reservoirs given by activities or chemical potentials, plain and polydispersed", "one example with fixed numbers is tested",
     FIND + ["flory/ensemble/grandcanonical.py"], [("activities", "flory/ensemble/grandcanonical.py:normalize, from_chemical_potential")],
     "generated reservoirs against equilibrium conditions", "metastable and unstable stationary states are accepted, see DESIGN")
prop("C13", "Constraints hold in the result, which is the constrained equilibrium",
     "Whenever a constrained run converges, local constraints hold in every phase and global ones on the volume average, within the tolerance, for any combination of constraints and either ensemble. The phases are in equilibrium apart from the forces of the constraints, including equal pressure, and ordinary feasible constrained systems do converge.",
     ["inputs", "configurations"], "all feasible linear constraints on features, local and global, alone or combined, canonical or grand canonical, with any elasticity and acceptance",
     "tests run one local-constraint example", FIND + ["flory/constraint/linear_local.py", "flory/constraint/linear_global.py"],
     [("Lagrange multipliers", "flory/constraint/linear_local.py, linear_global.py: prepare, evolve")],
     "generated constrained systems against KKT conditions", "multipliers are eliminated by least squares, so no internal state is read")
prop("C14", "Diagnostics are true residuals, and runs stop early only when all are small",
     "The reported incompressibility, field error, volume error and constraint residue are those of the state that the run reached, computed from the documented equations. A run stops before its step limit exactly when all four are below the tolerance at a check and no compartment died in the last step.",
     ["inputs", "configurations"], "all states, including those in which only one of the four residuals is large, and all tolerances", "tests only look whether a converged run reports small numbers",
     FIND, [("residuals", STEP), ("stopping rule", RUN)],
     "constructed states with known residuals, stop decision probed just above and below", "fields are constructed by inverting the model so that residuals are known exactly")
prop("C15", "Step limits, revive budgets and temporary options over any history",
     "Over any sequence of runs, exchanges of parts and re-initialisations, every run terminates within the step limit in effect, options given to a run apply to this run only, progress is shown only on request, and the revive budget is consumed by reviving, never replenished except by the documented resets, and not used beyond its end except for compartments dying in the same step.",
     ["histories", "configurations"], "all histories of up to eleven operations with all option values, with and without dying compartments", "tests run a finder once or twice with fixed options",
     FIND, [("budget", "flory/mcmp/finder.py:reset_revive, run"), ("temporary options", RUN)],
     "stateful histories against a model; a hang is a violation", "")
prop("C16", "Reproducibility and independence of finders, inputs and results",
     "Equal seeds, parameters and histories give identical results, and global random state is neither used nor changed. A finder owns its data: changing parameter objects or arrays after construction, using other finders in between, or overwriting returned results never changes what it computes, and runs never modify their inputs or earlier results.",
     ["histories", "inputs"], "all schedules of runs and disturbances over two finders", "tests never modify inputs or results after use",
     FIND + ["flory/ensemble/canonical.py", "flory/interaction/flory_huggins_block.py"], [("ownership of compiled parts", "flory/*/*:_compiled_impl"), ("copies in results", RUN)],
     "stateful schedules, differential against isolated runs, bit for bit", "the documented read-only field array is not overwritten by the check")
prop("C17", "A reused finder behaves like a new one",
     "After any history of runs (also runs that diverged), exchanges of interaction, entropy, ensemble or constraints (with or without individual options) and re-initialisations, a re-initialised finder produces bit for bit what a newly constructed finder with the parts and options in effect produces. Options given when a part is exchanged apply to that part only and do not change the defaults.",
     ["histories"], "all histories of up to eight operations followed by any re-initialisation", "tests reuse a finder in one fixed way",
     FIND, [("exchange of parts", "flory/mcmp/finder.py:set_interaction, set_entropy, set_ensemble, set_constraints"), ("re-initialisation", "flory/mcmp/finder.py:reinitialize_*")],
     "stateful histories, differential against a fresh finder", "")
prop("C18", "Relabelling components, features or compartments only relabels the result",
     "Permuting the components, the features, the components inside a feature or the compartments of the problem permutes the result in the same way and changes nothing else, at any number of steps. Repeating every compartment repeats the result with shared volumes (global constraints excepted, whose elastic strength counts the whole system).",
     ["inputs"], "all mixtures, start fields, permutations and numbers of steps", "tests never permute", FIND, [("sums over features and compartments", STEP)],
     "metamorphic relabelling of generated runs", "compared within rounding amplified over at most 400 steps")
prop("C19", "Physically irrelevant parameters do not change the physics",
     "Adding a_i + a_j to the interactions, scaling sizes against interactions, changing the numerical interaction shift, acceptances, step bounds or check intervals leaves the set of equilibrium states unchanged: a converged result for one description is an equilibrium of the other, and the finder recognises it as stationary.",
     ["inputs", "configurations"], "all canonical mixtures and such transformations", "tests use one set of numerical options", FIND + FE[2:4],
     [("incompressibility multiplier", STEP), ("numerical shift", "flory/interaction/flory_huggins.py:_compiled_impl")],
     "metamorphic transformations of generated runs", "")
prop("C20", "Collections of phases keep volume and composition bookkeeping intact",
     "For every collection of phases, counts, total volume and mean composition are those of its entries; normalising only rescales volumes to one; sorting only reorders phases, by most concentrated component and then by the next ones, independent of the order before. No operation changes the original, its kind or its attached information, and inconsistent shapes are rejected.",
     ["inputs", "histories"], "all collections and chains of operations", "tests use two fixed collections", ["flory/common/phases.py"],
     [("operations", "flory/common/phases.py:Phases, PhasesResult")], "stateful chains against a plain model", "")
prop("C21", "Clustering merges equal compartments and nothing else",
     "Clustering merges two compartments exactly if the distance of their compositions does not exceed the cut-off, and groups of such compartments into one phase with the summed volume and the volume-weighted mean composition, keeps clearly different ones apart, conserves total volume and material, and returns the phases sorted. It never changes the original collection.",
     ["inputs"], "all collections with clearly separated groups, and for conservation all collections and cut-offs", "tests have one fixed clustering", ["flory/common/phases.py"],
     [("hierarchical clustering", "flory/common/phases.py:Phases.get_clusters")], "generated groups with known answer", "between the cut-off and three times the cut-off nothing is claimed")
prop("C22", "Dying, reviving and replacing of compartments",
     "Compartments at or below the kill threshold take no further part; while the budget lasts they are revived with unit volume and fields drawn uniformly from the scaled range of all fields, and stay dead otherwise. In the returned result dead compartments are replaced by copies of living ones, chosen at random, which share the volume of their original, so that living compartments are untouched otherwise, all volumes are positive and the composition of the living part is conserved.",
     ["inputs", "histories"], "all fields and thresholds which kill some but not all compartments, with any budget and scaler up to one", "tests call the two revive helpers on fixed arrays",
     FIND, [("revive", "flory/mcmp/_finder_impl.py:revive_compartments_by_random, revive_compartments_by_copy"), ("masks", "flory/mcmp/_finder_impl.py:make_valid_compartment_masks")],
     "constructed dying compartments, judged through the public interface", "")
prop("C23", "Parts which do not fit are rejected and leave everything as it was",
     "Constructing a finder or free energy from parts whose numbers of components or features disagree, exchanging a part for one of another size, giving individual options for another number of constraints, starting from fields of a wrong shape, or assigning values of a wrong shape is rejected with the documented errors. After a rejected call the object continues bit for bit as if the call had never been made.",
     ["inputs", "histories"], "all wrong sizes and shapes at all positions in a history", "tests check single rejections but not the state afterwards, which was corrupted",
     ["flory/mcmp/finder.py", "flory/free_energy/base.py", "flory/common/exceptions.py", "flory/common/phases.py", "flory/ensemble/base.py"] + ["flory/constraint/linear_local.py", "flory/constraint/linear_global.py"],
     [("size checks", "flory/mcmp/finder.py:check_instance, check_field")], "generated mismatches, differential against an undisturbed twin", "")
prop("C24", "Random compositions, matrices and start fields follow the documented laws",
     "Random compositions are uniform on the simplex (non-negative, sum one), random interaction matrices are symmetric with independent normal entries of the given mean and spread and a vanishing diagonal unless requested otherwise, and start fields are independent normal numbers of the given amplitude for every feature and compartment. The same generator state gives the same draw, successive draws are independent, and sizes given with a random or uniform model are kept.",
     ["inputs"], "all numbers of components, means, spreads and seeds", "tests check the sum of one draw",
     ["flory/common/phases.py", "flory/interaction/flory_huggins.py", "flory/free_energy/flory_huggins.py", "flory/mcmp/finder.py"],
     [("stick breaking", "flory/common/phases.py:get_uniform_random_composition"), ("random matrices", "flory/interaction/flory_huggins.py:set_random_chis"), ("random fields", "flory/mcmp/finder.py:reinitialize_random")],
     "generated configurations, exact moments at seven standard errors", "statistical, false-alarm probability below 1e-6 per run")
prop("C25", "Constraints act with exactly the forces of their documented energy",
     "For every linear constraint, state and history of its multipliers, the force on the fractions and on the compartment volumes are the derivatives of the documented constraint energy including the elastic term, zero in dead compartments. The multipliers grow by step times acceptance times residue, the reported residue is the largest violation in living compartments (global: of the volume average), and re-initialisation clears the multipliers.",
     ["inputs", "histories"], "all coefficients, targets, elasticities, acceptances, states with dead compartments and histories of up to six steps", "tests never look at a constraint alone, so global constraints and several rows are untested",
     ["flory/constraint/linear_local.py", "flory/constraint/linear_global.py", "flory/constraint/no.py"], [("forces", "flory/constraint/linear_local.py, linear_global.py: prepare"), ("multipliers", "evolve, initialize")],
     "stateful histories against a plain model and finite differences of the energy", "")
prop("C26", "The compiled parts of the iteration implement the documented model",
     "For every interaction, entropy, ensemble and state, the compiled parts compute Boltzmann factors exp(-l w), partition functions as volume averages, fractions normalised to the prescribed means (canonical) or scaled by the activities (grand canonical) with dead compartments empty, feature sums, the interaction potential and the volume derivatives of interaction and entropy. They agree with the energies reported by the uncompiled classes and keep no state.",
     ["inputs"], "all mixtures, groupings, fields, volumes and dead compartments", "tests cover one ensemble on a single fixed state",
     ["flory/interaction/flory_huggins.py", "flory/entropy/ideal_gas.py", "flory/entropy/ideal_gas_polydispersed.py", "flory/ensemble/canonical.py", "flory/ensemble/grandcanonical.py"],
     [("compiled classes", "classes *Compiled in flory/interaction, flory/entropy, flory/ensemble")], "generated states against documented formulas", "")
prop("C27", "The one-call interface gives what the explicit pipeline gives",
     "For every mixture and set of options, finding coexisting phases with the one-call interface returns exactly the clustered, sorted and normalised phases of an explicitly constructed and run finder with the same options and random numbers, together with the diagnostics of that run. Sizes default to one, all options reach the finder, and the arguments are not modified.",
     ["inputs", "configurations"], "all mixtures, input forms and subsets of options", "tests check few fixed mixtures", ["flory/shortcut.py"] + FIND + ["flory/common/phases.py"],
     [("wrapper", "flory/shortcut.py:find_coexisting_phases")], "differential against the explicit pipeline", "")
prop("C28", "Runs can be split and continued, and stationary states stay",
     "Splitting a run into several, checking convergence more or less often, or replacing parts by equal ones in between gives the same state as one uninterrupted run of the same number of steps, as long as no random revival is involved. Continuing a converged run leaves its phases and volumes unchanged within the tolerance.",
     ["histories"], "all ways to split up to a few thousand steps into up to five runs, with dead compartments too", "tests never continue a run", FIND, [("state kept between runs", RUN)],
     "differential: split against uninterrupted runs", "")
prop("C29", "One step changes volumes and fields by the documented amounts",
     "In every step the fields change by their acceptance times the field error and the compartment volumes by their acceptance times the volume error; if the largest volume change would exceed its bound, both are scaled down together such that it does not. The total volume is kept.",
     ["inputs", "configurations"], "all mixtures, states, acceptances and bounds without dying compartments", "tests use default options and only look at the end result", FIND, [("step control", STEP)],
     "single steps against the documented update rule", "uses only the reported errors and the visible change of state")

prop("C30", "User-defined parts work like the built-in ones",
     "A user-defined interaction, entropy, ensemble or constraint which implements the documented interface can be combined with any other part: written equivalently to built-in parts it leads to the same states, and with a new energy (cubic interactions, copolymers made of several features, an ensemble that exchanges only some components, an external field) converged results are the equilibrium of that energy and all thermodynamic functions follow from it.",
     ["inputs", "configurations"], "all parameters of the user-defined parts, alone and combined with built-in parts", "tests never use a part that the package does not ship",
     FIND + FE[:1] + ["flory/interaction/base.py", "flory/entropy/base.py", "flory/ensemble/base.py", "flory/constraint/base.py"],
     [("use of the parts in the iteration", STEP), ("composition of the free energy", "flory/free_energy/base.py:FreeEnergyBase")],
     "differential against built-in parts, and equilibrium conditions of generated user models", "runs that leave all bounds or do not converge are counted as trivial")

prop("C31", "Re-initialising puts a finder into the documented start state",
     "At any point of any history, re-initialising from fields uses exactly these fields, from compositions the interaction potential of these compositions, and at random newly drawn fields of the given amplitude, in any numeric container and as a copy. Afterwards all compartments are equally large and alive, multipliers of constraints vanish and the revive budget is full, so that the following steps are those of this start state. If no number of compartments is given there are eight per component.",
     ["histories", "inputs"], "all mixtures, ensembles, constraints, histories before the re-initialisation (including deadly runs and rejected calls), containers and number types", "tests re-initialise fresh finders only and look at the final phases",
     FIND, [("start states", "flory/mcmp/finder.py:reinitialize_random, reinitialize_from_omegas, reinitialize_from_phis, reinitialize_constraint")],
     "histories followed by steps of a complete reference model of the iteration", "the reference model is written from the documented equations")
prop("C32", "Suspicious input and unreliable results are announced",
     "A warning is logged exactly when an interaction matrix is not symmetric (and thus symmetrised), when prescribed mean fractions do not fill the volume, or when a run ends with fewer than half of its compartments living; for new and existing objects alike. Ordinary input and results are processed silently.",
     ["inputs", "histories"], "all matrices, fractions and sequences of assignments; all runs with dying compartments and any number of compartments", "tests never look at the log",
     ["flory/interaction/flory_huggins.py", "flory/interaction/flory_huggins_block.py", "flory/ensemble/canonical.py", "flory/mcmp/finder.py"],
     [("warnings", "flory/interaction/flory_huggins.py:chis, flory/ensemble/canonical.py:phi_means"), ("end of a run", RUN)],
     "generated assignments and deadly runs against a rule and a reference model", "only whether something is logged at warning level or above is judged, not the text")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
            }) + "\n")
    py = "/opt/venv/bin/python run.py "
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --selftest",
         "checks": [{"property": p["id"], "quick_cmd": py + p["id"], "thorough_cmd": py + p["id"] + " --thorough",
                     "evidence_file": f"evidence/{p['id']}.json",
                     "technique": "property-based testing (Hypothesis): " + p["technique"], "level": "exploration",
                     "level_note": "Random generated cases with shrinking, no exhaustive bound." + (" " + p["note"][0].upper() + p["note"][1:] + "." if p["note"] else "")} for p in P],
         "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
