"""Write properties.jsonl and MANIFEST.json from one table.

usage: python3 tools/props.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "skillmodels/"
P = {}


def prop(pid, title, statement, over, text, why, files, mech, note, technique):
    P[pid] = {
        "spec": {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [S + f for f in dict.fromkeys(files)],
                "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            },
        },
        "note": note,
        "technique": technique,
    }


prop(
    "C01",
    "Likelihood contributions are those of the square-root unscented Kalman filter",
    "For every valid model specification, admissible parameter vector and panel, the "
    "log likelihood contribution of each individual is the log of the mixture-weighted "
    "density that an unscented Kalman filter assigns to that individual's observed "
    "measurements and anchoring outcomes, with the parameters' meaning given by their "
    "labels. The value of the likelihood is the sum of the contributions. Observed "
    "factors, controls, anchoring, stages and missing measurements enter exactly as "
    "documented.",
    ["inputs", "configurations"],
    "all valid specifications x admissible parameters x panels with missing values",
    "Tests compare a few regression values of one model and filter steps in isolation; "
    "mixtures, observed factors, anchoring and shared measurements are never combined.",
    [
        "likelihood_function.py",
        "kalman_filters.py",
        "likelihood_function.py",
        "parse_params.py",
        "process_data.py",
    ],
    [
        ("scan over Kalman updates and predict steps", "likelihood_function.py"),
        ("square-root update and predict", "kalman_filters.py"),
    ],
    "Differential monitor against an independent covariance-form filter in NumPy; "
    "trusts that reference (itself cross-checked in C02 by joint normal densities).",
    "runtime monitoring: differential oracle on random models, data and parameters",
)
prop(
    "C02",
    "Linear Gaussian models have exactly the joint (mixture) normal likelihood",
    "If all transition equations are linear (or keep a factor constant), the "
    "contribution of an individual equals the log of the exact mixture of joint normal "
    "densities of all measurements observed for this individual in all periods. It "
    "does therefore not depend on the scale of the sigma points nor on the order in "
    "which measurements are listed.",
    ["inputs", "configurations"],
    "all linear models, parameters, panels, sigma point scales, measurement orders",
    "Tests only check single linear predict and update steps with one factor "
    "distribution, never a full likelihood against a closed form.",
    ["likelihood_function.py", "kalman_filters.py"],
    [("linear models make the unscented transform exact", "kalman_filters.py")],
    "Closed-form oracle without any filtering; metamorphic relations.",
    "runtime monitoring: closed-form oracle and metamorphic relations",
)
prop(
    "C03",
    "Returned derivatives are the derivatives of the likelihood value",
    "The gradient functions returned with the likelihood give, aligned with the rows "
    "of the parameter template, the derivative of the likelihood value with respect to "
    "every parameter. They are finite wherever the likelihood is, also with missing "
    "data and shocks that are fixed at zero.",
    ["inputs"],
    "all models, interior parameters and panels with missing values",
    "One test compares the gradient of one model without missing data at one point.",
    ["likelihood_function.py", "kalman_filters.py"],
    [
        ("automatic differentiation through the QR decomposition", "kalman_filters.py"),
        ("double where for missing data", "kalman_filters.py"),
    ],
    "Numerical differentiation oracle of fourth order.",
    "runtime monitoring: finite-difference oracle for every gradient entry",
)
prop(
    "C04",
    "Entry points agree, are deterministic and have no memory",
    "All functions returned for one model and data set (value, contributions, debug "
    "version, value with gradient) report the same likelihood for the same parameters. "
    "Repeated calls in any order, interleaved with other models or parameters, give "
    "identical results, and all results are NumPy objects of double precision.",
    ["histories", "inputs"],
    "all call histories over several parameter vectors, models and entry points",
    "Tests call each function once per process and model.",
    ["likelihood_function.py", "likelihood_function.py",
     "process_debug_data.py"],
    [("closures over jitted functions", "likelihood_function.py")],
    "History monitor: first value recorded per parameter vector is the oracle.",
    "runtime monitoring: trace monitor over random call histories",
)
prop(
    "C05",
    "A measurement update is exact Bayesian conditioning of a normal mixture",
    "Incorporating one measurement changes the mean, covariance (via its square root), "
    "mixture weights and likelihood exactly as conditioning a mixture of normals on a "
    "noisy linear measurement requires, for any admissible state of the filter. "
    "Individuals whose measurement is missing keep their state and weights and "
    "contribute zero.",
    ["inputs"],
    "all states, square-root covariances, loadings, controls, weights, missing patterns",
    "Tests compare with filterpy for a handful of well scaled inputs.",
    ["kalman_filters.py", "kalman_filters.py"],
    [("QR based square-root update", "kalman_filters.py")],
    "Gaussian conditioning oracle; tolerance scaled with the conditioning.",
    "runtime monitoring: oracle on the update step under hostile inputs",
)
prop(
    "C06",
    "The predict step is the unscented transform of the transition equations",
    "Predicted means and covariances are those of the unscented transform of the "
    "period's transition equations in anchored units, plus the variance of the shocks; "
    "they are exact for linear equations. Observed factors enter every sigma point of "
    "every mixture component unchanged and carry no uncertainty.",
    ["inputs", "configurations"],
    "all transition functions, states, covariances, anchoring and observed factors",
    "Tests compare a few linear transitions with filterpy without observed factors, "
    "mixtures or anchoring.",
    ["kalman_filters.py"],
    [("sigma points and transformation", "kalman_filters.py")],
    "Covariance-form unscented transform and exact linear moments as oracles.",
    "runtime monitoring: oracle on the predict step with random transitions",
)
prop(
    "C07",
    "Missing data carry no information",
    "A measurement that nobody reports is as good as no measurement, a row that is "
    "absent is as good as one with missing values, an individual without any data "
    "contributes zero, and data that end early give the likelihood of the model that "
    "ends early. None of this changes the contributions of anybody else.",
    ["inputs"],
    "all models, panels and patterns of missing values and absent rows",
    "Tests have one update with missing values and one data set.",
    ["kalman_filters.py", "process_data.py", "likelihood_function.py"],
    [("missing values skip the update", "kalman_filters.py"),
     ("panel is balanced with missing values", "process_data.py")],
    "Metamorphic pairs of executions; no reference implementation needed.",
    "runtime monitoring: metamorphic relations between paired executions",
)
prop(
    "C08",
    "Individuals are independent and the future does not affect the past",
    "The contribution of an individual depends only on its own data: replacing, "
    "removing, permuting or duplicating other individuals does not change it. The part "
    "of a contribution due to earlier measurements does not depend on later ones.",
    ["inputs", "histories"],
    "all panels, subsets and permutations of individuals and cut points in time",
    "No test changes the data of one individual and watches the others.",
    ["likelihood_function.py", "kalman_filters.py", "process_data.py"],
    [("vectorisation over individuals", "kalman_filters.py"),
     ("reshape of long data to arrays", "process_data.py")],
    "Non-interference monitor on paired executions.",
    "runtime monitoring: non-interference monitor on paired executions",
)
prop(
    "C09",
    "Only the content of the panel matters, not its layout or labels",
    "The likelihood does not depend on row order, column order, names of index levels, "
    "types or gaps of ids and periods, additional variables, additional later periods, "
    "or values of variables in periods in which the model does not use them. "
    "Contributions are ordered by id.",
    ["inputs"],
    "all layouts of all panels",
    "Tests use one sorted data set and one small unbalanced example.",
    ["process_data.py"],
    [("sorting, factorising and balancing of the panel", "process_data.py")],
    "Metamorphic relation to the plain layout of the same data.",
    "runtime monitoring: metamorphic relations between data layouts",
)
prop(
    "C10",
    "Unusable data are reported, usable data are accepted silently",
    "Data that lack a variable the model needs in some period, that contain a "
    "measurement without variance, a control without any value or an observed factor "
    "with missing values are rejected with an error that names all offending "
    "variables. If controls are missing, the affected measurements are ignored and a "
    "warning names exactly the affected ids and periods. All other data are accepted "
    "without warning, and simulations check what they need in the same way.",
    ["inputs", "fault_sequences"],
    "all combinations of defects in all panels",
    "Tests inject single defects into one data set.",
    ["process_data.py", "simulate_data.py"],
    [("data checks", "process_data.py")],
    "Fault injection into valid panels; the monitor knows what was injected.",
    "runtime monitoring: fault injection with monitored errors and warnings",
)
prop(
    "C11",
    "The parameter template has exactly the parameters of the model",
    "The template contains exactly one row for each parameter the specification "
    "implies (controls, loadings, standard deviations, initial distribution, mixture "
    "weights and transition parameters), labelled as documented, and no other row. A "
    "filled template is accepted by the likelihood.",
    ["configurations"],
    "all valid specifications",
    "Tests list labels for two fixed models.",
    ["params_index.py", "likelihood_function.py"],
    [("construction of the index", "params_index.py")],
    "Independent enumeration of labels from the specification.",
    "runtime monitoring: label set oracle over random specifications",
)
prop(
    "C12",
    "Parameters are identified by their labels, never by position",
    "Each parameter value ends up in exactly the place of the model that its label "
    "names, for every order of rows in the parameter frame. Likelihood, derivatives, "
    "filtered states and simulations do not depend on the row order, and a frame that "
    "lacks parameters or contains unknown or duplicated ones is rejected by the "
    "likelihood.",
    ["inputs", "configurations"],
    "all specifications, row orders and damaged frames",
    "Tests use parameters in template order.",
    ["parse_params.py", "likelihood_function.py", "params_index.py"],
    [("parsing of parameter vectors", "parse_params.py")],
    "Unique values are traced from label to model quantity.",
    "runtime monitoring: value tracing from labels to model quantities",
)
prop(
    "C13",
    "Constraints and bounds say what the specification says",
    "The generated constraints fix exactly the normalised parameters (at their values "
    "in the specification), the unestimated parts of anchoring equations and the "
    "shocks of constant factors, equate exactly the parameters of periods in the same "
    "stage, and keep weights on a simplex and mixture components ordered. Standard "
    "deviations and diagonal elements of initial covariances are bounded below, and "
    "bounds and template have the rows of the model's parameters.",
    ["configurations"],
    "all valid specifications",
    "Tests compare constraint lists of a few hand-written inputs.",
    ["constraints.py", "likelihood_function.py"],
    [("constraint generation", "constraints.py")],
    "Constraints are resolved to canonical sets and compared with the specification.",
    "runtime monitoring: canonicalisation oracle over random specifications",
)
prop(
    "C14",
    "Specifications get documented defaults; invalid ones are rejected",
    "Equivalent ways to write a specification (defaults spelled out or left out, "
    "shorter lists, empty optional sections) define the same model, with the "
    "dimensions, labels and updates the documentation implies. Invalid specifications "
    "are rejected with an error instead of being estimated.",
    ["configurations", "fault_sequences"],
    "all valid specifications, their rewritings, and all documented kinds of damage",
    "Tests process two fixed models and check a few invalid entries.",
    ["process_model.py", "check_model.py"],
    [("defaults", "process_model.py"), ("validation", "check_model.py")],
    "Metamorphic rewritings and fault injection into specifications.",
    "runtime monitoring: metamorphic rewritings and fault injection",
)
prop(
    "C15",
    "Transition functions compute the documented production functions",
    "Each built-in production technology returns the documented formula of its inputs "
    "and named parameters for every number and order of inputs, also for extreme "
    "states. A user-defined function that restates a built-in technology yields the "
    "same model.",
    ["inputs", "configurations"],
    "all states, parameters, numbers of inputs; all ways to write custom functions",
    "Tests evaluate one point per function.",
    ["transition_functions.py", "process_model.py", "decorators.py"],
    [("production functions", "transition_functions.py"),
     ("wrapping of custom functions", "process_model.py")],
    "Formula oracle in NumPy and laws of the technologies.",
    "runtime monitoring: formula oracle and algebraic laws",
)
prop(
    "C16",
    "Anchoring rescales factors and nothing else",
    "Anchored states are the affine function of the unanchored states given by the "
    "anchoring parameters of their own factor and period, and transition equations "
    "operate in anchored units. Anchoring is equivalent to the correspondingly "
    "rescaled unanchored model, is irrelevant if the scale is one and the constant "
    "zero, and does not depend on the order in which outcomes are declared; anchoring "
    "outcomes never move the filtered states.",
    ["inputs", "configurations"],
    "all anchored models, parameters and outcome data",
    "Tests parse anchoring parameters of one model with one ordering.",
    ["parse_params.py", "kalman_filters.py", "filtered_states.py", "process_model.py"],
    [("anchoring constants and scaling factors", "parse_params.py"),
     ("anchoring inside of the transition", "kalman_filters.py")],
    "Metamorphic relations to rescaled and unanchored models.",
    "runtime monitoring: metamorphic relations between anchored models",
)
prop(
    "C17",
    "Filtered states and debug data are those of the filter, labelled correctly",
    "The filtered states of each individual and period are the mixture-weighted means "
    "after the last measurement of this period, in anchored and unanchored units, and "
    "the state ranges span them. Residuals, their standard deviations, contributions "
    "and states in the debug output carry the individual, period, measurement and "
    "mixture component they belong to.",
    ["inputs", "configurations"],
    "all models, parameters and panels",
    "Tests only check that the functions run or have the right shapes.",
    ["filtered_states.py", "process_debug_data.py", "process_debug_data.py"],
    [("tidying of debug data", "process_debug_data.py")],
    "Every labelled number is looked up and compared with the reference filter.",
    "runtime monitoring: label lookup against an independent filter",
)
prop(
    "C18",
    "Simulated data satisfy the model equations",
    "Without randomness, simulated latent states follow the initial distribution and "
    "the transition equations, measurements and anchoring outcomes follow the "
    "measurement equations with the right observed factors and controls, and policies "
    "shift exactly the targeted factor of the next period. Latent states, anchored "
    "states and measurements are labelled with the right individual and period.",
    ["inputs", "configurations"],
    "all models, parameters, data for observed factors and controls, policies",
    "Tests simulate one model and compare shapes or one period with rough tolerance.",
    ["simulate_data.py"],
    [("simulation loop", "simulate_data.py")],
    "Structural-equation oracle on every simulated number.",
    "runtime monitoring: structural equation checker on simulated panels",
)
prop(
    "C19",
    "Simulated randomness has the specified distribution",
    "Measurement errors, shocks, initial states (drawn from the mixture) and policy "
    "effects have the specified means, variances and correlations and are mutually "
    "independent across variables, periods and individuals. The seed determines the "
    "simulated data completely and different seeds give different data.",
    ["inputs"],
    "all models, parameters, policies and seeds",
    "Tests do not look at simulated distributions beyond rough averages.",
    ["simulate_data.py"],
    [("random draws", "simulate_data.py")],
    "Statistical monitor with 7 standard errors on recovered residuals.",
    "runtime monitoring: statistical monitor on recovered residuals",
)
prop(
    "C20",
    "Model-editing helpers give valid nested models and keep values",
    "Removing factors, measurements, controls or periods, switching to translog "
    "transitions and extending or reducing parameter frames yields specifications and "
    "parameter frames of exactly the edited model, in which all retained parameters "
    "keep their values. Nested models have the likelihood of the model they nest in "
    "when the additional parameters are zero.",
    ["inputs", "histories"],
    "all models, sequences of edits and parameter frames",
    "Tests edit one example model and inspect a few entries.",
    ["utilities.py"],
    [("editing helpers", "utilities.py")],
    "Independent edit of the specification plus nested likelihood comparison.",
    "runtime monitoring: edit oracle and nested model comparison",
)
prop(
    "C21",
    "Clipping is a smooth, monotone bound on likelihood contributions",
    "Clipped contributions are a smooth monotone function of the unclipped ones that "
    "stays within the chosen bounds up to the documented smoothness, approaches hard "
    "clipping as hardness grows and leaves values untouched if no bound is given. The "
    "options in the specification apply to every reported contribution and to the "
    "value.",
    ["inputs", "configurations"],
    "all arrays, bounds, hardness values and models with outliers",
    "Tests clip one array with one hardness.",
    ["clipping.py", "likelihood_function.py", "process_model.py"],
    [("soft clipping", "clipping.py")],
    "Formula oracle, bounds and monotonicity monitors.",
    "runtime monitoring: formula oracle and order monitors",
)
prop(
    "C22",
    "Correlation tables relate the right variables of the right periods",
    "Correlations of measurements, quasi scores and scores are the pairwise Pearson "
    "correlations, over individuals, of the measurements, of the averages of "
    "standardised measurements and of the averages of (measurement - intercept) / "
    "loading of each requested factor and period, and of the observed factors. Rows "
    "and columns are labelled with the variable and, if there are several periods, "
    "the period, in order of periods and factors.",
    ["inputs", "configurations"],
    "all models, panels, parameters, subsets of factors and periods",
    "Tests use three hand-made frames with complete data.",
    ["correlation_heatmap.py"],
    [("data preparation for correlations", "correlation_heatmap.py")],
    "Independent computation from canonical arrays.",
    "runtime monitoring: independent recomputation of every correlation",
)
prop(
    "C23",
    "Heatmaps display exactly the requested part of the correlations",
    "A correlation heatmap shows, for all requested parts of the table (lower "
    "triangle, diagonal, upper triangle, trimmed or not), the rounded correlation in "
    "the cell labelled with its two variables, and nothing elsewhere; annotations "
    "repeat the displayed values. The colour range is symmetric and covers the "
    "displayed off-diagonal correlations unless given, and user options override "
    "defaults.",
    ["inputs", "configurations"],
    "all correlation tables (also with missing entries) and display options",
    "Tests check masks and keyword arguments of one table.",
    ["correlation_heatmap.py"],
    [("masking, rounding and trimming", "correlation_heatmap.py")],
    "Oracle on the trace, layout and annotations of the returned figure.",
    "runtime monitoring: figure inspection against the input table",
)
prop(
    "C24",
    "Transition plots show the estimated transition equations",
    "The plot for an input and an output factor shows the output of the transition "
    "equation of the chosen period when the input varies over its range and the other "
    "factors are held at the requested quantiles of the states of that period, or are "
    "averaged over drawn states. Combined figures put each plot into the cell of its "
    "input column and output row under the right titles, and periods without a "
    "transition are rejected.",
    ["inputs", "configurations"],
    "all models, parameters, data, periods, ranges, quantiles and orders of factors",
    "Tests only check that plots are created.",
    ["visualize_transition_equations.py", "utils_plotting.py"],
    [("evaluation on a grid", "visualize_transition_equations.py")],
    "Every plotted point is recomputed from filtered states and parameters.",
    "runtime monitoring: recomputation of every plotted point",
)
prop(
    "C25",
    "Distribution plots show the densities of the states they are asked for",
    "Univariate plots show the kernel density of each requested factor's states in the "
    "chosen period for each scenario; bivariate contours and surfaces show the joint "
    "kernel density of each ordered pair of factors with each factor on the axis that "
    "carries its name. Combined figures put densities on the diagonal, contours below "
    "and surfaces above it, with the titles of the respective factors.",
    ["inputs", "configurations"],
    "all models, states or scenarios, subsets and orders of factors",
    "Tests only check that plots are created.",
    ["visualize_factor_distributions.py", "utils_plotting.py"],
    [("kernel densities and figure assembly", "visualize_factor_distributions.py")],
    "Densities are recomputed with SciPy from states known to the monitor.",
    "runtime monitoring: recomputation of every plotted density",
)
prop(
    "C26",
    "Public functions leave their inputs and the global state alone",
    "No public function modifies the specification, parameters, data, states, "
    "policies, plots or options it is given, not even if it fails. Results that were "
    "returned earlier do not change when functions are called again, and functions "
    "without a documented random component neither use nor reseed the global random "
    "number generator.",
    ["histories", "inputs"],
    "all public functions, inputs and call sequences",
    "Tests discard their inputs after the call.",
    [
        "likelihood_function.py",
        "simulate_data.py",
        "utilities.py",
        "filtered_states.py",
        "correlation_heatmap.py",
        "visualize_transition_equations.py",
        "visualize_factor_distributions.py",
        "process_model.py",
    ],
    [("copies of inputs", "utilities.py"), ("copies of data", "process_data.py")],
    "Deep snapshots before and after every call.",
    "runtime monitoring: snapshots of inputs and global state around calls",
)
prop(
    "C27",
    "Renaming, reordering or rescaling parts of a model does not change it",
    "Renaming factors, measurements or controls, permuting mixture components together "
    "with their parameters, reordering controls, observed factors or (in linear "
    "models) factors leaves all likelihood contributions unchanged and permutes "
    "filtered states correspondingly. Changing the unit of a measurement together with "
    "its parameters leaves filtered states unchanged and shifts contributions by the "
    "log of the scale.",
    ["configurations", "inputs"],
    "all models, name choices (also overlapping or odd ones) and permutations",
    "Tests have one fixed set of names and one order.",
    ["process_model.py", "params_index.py", "parse_params.py", "process_data.py"],
    [("label based bookkeeping", "parse_params.py")],
    "Metamorphic relations between renamed and reordered models.",
    "runtime monitoring: metamorphic relations between renamed models",
)

prop(
    "C28",
    "Location and scale of latent factors are arbitrary",
    "Latent factors have no natural units: if the parameters of loadings, intercepts, "
    "initial distribution, shocks and technologies are converted to other units of the "
    "factors (a scale and a location per factor and period), the likelihood "
    "contributions stay the same, the filtered states follow the change of units and "
    "states in anchored units stay the same. This holds for all technologies that are "
    "closed under the change of units and for all technologies of anchored factors.",
    ["configurations", "inputs"],
    "all models with linear, constant, translog and CES technologies or anchored "
    "factors x changes of units",
    "Tests never compare two parametrisations of one model.",
    ["likelihood_function.py", "kalman_filters.py", "transition_functions.py",
     "parse_params.py", "filtered_states.py"],
    [("states, shocks and loadings in common units", "kalman_filters.py"),
     ("technologies in anchored units", "kalman_filters.py")],
    "Metamorphic relation; exact for the unscented filter because sigma points are "
    "equivariant under changes of units of single factors.",
    "runtime monitoring: metamorphic relation between parametrisations",
)
prop(
    "C29",
    "The simulator and the estimator describe the same model",
    "Data simulated for a model and parameters follow the distribution that the "
    "likelihood of this model assumes at these parameters: for models in which the "
    "filter is exact (linear technologies without anchoring), the expected score of the "
    "contributions is zero at the parameters that generated the data and the expected "
    "likelihood is highest there, also if values are missing at random. The filtered "
    "states are the best predictions of the simulated latent states: their errors have "
    "mean zero and are uncorrelated with the filtered states and the data used so far.",
    ["configurations", "inputs"],
    "all linear models with mixtures, controls, observed factors and missing data",
    "Tests of simulation and estimation are separate and use a few fixed numbers; "
    "nothing relates them.",
    ["simulate_data.py", "likelihood_function.py", "filtered_states.py",
     "kalman_filters.py", "parse_params.py"],
    [("structural equations in the simulator", "simulate_data.py"),
     ("the same equations in the filter", "likelihood_function.py")],
    "Statistical oracle with 8 standard errors on large simulated samples.",
    "runtime monitoring: score and calibration tests on simulated panels",
)


def main():
    avail = [
        p for p in P
        if os.path.exists(os.path.join(ROOT, "vf", "checks", p.lower() + ".py"))
    ]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in avail:
            f.write(json.dumps(P[p]["spec"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p,
                "quick_cmd": f"bash run.sh {p} --tier quick",
                "thorough_cmd": f"bash run.sh {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": P[p]["technique"],
                "level": "exploration",
                "level_note": P[p]["note"],
            }
            for p in avail
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors observe the public and semi-public "
        "functions in-process. Known findings are in known_findings.jsonl.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
