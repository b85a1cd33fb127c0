"""C13: constraints and bounds say what the specification says."""
import numpy as np
import pandas as pd

from vf import gen
from vf import sm

RULE = (
    "Random specifications; the constraints are resolved against the params template "
    "the way estimagic does and canonicalised into sets of fixed labels with values, "
    "equal pairs, probability sets and increasing sequences; bounds are read per label. "
    "Both are compared with what the specification implies. Non-trivial: at least one "
    "constraint besides the mixture weights."
)
ASSUMPTIONS = [
    "locs are resolved with DataFrame.loc; a loc that selects nothing has no effect",
    "names of factors do not make diagonal labels ambiguous",
]
REQUIRED = ["fixed parameters", "equal parameters", "probabilities", "increasing",
            "lower bounds", "add_bounds keeps rows"]


def cases(tier, rng):
    n = 640 if tier == "quick" else 2500
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = {}
        if i % 3 == 1:
            opts = {"anchoring": True, "n_controls": [0, 1, 2]}
        elif i % 3 == 2:
            opts = {"stagemap": True, "n_periods": [3, 4, 5], "kinds": [
                "log_ces", "constant", "linear", "log_ces_general"]}
        out.append({"seed": s, "opts": opts})
    return out


def resolve(template, loc):
    try:
        if isinstance(loc, list):
            sel = template.loc[loc]
        elif isinstance(loc, tuple) and len(loc) == 4:
            sel = template.loc[[loc]]
        else:
            keep = np.ones(len(template), dtype=bool)
            parts = loc if isinstance(loc, tuple) else (loc,)
            for lev, p in enumerate(parts):
                keep &= template.index.get_level_values(lev) == p
            return list(template.index[keep])
    except KeyError:
        return []
    return list(sel.index)


def canonical(constraints, template, mon):
    fixed, equal, prob, incr = set(), set(), set(), set()
    for c in constraints:
        typ = c["type"]
        if typ == "fixed":
            labels = resolve(template, c["loc"])
            value = c["value"]
            if np.ndim(value) == 0:
                value = [value] * len(labels)
            mon.check("constraint is well formed", len(value) == len(labels), "", c=c)
            fixed |= {(lab, float(v)) for lab, v in zip(labels, value)}
        elif typ == "pairwise_equality":
            groups = [resolve(template, loc) for loc in c["locs"]]
            sizes = {len(g) for g in groups}
            mon.check("constraint is well formed", len(sizes) == 1, "lengths", c=c)
            for labs in zip(*groups):
                for a in labs:
                    for b in labs:
                        if a < b:
                            equal.add((a, b))
        elif typ == "equality":
            labs = resolve(template, c["loc"])
            equal |= {(a, b) for a in labs for b in labs if a < b}
        elif typ == "probability":
            prob.add(frozenset(resolve(template, c["loc"])))
        elif typ == "increasing":
            incr.add(tuple(resolve(template, c["loc"])))
        elif typ == "decreasing":
            incr.add(tuple(resolve(template, c["loc"])[::-1]))
        else:
            mon.fail(f"unknown type of constraint {typ}")
    return fixed, equal, prob, incr


def expected(model):
    fixed, equal, prob, incr = set(), set(), set(), set()
    T = range(model.n_periods - 1)
    for f, norm in model.norms.items():
        for t, d in enumerate(norm["loadings"]):
            fixed |= {(("loadings", t, m, f), float(v)) for m, v in d.items()}
        for t, d in enumerate(norm["intercepts"]):
            fixed |= {(("controls", t, m, "constant"), float(v)) for m, v in d.items()}
    mix = [f"mixture_{k}" for k in range(model.n_mixtures)]
    weights = [("mixture_weights", 0, k, "-") for k in mix]
    if model.n_mixtures == 1:
        fixed.add((weights[0], 1.0))
    else:
        prob.add(frozenset(weights))
        incr.add(tuple(("initial_states", 0, k, model.latent[0]) for k in mix))
    for f in model.latent:
        for t in T:
            if model.kinds[f] == "constant":
                fixed.add((("shock_sds", t, f, "-"), 0.0))
            if model.kinds[f] == "log_ces":
                labs = [("transition", t, f, g) for g in model.all_factors]
                prob.add(frozenset(labs))
            for s in T:
                if t < s and model.stagemap[t] == model.stagemap[s]:
                    a, b = ("shock_sds", t, f, "-"), ("shock_sds", s, f, "-")
                    equal.add((a, b))
                    for n in gen.param_names(model.kinds[f], model.all_factors):
                        equal.add((("transition", t, f, n), ("transition", s, f, n)))
    a = model.anchoring
    for f, outcome in a["outcomes"].items():
        name = f"{outcome}_{f}"
        for t in range(model.n_periods):
            if not a["free_constant"]:
                fixed.add((("controls", t, name, "constant"), 0.0))
            if not a["free_controls"]:
                for c in model.controls:
                    fixed.add((("controls", t, name, c), 0.0))
            if not a["free_loadings"]:
                fixed.add((("loadings", t, name, f), 1.0))
    return fixed, equal, prob, incr


def diff(mon, what, got, exp):
    mon.observed(what, len(exp) + 1)
    if got != exp:
        mon.fail(
            what,
            additional=sorted(map(str, got - exp))[:6],
            missing=sorted(map(str, exp - got))[:6],
        )


def run_case(case, mon):
    from skillmodels.constraints import add_bounds

    rng, model, values, panel = sm.draw(case)
    mon.context(model=model.describe())
    inp = sm.inputs(model, gen.to_frame(panel, rng))
    tmp = inp["params_template"]
    got = canonical(inp["constraints"], tmp, mon)
    exp = expected(model)
    for what, g, e in zip(
        ("fixed parameters", "equal parameters", "probabilities", "increasing"),
        got,
        exp,
    ):
        diff(mon, what, g, e)
    o = model.options
    dist = o.get("bounds_distance", 1e-3) if o.get("robust_bounds", True) else 0.0
    diag = {
        ("initial_cholcovs", 0, f"mixture_{k}", f"{f}-{f}")
        for k in range(model.n_mixtures)
        for f in model.latent
    }

    def bound(lab, default=-np.inf):
        if lab[0] in ("meas_sds", "shock_sds") or lab in diag:
            return dist
        return default

    exp_bound = [bound(lab) for lab in tmp.index]
    mon.close("lower bounds", tmp["lower_bound"].astype(float), exp_bound, "", 0, 0)
    if "upper_bound" in tmp:
        ub = tmp["upper_bound"].astype(float)
        mon.check("upper bounds", (ub == np.inf).all(), "finite upper bound")
    # add_bounds on frames of users
    dist = float(rng.uniform(0, 0.1))
    frame = gen.params_frame(values, rng=rng)
    frame["lower_bound"] = np.round(rng.normal(size=len(frame)), 3)
    keep = rng.random(len(frame)) < 0.8
    frame = frame[keep]
    if len(frame):
        out = add_bounds(frame.copy(), bounds_distance=dist)
        mon.check("add_bounds keeps rows", list(out.index) == list(frame.index), "")
        e = [bound(lab, v) for lab, v in zip(frame.index, frame["lower_bound"])]
        mon.close("add_bounds on frames of users", out["lower_bound"], e, "", 0, 0)
        default = add_bounds(frame.copy())["lower_bound"]
        e = add_bounds(frame.copy(), bounds_distance=0)["lower_bound"]
        mon.close("add_bounds on frames of users", default, e, "default", 0, 0)
        same = pd.Series(out["value"]).equals(frame["value"])
        mon.check("add_bounds keeps values", same, "")
    sm.finish(
        mon, model, values, panel, len(exp[0]) + len(exp[1]) + len(exp[2]) > 1,
        n_constraints=len(inp["constraints"]),
    )
