"""C28: location and scale of latent factors are arbitrary."""
import numpy as np

from vf import gen
from vf import sm
from vf.checks.c27 import run

RULE = (
    "Random models whose technologies are closed under changes of units (linear, "
    "constant, translog, log_ces, log_ces_general; anchored factors with any "
    "technology). The latent factors are expressed in other units (a scale and a "
    "location per factor and period) by transforming the parameters only. Likelihood "
    "contributions have to stay the same, filtered states have to follow the change of "
    "units, states in anchored units have to stay the same. Non-trivial: units change."
)
ASSUMPTIONS = [
    "sigma points are equivariant under changes of units of single factors, so the "
    "relation is exact for nonlinear technologies as well",
]
REQUIRED = [
    "contributions do not depend on units",
    "filtered states follow the units",
    "anchored states do not depend on units",
]
KINDS = ["linear", "translog", "ces_shift", "ces_general", "anchored"]


def cases(tier, rng):
    n = 45 if tier == "quick" else 1000
    return [{"seed": s, "kind": KINDS[i % 5]} for i, s in enumerate(gen.seeds(rng, n))]


def units(rng, model, kind, extreme=False):
    """scale and location per period and latent factor"""
    T, n = model.n_periods, len(model.latent)
    scale, loc = np.ones((T, n)), np.zeros((T, n))
    if kind == "ces_shift":
        loc += rng.normal()
    elif kind == "linear":
        scale = rng.uniform(0.3, 3, (T, n)) * rng.choice([1, 1, -1], (T, n))
        loc = rng.normal(0, 1, (T, n))
    elif kind == "translog":
        scale = rng.uniform(0.4, 2.5, (T, n)) * rng.choice([1, 1, -1], (T, n))
    elif kind == "ces_general":
        scale = rng.uniform(0.4, 2.5, (T, n)) * rng.choice([1, 1, -1], (T, n))
    else:
        scale = rng.uniform(0.4, 2.5, (T, n)) * rng.choice([1, 1, -1], (T, n))
    if extreme and kind != "ces_shift":
        # e.g. grams and tons, nanometres and kilometres
        width = rng.choice([4, 8])
        scale *= 10 ** rng.uniform(-width, width, n)
        loc *= 10 ** rng.uniform(0, 3, n) * scale
    if kind == "anchored":
        for j, f in enumerate(model.latent):
            if f in model.anchoring["outcomes"]:
                if not model.anchoring["ignore_constant_when_anchoring"]:
                    loc[:, j] = rng.normal(0, 1, T) * np.abs(scale[:, j])
            elif model.kinds[f] not in ("linear", "translog"):
                scale[:, j] = 1.0
    for j, f in enumerate(model.latent):
        if model.kinds[f] == "constant" and f not in model.anchoring["outcomes"]:
            # the units of constant factors cannot change over time
            scale[:], loc[:] = _fix(scale, j), _fix(loc, j)
    return scale, loc


def _fix(arr, j):
    out = arr.copy()
    out[:, j] = arr[0, j]
    return out


def in_units(model, values, scale, loc):
    """parameters of the same model if states are expressed as scale * x + loc"""
    new = dict(values)
    lat, outcomes = model.latent, model.anchoring["outcomes"]
    pos = {f: j for j, f in enumerate(lat)}
    for t, m, _kind, fs, _col in model.updates():
        for f in fs:
            j = pos[f]
            h = values[("loadings", t, m, f)]
            new[("loadings", t, m, f)] = h / scale[t, j]
            new[("controls", t, m, "constant")] -= h * loc[t, j] / scale[t, j]
    for k in range(model.n_mixtures):
        mk = f"mixture_{k}"
        for i, f in enumerate(lat):
            key = ("initial_states", 0, mk, f)
            new[key] = values[key] * scale[0, i] + loc[0, i]
            for g in lat[: i + 1]:
                key = ("initial_cholcovs", 0, mk, f"{f}-{g}")
                # the columns keep positive diagonal elements
                new[key] = values[key] * scale[0, i] * np.sign(scale[0, pos[g]])
    for t in range(model.n_periods - 1):
        for f in lat:
            j = pos[f]
            key = ("shock_sds", t, f, "-")
            new[key] = values[key] * abs(scale[t + 1, j])
            own = f not in outcomes
            d1 = scale[t + 1, j] if own else 1.0
            c1 = loc[t + 1, j] if own else 0.0
            # the inputs are in anchored units if they are anchored
            d0 = {g: scale[t, pos[g]] if g in pos and g not in outcomes else 1.0
                  for g in model.all_factors}
            c0 = {g: loc[t, pos[g]] if g in pos and g not in outcomes else 0.0
                  for g in model.all_factors}

            def key(name, t=t, f=f):
                return ("transition", t, f, name)

            kind = model.kinds[f]
            if kind in ("linear", "translog"):
                const = values[key("constant")]
                for g in model.all_factors:
                    a = values[key(g)]
                    new[key(g)] = a * d1 / d0[g]
                    const -= a * c0[g] / d0[g]
                new[key("constant")] = d1 * const + c1
            if kind == "translog":
                for (_, _, _, name), v in [
                    (k, v) for k, v in values.items() if k[:3] == ("transition", t, f)
                ]:
                    for g in model.all_factors:
                        if name == f"{g} ** 2":
                            new[key(name)] = v * d1 / d0[g] ** 2
                        for h in model.all_factors:
                            if name == f"{g} * {h}":
                                new[key(name)] = v * d1 / d0[g] / d0[h]
            if kind == "log_ces_general":
                for g in model.all_factors:
                    new[key(f"sigma_{g}")] = values[key(f"sigma_{g}")] / d0[g]
                new[key("tfp")] = values[key("tfp")] * d1
    return new


def run_case(case, mon):
    kind = case["kind"]
    mon.feature(kind)
    opts = {"anchoring": False}
    if kind == "linear":
        opts["kinds"] = ("linear", "constant")
    elif kind == "translog":
        opts["kinds"] = ("linear", "translog", "constant")
    elif kind == "ces_shift":
        opts["kinds"] = ("log_ces", "constant")
        # observed factors are shifted, control variables are not
        opts["roles"] = 0
    elif kind == "ces_general":
        opts["kinds"] = ("log_ces_general", "constant")
    else:
        opts["anchoring"] = True
        # other technologies take the units of all inputs as given
        opts["kinds"] = ("linear", "translog") if case["seed"] % 2 else gen.BUILTIN
        opts["names"] = ("plain", "unsorted", "words")
    rng, model, values, panel = sm.draw(case, **opts)
    if kind == "anchored":
        loose = [f for f in model.latent if f not in model.anchoring["outcomes"]]
        if loose and any(k not in ("linear", "translog") for k in model.kinds.values()):
            # anchor everybody, so that all technologies work in anchored units
            names = {f: f"Q_{i}" for i, f in enumerate(model.latent)}
            model.anchoring["outcomes"] = names
            model.model_dict["anchoring"]["outcomes"] = dict(names)
            values = gen.make_params(rng, model)
            panel = gen.make_panel(rng, model)
    mon.context(model=model.describe(), kind=kind)
    extreme = bool(rng.integers(2))
    mon.feature("extreme units" if extreme else "moderate units")
    scale, loc = units(rng, model, kind, extreme)
    if kind == "ces_shift" and model.observed:
        p2 = panel.copy()
        for f in model.observed:
            p2.values[f] = p2.values[f] + loc[0, 0]
    else:
        p2 = panel
    base = run(model, values, panel)
    new = in_units(model, values, scale, loc)
    other = run(model, new, p2, rng)
    tol = {"rtol": 1e-7, "atol": 1e-7}
    mon.close("contributions do not depend on units", other[0], base[0], "", **tol)
    n_per = [len(a) // panel.n_obs for a in base[1:]]
    per = np.repeat(np.arange(n_per[0]), panel.n_obs)
    mon.close(
        "filtered states follow the units",
        (other[1] - loc[per]) / scale[per],
        base[1],
        "",
        **tol,
    )
    for j, f in enumerate(model.latent):
        if f in model.anchoring["outcomes"]:
            mon.close("anchored states do not depend on units", other[2][:, j],
                      base[2][:, j], f, **tol)
    sm.finish(mon, model, values, panel, nontrivial=(scale != 1).any() or loc.any(),
              kind=kind)
