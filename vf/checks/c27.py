"""C27: renaming, reordering or rescaling parts of a model does not change it."""
import copy

import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Pairs of executions of the same random model before and after one transformation: "
    "other factor names, other names of measurements, controls and outcomes, permuted "
    "mixture components, permuted controls or observed factors, permuted latent factors "
    "(linear models), rescaled measurements. Contributions and filtered states of both "
    "have to agree. Non-trivial: the transformation is not the identity."
)
ASSUMPTIONS = [
    "parameters are transformed along with the model",
    "latent factors are only permuted in models in which the filter is exact",
]
REQUIRED = [
    "factor names are irrelevant",
    "variable names are irrelevant",
    "mixture components are exchangeable",
    "order of controls is irrelevant",
    "order of observed factors is irrelevant",
    "order of factors is irrelevant",
    "units of measurements are irrelevant",
    "filtered states agree",
]
KINDS = [
    "factors", "variables", "mixtures", "controls", "observed", "latent", "units"
]
PORTABLE = tuple(gen.BUILTIN) + ("custom_states",)


def cases(tier, rng):
    n = 63 if tier == "quick" else 1400
    return [
        {"seed": s, "kind": KINDS[i % len(KINDS)]}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


def run(model, values, panel, rng=None):
    from skillmodels import get_filtered_states

    df = gen.to_frame(panel)
    params = gen.params_frame(values, rng=rng)
    cont = sm.contributions(model, df, values)
    res = get_filtered_states(model.model_dict, df, params)
    out = []
    for typ in ("unanchored_states", "anchored_states"):
        frame = res[typ]["states"].sort_values(["period", "id"])
        out.append(frame[model.latent].to_numpy())
    return cont, out[0], out[1]


def compare(mon, what, a, b, perm=None, tol=1e-7, shift=0.0):
    kw = {"rtol": tol, "atol": tol}
    mon.close(what, b[0], a[0] + shift, "contributions", **kw)
    for i, txt in [(1, "unanchored"), (2, "anchored")]:
        exp = a[i] if perm is None else a[i][:, perm]
        mon.close("filtered states agree", b[i], exp, f"{what}, {txt}", **kw)


def lookup(values, key):
    if key in values:
        return values[key]
    cat, t, n1, n2 = key
    # names can contain the separator
    parts = n2.split(" * ")
    for i in range(1, len(parts)):
        left, right = " * ".join(parts[:i]), " * ".join(parts[i:])
        swapped = (cat, t, n1, f"{right} * {left}")
        if swapped in values:
            return values[swapped]
    raise KeyError(key)


def shuffled(rng, items):
    return [items[i] for i in rng.permutation(len(items))]


def renamed(model, values, panel, names):
    """other names for measurements, controls and outcomes"""
    new = copy.copy(model)
    md = {k: v for k, v in model.model_dict.items()}
    md["factors"] = {}
    for f, info in model.model_dict["factors"].items():
        info = dict(info)
        info["measurements"] = [[names[m] for m in ms] for ms in info["measurements"]]
        if "normalizations" in info:
            info["normalizations"] = {
                typ: [{names[m]: v for m, v in d.items()} for d in lst]
                for typ, lst in info["normalizations"].items()
            }
        md["factors"][f] = info
    if "controls" in md:
        md["controls"] = [names[c] for c in md["controls"]]
    if "anchoring" in md:
        md["anchoring"] = dict(md["anchoring"])
        md["anchoring"]["outcomes"] = {
            f: names[o] for f, o in md["anchoring"]["outcomes"].items()
        }
    new.model_dict = md
    new.meas = {f: [[names[m] for m in ms] for ms in v] for f, v in model.meas.items()}
    new.controls = [names[c] for c in model.controls]
    new.anchoring = dict(model.anchoring)
    new.anchoring["outcomes"] = {
        f: names[o] for f, o in model.anchoring["outcomes"].items()
    }
    labels = {}
    for t, m, kind, fs, col in model.updates():
        labels[(t, m)] = names[m] if kind == "measurement" else f"{names[col]}_{fs[0]}"
    vals = {}
    for (cat, t, n1, n2), v in values.items():
        if cat in ("controls", "loadings", "meas_sds"):
            n1 = labels[(t, n1)]
        if cat == "controls" and n2 != "constant":
            n2 = names[n2]
        vals[(cat, t, n1, n2)] = v
    p2 = panel.copy()
    p2.values = {names.get(k, k): v for k, v in panel.values.items()}
    p2.values.update({f: panel.values[f] for f in model.observed})
    return new, vals, p2


def run_case(case, mon):
    kind = case["kind"]
    rng = gen.case_rng(case)
    opts = {"kinds": PORTABLE}
    if kind == "mixtures":
        opts["n_mixtures"] = (2, 3)
    if kind == "controls":
        opts["n_controls"] = 2
    if kind == "observed":
        opts["n_observed"] = 2
    if kind == "latent":
        opts.update(n_latent=(2, 3), kinds=("linear", "constant"))
    style = list(gen.NAME_STYLES)[int(rng.integers(len(gen.NAME_STYLES)))]
    seed2 = int(rng.integers(2**31))

    def build(names):
        r = np.random.default_rng(seed2)
        model = gen.make_model(r, names=names, **opts)
        values = gen.make_params(r, model)
        panel = gen.make_panel(r, model)
        return model, values, panel

    model, values, panel = build(style)
    mon.context(model=model.describe(), kind=kind)
    base = run(model, values, panel)
    nontrivial = True

    if kind == "factors":
        other = [s for s in gen.NAME_STYLES if s != style]
        m2, v2, p2 = build(other[int(rng.integers(len(other)))])
        compare(mon, "factor names are irrelevant", base, run(m2, v2, p2, rng), tol=1e-9)
    elif kind == "variables":
        pool = shuffled(
            rng,
            ["b", "a", "it s", "1", "2nd", "period_1", "q'", "é", "log(y)", "a b",
             "constant_1", "loadings", "z_1", "z_10", "z_2", "id_", "measurement",
             "variable", "purpose", "x", "y", "Y", "value", "%", "C", "D", "E", "F0",
             "G", "H", "category", "name1", "nan_", "0", "-", "--", "mixture_0"],
        )
        old = list(gen.data_columns(model)) + model.controls
        old = list(dict.fromkeys(old))
        pool = [p for p in pool if p not in model.all_factors]
        pool += [f"n{i}" for i in range(len(old))]
        names = dict(zip(old, pool))
        m2, v2, p2 = renamed(model, values, panel, names)
        mon.context(names=names)
        got = run(m2, v2, p2, rng)
        compare(mon, "variable names are irrelevant", base, got, tol=1e-9)
    elif kind == "mixtures":
        perm = rng.permutation(model.n_mixtures)
        nontrivial = (perm != np.arange(len(perm))).any()
        new = {f"mixture_{i}": f"mixture_{j}" for i, j in enumerate(perm)}
        v2 = {}
        for (cat, t, n1, n2), v in values.items():
            if cat in ("initial_states", "mixture_weights", "initial_cholcovs"):
                n1 = new[n1]
            v2[(cat, t, n1, n2)] = v
        got = run(model, v2, panel, rng)
        compare(mon, "mixture components are exchangeable", base, got)
    elif kind == "controls":
        m2 = copy.copy(model)
        m2.controls = shuffled(rng, model.controls)
        m2.model_dict = {**model.model_dict, "controls": list(m2.controls)}
        nontrivial = m2.controls != model.controls
        compare(
            mon, "order of controls is irrelevant", base, run(m2, values, panel, rng)
        )
    elif kind == "observed":
        m2 = copy.copy(model)
        m2.observed = model.observed[::-1]
        md = {**model.model_dict, "observed_factors": list(m2.observed)}
        if "custom_states" in model.kinds.values():
            # this function weights the states by their position
            md["factors"] = {f: dict(v) for f, v in md["factors"].items()}
            m2.kinds = dict(model.kinds)
            fresh = dict(values)
            for f in model.latent:
                if model.kinds[f] == "custom_states":
                    md["factors"][f]["transition_function"] = "linear"
                    m2.kinds[f] = "linear"
            one = copy.copy(m2)
            one.observed = model.observed
            one.model_dict = {**md, "observed_factors": list(model.observed)}
            for key in gen.ref_index(one):
                fresh.setdefault(key, float(rng.normal(0.3, 0.2)))
            values = {k: fresh[k] for k in gen.ref_index(one)}
            base = run(one, values, panel)
        m2.model_dict = md
        v2 = {k: lookup(values, k) for k in gen.ref_index(m2)}
        compare(mon, "order of observed factors is irrelevant", base,
                run(m2, v2, panel, rng))
    elif kind == "latent":
        m2 = copy.copy(model)
        perm = rng.permutation(len(model.latent))
        nontrivial = (perm != np.arange(len(perm))).any()
        m2.latent = [model.latent[i] for i in perm]
        m2.model_dict = {
            **model.model_dict,
            "factors": {f: model.model_dict["factors"][f] for f in m2.latent},
        }
        v2 = {}
        d = len(perm)
        for k in range(model.n_mixtures):
            low = np.zeros((d, d))
            for i, a in enumerate(model.latent):
                for j, b in enumerate(model.latent[: i + 1]):
                    low[i, j] = values[
                        ("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}")
                    ]
            cov = (low @ low.T)[np.ix_(perm, perm)]
            low = np.linalg.cholesky(cov)
            for i, a in enumerate(m2.latent):
                for j, b in enumerate(m2.latent[: i + 1]):
                    key = ("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}")
                    v2[key] = float(low[i, j])
        for key in gen.ref_index(m2):
            if key not in v2:
                v2[key] = values[key]
        got = run(m2, v2, panel, rng)
        compare(mon, "order of factors is irrelevant", base, got, perm=perm)
    else:
        p2, v2 = panel.copy(), dict(values)
        upd = model.updates()
        shift = np.zeros(panel.n_obs)
        scales = {}
        for col in gen.data_columns(model):
            scales[col] = (
                float(rng.choice([1e-5, 0.01, 0.5, -1, 3, 100, 1e5])),
                float(rng.normal(0, 2)) * float(rng.choice([0, 1, 100])),
            )
        anchored = {u[1] for u in upd if u[2] == "anchoring"}
        for col in {u[4] for u in upd if u[1] in anchored}:
            # the loadings of anchoring outcomes define the units of the factors
            scales[col] = (1.0, 0.0)
        for col, (a, b) in scales.items():
            p2.values[col] = panel.values[col] * a + b
        for t, m, _, fs, col in upd:
            a, b = scales[col]
            for g in fs:
                v2[("loadings", t, m, g)] = values[("loadings", t, m, g)] * a
            for c in ["constant", *model.controls]:
                v2[("controls", t, m, c)] = values[("controls", t, m, c)] * a
            v2[("controls", t, m, "constant")] += b
            v2[("meas_sds", t, m, "-")] = values[("meas_sds", t, m, "-")] * abs(a)
            y = panel.values[col][:, t]
            shift -= np.where(np.isfinite(y), np.log(abs(a)), 0.0)
        got = run(model, v2, p2, rng)
        compare(
            mon, "units of measurements are irrelevant", base, got, shift=shift, tol=1e-6
        )
    mon.feature(f"transformation {kind}")
    sm.finish(mon, model, values, panel, nontrivial)
