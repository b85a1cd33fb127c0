"""C20: helpers that change models give valid, nested models and keep values."""
import copy
import warnings

import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random models and parameter frames are reduced and extended with the public "
    "helpers (random subsets, names as str or list). The monitors compare the resulting "
    "specification and labels with an independent edit of the specification, look up "
    "every retained value, and evaluate likelihoods of nested pairs. Non-trivial: the "
    "helper changed the model."
)
ASSUMPTIONS = ["helpers are given names that exist in the model"]
REQUIRED = [
    "labels of reduced model",
    "values are retained",
    "reduced specification",
    "nested models agree",
    "update_parameter_values",
    "removed normalization is reported",
]
KINDS = [
    "factors",
    "extract",
    "measurements",
    "controls",
    "to_linear",
    "to_translog",
    "periods",
    "update",
]


def cases(tier, rng):
    n = 160 if tier == "quick" else 1600
    return [
        {"seed": s, "kind": KINDS[i % len(KINDS)], "i": i // len(KINDS)}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


def as_spec(model):
    """plain description of model which is edited independently of the helpers"""
    return {
        "meas": {
            f: copy.deepcopy(model.model_dict["factors"][f]["measurements"])
            for f in model.latent
        },
        "norms": {f: copy.deepcopy(n) for f, n in model.norms.items()},
        "kinds": dict(model.kinds),
        "controls": list(model.controls),
        "outcomes": dict(model.anchoring["outcomes"]),
        "T": model.n_periods,
        "stagemap": list(model.stagemap),
    }


def to_model(model, spec):
    """Model with the edited specification, only for computing labels"""
    other = copy.copy(model)
    other.latent = list(spec["meas"])
    other.n_periods = spec["T"]
    other.meas = {
        f: m + [[]] * (spec["T"] - len(m)) for f, m in spec["meas"].items()
    }
    other.kinds = spec["kinds"]
    other.controls = spec["controls"]
    other.anchoring = {**model.anchoring, "outcomes": spec["outcomes"]}
    return other


def compare(mon, model, spec, md, par, values, new=None):
    """the reduced dict and params have to be those of spec"""
    from skillmodels.process_model import process_model

    other = to_model(model, spec)
    facs = md["factors"]
    what = "reduced specification"
    mon.equal(what, list(facs), other.latent, "factors")
    for f in other.latent:
        m = facs[f]["measurements"]
        mon.equal(what, m + [[]] * (spec["T"] - len(m)), other.meas[f], f"measures {f}")
        tf = facs[f]["transition_function"]
        if isinstance(tf, str):
            mon.equal(what, tf, spec["kinds"][f], f"function of {f}")
        else:
            before = model.model_dict["factors"][f]["transition_function"]
            mon.check(what, tf is before, f"function of {f} changed")
        norm = facs[f].get("normalizations", {})
        for typ in ("loadings", "intercepts"):
            got = [dict(d) for d in norm.get(typ, [])]
            got += [{}] * (spec["T"] - len(got))
            exp = spec["norms"][f][typ]
            exp = exp + [{}] * (spec["T"] - len(exp))
            mon.equal(what, got, exp, f"{typ} of {f}")
    mon.equal(what, list(md.get("controls", [])), spec["controls"], "controls")
    got = md.get("anchoring", {}).get("outcomes", {})
    mon.equal(what, dict(got), spec["outcomes"], "outcomes")
    if spec["outcomes"]:
        for k in ("free_controls", "free_constant", "free_loadings"):
            mon.equal(what, md["anchoring"].get(k, False), model.anchoring[k], k)
    mon.equal(
        what, list(md.get("observed_factors", [])), model.observed, "observed factors"
    )
    mon.equal(
        what,
        md.get("estimation_options", {}),
        model.model_dict.get("estimation_options", {}),
        "options",
    )
    if "stagemap" in model.model_dict:
        mon.equal(what, list(md["stagemap"]), spec["stagemap"], "stagemap")
    process_model(md)
    if par is None:
        return other
    exp = set(gen.ref_index(other))
    got = list(par.index)
    mon.check("labels of reduced model", len(got) == len(set(got)), "duplicates")
    mon.check(
        "labels of reduced model",
        set(got) == exp,
        "",
        missing=sorted(map(str, exp - set(got)))[:5],
        additional=sorted(map(str, set(got) - exp))[:5],
    )
    e = [values[k] if k in values else new for k in got]
    mon.close("values are retained", par["value"].astype(float), e, "", 0, 0)
    return other


def run_case(case, mon):
    from skillmodels import utilities as ut

    kind = case["kind"]
    mon.feature(kind)
    kinds = {
        "to_linear": ["translog", "linear", "log_ces", "translog", "robust_translog"],
        "to_translog": ["linear", "translog", "constant", "linear"],
        "factors": ["linear", "translog", "log_ces", "constant", "custom_states"],
        "extract": ["linear"],
    }.get(kind)
    opts = {"kinds": kinds} if kinds else {}
    heavy = case["i"] % 2 == 0
    if kind in ("factors", "extract"):
        opts.update(n_latent=(2, 3), trailing_empty=False)
    if kind == "extract":
        opts.update(shared=False, n_mixtures=1, n_observed=0)
    if kind == "measurements":
        opts.update(meas_per=(2, 3))
    if kind == "controls":
        opts.update(n_controls=(1, 2, 3))
    if kind == "periods":
        opts.update(n_periods=(3, 4, 5))
    rng, model, values, panel = sm.draw(case, **opts)
    mon.context(model=model.describe(), kind=kind)
    spec = as_spec(model)
    frame = gen.params_frame(values, rng=rng)
    frame["lower_bound"] = -5.0
    frame["upper_bound"] = 7.0
    md = model.model_dict
    with_params = rng.random() < 0.8 or heavy
    args = {"params": frame} if with_params else {}
    changed = True

    def split(res):
        return res if with_params else (res, None)

    def pick(pool, k=None):
        k = int(rng.integers(1, len(pool) + 1)) if k is None else k
        out = [pool[i] for i in rng.permutation(len(pool))[:k]]
        words = [n for n in pool if isinstance(n, str)]
        inner = [n for n in words if any(o != n and o in n for o in words)]
        if k == 1 and inner and rng.random() < 0.7:
            # a name that contains another name
            out = [inner[int(rng.integers(len(inner)))]]
        if len(out) == 1 and isinstance(out[0], str) and rng.random() < 0.5:
            return out[0], out
        return out, out

    if kind in ("factors", "extract"):
        arg, gone = pick(model.latent, int(rng.integers(1, len(model.latent))))
        if kind == "extract" and heavy:
            # make the removed factors irrelevant for the others
            keep = [f for f in model.latent if f not in gone]
            for k in values:
                if k[0] == "transition" and (
                    (k[2] in gone and k[3] in keep) or (k[2] in keep and k[3] in gone)
                ):
                    values[k] = 0.0
                if k[0] == "initial_cholcovs":
                    i, j = None, None
                    for a in model.latent:
                        for b in model.latent:
                            if k[3] == f"{a}-{b}":
                                i, j = a, b
                    if (i in gone) != (j in gone):
                        values[k] = 0.0
            frame = gen.params_frame(values, rng=rng)
            args = {"params": frame}
        if kind == "factors":
            out, par = split(ut.remove_factors(arg, md, **args))
        else:
            keep = [f for f in model.latent if f not in gone]
            karg = keep[0] if len(keep) == 1 and rng.random() < 0.5 else keep
            out, par = split(ut.extract_factors(karg, md, **args))
        for f in gone:
            for key in ("meas", "norms", "kinds", "outcomes"):
                spec[key].pop(f, None)
        T = max(len(m) for m in spec["meas"].values())
        spec["T"] = T
        spec["stagemap"] = spec["stagemap"][: T - 1]
        if T > 1:
            other = compare(mon, model, spec, out, par, values)
        if kind == "extract" and heavy and T == model.n_periods:
            gap = any(
                not any(other.meas[f][t] for f in other.latent) for t in range(T)
            )
            rest = gone if len(gone) > 1 else gone[0]
            out2, par2 = ut.extract_factors(rest, md, params=frame)
            T2 = max(len(m) for m in (out2["factors"][f]["measurements"] for f in gone))
            gap2 = any(not any(model.meas[f][t] for f in gone) for t in range(T))
            if not gap and not gap2 and T2 == T:
                df = gen.to_frame(panel)
                full = sm.contributions(model, df, values)
                a = sm.inputs(out, df)["loglike"](par)["contributions"]
                b = sm.inputs(out2, df)["loglike"](par2)["contributions"]
                mon.close("nested models agree", a + b, full, "factors", 1e-8, 1e-8)
    elif kind == "measurements":
        names = {m for f in model.latent for ms in model.meas[f] for m in ms}
        names = sorted(names, key=str)
        arg, gone = pick(names, int(rng.choice([1, 1, 2])))
        normed = any(
            m in d for n in spec["norms"].values() for ds in n.values() for d in ds
            for m in gone
        )
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out, par = split(ut.remove_measurements(arg, md, **args))
        if normed:
            mon.check("removed normalization is reported", len(rec) > 0, "no warning")
        for f in model.latent:
            spec["meas"][f] = [[m for m in ms if m not in gone] for ms in spec["meas"][f]]
            for typ in ("loadings", "intercepts"):
                spec["norms"][f][typ] = [
                    {k: v for k, v in d.items() if k not in gone}
                    for d in spec["norms"][f][typ]
                ]
        other = compare(mon, model, spec, out, par, values)
        gap = any(not any(other.meas[f][t] for f in other.latent) for t in range(spec["T"]))
        anch = bool(spec["outcomes"])
        if heavy and not gap and not set(gone) & set(spec["outcomes"].values()):
            df = gen.to_frame(panel)
            miss = df.copy()
            miss[gone] = np.nan
            full = sm.contributions(model, miss, values)
            red = sm.inputs(out, df.drop(columns=gone))["loglike"](par)
            red = red["contributions"]
            mon.close("nested models agree", red, full, f"measures {anch}", 1e-8, 1e-8)
    elif kind == "controls":
        arg, gone = pick(model.controls)
        out, par = split(ut.remove_controls(arg, md, **args))
        spec["controls"] = [c for c in spec["controls"] if c not in gone]
        compare(mon, model, spec, out, par, values)
        if heavy:
            zero = {
                k: 0.0 if k[0] == "controls" and k[3] in gone else v
                for k, v in values.items()
            }
            df = gen.to_frame(panel)
            ok = not any(np.isnan(panel.values[c]).any() for c in model.controls)
            if ok or panel.present.all():
                full = sm.contributions(model, df, zero)
                drop = [c for c in gone if c not in model.observed]
                red = sm.inputs(out, df.drop(columns=drop))["loglike"](par)
                red = red["contributions"]
                mon.close("nested models agree", red, full, "controls", 1e-8, 1e-8)
    elif kind in ("to_linear", "to_translog"):
        func = (
            ut.switch_translog_to_linear
            if kind == "to_linear"
            else ut.switch_linear_to_translog
        )
        old, new = ("translog", "linear")[:: 1 if kind == "to_linear" else -1]
        out, par = split(func(md, **args))
        changed = old in spec["kinds"].values()
        spec["kinds"] = {f: new if k == old else k for f, k in spec["kinds"].items()}
        compare(mon, model, spec, out, par, values, new=0.05)
        if par is not None and "lower_bound" in par:
            is_new = np.array([k not in values for k in par.index])
            lb, ub = par["lower_bound"].to_numpy(), par["upper_bound"].to_numpy()
            ok = (lb[~is_new] == -5).all() and (lb[is_new] == -np.inf).all()
            ok = ok and (ub[~is_new] == 7).all() and (ub[is_new] == np.inf).all()
            mon.check("bounds are retained", ok, "bounds of extended params")
        if heavy and changed:
            df = gen.to_frame(panel)
            if kind == "to_linear":
                base = {
                    k: 0.0
                    if k[0] == "transition"
                    and model.kinds[k[2]] == "translog"
                    and k not in set(par.index)
                    else v
                    for k, v in values.items()
                }
                a = sm.contributions(model, df, base)
                b = sm.inputs(out, df)["loglike"](par)["contributions"]
            else:
                a = sm.contributions(model, df, values)
                ext = par.copy()
                ext.loc[[k not in values for k in par.index], "value"] = 0.0
                b = sm.inputs(out, df)["loglike"](ext)["contributions"]
            mon.close("nested models agree", b, a, kind, 1e-8, 1e-8)
    elif kind == "periods":
        new = int(rng.integers(2, model.n_periods + 2))
        out, par = split(ut.reduce_n_periods(md, new, **args))
        changed = new < model.n_periods
        spec["T"] = min(new, model.n_periods)
        T = spec["T"]
        spec["meas"] = {f: m[:T] for f, m in spec["meas"].items()}
        for n in spec["norms"].values():
            for typ in n:
                n[typ] = n[typ][:T]
        spec["stagemap"] = spec["stagemap"][: T - 1]
        longest = max(len(m) for m in spec["meas"].values())
        spec["T"] = longest
        compare(mon, model, spec, out, par, values)
        if heavy and changed:
            late = panel.copy()
            for col in gen.data_columns(model):
                late.values[col][:, T:] = np.nan
            gen.ensure_variance(rng, model, late)
            full = sm.contributions(model, gen.to_frame(late), values)
            df = gen.to_frame(late)
            df = df[df.index.get_level_values("period") < T]
            red = sm.inputs(out, df)["loglike"](par)["contributions"]
            # individuals that are only in later periods contribute nothing
            early = late.present[:, :T].any(axis=1)
            mon.close("nested models agree", red, full[early], "periods", 1e-8, 1e-8)
            mon.close("nested models agree", full[~early], 0.0 * full[~early], "periods")
    else:
        others, exp = [], dict(values)
        keys = list(values)
        for _ in range(int(rng.integers(1, 4))):
            sel = [keys[i] for i in rng.permutation(len(keys))[: len(keys) // 2 + 1]]
            new = {k: float(rng.normal()) for k in sel}
            exp.update(new)
            extra = {("controls", 99, "zz", "constant"): 3.0, **new}
            others.append(gen.params_frame(extra, rng=rng))
        arg = others[0] if len(others) == 1 and rng.random() < 0.5 else others
        before = frame.copy()
        got = ut.update_parameter_values(frame, arg)
        what = "update_parameter_values"
        mon.check(what, list(got.index) == list(frame.index), "rows changed")
        mon.close(what, got["value"], [exp[k] for k in frame.index], "", 0, 0)
        rest = ["lower_bound", "upper_bound"]
        mon.check(what, got[rest].equals(before[rest]), "other columns changed")
        mon.check(what, frame.equals(before), "input changed")
    sm.finish(mon, model, values, panel, changed, kind=kind)
