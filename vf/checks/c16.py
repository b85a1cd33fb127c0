"""C16: anchoring rescales factors and nothing else."""
import copy

import numpy as np

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random anchored models. Monitors: states in anchored units are the affine function "
    "of the unanchored ones given by the anchoring parameters of their period; a linear "
    "anchored model has the same filtered states as the unanchored model with rescaled "
    "transition parameters; anchoring outcomes never move states; the order in which "
    "outcomes are declared does not matter; unit anchoring is no anchoring. "
    "Non-trivial: some scaling factor differs from one."
)
ASSUMPTIONS = ["anchoring loadings are not zero"]
REQUIRED = [
    "anchored states are affine",
    "other columns unchanged",
    "rescaled model has equal states",
    "outcome data do not move states",
    "order of outcomes irrelevant",
    "unit anchoring is no anchoring",
]
KINDS = ["affine", "rescaled", "outcome", "order", "unit"]


def cases(tier, rng):
    n = 70 if tier == "quick" else 900
    return [
        {"seed": s, "kind": KINDS[i % 5]} for i, s in enumerate(gen.seeds(rng, n))
    ]


def states(model, md, df, values):
    out = sm.inputs(md, df)["debug_loglike"](gen.params_frame(values))
    p = out["post_update_states"]
    p = p.set_index(["period", "measurement", "id", "mixture"])[model.latent]
    return p, out


def strip(model):
    """model without anchoring"""
    other = copy.copy(model)
    other.model_dict = copy.deepcopy(model.model_dict)
    other.model_dict.pop("anchoring", None)
    other.anchoring = {**model.anchoring, "outcomes": {}}
    return other


def run_case(case, mon):
    kind = case["kind"]
    mon.feature(kind)
    opts = {"anchoring": True}
    if kind in ("rescaled",):
        opts["kinds"] = ["linear"]
    if kind == "order":
        opts["n_latent"] = (2, 3)
    rng, model, values, panel = sm.draw(case, **opts)
    if kind == "order":
        for _ in range(20):
            if len(model.anchoring["outcomes"]) > 1:
                break
            model = gen.make_model(rng, **opts)
            values = gen.make_params(rng, model)
            panel = gen.make_panel(rng, model)
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng)
    kw = {"rtol": 1e-8, "atol": 1e-8}
    outcomes = model.anchoring["outcomes"]
    if kind == "affine":
        from skillmodels.filtered_states import anchor_states_df

        scale, const = ref.anchoring_arrays(model, values)
        for _ in range(3):
            n = 20
            frame = gen.pd.DataFrame(
                rng.normal(0, 3, (n, len(model.latent))), columns=model.latent
            )
            frame["period"] = rng.integers(0, model.n_periods, n)
            frame["id"] = np.arange(n)
            frame["note"] = "a"
            frame = frame[[frame.columns[i] for i in rng.permutation(frame.shape[1])]]
            frame.index = rng.permutation(n) + 5
            got = anchor_states_df(
                frame, model.model_dict, gen.params_frame(values, rng=rng)
            )
            t = frame["period"].to_numpy()
            for i, f in enumerate(model.latent):
                exp = frame[f].to_numpy() * scale[t, i] + const[t, i]
                mon.close("anchored states are affine", got[f], exp, f, 1e-10, 1e-10)
            rest = [c for c in frame.columns if c not in model.latent]
            same = got[rest].equals(frame[rest]) and list(got) == list(frame)
            mon.check("other columns unchanged", same, "")
    elif kind == "rescaled":
        a, _ = states(model, model.model_dict, df, values)
        plain = strip(model)
        scale, const = ref.anchoring_arrays(model, values)
        new = {
            k: v for k, v in values.items() if k in set(gen.ref_index(plain))
        }
        lat = model.latent
        for f_pos, f in enumerate(lat):
            for t in range(model.n_periods - 1):
                s1, c1 = scale[t + 1, f_pos], const[t + 1, f_pos]
                cst = values[("transition", t, f, "constant")] - c1
                for g in model.all_factors:
                    b = values[("transition", t, f, g)]
                    if g in lat:
                        j = lat.index(g)
                        cst += b * const[t, j]
                        b = b * scale[t, j]
                    new[("transition", t, f, g)] = b / s1
                new[("transition", t, f, "constant")] = cst / s1
        b, _ = states(plain, plain.model_dict, df, new)
        common = a.index.intersection(b.index)
        mon.check("measurement updates exist in both", len(common) == len(b), "")
        mon.close(
            "rescaled model has equal states",
            a.loc[common].to_numpy(),
            b.loc[common].to_numpy(),
            "",
            **kw,
        )
    elif kind == "outcome":
        a, _ = states(model, model.model_dict, df, values)
        other = panel.copy()
        meas = {u[4] for u in model.updates() if u[2] == "measurement"}
        for col in set(outcomes.values()) - meas:
            arr = other.values[col]
            other.values[col] = np.where(
                rng.random(arr.shape) < 0.3, np.nan, rng.normal(0, 3, arr.shape)
            )
        gen.ensure_variance(rng, model, other)
        b, _ = states(model, model.model_dict, gen.to_frame(other, rng), values)
        mon.close(
            "outcome data do not move states", b.to_numpy(), a.to_numpy(), "", **kw
        )
    elif kind == "order":
        a, outa = states(model, model.model_dict, df, values)
        md = copy.deepcopy(model.model_dict)
        items = list(md["anchoring"]["outcomes"].items())
        md["anchoring"]["outcomes"] = dict(items[::-1])
        b, outb = states(model, md, df, values)
        mon.close(
            "order of outcomes irrelevant",
            outb["contributions"],
            outa["contributions"],
            "contributions",
            **kw,
        )
        b = b.loc[a.index]
        mon.close(
            "order of outcomes irrelevant", b.to_numpy(), a.to_numpy(), "states", **kw
        )
    else:
        unit = dict(values)
        for t, m, k, fs, _ in model.updates():
            if k == "anchoring":
                unit[("loadings", t, m, fs[0])] = 1.0
                if not model.anchoring["ignore_constant_when_anchoring"]:
                    unit[("controls", t, m, "constant")] = 0.0
        a, outa = states(model, model.model_dict, df, unit)
        plain = strip(model)
        keep = set(gen.ref_index(plain))
        b, outb = states(
            plain, plain.model_dict, df, {k: v for k, v in unit.items() if k in keep}
        )
        mon.close(
            "unit anchoring is no anchoring",
            a.loc[b.index].to_numpy(),
            b.to_numpy(),
            "states",
            **kw,
        )
        if model.n_mixtures == 1:
            ca = outa["all_contributions"].set_index(["period", "measurement", "id"])
            cb = outb["all_contributions"].set_index(["period", "measurement", "id"])
            ca = ca.loc[cb.index]
            mon.close("unit anchoring keeps contributions", ca, cb, "", **kw)
    nontrivial = len(outcomes) > 0
    sm.finish(mon, model, values, panel, nontrivial, kind=kind)
