"""C17: filtered states and debug data are those of the filter, correctly labelled."""
import numpy as np

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random models (mixtures, anchoring, shared measurements, periods with few updates, "
    "missings, ids with gaps). Every labelled value in the filtered states, state "
    "ranges, residuals, their sds, contributions and post-update states is looked up by "
    "its label and compared with an independent filter. Non-trivial: more than one "
    "period and individual."
)
ASSUMPTIONS = ["ids in the outputs enumerate the sorted ids of the data"]
REQUIRED = [
    "filtered states",
    "anchored filtered states",
    "state ranges",
    "residuals",
    "residual sds",
    "contributions per update",
    "post update states",
]


def cases(tier, rng):
    n = 70 if tier == "quick" else 800
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = [
            {},
            {"n_mixtures": 3, "anchoring": True},
            {"n_latent": 3, "shared": True, "anchoring": False},
            {"trailing_empty": True, "n_periods": (3, 4), "anchoring": True},
        ][i % 4]
        out.append({"seed": s, "opts": opts})
    return out


def by_label(frame, keys, cols, shape_index):
    """values of frame for all labels in shape_index, unique labels required"""
    f = frame.set_index(keys)
    if not f.index.is_unique:
        return None
    return f.loc[shape_index][cols].to_numpy()


def run_case(case, mon):
    from skillmodels import get_filtered_states

    rng, model, values, panel = sm.draw(case)
    mon.context(model=model.describe())
    n, K = panel.n_obs, model.n_mixtures
    ids = list(5 + 3 * np.arange(n))
    df = gen.to_frame(panel, rng, ids=ids, shuffle_rows=True)
    params = gen.params_frame(values, rng=rng)
    exp = ref.run_filter(model, values, panel)
    upd = exp["updates"]
    kw = {"rtol": 1e-7, "atol": 1e-7}

    res = get_filtered_states(model.model_dict, df, params)
    fs = ref.filtered_states(model, exp)
    scale, const = ref.anchoring_arrays(model, values)
    for typ, what in [
        ("unanchored_states", "filtered states"),
        ("anchored_states", "anchored filtered states"),
    ]:
        frame = res[typ]["states"]
        mon.check(what, len(frame) == n * len(fs), "number of rows", rows=len(frame))
        for t, arr in fs.items():
            e = arr if typ == "unanchored_states" else arr * scale[t] + const[t]
            got = by_label(
                frame, ["period", "id"], model.latent, [(t, i) for i in range(n)]
            )
            mon.check(what, got is not None, "duplicated labels")
            mon.close(what, got, e, f"period {t}", **kw)
            for j, f in enumerate(model.latent):
                rg = res[typ]["state_ranges"][f].loc[t]
                mon.close("state ranges", rg["minimum"], e[:, j].min(), f, **kw)
                mon.close("state ranges", rg["maximum"], e[:, j].max(), f, **kw)

    dbg = sm.inputs(model, df)["debug_loglike"](params)
    mon.close("debug contributions", dbg["contributions"], exp["contributions"], "", **kw)
    mon.close("debug value", dbg["value"], exp["value"], "", 1e-7, 1e-6)
    lab = [(t, m) for t, m, *_ in upd]
    full = [(t, m, i, k) for t, m in lab for i in range(n) for k in range(K)]
    keys = ["period", "measurement", "id", "mixture"]
    for name, col, what in [
        ("residuals", "resid", "residuals"),
        ("residual_sds", "resid_sd", "residual sds"),
    ]:
        got = by_label(dbg[name], keys, ["residual"], full)
        mon.check(what, got is not None, "duplicated labels")
        got = got.reshape(len(upd), n, K)
        ok = np.isfinite(exp[col])
        mon.close(what, got[ok], exp[col][ok], "", **kw)
    got = by_label(dbg["post_update_states"], keys, model.latent, full)
    mon.check("post update states", got is not None, "duplicated labels")
    e = exp["states"].reshape(-1, len(model.latent))
    mon.close("post update states", got, e, "", **kw)
    full = [(t, m, i) for t, m in lab for i in range(n)]
    got = by_label(dbg["all_contributions"], keys[:3], ["contribution"], full)
    mon.check("contributions per update", got is not None, "duplicated labels")
    e = exp["loglikes"].reshape(-1, 1)
    mon.close("contributions per update", got, e, "", **kw)
    sm.finish(mon, model, values, panel, len(fs) > 1)
