"""C07: missing data carry no information."""
import copy

import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random models and panels; metamorphic pairs of runs: a measurement that nobody "
    "reports vs. the model without it; absent rows vs. rows of NaNs; an individual "
    "without data vs. the panel without it; data that end early vs. the model that ends "
    "early. Contributions of both runs are compared. Non-trivial: the two runs differ in "
    "what they were given."
)
ASSUMPTIONS = ["every period of each compared model keeps at least one measurement"]
REQUIRED = [
    "unreported measurement is neutral",
    "absent rows are missing values",
    "individual without data contributes zero",
    "early end of data is early end of model",
]
KINDS = ["unreported", "absent", "empty_individual", "early_end"]


def cases(tier, rng):
    n = 110 if tier == "quick" else 800
    return [
        {"seed": s, "kind": KINDS[i % len(KINDS)]}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


def drop_update(model_dict, period, name):
    md = copy.deepcopy(model_dict)
    for fac in md["factors"].values():
        lists = fac["measurements"]
        if period < len(lists) and name in lists[period]:
            lists[period].remove(name)
        for norms in fac.get("normalizations", {}).values():
            if period < len(norms):
                norms[period].pop(name, None)
    return md


def truncate(model_dict, n_periods):
    md = copy.deepcopy(model_dict)
    for fac in md["factors"].values():
        fac["measurements"] = fac["measurements"][:n_periods]
        if "normalizations" in fac:
            fac["normalizations"] = {
                k: v[:n_periods] for k, v in fac["normalizations"].items()
            }
    if "stagemap" in md:
        md["stagemap"] = md["stagemap"][: n_periods - 1]
    return md


def run_case(case, mon):
    kind = case["kind"]
    mon.feature(kind)
    kw = {"rtol": 1e-8, "atol": 1e-8}
    if kind == "unreported":
        rng, model, values, panel = sm.draw(
            case, meas_per=(2, 3), trailing_empty=False
        )
        mon.context(model=model.describe())
        upd = [u for u in model.updates() if u[2] == "measurement"]
        t, name, *_ = upd[int(rng.integers(len(upd)))]
        panel.values[name][:, t] = np.nan
        df = gen.to_frame(panel, rng)
        with_nan = sm.contributions(model, df, values)
        md = drop_update(model.model_dict, t, name)
        fewer = {
            k: v
            for k, v in values.items()
            if not (
                k[0] in ("controls", "loadings", "meas_sds") and k[1:3] == (t, name)
            )
        }
        left = {u[4] for u in model.updates() if u[:2] != (t, name)}
        without = df if name in left else df.drop(columns=[name])
        exp = sm.contributions(md, without, fewer)
        mon.close("unreported measurement is neutral", with_nan, exp, **kw)
    elif kind == "absent":
        rng, model, values, panel = sm.draw(
            case, n_observed=0, panel_missing=0.15, panel_absent_rows=False
        )
        mon.context(model=model.describe())
        panel.present = rng.random(panel.present.shape) > 0.25
        for t in range(panel.n_periods):  # every period occurs in the data
            panel.present[int(rng.integers(panel.n_obs)), t] = True
        panel.present[:, 0] |= ~panel.present.any(axis=1)
        for v in panel.values.values():
            v[~panel.present] = np.nan
        gen.ensure_variance(rng, model, panel)
        absent = gen.to_frame(panel, rng, shuffle_rows=True)
        full = gen.to_frame(panel, rng, keep_absent=True)
        got = sm.contributions(model, absent, values)
        exp = sm.contributions(model, full, values)
        mon.close("absent rows are missing values", got, exp, **kw)
        mon.feature(f"absent={(~panel.present).sum() > 0}")
    elif kind == "empty_individual":
        rng, model, values, panel = sm.draw(case, panel_absent_rows=False)
        mon.context(model=model.describe())
        i = int(rng.integers(panel.n_obs))
        for col in gen.data_columns(model):
            panel.values[col][i] = np.nan
        gen.ensure_variance(rng, model, panel)
        got = sm.contributions(model, gen.to_frame(panel, rng), values)
        mon.check(
            "individual without data contributes zero",
            got[i] == 0,
            "contribution of an individual without measurements",
            contribution=got[i],
        )
        rest = [k for k in range(panel.n_obs) if k != i]
        exp = sm.contributions(model, gen.to_frame(panel.take(rest), rng), values)
        mon.close("others unaffected by individual without data", got[rest], exp, **kw)
    else:
        rng, model, values, panel = sm.draw(
            case, n_periods=(3, 4), trailing_empty=False, panel_absent_rows=False
        )
        mon.context(model=model.describe())
        stop = int(rng.integers(2, model.n_periods))
        who = rng.random(panel.n_obs) < 0.6
        who[0] = True
        for col in gen.data_columns(model):
            panel.values[col][who, stop:] = np.nan
        gen.ensure_variance(rng, model, panel)
        df = gen.to_frame(panel, rng)
        got = sm.contributions(model, df, values)
        md = truncate(model.model_dict, stop)
        last = stop - 1
        fewer = {
            k: v
            for k, v in values.items()
            if k[1] <= last
            and not (k[0] in ("transition", "shock_sds") and k[1] >= last)
        }
        early = df[df.index.get_level_values("period") < stop]
        exp = sm.contributions(md, early, fewer)
        mon.close(
            "early end of data is early end of model", got[who], exp[who], **kw
        )
    sm.finish(mon, model, values, panel, kind=kind)
