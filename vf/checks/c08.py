"""C08: individuals are independent and the future does not affect the past."""
import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random models; the data of some individuals, or of everybody after some update, "
    "are replaced, individuals are removed, permuted or duplicated. Monitors compare "
    "the contributions (per individual, and per update from debug_loglike) that must be "
    "unaffected. Non-trivial: the replaced data changed some other contribution."
)
ASSUMPTIONS = ["missing controls only remove the measurements of the same individual"]
REQUIRED = [
    "others unaffected",
    "subset has same contributions",
    "duplicates have equal contributions",
    "past unaffected by future",
]


def cases(tier, rng):
    n = 64 if tier == "quick" else 700
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        out.append({"seed": s, "kind": ["individuals", "future"][i % 2]})
    return out


def run_case(case, mon):
    kind = case["kind"]
    mon.feature(kind)
    gaps = kind == "individuals" and case["seed"] % 2 == 0
    rng, model, values, panel = sm.draw(
        case, panel_control_missing=gaps, **({"n_controls": (1, 2)} if gaps else {})
    )
    mon.context(model=model.describe())
    kw = {"rtol": 1e-9, "atol": 1e-9}
    other = panel.copy()
    cols = gen.data_columns(model)
    if kind == "individuals":
        base = sm.contributions(model, gen.to_frame(panel, rng), values)
        j = int(rng.integers(panel.n_obs))
        modes = ["measurements", "all", "extreme", "missing_control"]
        mode = modes[int(rng.integers(4))]
        if gaps and rng.random() < 0.6:
            mode = "missing_control"
        mon.feature(mode)
        t_gap = [int(rng.integers(model.n_periods)), slice(None)][int(rng.integers(2))]
        for col, arr in other.values.items():
            if mode in ("measurements", "extreme") and col not in cols:
                continue
            fac = 1e6 if mode == "extreme" else 1
            new = rng.normal(0, 2, arr.shape[1]) * fac
            if mode == "missing_control":
                if col in model.controls and col not in model.observed:
                    old = arr[j].copy()
                    arr[j, t_gap] = np.nan
                    if np.isnan(arr).all(axis=0).any():
                        arr[j] = old
            else:
                arr[j] = np.where(np.isnan(arr[j]), np.nan, new)
        gen.ensure_variance(rng, model, other)
        got = sm.contributions(model, gen.to_frame(other, rng), values)
        rest = [k for k in range(panel.n_obs) if k != j]
        mon.close("others unaffected", got[rest], base[rest], "data of one changed", **kw)
        changed = abs(got[j] - base[j]) > 1e-6
        # subset, permutation and duplicates of individuals
        idx = rng.permutation(panel.n_obs)[: max(3, int(rng.integers(panel.n_obs)))]
        idx = np.concatenate([idx, idx[:2]])
        sub = panel.take(idx)
        ok = True
        for t, _, _, _, col in model.updates():
            v = sub.values[col][:, t]
            if len(np.unique(v[np.isfinite(v)])) == 1:
                ok = False
        for c in model.controls:
            ok = ok and not np.isnan(sub.values[c]).all(axis=0).any()
        ok = ok and sub.present.any(axis=0).all()
        if ok:
            got = sm.contributions(model, gen.to_frame(sub, rng), values)
            mon.close("subset has same contributions", got, base[idx], "", **kw)
            mon.close(
                "duplicates have equal contributions", got[-2:], got[:2], "", 0, 1e-12
            )
    else:
        df = gen.to_frame(panel, rng)
        base = sm.inputs(model, df)["debug_loglike"](gen.params_frame(values))
        upd = model.updates()
        r = int(rng.integers(1, len(upd)))
        period = upd[r][0]
        for col in cols:
            arr = other.values[col]
            for t in range(period + 1, model.n_periods):
                arr[:, t] = rng.normal(0, 2, panel.n_obs)
                arr[rng.random(panel.n_obs) < 0.2, t] = np.nan
        for t, _, _, _, col in upd[r:]:
            # the same variable could be used by an earlier update of this period
            if t == period and col in [u[4] for u in upd[:r] if u[0] == period]:
                continue
            other.values[col][:, t] = rng.normal(0, 2, panel.n_obs)
        for f in model.observed:
            # observed factors matter for the transition to the next period
            start = period + 1 if f in model.controls else period
            other.values[f][:, start:] = rng.normal(
                0, 1, (panel.n_obs, model.n_periods - start)
            )
        for c in model.controls:
            if c in model.observed:
                continue
            later = slice(period + 1, None)
            arr = other.values[c]
            arr[:, later] = rng.normal(0, 1, arr[:, later].shape)
        other.present[:] = panel.present
        for v in other.values.values():
            v[~other.present] = np.nan
        gen.ensure_variance(rng, model, other)
        got = sm.inputs(model, gen.to_frame(other, rng))["debug_loglike"](
            gen.params_frame(values)
        )
        a, b = base["all_contributions"], got["all_contributions"]
        n = panel.n_obs
        a = a["contribution"].to_numpy().reshape(len(upd), n)
        b = b["contribution"].to_numpy().reshape(len(upd), n)
        mon.close("past unaffected by future", b[:r], a[:r], f"update {r}", **kw)
        xa = base["post_update_states"][model.latent].to_numpy()
        xb = got["post_update_states"][model.latent].to_numpy()
        stop = r * n * model.n_mixtures
        mon.close(
            "past states unaffected by future", xb[:stop], xa[:stop], f"{r}", **kw
        )
        changed = not np.allclose(a[r:], b[r:])
    sm.finish(mon, model, values, panel, changed, kind=kind)
