"""C18: simulated data satisfy the structural equations exactly without noise."""
import warnings

import numpy as np

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random models with all standard deviations and initial covariances zero (or only "
    "the initial distribution random): every simulated latent state and measurement has "
    "to satisfy the documented equations, including policies, anchoring, observed "
    "factors and controls of the right individual and period. Non-trivial: at least one "
    "transition."
)
ASSUMPTIONS = ["data are complete", "policies happen before the last period"]
REQUIRED = [
    "initial states",
    "transition equation",
    "measurement equation",
    "anchored states",
    "state ranges",
    "policies move the next period",
    "labels of simulated data",
]


def cases(tier, rng):
    n = 120 if tier == "quick" else 1200
    return [{"seed": s} for s in gen.seeds(rng, n)]


def tidy(frame, n, T, cols):
    f = frame.set_index(["period", "id"])
    assert f.index.is_unique
    idx = [(t, i) for t in range(T) for i in range(n)]
    return f.loc[idx, cols].to_numpy(dtype=float).reshape(T, n, len(cols))


def run_case(case, mon):
    from skillmodels import simulate_dataset

    size = int(gen.case_rng(case, 1).choice([1, 2, 7, 7, 7, 7, 60, 300]))
    rng, model, values, panel = sm.draw(
        case, panel_missing=0, panel_absent_rows=False, panel_n_obs=size
    )
    mon.context(model=model.describe())
    n, T, lat = panel.n_obs, model.n_periods, model.latent
    random_start = bool(rng.integers(2))
    for k in values:
        if k[0] in ("meas_sds", "shock_sds"):
            values[k] = 0.0
        if k[0] == "initial_cholcovs" and not random_start:
            values[k] = 0.0
    df = gen.to_frame(panel, rng, ids=list(40 + 2 * np.arange(n)), shuffle_rows=True)
    with_data = bool(model.controls or model.observed) or rng.random() < 0.5
    kwargs = {"data": df} if with_data else {"n_obs": n}
    params = gen.params_frame(values, rng=rng)
    policies = []
    for _ in range(int(rng.integers(0, 4))):
        policies.append(
            {
                "period": int(rng.integers(T - 1)),
                "factor": lat[int(rng.integers(len(lat)))],
                "effect_size": float(rng.normal(0, 1)),
                "standard_deviation": 0,
            }
        )

    def sim(pol):
        np.random.seed(case["seed"] % 10000)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return simulate_dataset(model.model_dict, params, policies=pol, **kwargs)

    base, out = sim(None), sim(policies)
    obs = np.zeros((T, n, len(model.observed)))
    for j, f in enumerate(model.observed):
        obs[:, :, j] = panel.values[f][:, :T].T
    upd, H, C, _ = ref.measurement_arrays(model, values)
    controls = np.ones((T, n, 1 + len(model.controls)))
    for j, c in enumerate(model.controls):
        controls[:, :, j + 1] = panel.values[c][:, :T].T
    scale, const = ref.anchoring_arrays(model, values)
    means, chols, weights = ref.initial(model, values)
    kw = {"rtol": 1e-8, "atol": 1e-8}
    for what, res, pol in [("without", base, []), ("with", out, policies)]:
        frame = res["unanchored_states"]["states"]
        mon.check(
            "labels of simulated data",
            len(frame) == n * T and set(lat) | {"id", "period"} <= set(frame.columns),
            "rows or columns",
            shape=frame.shape,
        )
        x = tidy(frame, n, T, lat)
        eff = np.zeros((T, len(lat)))
        for p in pol:
            eff[p["period"], lat.index(p["factor"])] += p["effect_size"]
        if not random_start:
            # reported states of a period include the policies of that period
            start = x[0] - eff[0]
            dist = np.abs(start[:, None] - means[None]).max(axis=-1).min(axis=1)
            mon.check("initial states", (dist < 1e-7).all(), "no mean", dist=dist)
        else:
            mon.check("initial states", np.isfinite(x[0]).all(), "not finite")
        for t in range(T - 1):
            e = ref.transition(model, values, t, x[t], obs[t])
            mon.close(
                "transition equation", x[t + 1] - eff[t + 1], e, f"{what} {t}", **kw
            )
        meas = res["measurements"]
        m = sm.by_row(meas, ["period", "id"])
        mon.check(
            "labels of simulated data",
            m.index.is_unique and len(m) == n * T,
            "rows of measurements",
        )
        for r, (t, name, *_rest) in enumerate(upd):
            e = x[t] @ H[r] + controls[t] @ C[r]
            got = m[name].loc[[(t, i) for i in range(n)]]
            mon.close("measurement equation", got, e, f"{name} in {t}", **kw)
        present = {(t, name) for t, name, *_ in upd}
        for name in {u[1] for u in upd}:
            for t in range(T):
                if (t, name) not in present:
                    got = m[name].loc[[(t, i) for i in range(n)]]
                    mon.check(
                        "no measurements in other periods", got.isna().all(), f"{name}"
                    )
        a = tidy(res["anchored_states"]["states"], n, T, lat)
        ea = x * scale[:, None, :] + const[:, None, :]
        mon.close("anchored states", a, ea, what, **kw)
        for typ, arr in [("unanchored_states", x), ("anchored_states", ea)]:
            for j, f in enumerate(lat):
                rg = res[typ]["state_ranges"][f].loc[list(range(T))]
                e = np.stack([arr[:, :, j].min(1), arr[:, :, j].max(1)], axis=1)
                got = rg[["minimum", "maximum"]].to_numpy()
                mon.close("state ranges", got, e, f, **kw)
    # an effect on one factor at the end of a period changes the next period only
    # through the transition equations
    if policies:
        xb = tidy(base["unanchored_states"]["states"], n, T, lat)
        xo = tidy(out["unanchored_states"]["states"], n, T, lat)
        first = min(p["period"] for p in policies)
        mon.close(
            "policies do not affect the past", xo[:first], xb[:first], "", **kw
        )
        eff = np.zeros(len(lat))
        for p in policies:
            if p["period"] == first:
                eff[lat.index(p["factor"])] += p["effect_size"]
        e = ref.transition(model, values, first, xb[first] + eff, obs[first])
        eff1 = np.zeros(len(lat))
        for p in policies:
            if p["period"] == first + 1:
                eff1[lat.index(p["factor"])] += p["effect_size"]
        mon.close(
            "policies move the next period", xo[first + 1] - eff1, e, f"{first}", **kw
        )
    mon.feature("data" if with_data else "n_obs", f"policies={len(policies)}")
    sm.finish(mon, model, values, panel, T > 1)
