"""C03: gradient, jacobian and loglike_and_gradient are derivatives of the value."""
import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random nonlinear models with missings, zero shocks of constant factors, mixtures "
    "and shares of CES functions that are zero. Every entry of gradient, jacobian and the gradient part of "
    "loglike_and_gradient is compared with a fourth order finite difference of the "
    "value returned by loglike. Non-trivial: data contain missings."
)
ASSUMPTIONS = [
    "gradient arrays are aligned with the rows of params_template",
    "parameters are in the interior where the likelihood is smooth, or shares or shocks "
    "are at their lower bound of zero (one-sided derivatives)",
]
REQUIRED = ["gradient", "jacobian", "loglike_and_gradient", "gradient finite",
            "derivatives agree"]


def cases(tier, rng):
    n = 36 if tier == "quick" else 400
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = [
            {"n_mixtures": 2},
            {"n_latent": 2, "kinds": ["translog", "log_ces", "constant"]},
            {"n_observed": 1, "anchoring": True},
            {"kinds": ["log_ces_general", "linear_and_squares", "custom_states"]},
            {"kinds": ["linear", "constant"], "n_latent": 3},
        ][i % 5]
        out.append({"seed": s, "opts": opts})
    out.insert(0, {"seed": 7, "kind": "weight", "known": "zero-weight"})
    out.insert(1, {"seed": 8, "kind": "sd", "known": "zero-sd"})
    return out


def boundary_case(case, mon):
    """Parameters at a lower bound of zero at which the likelihood is finite."""
    rng = np.random.default_rng(5)
    model = gen.make_model(
        rng, n_latent=2, n_observed=0, n_controls=0, n_periods=2, n_mixtures=2,
        kinds=["linear"], anchoring=False, options={"robust_bounds": False}, wide=0,
        roles=0, names="plain",
    )
    values = gen.make_params(rng, model, zeros=False)
    panel = gen.make_panel(rng, model, missing=0, n_obs=8)
    if case["kind"] == "weight":
        values[("mixture_weights", 0, "mixture_0", "-")] = 0.0
        values[("mixture_weights", 0, "mixture_1", "-")] = 1.0
        bad = [("mixture_weights", 0, "mixture_0", "-")]
    else:
        bad = [next(k for k in values if k[0] == "meas_sds")]
        values[bad[0]] = 0.0
    inp = sm.inputs(model, gen.to_frame(panel))
    index = list(inp["params_template"].index)
    params = gen.params_frame(values, index=index)
    assert np.isfinite(inp["loglike"](params)["value"])
    grad = dict(zip(index, inp["gradient"](params)))
    mon.observed("boundary evaluated")
    wrong = [k for k in index if not np.isfinite(grad[k])]
    if not wrong:
        return
    if case["kind"] == "weight" and wrong == bad:
        mon.fail("zero-weight: derivative with respect to the zero weight is NaN")
    if case["kind"] == "sd" and bad[0] in wrong:
        mon.fail("zero-sd: derivatives are NaN")
    mon.fail(f"derivatives are not finite: {wrong}")


def run_case(case, mon):
    if "kind" in case:
        return boundary_case(case, mon)
    size = int(gen.case_rng(case, 1).choice([6] * 9 + [130]))
    rng, model, values, panel = sm.draw(
        case, n_periods=(2, 3), panel_n_obs=size, panel_missing=0.25, meas_per=(1, 2),
        clip=0.25,
    )
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng)
    zero = []
    for fac, kind in model.kinds.items():
        # shares can be zero
        if kind in ("log_ces", "log_ces_general") and rng.random() < 0.4:
            names = [n for n in model.all_factors if n != fac]
            if names:
                name = names[int(rng.integers(len(names)))]
                t = int(rng.integers(model.n_periods - 1))
                zero.append(("transition", t, fac, name))
                values[zero[-1]] = 0.0
                mon.feature("zero share")
    fwd = bool(rng.integers(2))
    inp = sm.inputs(model, df, **({"jacobian_type": "jacfwd"} if fwd else {}))
    mon.feature("jacfwd" if fwd else "jacrev")
    index = list(inp["params_template"].index)
    base = gen.params_frame(values, index=index)
    loglike = inp["loglike"]

    def f(vec):
        p = base.copy()
        p["value"] = vec
        return loglike(p)["value"]

    x0 = base["value"].to_numpy()

    def derivative(i, h):
        """fourth order, one-sided at a lower bound"""
        if index[i] in zero:
            steps, weights = range(5), [-25, 48, -36, 16, -3]
        else:
            steps, weights = (-2, -1, 1, 2), [1, -8, 8, -1]
        v = []
        for k in steps:
            x = x0.copy()
            x[i] += k * h
            v.append(f(x))
        return np.dot(v, weights) / (12 * h)

    num = np.zeros(len(x0))
    step = np.zeros(len(x0))
    for i in range(len(x0)):
        h = 1e-3 * max(0.3, abs(x0[i]))
        if index[i][0] in ("mixture_weights", "transition") and x0[i] > 0:
            h = min(h, 0.02 * x0[i] + 1e-5)
        step[i] = 2e-3 if index[i] in zero else h
        num[i] = derivative(i, step[i])
    start = base.sample(frac=1, random_state=int(rng.integers(1000)))
    grad = inp["gradient"](start)
    mon.check("gradient finite", np.isfinite(grad).all(), "gradient has NaNs", g=grad)
    # where the step was too large, it is reduced until the estimate is stable
    suspect = ~np.isclose(num, grad, rtol=1e-5, atol=1e-5)
    for i in np.flatnonzero(suspect):
        est = [num[i]] + [derivative(i, step[i] / 5.0**k) for k in range(1, 6)]
        diff = np.nan_to_num(np.abs(np.diff(est)), nan=np.inf)
        num[i] = est[1 + int(np.argmin(diff))]
        mon.feature("refined steps")
    tol = {"rtol": 2e-5, "atol": 2e-5 * max(1.0, np.abs(num).max() * 0.05)}
    mon.close("gradient", grad, num, **tol)
    both = inp["loglike_and_gradient"](start)
    mon.close("loglike_and_gradient", both[1], num, **tol)
    mon.close("value with gradient", both[0]["value"], f(x0), rtol=1e-9, atol=1e-9)
    contr = inp["loglike"](base)["contributions"]
    mon.close(
        "contributions with gradient", both[0]["contributions"], contr, "", 1e-9, 1e-9
    )
    jac = inp["jacobian"](start)
    mon.close("jacobian", jac, num, **tol)
    # all of them are exact up to rounding
    exact = {"rtol": 1e-9, "atol": 1e-9 * max(1.0, np.abs(grad).max())}
    mon.close("derivatives agree", both[1], grad, "loglike_and_gradient", **exact)
    mon.close("derivatives agree", jac, grad, "jacobian", **exact)
    sm.finish(mon, model, values, panel, n_params=len(index))
