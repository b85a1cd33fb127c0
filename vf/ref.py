"""Independent NumPy reference implementations of the documented model semantics.

Everything is derived from the raw specification, parameter labels and canonical data.
Covariances are propagated as covariances (the code under test propagates square roots).
"""
import numpy as np

from vf.gen import param_names
from vf.gen import ref_transition


def soft_clip(x, lower, upper, lh, uh):
    x = np.asarray(x, dtype=float)
    if lower is not None:
        x = np.logaddexp(lh * x, lh * lower) / lh
    if upper is not None:
        x = -np.logaddexp(-uh * x, -uh * upper) / uh
    return x


def anchoring_arrays(model, params):
    """scaling factors and constants of the latent factors, per period"""
    T, n = model.n_periods, len(model.latent)
    scale, const = np.ones((T, n)), np.zeros((T, n))
    for f, outcome in model.anchoring["outcomes"].items():
        i = model.latent.index(f)
        for t in range(T):
            scale[t, i] = params[("loadings", t, f"{outcome}_{f}", f)]
            if not model.anchoring["ignore_constant_when_anchoring"]:
                const[t, i] = params[("controls", t, f"{outcome}_{f}", "constant")]
    return scale, const


def transition(model, params, t, x, obs):
    """Next latent states in anchored, then unanchored units.

    x: (..., n_latent), obs: (..., n_observed)
    """
    scale, const = anchoring_arrays(model, params)
    anch = x * scale[t] + const[t]
    full = np.concatenate([anch, obs], axis=-1)
    nxt = []
    for f in model.latent:
        kind = model.kinds[f]
        p = {
            n: params[("transition", t, f, n)]
            for n in param_names(kind, model.all_factors)
        }
        nxt.append(
            ref_transition(kind, full, p, model.all_factors, f, model.custom_args[f])
        )
    nxt = np.stack(nxt, axis=-1)
    return (nxt - const[t + 1]) / scale[t + 1]


def initial(model, params):
    n, K = len(model.latent), model.n_mixtures
    means = np.zeros((K, n))
    chols = np.zeros((K, n, n))
    weights = np.zeros(K)
    for k in range(K):
        mk = f"mixture_{k}"
        weights[k] = params[("mixture_weights", 0, mk, "-")]
        for i, a in enumerate(model.latent):
            means[k, i] = params[("initial_states", 0, mk, a)]
            for j, b in enumerate(model.latent[: i + 1]):
                chols[k, i, j] = params[("initial_cholcovs", 0, mk, f"{a}-{b}")]
    return means, chols, weights


def measurement_arrays(model, params):
    upd = model.updates()
    H = np.zeros((len(upd), len(model.latent)))
    C = np.zeros((len(upd), 1 + len(model.controls)))
    sd = np.zeros(len(upd))
    for r, (t, m, _, fs, _) in enumerate(upd):
        for f in fs:
            H[r, model.latent.index(f)] = params[("loadings", t, m, f)]
        C[r] = [params[("controls", t, m, c)] for c in ["constant"] + model.controls]
        sd[r] = params[("meas_sds", t, m, "-")]
    return upd, H, C, sd


def usable_data(model, panel):
    """Measurements (n_updates, n_obs), controls (T, n_obs, n_c), observed factors

    Rows with missing controls lose all measurements of that period.
    """
    upd = model.updates()
    n, T = panel.n_obs, model.n_periods
    controls = np.ones((T, n, 1 + len(model.controls)))
    for j, c in enumerate(model.controls):
        controls[:, :, j + 1] = panel.values[c][:, :T].T
    bad = np.isnan(controls).any(axis=-1)
    meas = np.array([panel.values[col][:, t] for t, _, _, _, col in upd]).reshape(
        len(upd), n
    )
    for r, (t, *_) in enumerate(upd):
        meas[r, bad[t]] = np.nan
    controls = np.where(np.isnan(controls), 0.0, controls)
    obs = np.zeros((T, n, len(model.observed)))
    for j, f in enumerate(model.observed):
        obs[:, :, j] = panel.values[f][:, :T].T
    return meas, controls, obs


def update(x, P, logw, h, c_part, sd, y):
    """One measurement for all observations. Shapes (n,K,d), (n,K,d,d), (n,K), (n,)"""
    resid = y[:, None] - (x @ h) - c_part[:, None]
    Ph = P @ h
    var = (Ph @ h) + sd**2
    gain = Ph / var[..., None]
    x2 = x + gain * resid[..., None]
    P2 = P - gain[..., :, None] * Ph[..., None, :]
    P2 = 0.5 * (P2 + np.swapaxes(P2, -1, -2))
    ll = -0.5 * (np.log(2 * np.pi) + np.log(var) + resid**2 / var)
    joint = ll + logw
    m = joint.max(axis=1, keepdims=True)
    tot = (m + np.log(np.exp(joint - m).sum(axis=1, keepdims=True)))[:, 0]
    logw2 = joint - tot[:, None]
    return x2, P2, logw2, tot, resid, np.sqrt(var)


def sigma_points(x, P, kappa):
    d = x.shape[-1]
    L = np.linalg.cholesky(P)
    s = np.sqrt(d + kappa)
    dev = np.swapaxes(L, -1, -2) * s
    pts = np.concatenate([x[..., None, :], x[..., None, :] + dev, x[..., None, :] - dev], -2)
    w = np.full(2 * d + 1, 0.5 / (d + kappa))
    w[0] = kappa / (d + kappa)
    return pts, w


def run_filter(model, params, panel, skip_gaps=False):
    """Unscented square-root-free Kalman filter. Returns a dict of recorded quantities"""
    upd, H, C, sd = measurement_arrays(model, params)
    meas, controls, obs = usable_data(model, panel)
    means, chols, weights = initial(model, params)
    n, K, d = panel.n_obs, model.n_mixtures, len(model.latent)
    x = np.repeat(means[None], n, axis=0)
    P = np.repeat((chols @ np.swapaxes(chols, -1, -2))[None], n, axis=0)
    with np.errstate(divide="ignore"):
        logw = np.repeat(np.log(weights)[None], n, axis=0)
    R = len(upd)
    out = {
        "loglikes": np.zeros((R, n)),
        "states": np.zeros((R, n, K, d)),
        "covs": np.zeros((R, n, K, d, d)),
        "logw": np.zeros((R, n, K)),
        "resid": np.full((R, n, K), np.nan),
        "resid_sd": np.full((R, n, K), np.nan),
        "predicted": {},
    }
    for r, (t, _, kind, _, _) in enumerate(upd):
        y = meas[r]
        ok = np.isfinite(y)
        c_part = controls[t] @ C[r]
        ysafe = np.where(ok, y, 0.0)
        x2, P2, logw2, ll, res, rsd = update(x, P, logw, H[r], c_part, sd[r], ysafe)
        logw = np.where(ok[:, None], logw2, logw)
        out["loglikes"][r] = np.where(ok, ll, 0.0)
        out["resid"][r] = np.where(ok[:, None], res, np.nan)
        out["resid_sd"][r] = np.where(ok[:, None], rsd, np.nan)
        if kind == "measurement":
            x = np.where(ok[:, None, None], x2, x)
            P = np.where(ok[:, None, None, None], P2, P)
        out["states"][r], out["covs"][r], out["logw"][r] = x, P, logw
        if r + 1 < R and upd[r + 1][0] != t:
            gap = upd[r + 1][0] - t
            for s in range(t, t if gap > 1 and skip_gaps else upd[r + 1][0]):
                pts, w = sigma_points(x, P, model.kappa)
                o = np.broadcast_to(
                    obs[s][:, None, None, :], pts.shape[:-1] + (obs.shape[-1],)
                )
                nxt = transition(model, params, s, pts, o)
                x = np.einsum("s,nksd->nkd", w, nxt)
                dv = nxt - x[:, :, None, :]
                Q = np.diag([params[("shock_sds", s, f, "-")] ** 2 for f in model.latent])
                P = np.einsum("s,nksi,nksj->nkij", w, dv, dv) + Q
                out["predicted"][s + 1] = (x.copy(), P.copy())
    o = model.options
    clipped = soft_clip(
        out["loglikes"],
        o.get("clipping_lower_bound", -1e250),
        o.get("clipping_upper_bound", None),
        o.get("clipping_lower_hardness", 1),
        o.get("clipping_upper_hardness", 1),
    )
    out["contributions"] = clipped.sum(axis=0)
    out["value"] = clipped.sum()
    out["updates"] = upd
    return out


def filtered_states(model, res):
    """(period -> (n_obs, n_latent)) means after the last measurement of the period"""
    out = {}
    last = {}
    for r, (t, _, kind, _, _) in enumerate(res["updates"]):
        if kind == "measurement" or t not in last or last[t][1] == "anchoring":
            last[t] = (r, kind)
    for t, (r, _) in last.items():
        w = np.exp(res["logw"][r])
        out[t] = (res["states"][r] * w[..., None]).sum(axis=1)
    return out


def linear_joint(model, params, panel):
    """Exact log density of all measurements of each observation for linear models.

    Only for models without anchoring whose transition functions are linear/constant.
    """
    upd, H, C, sd = measurement_arrays(model, params)
    meas, controls, obs = usable_data(model, panel)
    means, chols, weights = initial(model, params)
    T, d, n = model.n_periods, len(model.latent), panel.n_obs
    A, B, b, Q = [], [], [], []
    for t in range(T - 1):
        a = np.zeros((d, len(model.all_factors)))
        c = np.zeros(d)
        for i, f in enumerate(model.latent):
            if model.kinds[f] == "constant":
                a[i, i] = 1
            else:
                a[i] = [params[("transition", t, f, g)] for g in model.all_factors]
                c[i] = params[("transition", t, f, "constant")]
        A.append(a[:, :d])
        B.append(a[:, d:])
        b.append(c)
        Q.append(np.diag([params[("shock_sds", t, f, "-")] ** 2 for f in model.latent]))
    out = np.zeros(n)
    for i in range(n):
        rows = np.flatnonzero(np.isfinite(meas[:, i]))
        comp = []
        for k in range(model.n_mixtures):
            mu = [means[k]]
            V = [chols[k] @ chols[k].T]
            for t in range(T - 1):
                mu.append(A[t] @ mu[t] + B[t] @ obs[t, i] + b[t])
                V.append(A[t] @ V[t] @ A[t].T + Q[t])
            ycov = np.zeros((len(rows), len(rows)))
            ymean = np.zeros(len(rows))
            for p, r in enumerate(rows):
                tp = upd[r][0]
                ymean[p] = H[r] @ mu[tp] + controls[tp, i] @ C[r]
                for q, s in enumerate(rows):
                    tq = upd[s][0]
                    lo, hi = min(tp, tq), max(tp, tq)
                    G = np.eye(d)
                    for u in range(lo, hi):
                        G = A[u] @ G
                    cross = G @ V[lo]  # Cov(s_hi, s_lo)
                    hp, hq = (H[r], H[s]) if tp == hi else (H[s], H[r])
                    ycov[p, q] = hp @ cross @ hq
                    if r == s:
                        ycov[p, q] += sd[r] ** 2
            if len(rows):
                dv = meas[rows, i] - ymean
                sign, logdet = np.linalg.slogdet(ycov)
                assert sign > 0
                quad = dv @ np.linalg.solve(ycov, dv)
                ll = -0.5 * (len(rows) * np.log(2 * np.pi) + logdet + quad)
            else:
                ll = 0.0
            comp.append(np.log(weights[k]) + ll)
        comp = np.array(comp)
        m = comp.max()
        out[i] = m + np.log(np.exp(comp - m).sum()) - np.log(weights.sum())
    return out
