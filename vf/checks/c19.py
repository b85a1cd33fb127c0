"""C19: simulated randomness has the specified distribution."""
import warnings

import numpy as np

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Large simulated samples of random models. Residuals of the structural equations "
    "are recovered from the simulated states and measurements; their means, variances "
    "and correlations, the mixture of the initial distribution and the effect of "
    "stochastic policies are compared with the specification (7 standard errors). Same "
    "seed: same data. In further executions many small samples are drawn; sums, sums of "
    "squares and numbers of individuals per component have to vary between samples as "
    "they do for independent draws (probability of a false alarm below 1e-8). "
    "Non-trivial: always."
)
ASSUMPTIONS = [
    "tests with 7 standard errors: false alarm probability below 1e-9 per statistic",
]
REQUIRED = [
    "measurement error variance",
    "shock variance",
    "initial moments",
    "errors are independent",
    "individuals are independent at all distances",
    "same seed same data",
    "other seed other data",
    "policy distribution",
    "samples vary like independent draws",
    "policy with mean zero",
]


def cases(tier, rng):
    n, m = (64, 16) if tier == "quick" else (400, 160)
    out = [{"seed": s, "n": 3000} for s in gen.seeds(rng, n)]
    repeated = [{"seed": s, "repeated": 40} for s in gen.seeds(rng, m)]
    return [*repeated[: m // 2], *out, *repeated[m // 2 :]]


def moments(mon, what, z, msg, zmax=7.0):
    """z should be iid standard normal"""
    n = len(z)
    mon.check(
        what,
        abs(z.mean()) < zmax / np.sqrt(n) and abs((z**2).mean() - 1) < zmax * np.sqrt(2 / n),
        msg,
        mean=z.mean(),
        var=(z**2).mean(),
        n=n,
    )
    mon.check(what, abs((z**4).mean() - 3) < zmax * np.sqrt(96 / n), f"kurtosis {msg}")


def dependence(z):
    """Correlations of the columns of z with all rotations of themselves, and of their
    mirror images; the latter count all pairs twice."""
    n = len(z)
    z = (z - z.mean(0)) / z.std(0)
    f = np.fft.fft(z, axis=0)
    rotated = np.fft.ifft(f * f.conj(), axis=0).real[1:] / n
    mirrored = np.fft.ifft(f * f, axis=0).real / n
    return {"rotated": rotated, "mirrored": mirrored}


def repeated_samples(case, mon):
    """Means and variances of small samples vary from sample to sample as they do for
    independent individuals: samples are neither balanced nor made to fit"""
    from scipy.stats import chi2
    from scipy.stats import norm

    from skillmodels import simulate_dataset
    from vf.checks.c18 import tidy

    N = int(gen.case_rng(case, 1).choice([3, 12, 30, 60, 150]))
    rng, model, values, panel = sm.draw(
        case,
        panel_missing=0,
        panel_absent_rows=False,
        panel_n_obs=N,
        n_periods=2,
        n_mixtures=(2, 3),
        n_latent=(1, 2),
        anchoring=False,
        n_observed=0,
        n_controls=0,
        names="plain",
        kinds=["linear"],
    )
    mon.context(model=model.describe(), n=N)
    mon.feature("repeated samples")
    T, lat, K = model.n_periods, model.latent, model.n_mixtures
    for key in values:
        # components can be told apart
        if key[0] == "initial_states":
            values[key] = 1000.0 * int(key[2].split("_")[1])
        if key[0] == "initial_cholcovs":
            diag = any(key[3] == f"{f}-{f}" for f in lat)
            values[key] = float(rng.uniform(0.5, 1.5)) if diag else 0.0
    weights = [k for k in values if k[0] == "mixture_weights"]
    draws = rng.uniform(0.5, 1.5, len(weights))
    values.update(zip(weights, (draws / draws.sum()).tolist()))
    means, chols, w = ref.initial(model, values)
    upd, H, C, sd = ref.measurement_arrays(model, values)
    params = gen.params_frame(values)
    sums, squares, counts = [], [], []
    pearson = 0.0
    pol = {"period": 0, "factor": lat[0], "effect_size": 0.0, "standard_deviation": 2.0}
    effects = []
    np.random.seed(case["seed"] % 2**31)
    for r in range(case["repeated"]):
        out = simulate_dataset(model.model_dict, params, n_obs=N)
        x = tidy(out["unanchored_states"]["states"], N, T, lat)
        comp = np.rint(x[0][:, 0] / 1000).astype(int)
        count = np.bincount(comp, minlength=K)
        counts.append(count)
        pearson += ((count - N * w) ** 2 / (N * w)).sum()
        z = []
        for j in range(len(lat)):
            z.append((x[0][:, j] - means[comp, j]) / chols[comp, j, j])
            s = values[("shock_sds", 0, lat[j], "-")]
            e = x[1][:, j] - ref.transition(model, values, 0, x[0], np.zeros((N, 0)))[:, j]
            if s > 0:
                z.append(e / s)
        m = sm.by_row(out["measurements"], ["period", "id"])
        for i, (t, name, *_rest) in enumerate(upd):
            y = m[name].loc[[(t, p) for p in range(N)]].to_numpy(dtype=float)
            z.append((y - x[t] @ H[i] - C[i][0]) / sd[i])
        z = np.array(z)
        sums.append(z.sum(axis=1) / np.sqrt(N))
        squares.append(norm.ppf(np.clip(chi2.cdf((z**2).sum(axis=1), N), 1e-15, 1 - 1e-15)))
        if r < 8:
            res = simulate_dataset(model.model_dict, params, n_obs=N, policies=[pol])
            a = tidy(res["unanchored_states"]["states"], N, T, lat)[0][:, 0]
            comp = np.rint(a / 1000).astype(int)
            sd0 = np.sqrt(chols[comp, 0, 0] ** 2 + pol["standard_deviation"] ** 2)
            effects.append((a - means[comp, 0]) / sd0)
    for what, vals in (("sums", sums), ("squares", squares)):
        total, df = (np.array(vals) ** 2).sum(), np.size(vals)
        lo, hi = chi2.ppf([1e-11, 1 - 1e-11], df)
        mon.check(
            "samples vary like independent draws",
            lo < total < hi,
            f"{what} over individuals",
            got=total,
            limits=(lo, hi),
        )
    df = case["repeated"] * (K - 1)
    # the statistic has the mean of a chi-square variable but more variance for small N
    extra = 1 + (1 / w).sum() / N
    lo, hi = chi2.ppf([1e-9, 1 - 1e-9], df)
    mon.check(
        "samples vary like independent draws",
        lo < pearson < df + (hi - df) * extra or N * w.min() < 5,
        "number of individuals from each component",
        got=pearson,
        limits=(lo, hi),
    )
    z = np.concatenate(effects)
    total, df = (z**2).sum(), len(z)
    lo, hi = chi2.ppf([1e-11, 1 - 1e-11], df)
    mon.check(
        "policy with mean zero", lo < total < hi, "variance", got=total, limits=(lo, hi)
    )
    sm.finish(mon, model, values, panel, True, n=N)


def run_case(case, mon):
    from skillmodels import simulate_dataset

    from vf.checks.c18 import tidy

    if "repeated" in case:
        return repeated_samples(case, mon)
    N = case["n"]
    rng, model, values, panel = sm.draw(
        case,
        panel_missing=0,
        panel_absent_rows=False,
        panel_n_obs=N,
        n_periods=(2, 3),
        n_mixtures=(1, 1, 2, 3),
    )
    mon.context(model=model.describe())
    T, lat = model.n_periods, model.latent
    for k in values:
        if k[0] == "shock_sds" and values[k] != 0:
            values[k] *= float(rng.choice([0.3, 1, 2]))
        if k[0] == "initial_cholcovs" and values[k] > 0:
            values[k] *= 1.3
    with_data = bool(model.controls or model.observed)
    kwargs = {"data": gen.to_frame(panel)} if with_data else {"n_obs": N}
    params = gen.params_frame(values)
    pol = [
        {
            "period": 0,
            "factor": lat[-1],
            "effect_size": float(rng.normal()) if rng.random() < 0.7 else 0.0,
            "standard_deviation": float(rng.uniform(0.2, 2)),
        }
    ]

    def sim(seed, policies=None):
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return simulate_dataset(
                model.model_dict, params, policies=policies, **kwargs
            )

    out = sim(5)
    x = tidy(out["unanchored_states"]["states"], N, T, lat)
    obs = np.zeros((T, N, len(model.observed)))
    for j, f in enumerate(model.observed):
        obs[:, :, j] = panel.values[f][:, :T].T
    upd, H, C, sd = ref.measurement_arrays(model, values)
    controls = np.ones((T, N, 1 + len(model.controls)))
    for j, c in enumerate(model.controls):
        controls[:, :, j + 1] = panel.values[c][:, :T].T
    noise = []
    for t in range(T - 1):
        e = x[t + 1] - ref.transition(model, values, t, x[t], obs[t])
        for j, f in enumerate(lat):
            s = values[("shock_sds", t, f, "-")]
            if s == 0:
                mon.close("no shock of constant factors", e[:, j], 0 * e[:, j], f)
            else:
                moments(mon, "shock variance", e[:, j] / s, f"{f} in {t}")
                noise.append(e[:, j] / s)
    m = sm.by_row(out["measurements"], ["period", "id"])
    for r, (t, name, *_rest) in enumerate(upd):
        y = m[name].loc[[(t, i) for i in range(N)]].to_numpy(dtype=float)
        e = (y - x[t] @ H[r] - controls[t] @ C[r]) / sd[r]
        moments(mon, "measurement error variance", e, f"{name} in {t}")
        noise.append(e)
    # initial distribution
    means, chols, w = ref.initial(model, values)
    w = w / w.sum()
    covs = chols @ np.swapaxes(chols, -1, -2)
    mean = w @ means
    dv = means - mean
    cov = np.einsum("k,kij->ij", w, covs) + np.einsum("k,ki,kj->ij", w, dv, dv)
    ev = x[0] - mean
    se = np.sqrt(np.diag(cov) / N)
    mon.check(
        "initial moments",
        (np.abs(ev.mean(0)) < 7 * se).all(),
        "mean of initial states",
        got=ev.mean(0),
        se=se,
    )
    prod = ev[:, :, None] * ev[:, None, :]
    sep = prod.std(axis=0) / np.sqrt(N)
    mon.check(
        "initial moments",
        (np.abs(prod.mean(0) - cov) < 7 * sep + 1e-9).all(),
        "covariance of initial states",
        got=prod.mean(0),
        exp=cov,
    )
    # third moments see the mixture weights
    third = (ev**3).mean(0)
    exp3 = np.einsum("k,ki->i", w, dv**3 + 3 * dv * np.einsum("kii->ki", covs))
    se3 = (ev**3).std(0) / np.sqrt(N)
    mon.check(
        "initial moments",
        (np.abs(third - exp3) < 7 * se3 + 1e-9).all(),
        "third moments of initial states",
        got=third,
        exp=exp3,
    )
    # cdf of the mixture, per factor
    from scipy.stats import norm

    for j in range(len(lat)):
        for q in (-1, 0, 1):
            cut = mean[j] + q * np.sqrt(cov[j, j])
            p = (w * norm.cdf((cut - means[:, j]) / np.sqrt(covs[:, j, j]))).sum()
            got = (x[0][:, j] < cut).mean()
            lim = 7 * np.sqrt(max(p * (1 - p), 1e-3) / N)
            mon.check("initial distribution", abs(got - p) < lim, "", got=got, p=p)
    zs = [(x[0][:, j] - mean[j]) / np.sqrt(cov[j, j]) for j in range(len(lat))]
    allz = np.stack(noise, axis=1)
    c = allz.T @ allz / N - np.eye(allz.shape[1])
    np.fill_diagonal(c, 0)
    mon.check(
        "errors are independent", np.abs(c).max() < 7 / np.sqrt(N), "correlated errors"
    )
    c = np.stack(zs).dot(allz) / N
    mon.check(
        "errors are independent",
        np.abs(c).max() < 10 / np.sqrt(N),
        "errors correlated with initial states",
    )
    lagged = (allz[1:] * allz[:-1]).mean(0)
    mon.check(
        "errors are independent",
        np.abs(lagged).max() < 7 / np.sqrt(N),
        "errors correlated across individuals",
    )
    cols = np.concatenate([allz, np.stack(zs, axis=1)], axis=1)
    for how, r in dependence(cols).items():
        mon.check(
            "individuals are independent at all distances",
            np.abs(r).max() < 12 / np.sqrt(N),
            how,
            got=np.abs(r).max(),
        )
    for f, z in zip(lat, zs):
        for lag in (1, 2):
            mon.check(
                "errors are independent",
                abs((z[lag:] * z[:-lag]).mean()) < 7 * (z**2).mean() / np.sqrt(N),
                f"initial {f} correlated across individuals",
            )
        half = np.arange(N) < N // 2
        gap = z[half].mean() - z[~half].mean()
        mon.check(
            "errors are independent",
            abs(gap) < 7 * 2 / np.sqrt(N),
            f"initial {f} depends on position",
        )
    # reproducibility
    again, other = sim(5), sim(6)
    for key in ("measurements",):
        a, b, o = out[key], again[key], other[key]
        mon.check("same seed same data", a.equals(b), key)
        mon.check("other seed other data", not a.equals(o), key)
    mon.check(
        "same seed same data",
        out["unanchored_states"]["states"].equals(again["unanchored_states"]["states"]),
        "states",
    )
    # stochastic policy: recovered from states if nothing else is random
    quiet = dict(values)
    for k in quiet:
        if k[0] in ("shock_sds", "initial_cholcovs"):
            quiet[k] = 0.0
        if k[0] == "initial_states":
            quiet[k] = values[("initial_states", 0, "mixture_0", k[3])]
    params = gen.params_frame(quiet)
    res = sim(8, pol)
    xq = tidy(res["unanchored_states"]["states"], N, T, lat)
    z = xq[0][:, -1] - quiet[("initial_states", 0, "mixture_0", lat[-1])]
    z = (z - pol[0]["effect_size"]) / pol[0]["standard_deviation"]
    moments(mon, "policy distribution", z, "policy shock")
    e = ref.transition(model, quiet, 0, xq[0], obs[0])
    mon.close("policy enters transition", xq[1], e, "", 1e-8, 1e-8)
    sm.finish(mon, model, values, panel)
