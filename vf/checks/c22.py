"""C22: correlation tables relate the right variables of the right periods."""
import numpy as np

from vf import gen

RULE = (
    "Random models and panels (missings, absent rows, shuffled rows, odd labels of ids "
    "and periods, additional variables), random subsets of factors and periods. All "
    "three correlation tables are recomputed, entry by entry, from the canonical arrays "
    "of the panel. Non-trivial: table has at least two columns."
)
ASSUMPTIONS = [
    "periods are enumerated from zero",
    "loadings that are used are not zero",
    "the order of measurements of one factor is not specified",
]
REQUIRED = [
    "measurement correlations",
    "quasi score correlations",
    "score correlations",
    "labels",
]


def cases(tier, rng):
    n = 600 if tier == "quick" else 2500
    return [{"seed": s} for s in gen.seeds(rng, n)]


def pairwise_corr(a, b):
    ok = np.isfinite(a) & np.isfinite(b)
    a, b = a[ok], b[ok]
    if len(a) < 2:
        return np.nan
    a, b = a - a.mean(), b - b.mean()
    den = np.sqrt((a**2).sum() * (b**2).sum())
    return np.clip((a * b).sum() / den, -1, 1) if den > 1e-12 else np.nan


def corr_matrix(cols):
    return np.array([[pairwise_corr(a, b) for b in cols] for a in cols])


def nanmean(rows, n):
    if not rows:
        return np.full(n, np.nan)
    arr = np.array(rows)
    cnt = np.isfinite(arr).sum(axis=0)
    with np.errstate(invalid="ignore", divide="ignore"):
        return np.where(cnt > 0, np.nansum(arr, axis=0) / cnt, np.nan)


def expected(kind, model, values, panel, latent, observed, periods):
    """list of blocks, each a list of (name, column)"""
    n = panel.n_obs
    blocks = []
    upd = model.updates()
    for t in periods:
        for f in latent:
            meas = list(dict.fromkeys(model.meas[f][t]))
            if kind == "measurements":
                blocks.append((t, [(m, panel.values[m][:, t]) for m in meas]))
                continue
            rows = []
            for m in meas:
                x = panel.values[m][:, t]
                if kind == "quasi":
                    ok = np.isfinite(x)
                    sd = x[ok].std(ddof=1) if ok.sum() > 1 else np.nan
                    mu = x[ok].mean() if ok.any() else np.nan
                    rows.append((x - mu) / sd)
                else:
                    facs = next(u[3] for u in upd if u[0] == t and u[1] == m)
                    load = [values[("loadings", t, m, g)] for g in facs]
                    if sum(v != 0 for v in load) > 1:
                        continue
                    c = values[("controls", t, m, "constant")]
                    rows.append((x - c) / values[("loadings", t, m, f)])
            blocks.append((t, [(f, nanmean(rows, n))]))
        for f in observed:
            blocks.append((t, [(f, panel.values[f][:, t])]))
    return blocks


def run_case(case, mon):
    from skillmodels import correlation_heatmap as ch

    rng = gen.case_rng(case)
    model = gen.make_model(rng, n_mixtures=1, kinds=("linear", "log_ces", "constant"))
    values = gen.make_params(rng, model, zeros=False)
    panel = gen.make_panel(
        rng,
        model,
        n_obs=int(rng.integers(8, 40)),
        missing=float(rng.choice([0, 0.1, 0.3])),
    )
    T = model.n_periods
    ids = [[*range(panel.n_obs)], [5 * i - 3 for i in range(panel.n_obs)]][
        int(rng.integers(2))
    ]
    start = int(rng.integers(0, 3))
    df = gen.to_frame(
        panel, rng, ids=ids, periods=[2 * t + start for t in range(T)],
        shuffle_rows=True, shuffle_cols=True,
    )
    if rng.random() < 0.4:
        df["unused"] = 1.0
        df["period"] = rng.integers(0, 3, len(df))
    params = gen.params_frame(values, rng=rng)
    mon.context(model=model.describe())

    n_cols = 0
    for rep in range(2):
        style = int(rng.integers(4))
        latent, observed = model.latent, model.observed
        if style == 0:
            factors = None
        elif style == 1:
            factors = model.all_factors[int(rng.integers(len(model.all_factors)))]
            latent = [f for f in latent if f == factors]
            observed = [f for f in observed if f == factors]
        else:
            k = int(rng.integers(1, len(model.all_factors) + 1))
            factors = [model.all_factors[i] for i in
                       rng.permutation(len(model.all_factors))[:k]]
            latent = [f for f in factors if f in latent]
            observed = [f for f in factors if f in observed]
        pstyle = int(rng.integers(4))
        if pstyle == 0:
            periods, plist = None, list(range(T))
        elif pstyle == 1:
            periods = int(rng.integers(T))
            plist = [periods]
        else:
            k = int(rng.integers(1, T + 1))
            plist = [int(t) for t in rng.permutation(T)[:k]]
            if pstyle == 2:
                plist = sorted(plist)
            periods = list(plist)
        mon.feature(f"factors arg {style}", f"periods arg {pstyle}")
        mon.context(factors=factors, periods=periods)
        for kind, what in [
            ("measurements", "measurement correlations"),
            ("quasi", "quasi score correlations"),
            ("scores", "score correlations"),
        ]:
            args = (model.model_dict, factors, periods)
            if kind == "measurements":
                got = ch.get_measurements_corr(df, *args)
            elif kind == "quasi":
                got = ch.get_quasi_scores_corr(df, *args)
            else:
                got = ch.get_scores_corr(df, params, *args)
            blocks = expected(kind, model, values, panel, latent, observed, plist)
            labels, cols = list(map(str, got.columns)), []
            index = list(map(str, got.index))
            mon.equal("labels", index, labels, f"{kind} rows and columns")
            pos = 0
            for t, block in blocks:
                suffix = "" if len(plist) == 1 else f", {t}"
                named = {f"{m}{suffix}": col for m, col in block}
                here = labels[pos : pos + len(block)]
                mon.equal("labels", sorted(here), sorted(named), f"{kind}")
                cols += [named[name] for name in here]
                pos += len(block)
            mon.equal("labels", len(labels), pos, f"{kind} number of columns")
            n_cols = max(n_cols, pos)
            if pos:
                mon.close(
                    what, got.to_numpy(), corr_matrix(cols), "", rtol=1e-7, atol=1e-7
                )
    mon.nontrivial = n_cols > 1
    mon.feature(*model.features)
    mon.sign(model.describe(), values, df.to_numpy(dtype=float).tobytes())
    mon.sample = {"model": model.describe(), "columns": n_cols}
