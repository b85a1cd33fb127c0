"""C29: the simulator and the estimator describe the same model."""
import warnings

import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random linear models (mixtures, controls, observed factors, shared measurements). "
    "A large sample is simulated by simulate_dataset and given to the likelihood and to "
    "get_filtered_states, after deleting values at random. The average derivative of "
    "the individual contributions with respect to every parameter has to be zero at the "
    "parameters that generated the data; the errors of the filtered states have to have "
    "mean zero and to be uncorrelated with the filtered states and the data. "
    "Non-trivial: always."
)
ASSUMPTIONS = [
    "linear technologies, where the filter is exact; no anchoring, as anchoring "
    "outcomes do not move states",
    "8 standard errors: false alarm probability below 1e-12 per statistic",
]
REQUIRED = [
    "expected score is zero",
    "filtered states are unbiased",
    "filtering errors are unpredictable",
    "likelihood is highest at the truth",
]
Z = 8.0


def cases(tier, rng):
    n = 24 if tier == "quick" else 160
    size = {"n": 5000, "max": 5} if tier == "quick" else {"n": 10000, "max": 20}
    return [{"seed": s, **size} for s in gen.seeds(rng, n)]


def run_case(case, mon):
    from skillmodels import get_filtered_states
    from skillmodels import get_maximization_inputs
    from skillmodels import simulate_dataset

    from vf.checks.c18 import tidy

    N = case["n"]
    rng, model, values, panel = sm.draw(
        case,
        panel_missing=0,
        panel_absent_rows=False,
        panel_n_obs=N,
        n_latent=(1, 2, 2, 3),
        n_periods=(2, 3),
        kinds=("linear", "linear", "constant"),
        n_mixtures=(1, 2),
        anchoring=False,
        trailing_empty=False,
    )
    mon.context(model=model.describe())
    for k in values:
        if k[0] == "loadings" and values[k] == 0:
            values[k] = 0.7
    params = gen.params_frame(values, rng=rng)
    df = gen.to_frame(panel)
    with_data = bool(model.controls or model.observed)
    np.random.seed(int(rng.integers(2**31)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = simulate_dataset(
            model.model_dict, params, **({"data": df} if with_data else {"n_obs": N})
        )
    states = tidy(
        sim["unanchored_states"]["states"], N, model.n_periods, model.latent
    )
    # the panel as an empirical researcher would have it
    data = sm.by_row(sim["measurements"], ["id", "period"])
    data = data.loc[df.index.to_list()]
    for c in [*model.controls, *model.observed]:
        data[c] = df[c].to_numpy()
    cols = list(gen.data_columns(model))
    share = float(rng.choice([0.0, 0.15]))
    if share:
        hole = rng.random((len(data), len(cols))) < share
        data[cols] = data[cols].mask(hole)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inputs = get_maximization_inputs(model.model_dict, data)
    template = inputs["params_template"]

    def contributions(vals):
        frame = template.copy()
        frame["value"] = [vals[k] for k in frame.index]
        return np.array(inputs["loglike"](frame)["contributions"])

    base = contributions(values)
    mon.check("likelihood is finite", np.isfinite(base).all(), "")
    scores = {}
    todo = [
        k
        for k in values
        if not (k[0] == "shock_sds" and model.kinds[k[2]] == "constant")
    ]
    todo = [todo[i] for i in rng.permutation(len(todo))]
    seen = {}
    for key in todo:
        seen[key[0]] = seen.get(key[0], 0) + 1
        if seen[key[0]] > case["max"] and key[0] != "mixture_weights":
            continue
        val, h = values[key], 1e-5
        up, down = dict(values), dict(values)
        up[key], down[key] = val + h, val - h
        scores[key] = (contributions(up) - contributions(down)) / (2 * h)
    first = ("mixture_weights", 0, "mixture_0", "-")
    for key in list(scores):
        if key[0] == "mixture_weights" and key != first:
            # weights sum to one: only differences are identified
            scores[key] = scores[key] - scores[first]
    worst = 0.0
    for key, s in scores.items():
        if key == first:
            continue
        se = s.std() / np.sqrt(N)
        z = abs(s.mean()) / max(se, 1e-7)
        worst = max(worst, z)
        mon.check(
            "expected score is zero",
            z < Z,
            f"likelihood is not stationary at the true {key}",
            mean=s.mean(),
            se=se,
        )
    mon.max_dev["largest standardised score / 8"] = worst / Z
    for cat in sorted({k[0] for k in scores} - {"mixture_weights"}):
        other = {
            k: v + float(rng.choice([-0.3, 0.3])) * (k[0] == cat and v != 0)
            for k, v in values.items()
        }
        gap = base - contributions(other)
        ok = np.isfinite(gap)
        mon.check(
            "likelihood is highest at the truth",
            gap[ok].mean() > -6 * gap[ok].std() / np.sqrt(N) - 1e-9,
            f"perturbed {cat} have higher likelihood",
            gap=gap[ok].mean(),
        )
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = get_filtered_states(model.model_dict, data, params)
    filt = tidy(
        res["unanchored_states"]["states"], N, model.n_periods, model.latent
    )
    for t in range(model.n_periods):
        now = [
            c for c, per in gen.data_columns(model).items() if t in per
        ]
        ref = data.xs(t, level="period").loc[list(range(N))]
        for j, f in enumerate(model.latent):
            e = states[t][:, j] - filt[t][:, j]
            se = e.std() / np.sqrt(N)
            mon.check(
                "filtered states are unbiased",
                abs(e.mean()) < Z * se + 1e-9,
                f"{f} in {t}",
                mean=e.mean(),
                se=se,
            )
            regressors = {g: filt[t][:, i] for i, g in enumerate(model.latent)}
            for c in now + [*model.controls, *model.observed]:
                regressors[f"data {c}"] = ref[c].to_numpy(dtype=float)
            for name, r in regressors.items():
                ok = np.isfinite(r)
                prod = (e * (r - r[ok].mean()))[ok]
                mon.check(
                    "filtering errors are unpredictable",
                    abs(prod.mean()) < Z * prod.std() / np.sqrt(ok.sum()) + 1e-9,
                    f"error of {f} in {t} is correlated with {name}",
                    mean=prod.mean(),
                    se=prod.std() / np.sqrt(ok.sum()),
                )
    mon.feature(f"missing={share}")
    sm.finish(mon, model, values, panel)
