"""C01: likelihood contributions are those of the unscented Kalman filter."""
import numpy as np

from vf import gen
from vf import ref

RULE = (
    "Random valid models (factors, observed factors, controls, mixtures, all built-in "
    "and custom transition functions, anchoring, shared and absent measurements), "
    "admissible parameters with shuffled rows and panels with missings. Each run of "
    "loglike is compared per observation with an independent covariance-form "
    "unscented Kalman filter. Non-trivial: at least two periods with measurements and "
    "at least one executed transition."
)
ASSUMPTIONS = [
    "Reference filter in NumPy is correct (cross-checked against exact joint normal "
    "densities in C02)",
    "models with >= 2 periods in which only trailing periods lack updates",
]
REQUIRED = ["contribution equals reference", "value is sum of contributions"]


def cases(tier, rng):
    n = 120 if tier == "quick" else 1500
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        case = {"seed": s, "kind": "random"}
        if i % 6 == 1:
            case["opts"] = {"n_mixtures": 3, "n_observed": 2, "anchoring": True}
        elif i % 6 == 2:
            case["opts"] = {"n_latent": 4, "n_periods": 3, "anchoring": True}
        elif i % 6 == 3:
            case["opts"] = {"n_periods": 5, "n_latent": 2}
        elif i % 6 == 4:
            case["opts"] = {"kinds": ["linear", "translog", "log_ces"], "n_mixtures": 2}
        out.append(case)
    out.insert(0, {"seed": 7, "kind": "gap", "known": "gap-period"})
    out.insert(1, {"seed": 8, "kind": "one_period", "known": "one-period"})
    return out


def _small(n_periods, meas):
    rng = np.random.default_rng(5)
    model = gen.make_model(
        rng, n_latent=1, n_observed=0, n_controls=0, n_periods=max(n_periods, 2),
        n_mixtures=1, kinds=["linear"], names="plain", anchoring=False, options={},
    )
    fac = model.latent[0]
    model.n_periods = n_periods
    model.meas[fac] = meas
    model.model_dict["factors"][fac]["measurements"] = meas
    model.model_dict["factors"][fac].pop("normalizations", None)
    model.model_dict.pop("stagemap", None)
    values = gen.make_params(rng, model)
    panel = gen.make_panel(rng, model, n_obs=6, missing=0)
    return model, values, panel


def gap_case(case, mon):
    """A period without any update: the transition into it is not executed."""
    from skillmodels import get_maximization_inputs

    model, values, panel = _small(3, [["a", "b"], [], ["c", "d"]])
    inputs = get_maximization_inputs(model.model_dict, gen.to_frame(panel))
    got = inputs["loglike"](gen.params_frame(values))["contributions"]
    exp = ref.run_filter(model, values, panel)["contributions"]
    skip = ref.run_filter(model, values, panel, skip_gaps=True)["contributions"]
    mon.observed("gap model evaluated")
    if np.allclose(got, exp, rtol=1e-7, atol=1e-7):
        return
    if np.allclose(got, skip, rtol=1e-7, atol=1e-7):
        mon.fail("gap-period: transitions around the empty period are skipped")
    mon.fail("contribution of gap model is neither right nor the known wrong one")


def one_period_case(case, mon):
    from skillmodels import get_maximization_inputs

    model, values, panel = _small(1, [["a", "b"]])
    exp = ref.run_filter(model, values, panel)["contributions"]
    mon.observed("one period model evaluated")
    try:
        inputs = get_maximization_inputs(model.model_dict, gen.to_frame(panel))
        got = inputs["loglike"](gen.params_frame(values))["contributions"]
    except Exception as e:
        mon.fail(f"one-period: evaluation crashes with {type(e).__name__}: {e}")
    mon.close("contribution of one period model", got, exp)


def high_level(rng, model, values, panel):
    """Measure variables on scales whose level is large relative to their variation."""
    outcomes = set(model.anchoring["outcomes"].values())
    for col in gen.data_columns(model):
        if col not in outcomes and rng.random() < 0.5:
            level = float(rng.choice([-1, 1]) * 10 ** rng.uniform(2, 6))
            panel.values[col] = panel.values[col] + level
            for t, m, _, _, c in model.updates():
                if c == col:
                    values[("controls", t, m, "constant")] += level


def run_case(case, mon):
    from skillmodels import get_maximization_inputs

    rng = gen.case_rng(case)
    if case["kind"] == "gap":
        return gap_case(case, mon)
    if case["kind"] == "one_period":
        return one_period_case(case, mon)
    model = gen.make_model(rng, **case.get("opts", {}))
    values = gen.make_params(rng, model)
    cm = bool(model.controls) and rng.random() < 0.2
    panel = gen.make_panel(rng, model, control_missing=cm)
    if rng.random() < 0.3:
        high_level(rng, model, values, panel)
        mon.feature("high_level")
    df = gen.to_frame(panel, rng, shuffle_rows=True, shuffle_cols=True)
    mon.context(model=model.describe())
    mon.feature(*model.features)
    if cm:
        mon.feature("missing_controls")
    inputs = get_maximization_inputs(model.model_dict, df)
    params = gen.params_frame(values, rng=rng, extra_columns=bool(rng.integers(2)))
    got = inputs["loglike"](params)
    exp = ref.run_filter(model, values, panel)
    mon.close(
        "contribution equals reference",
        got["contributions"],
        exp["contributions"],
        rtol=1e-7,
        atol=1e-7,
    )
    mon.close(
        "value is sum of contributions",
        got["value"],
        np.sum(got["contributions"]),
        rtol=1e-9,
        atol=1e-9,
    )
    mon.nontrivial = len(exp["predicted"]) > 0
    mon.sign(model.describe(), values, df.to_numpy().tobytes())
    mon.sample = {"model": model.describe(), "value": float(got["value"])}
