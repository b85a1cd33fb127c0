"""C12: parameters are identified by their labels, never by their position."""
import warnings

import numpy as np
import pandas as pd

from vf import gen
from vf import sm

RULE = (
    "Every parameter of a random model gets a unique value; the parsed model quantities "
    "have to contain each value in the place its label says. Likelihood, simulation and "
    "filtered states are evaluated with differently ordered parameter frames; frames "
    "with missing, additional, renamed or duplicated rows must be rejected. Non-trivial: "
    "model has several factors."
)
ASSUMPTIONS = []
REQUIRED = [
    "parsed value is at the place of its label",
    "row order is irrelevant",
    "wrong labels are rejected",
    "simulation ignores row order",
    "filtered states ignore row order",
]


def cases(tier, rng):
    n = 90 if tier == "quick" else 800
    kinds = ["parse", "parse", "reject", "order"]
    return [
        {"seed": s, "kind": kinds[i % 4]} for i, s in enumerate(gen.seeds(rng, n))
    ]


def parsed(model, values):
    import jax.numpy as jnp

    from skillmodels.params_index import get_params_index
    from skillmodels.parse_params import create_parsing_info
    from skillmodels.parse_params import parse_params
    from skillmodels.process_model import process_model

    mod = process_model(model.model_dict)
    index = get_params_index(
        mod["update_info"], mod["labels"], mod["dimensions"], mod["transition_info"]
    )
    info = create_parsing_info(
        index, mod["update_info"], mod["labels"], mod["anchoring"]
    )
    vec = jnp.array([values[k] for k in index])
    return parse_params(vec, info, mod["dimensions"], mod["labels"], 3), mod


def parse_case(mon, rng, model):
    keys = gen.ref_index(model)
    for rep in range(2):
        vals = rng.permutation(len(keys)) + 1.5
        values = {k: float(v) for k, v in zip(keys, vals)}
        (states, chols, logw, par), mod = parsed(model, values)
        states, chols, logw = np.array(states), np.array(chols), np.array(logw)
        n, K = len(model.latent), model.n_mixtures
        what = "parsed value is at the place of its label"
        kw = {"rtol": 1e-12, "atol": 0}
        for k in range(K):
            mk = f"mixture_{k}"
            exp = [values[("initial_states", 0, mk, f)] for f in model.latent]
            mon.close(what, states[:, k], np.tile(exp, (3, 1)), "initial_states", **kw)
            L = np.zeros((n, n))
            for i, a in enumerate(model.latent):
                for j, b in enumerate(model.latent[: i + 1]):
                    L[i, j] = values[("initial_cholcovs", 0, mk, f"{a}-{b}")]
            exp = np.repeat((L @ L.T)[None], 3, axis=0)
            got = np.swapaxes(chols[:, k], -1, -2) @ chols[:, k]
            mon.close(what, got, exp, "initial_cholcovs", **kw)
            w = np.log(values[("mixture_weights", 0, mk, "-")])
            mon.close(what, logw[:, k], np.full(3, w), "mixture_weights", 1e-12, 1e-12)
        upd = model.updates()
        cn = ["constant"] + model.controls
        C = np.array([[values[("controls", t, m, c)] for c in cn] for t, m, *_ in upd])
        H = np.array(
            [
                [values.get(("loadings", t, m, f), 0.0) for f in model.latent]
                for t, m, *_ in upd
            ]
        )
        sd = [values[("meas_sds", t, m, "-")] for t, m, *_ in upd]
        mon.close(what, par["controls"], C, "controls", **kw)
        mon.close(what, par["loadings"], H, "loadings", **kw)
        mon.close(what, par["meas_sds"], sd, "meas_sds", **kw)
        T = range(model.n_periods - 1)
        Q = [[values[("shock_sds", t, f, "-")] for f in model.latent] for t in T]
        mon.close(what, par["shock_sds"], Q, "shock_sds", **kw)
        for f in model.latent:
            names = list(mod["transition_info"]["param_names"][f])
            exp = np.array([[values[("transition", t, f, p)] for p in names] for t in T])
            got = np.array(par["transition"][f])
            if names:
                mon.close(what, got, exp, f"transition of {f}", **kw)
        from vf import ref

        scale, const = ref.anchoring_arrays(model, values)
        o = len(model.observed)
        scale = np.hstack([scale, np.ones((model.n_periods, o))])
        const = np.hstack([const, np.zeros((model.n_periods, o))])
        mon.close(what, par["anchoring_scaling_factors"], scale, "anchoring scale", **kw)
        mon.close(what, par["anchoring_constants"], const, "anchoring constants", **kw)


def broken(rng, params):
    """yield (description, broken frame)"""
    pos = int(rng.integers(len(params)))
    yield "row missing", params.drop(index=params.index[pos])
    extra = params.iloc[[pos]].copy()
    cat, t, n1, n2 = extra.index[0]
    extra.index = pd.MultiIndex.from_tuples(
        [(cat, t, n1, f"{n2}_")], names=params.index.names
    )
    yield "row added", pd.concat([params, extra])
    yield "row duplicated", pd.concat([params, params.iloc[[pos]]])
    renamed = list(params.index)
    renamed[pos] = (cat, 17, n1, n2)
    frame = params.copy()
    frame.index = pd.MultiIndex.from_tuples(renamed, names=params.index.names)
    yield "row renamed", frame
    cats = params.index.get_level_values("category")
    cat = rng.choice(sorted(set(cats)))
    yield "category missing", params[cats != cat]
    yield "empty", params.iloc[:0]


def run_case(case, mon):
    from skillmodels import get_filtered_states
    from skillmodels import simulate_dataset

    kind = case["kind"]
    mon.feature(kind)
    rng, model, values, panel = sm.draw(case, n_mixtures=(1, 2, 3, 11))
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng)
    if kind == "order":
        values = {k: np.round(v * 256) / 256 or v for k, v in values.items()}
        values = {k: float(np.float32(v)) for k, v in values.items()}
        weights = [k for k in values if k[0] == "mixture_weights"]
        values[weights[0]] += 1 - sum(values[k] for k in weights)
    if kind == "parse":
        parse_case(mon, rng, model)
    elif kind == "reject":
        inp = sm.inputs(model, df)
        params = gen.params_frame(values, rng=rng)
        funcs = ["loglike", "debug_loglike", "gradient", "loglike_and_gradient"]
        for what, frame in broken(rng, params):
            name = funcs[int(rng.integers(4))]
            mon.feature(what)
            try:
                inp[name](frame)
            except Exception as e:  # noqa: BLE001
                ok, exc = isinstance(e, (ValueError, KeyError)), e
            else:
                ok, exc = False, None
            mon.check("wrong labels are rejected", ok, f"{name}: {what}", exc=exc)
    else:
        frames = [
            gen.params_frame(values),
            gen.params_frame(values, rng=rng, extra_columns=True),
            gen.params_frame(values).sort_index(),
        ]
        for f in frames[1:]:
            # short binary fractions are the same number in every type
            typ = ["float64", "float32", "object", "Float64"][int(rng.integers(4))]
            f["value"] = f["value"].astype(typ)
            mon.feature(typ)
        inp = sm.inputs(model, df)
        first = np.array(inp["loglike"](frames[0])["contributions"])
        for f in frames[1:]:
            got = inp["loglike"](f)["contributions"]
            mon.close("row order is irrelevant", got, first, "", 0, 1e-12)
        sims, filts = [], []
        for f in frames[:2]:
            np.random.seed(7)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                data = df if panel.present.all() else None
                if data is None and model.controls:
                    break
                sims.append(
                    simulate_dataset(model.model_dict, f, n_obs=5, data=data)
                )
            filts.append(get_filtered_states(model.model_dict, df, f))
        if len(sims) == 2:
            cols = model.latent
            for typ in ("unanchored_states", "anchored_states"):
                a, b = (s[typ]["states"][cols].to_numpy() for s in sims)
                mon.close("simulation ignores row order", b, a, typ, 1e-12, 1e-12)
                a, b = (s[typ]["states"][cols].to_numpy() for s in filts)
                mon.close("filtered states ignore row order", b, a, typ, 1e-12, 1e-12)
    sm.finish(mon, model, values, panel, len(model.all_factors) > 1, kind=kind)
