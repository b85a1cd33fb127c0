"""C26: public functions leave their inputs and the global state alone."""
import copy
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd

from vf import gen

RULE = (
    "Random histories of calls of all public functions that share the same inputs "
    "(specification, data, parameters, states, policies, tables, plots, options), with "
    "failing calls in between. After every call all inputs and the global random state "
    "are compared with deep snapshots; then the returned object is overwritten and the "
    "call is repeated: neither inputs nor the repeated result may be affected. "
    "Non-trivial: always."
)
ASSUMPTIONS = ["simulations and averages over draws use the global random generator"]
REQUIRED = [
    "inputs unchanged",
    "inputs unchanged by failing call",
    "random state unchanged",
    "settings unchanged",
    "filters of warnings unchanged",
    "repeated call gives equal result",
    "result does not alias inputs",
    "earlier results unchanged",
]
# calls made by this process before; libraries that are imported late add filters
SEEN = set()
N_OPS = {"quick": 14, "thorough": 30}


def cases(tier, rng):
    n = 24 if tier == "quick" else 500
    return [
        {"seed": s, "ops": N_OPS[tier], "part": ["tables", "plots"][i % 4 == 3]}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


# --------------------------------------------------------------------------------------
# deep snapshots
# --------------------------------------------------------------------------------------


def freeze(obj):
    """hashable-free canonical deep copy, suited for comparisons"""
    if isinstance(obj, dict):
        return ("dict", type(obj).__name__, [(k, freeze(v)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [freeze(v) for v in obj])
    if isinstance(obj, (pd.DataFrame, pd.Series)):
        cols = list(obj.columns) if isinstance(obj, pd.DataFrame) else obj.name
        dts = [str(d) for d in obj.dtypes] if isinstance(obj, pd.DataFrame) else None
        return (
            "frame",
            obj.copy(deep=True),
            cols,
            dts,
            list(obj.index.names),
            obj.index.tolist(),
        )
    if isinstance(obj, np.ndarray):
        return ("array", obj.copy(), str(obj.dtype))
    if isinstance(obj, (set, frozenset)):
        return ("set", sorted(map(repr, obj)))
    if hasattr(obj, "to_plotly_json"):
        return ("figure", freeze(copy.deepcopy(obj.to_plotly_json())))
    if callable(obj):
        params = getattr(obj, "__registered_params__", None)
        return ("callable", id(obj), params if params is None else list(params))
    if hasattr(obj, "__array__") and not np.isscalar(obj):
        return ("array", np.array(obj), str(obj.dtype))
    return ("value", type(obj).__name__, obj)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return a is b


def overwrite(obj, depth=0):
    """damage everything that is mutable in a result"""
    if depth > 6:
        return
    if isinstance(obj, dict):
        for v in list(obj.values()):
            overwrite(v, depth + 1)
        obj["__new__"] = 1
    elif isinstance(obj, list):
        for v in list(obj):
            overwrite(v, depth + 1)
        obj.append("__new__")
    elif isinstance(obj, tuple):
        for v in obj:
            overwrite(v, depth + 1)
    elif isinstance(obj, pd.DataFrame):
        try:
            for j in range(obj.shape[1]):
                if obj.dtypes.iloc[j].kind in "fi":
                    obj.iloc[:, j] = 77
        except Exception:  # noqa: BLE001
            pass
        try:
            arr = obj.to_numpy()
            if arr.dtype.kind == "f" and arr.flags.writeable:
                arr[...] = 77
        except Exception:  # noqa: BLE001
            pass
    elif isinstance(obj, np.ndarray) and obj.dtype.kind == "f":
        if obj.flags.writeable:
            obj[...] = 77
    elif hasattr(obj, "update_layout"):
        obj.update_layout(title="__new__")
        for d in obj.data:
            d.update(name="__new__")


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def settings():
    """global settings of the process and the libraries"""
    import jax
    import pandas._config.config as pandas_config
    import plotly.io as pio

    blanket = [
        (f[0], f[2].__name__)
        for f in warnings.filters
        if f[1] is None and f[3] is None and f[4] == 0
    ]
    return {
        "numpy errors": np.geterr(),
        "numpy printing": repr(np.get_printoptions()),
        "pandas": repr(pandas_config._global_config),
        "plotly template": pio.templates.default,
        "plotly renderer": pio.renderers.default,
        "jax": {k: repr(jax.config.values[k]) for k in sorted(jax.config.values)},
        "environment": dict(os.environ),
        "directory": os.getcwd(),
        "blanket filters of warnings": blanket,
        "recursion limit": sys.getrecursionlimit(),
    }


# --------------------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------------------


def table_ops(rng, model, env):
    import skillmodels as sk
    from skillmodels import correlation_heatmap as ch
    from skillmodels import utilities as ut
    from skillmodels.constraints import add_bounds

    md, df, params = env["md"], env["data"], env["params"]
    T = model.n_periods
    latent, allf = model.latent, model.all_factors
    meas = sorted({str(m) for t, m, k, *_ in model.updates() if k == "measurement"})

    def simulate(policies):
        def func():
            np.random.seed(5)
            out = sk.simulate_dataset(md, params, data=df, policies=policies)
            return out

        return func

    def maximize():
        out = sk.get_maximization_inputs(md, df)
        return {k: out[k] for k in ("constraints", "params_template", "data_aug")
                if k in out}

    ops = {
        "get_maximization_inputs": (maximize, False),
        "filtered states": (lambda: sk.get_filtered_states(md, df, params), False),
        "anchor_states_df": (
            lambda: __import__(
                "skillmodels.filtered_states", fromlist=["x"]
            ).anchor_states_df(env["states"], md, params),
            False,
        ),
        "simulate": (simulate(env["policies"]), True),
        "simulate without policies": (simulate(None), True),
        "measurements corr": (
            lambda: ch.get_measurements_corr(df, md, env["factors"], env["periods"]),
            False,
        ),
        "quasi scores corr": (
            lambda: ch.get_quasi_scores_corr(df, md, env["factors"], env["periods"]),
            False,
        ),
        "scores corr": (
            lambda: ch.get_scores_corr(df, params, md, env["factors"], env["periods"]),
            False,
        ),
        "heatmap": (
            lambda: ch.plot_correlation_heatmap(
                env["corr"],
                heatmap_kwargs=env["kwargs"]["heat"],
                layout_kwargs=env["kwargs"]["layout"],
                show_diagonal=False,
                trim_heatmap=True,
                axes_tick_fontsize=env["kwargs"]["ticks"],
            ),
            False,
        ),
        "update_parameter_values": (
            lambda: ut.update_parameter_values(params, env["others"]),
            False,
        ),
        "add_bounds": (lambda: add_bounds(params, 1e-3), False),
        "reduce_n_periods": (
            lambda: ut.reduce_n_periods(md, max(2, T - 1), params=params),
            False,
        ),
        "reduce_n_periods, same": (lambda: ut.reduce_n_periods(md, T), False),
        "translog to linear": (
            lambda: ut.switch_translog_to_linear(md, params=params), False
        ),
        "linear to translog": (
            lambda: ut.switch_linear_to_translog(md, params=params), False
        ),
        "remove_measurements": (
            lambda: ut.remove_measurements(env["some meas"], md, params=params), False
        ),
        "remove_measurements, spec only": (
            lambda: ut.remove_measurements(env["some meas"], md), False
        ),
    }
    if len(latent) > 1:
        ops["remove_factors"] = (
            lambda: ut.remove_factors(env["some factors"], md), False
        )
        ops["extract_factors"] = (
            lambda: ut.extract_factors(env["some factors"], md), False
        )
    if model.controls:
        ops["remove_controls"] = (
            lambda: ut.remove_controls(env["some controls"], md, params=params), False
        )
    del meas, allf

    def loglike():
        out = sk.get_maximization_inputs(md, df)
        res = [out["loglike"](params), out["debug_loglike"](params)]
        res.append(out["loglike_and_gradient"](params))
        return res

    ops["likelihood functions"] = (loglike, False)
    return ops


def plot_ops(rng, model, env):
    from skillmodels import visualize_factor_distributions as vd
    from skillmodels import visualize_transition_equations as vt

    a = {
        "model_dict": env["md"],
        "data": env["data"],
        "params": env["params"],
        "period": 0,
        "layout_kwargs": env["kwargs"]["layout"],
    }

    def averaged():
        np.random.seed(3)
        return vt.get_transition_plots(
            **a, n_points=3, quantiles_of_other_factors=None, n_draws=3
        )

    env["trans"] = vt.get_transition_plots(**a, n_points=3)
    env["kde"] = vd.univariate_densities(**a)
    env["contours"] = vd.bivariate_density_contours(**a, n_points=3)
    env["surfaces"] = vd.bivariate_density_surfaces(**a, n_points=3)
    return {
        "transition plots": (
            lambda: vt.get_transition_plots(
                **a, n_points=3, quantiles_of_other_factors=env["quantiles"]
            ),
            False,
        ),
        "transition plots, averaged": (averaged, True),
        "combine transition plots": (
            lambda: vt.combine_transition_plots(
                env["trans"],
                column_order=env["factors"],
                factor_mapping=env["mapping"],
                layout_kwargs=env["kwargs"]["layout"],
                legend_kwargs=env["kwargs"]["legend"],
                title_kwargs=env["kwargs"]["title"],
                make_subplot_kwargs=env["kwargs"]["subplots"],
            ),
            False,
        ),
        "univariate densities": (
            lambda: vd.univariate_densities(
                **a, states=env["states"], distplot_kwargs=env["kwargs"]["dist"]
            ),
            False,
        ),
        "univariate densities of scenarios": (
            lambda: vd.univariate_densities(
                **a, states=env["scenarios"], observed_factors=True
            ),
            False,
        ),
        "contours": (
            lambda: vd.bivariate_density_contours(
                **a, n_points=3, contour_kwargs=env["kwargs"]["contour"]
            ),
            False,
        ),
        "contours of scenarios": (
            lambda: vd.bivariate_density_contours(
                **a, n_points=3, states=env["scenarios"], factors=env["factors"]
            ),
            False,
        ),
        "surfaces": (
            lambda: vd.bivariate_density_surfaces(
                **a, n_points=3, states=env["states"], observed_factors=True
            ),
            False,
        ),
        "combine distribution plots": (
            lambda: vd.combine_distribution_plots(
                env["kde"],
                env["contours"],
                env["surfaces"],
                factor_order=env["latent"],
                factor_mapping=env["mapping"],
                layout_kwargs=env["kwargs"]["layout"],
                legend_kwargs=env["kwargs"]["legend"],
                title_kwargs=env["kwargs"]["title"],
                make_subplot_kwargs=env["kwargs"]["subplots"],
            ),
            False,
        ),
    }


def failing_ops(rng, model, env):
    import skillmodels as sk
    from skillmodels import visualize_transition_equations as vt

    md, df, params = env["md"], env["data"], env["params"]

    def bad_data():
        sk.get_maximization_inputs(md, env["bad data"])

    def bad_spec():
        sk.get_maximization_inputs(env["bad md"], df)

    def bad_params():
        sk.get_maximization_inputs(md, df)["loglike"](env["bad params"])

    def bad_period():
        vt.get_transition_plots(md, params, df, period=model.n_periods)

    def bad_sim():
        sk.simulate_dataset(md, env["bad params"], data=df)

    return {
        "unusable data": bad_data,
        "invalid specification": bad_spec,
        "incomplete parameters": bad_params,
        "wrong period": bad_period,
    }


def run_case(case, mon):
    import skillmodels as sk

    rng = gen.case_rng(case)
    model = gen.make_model(
        rng,
        n_latent=(2, 2, 3) if case["part"] == "plots" else (1, 2, 2, 3),
        kinds=("linear", "translog", "log_ces", "custom_states"),
    )
    values = gen.make_params(rng, model)
    panel = gen.make_panel(rng, model, n_obs=12, absent_rows=False)
    for f in model.observed:
        panel.values[f] = rng.normal(size=panel.values[f].shape)
    df = gen.to_frame(
        panel, rng, ids=[2 * i + 3 for i in range(12)], shuffle_rows=True
    )
    loose = [c for c in model.controls if c not in model.observed]
    if loose and rng.random() < 0.5:
        df.iloc[0, df.columns.get_loc(loose[0])] = np.nan
    params = gen.params_frame(values, rng=rng, extra_columns=True)
    mon.context(model=model.describe())

    # calls that prepare the inputs of other functions count, too
    base = {"md": model.model_dict, "data": df, "params": params}
    start = {k: freeze(v) for k, v in base.items()}

    latent = model.latent
    with warnings.catch_warnings():
        states = sk.get_filtered_states(model.model_dict, df, params)
    states = states["anchored_states"]["states"]
    meas = {m for t, m, k, *_ in model.updates() if k == "measurement"}
    meas = sorted(meas, key=str)
    bad_md = copy.deepcopy(model.model_dict)
    bad_md["factors"][latent[0]]["measurements"] = "abc"
    bad_data = df.drop(columns=[meas[0]])
    pol = [
        {
            "period": int(rng.integers(model.n_periods)),
            "factor": latent[int(rng.integers(len(latent)))],
            "effect_size": 0.3 * i,
            "standard_deviation": 0.1 * i,
        }
        for i in range(int(rng.integers(1, 5)))
    ]
    corr = pd.DataFrame(
        np.corrcoef(rng.normal(size=(4, 9))), index=list("abcd"), columns=list("abcd")
    )
    env = {
        "md": model.model_dict,
        "data": df,
        "params": params,
        "states": states,
        "policies": pol,
        "factors": list(latent[:2])[:: -1 if rng.random() < 0.5 else 1],
        "latent": list(latent),
        "periods": [1, 0] if rng.random() < 0.5 else [0, 1],
        "corr": corr,
        "others": [
            params[["value"]].iloc[: len(params) // 2] + 1,
            params[["value"]].iloc[2:5],
        ],
        "some meas": [meas[-1]],
        "some factors": [latent[-1]],
        "some controls": list(model.controls[:1]),
        "scenarios": {"a": states, "b": states.copy()},
        "mapping": {latent[0]: "first"},
        "quantiles": [0.2, 0.5],
        "bad md": bad_md,
        "bad data": bad_data,
        "bad params": params.iloc[3:],
        "kwargs": {
            "heat": {"xgap": 1},
            "layout": {"height": 400},
            "ticks": [9, 9],
            "legend": {"x": 0.5},
            "title": {"text": "t"},
            "subplots": {"horizontal_spacing": 0.1},
            "contour": {"line_width": 2},
            "dist": {"bin_size": 0.2},
        },
    }
    with warnings.catch_warnings():
        if case["part"] == "tables":
            ops = table_ops(rng, model, env)
        else:
            ops = plot_ops(rng, model, env)
    bad = failing_ops(rng, model, env)
    for k, v in base.items():
        mon.check(
            "inputs unchanged", same(freeze(v), start[k]), f"preparation modified '{k}'"
        )
    snapshot = {k: freeze(v) for k, v in env.items()}
    first, kept = {}, {}
    names = list(ops)
    order = [names[i] for i in rng.permutation(len(names))]
    order += [names[i] for i in rng.integers(len(names), size=case["ops"])]
    order = order[: case["ops"]]

    def inputs_same(what, name):
        for k, v in env.items():
            mon.check(
                what,
                same(freeze(v), snapshot[k]),
                f"{name} modified the input '{k}'",
                now=v if not hasattr(v, "to_plotly_json") else k,
            )

    def settings_same(config, name):
        for k, v in settings().items():
            mon.check(
                "settings unchanged",
                v == config[k],
                f"{name} changed the global setting '{k}'",
                before=config[k],
                after=v,
            )

    for step, name in enumerate(order):
        func, is_random = ops[name]
        if rng.random() < 0.25:
            bname = list(bad)[int(rng.integers(len(bad)))]
            before, config = rng_state(), settings()
            try:
                with warnings.catch_warnings():
                    bad[bname]()
            except Exception:  # noqa: BLE001
                mon.observed("failing calls")
            settings_same(config, bname)
            inputs_same("inputs unchanged by failing call", bname)
            mon.check("random state unchanged", before == rng_state(), bname)
        before, config = rng_state(), settings()
        with warnings.catch_warnings():
            filters = list(warnings.filters)
            result = func()
            settings_same(config, name)
            if name in SEEN:
                mon.check(
                    "filters of warnings unchanged",
                    warnings.filters == filters,
                    f"{name} changed the filters of warnings",
                    new=[f for f in warnings.filters if f not in filters],
                )
            SEEN.add(name)
        if not is_random:
            mon.check("random state unchanged", before == rng_state(), name)
        inputs_same("inputs unchanged", name)
        frozen = freeze(result)
        if name in first:
            mon.check(
                "repeated call gives equal result", same(frozen, first[name]), name
            )
        else:
            first[name] = frozen
        for other, (res, fro) in kept.items():
            mon.check(
                "earlier results unchanged",
                same(freeze(res), fro),
                f"{other} changed by {name}",
            )
        mon.feature(name)
        if rng.random() < 0.5:
            kept[name] = (result, frozen)
        else:
            overwrite(result)
            kept.pop(name, None)
            inputs_same("result does not alias inputs", name)
            if case["part"] == "tables" and name != "likelihood functions":
                with warnings.catch_warnings():
                    again = freeze(func())
                mon.check(
                    "repeated call gives equal result",
                    same(again, frozen),
                    f"{name} after its result was overwritten",
                )
    mon.nontrivial = True
    mon.sign(case["seed"], model.describe())
    mon.sample = {"calls": order}
