"""C10: unusable data are reported, usable data are accepted silently."""
import warnings

import numpy as np
import pandas as pd

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Valid panels of random models are broken in one or several documented ways "
    "(missing variables, constants, controls or observed factors without values, "
    "duplicated rows, missing controls). The monitor watches which exceptions and "
    "warnings leave get_maximization_inputs and simulate_dataset and which variables, "
    "ids and periods they name. Non-trivial: a defect was injected."
)
ASSUMPTIONS = ["messages of errors contain the names of the offending variables"]
REQUIRED = [
    "defect is reported as ValueError",
    "report names all offending variables",
    "valid data raise no warning",
    "rare events are accepted",
    "missing controls are reported",
    "only affected rows are reported",
    "measurements without controls are ignored",
    "simulation data are checked",
]
KINDS = ["defects", "controls", "simulation"]


def names_it(text, name):
    """Tuples can be printed in several ways"""
    if isinstance(name, tuple):
        drop = str.maketrans("", "", "'\" ")
        return str(name).translate(drop) in text.translate(drop)
    return str(name) in text


def cases(tier, rng):
    n = 150 if tier == "quick" else 1200
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        kind = ["defects", "defects", "controls", "simulation"][i % 4]
        opts = {"n_controls": [1, 2]} if kind == "controls" else {}
        out.append({"seed": s, "kind": kind, "opts": opts})
    return out


def call(func, *args, **kw):
    """returns (result, exception, list of warning messages)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        res, exc = None, None
        try:
            res = func(*args, **kw)
        except Exception as e:  # noqa: BLE001
            exc = e
    msgs = [str(w.message) for w in rec if issubclass(w.category, UserWarning)]
    return res, exc, msgs


def inject(rng, model, df):
    """Break the data. Returns the broken frame, named variables, labels of defects."""
    df = df.copy()
    per = df.index.get_level_values("period")
    names, what = [], []
    used = [(t, col) for t, _, kind, _, col in model.updates() if kind == "measurement"]
    anch = set(model.anchoring["outcomes"].values())
    used = [u for u in used if u[1] not in anch and u[1] in df]
    outcomes = sorted(anch, key=str)
    dropped = set()
    n_def = int(rng.integers(1, 3))
    for _ in range(n_def):
        kind = rng.choice(
            ["no_meas", "no_var", "no_control", "nan_control", "no_obs", "nan_obs",
             "no_outcome"]
        )
        if kind in ("no_meas", "no_var") and used:
            t, col = used[int(rng.integers(len(used)))]
            if col in dropped:
                continue
            if kind == "no_meas":
                df = df.drop(columns=[col])
                dropped.add(col)
            else:
                df[col] = df[col].mask(per == t, float(rng.choice([0.0, 1.5, -3])))
                if rng.random() < 0.5:
                    hit = np.flatnonzero(per == t)[: max(1, (per == t).sum() // 2)]
                    df.iloc[hit, df.columns.get_loc(col)] = np.nan
            names.append(col)
        elif kind == "no_outcome" and outcomes:
            col = outcomes[int(rng.integers(len(outcomes)))]
            if col in dropped:
                continue
            df = df.drop(columns=[col])
            dropped.add(col)
            names.append(col)
        elif kind in ("no_control", "nan_control") and model.controls:
            col = model.controls[int(rng.integers(len(model.controls)))]
            if col in dropped:
                continue
            if kind == "no_control":
                df = df.drop(columns=[col])
                dropped.add(col)
            else:
                df.loc[per == int(rng.integers(model.n_periods)), col] = np.nan
            names.append(col)
        elif kind in ("no_obs", "nan_obs") and model.observed:
            col = model.observed[int(rng.integers(len(model.observed)))]
            if col in dropped:
                continue
            if kind == "no_obs":
                df = df.drop(columns=[col])
                dropped.add(col)
            else:
                df.iloc[int(rng.integers(len(df))), df.columns.get_loc(col)] = np.nan
            names.append(col)
        else:
            continue
        what.append(str(kind))
    return df, names, what


def run_case(case, mon):
    # users can choose how pandas prints objects
    rows = [60, 4, 10][case["seed"] % 3]
    with pd.option_context("display.max_rows", rows, "display.min_rows", rows):
        _run_case(case, mon)


def _run_case(case, mon):
    from skillmodels import simulate_dataset

    kind = case["kind"]
    mon.feature(kind)
    many = {}
    if kind in ("controls", "defects") and case["seed"] % 4 == 0:
        many = {"panel_n_obs": [150, 150, 450][case["seed"] % 3]}
    rng, model, values, panel = sm.draw(case, **many, roles=0)
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng, shuffle_rows=True)
    nontrivial = True
    if kind == "defects":
        absent = not panel.present.all()
        _, exc, msgs = call(sm.inputs, model, df)
        mon.check("valid data raise no error", exc is None, "", exc=exc)
        mon.check("valid data raise no warning", not msgs or absent, "", msgs=msgs)
        for _ in range(6):
            bad, names, what = inject(rng, model, df)
            if not what:
                continue
            mon.feature(*what)
            mon.context(defects=(what, names))
            _, exc, _ = call(sm.inputs, model, bad)
            mon.check(
                "defect is reported as ValueError",
                isinstance(exc, ValueError),
                f"{what} of {names}",
                exc=exc,
            )
            mon.check(
                "report names all offending variables",
                all(names_it(str(exc), n) for n in names),
                f"{what} of {names}",
                exc=exc,
            )
        # nothing can be used
        _, exc, _ = call(sm.inputs, model, df[[]])
        mon.check("defect is reported as ValueError", isinstance(exc, ValueError), "",
                  exc=exc)
        lines = str(exc).splitlines()
        for u in model.updates():
            mon.check("report names all offending variables",
                      any(names_it(line, u[1]) for line in lines), f"{u}", exc=exc)
        want = [u[1] for u in model.updates()]
        want += (model.controls + model.observed) * model.n_periods
        for name in set(want):
            # one line per period in which the variable is needed
            n = sum(names_it(line, name) for line in lines)
            mon.check("report names all offending variables", n >= want.count(name),
                      f"{name} in {n} lines", exc=exc)
        dup = pd.concat([df, df.iloc[[int(rng.integers(len(df)))]]])
        _, exc, _ = call(sm.inputs, model, dup)
        mon.check("duplicated rows are reported", exc is not None, "no error")
        # variables are only checked where they are used
        fine = df.copy()
        used = gen.data_columns(model)
        per = fine.index.get_level_values("period")
        for col, ts in used.items():
            for t in range(model.n_periods):
                if t not in ts:
                    fine[col] = fine[col].mask(per == t, 2.0)
        _, exc, msgs = call(sm.inputs, model, fine)
        mon.check("unused cells are not checked", exc is None, "", exc=exc)
        # any variance is enough
        rare = df.copy()
        anch = set(model.anchoring["outcomes"].values())
        for col, ts in used.items():
            if col in anch or col in model.controls or col in model.observed:
                continue
            for t in ts:
                rows = np.flatnonzero((per == t) & rare[col].notnull().to_numpy())
                if len(rows) < 2:
                    continue
                level = float(rng.choice([0, 0, 1, -3.5]))
                rare.iloc[rows, rare.columns.get_loc(col)] = level
                ids_t = rare.index.get_level_values(0)[rows]
                last = rows[np.argsort(np.asarray(ids_t), kind="stable")[-1]]
                one = last if rng.random() < 0.5 else rows[int(rng.integers(len(rows)))]
                size = float(rng.choice([1, 1, -2, 1e-6]))
                rare.iloc[one, rare.columns.get_loc(col)] = level + size
        _, exc, msgs = call(sm.inputs, model, rare)
        mon.check("rare events are accepted", exc is None, "", exc=exc)
    elif kind == "controls":
        panel.present[:] = True
        for c in model.controls:
            panel.values[c][np.isnan(panel.values[c])] = 0.5
            m = rng.random(panel.values[c].shape) < 0.15
            m[0] = False
            panel.values[c][m] = np.nan
        # some of the rows with missing controls have no measurements either
        for i in range(1, panel.n_obs):
            for t in range(model.n_periods):
                if rng.random() < 0.1:
                    for col in gen.data_columns(model):
                        panel.values[col][i, t] = np.nan
        gen.ensure_variance(rng, model, panel)
        ids = [int(v) for v in 100 + 7 * np.arange(panel.n_obs)]
        pers = [int(v) for v in 1980 + 3 * np.arange(model.n_periods)]
        df = gen.to_frame(panel, rng, ids=ids, periods=pers, shuffle_rows=True)
        expected = []
        for i in range(panel.n_obs):
            for t in range(model.n_periods):
                miss = any(np.isnan(panel.values[c][i, t]) for c in model.controls)
                cols = [u[4] for u in model.updates() if u[0] == t]
                has = any(np.isfinite(panel.values[c][i, t]) for c in cols)
                if miss and has:
                    expected.append((ids[i], pers[t]))
        inp, exc, msgs = call(sm.inputs, model, df)
        mon.check("valid data raise no error", exc is None, "", exc=exc)
        txt = " ".join(msgs).replace(".0", "")
        if expected:
            mon.check("missing controls are reported", bool(msgs), "no warning")
            for i, t in expected:
                mon.check(
                    "missing controls are reported",
                    f"({i}, {t})" in txt,
                    f"row {(i, t)} not named",
                    txt=txt,
                )
        others = {(i, t) for i in ids for t in pers} - set(expected)
        for i, t in others:
            mon.check(
                "only affected rows are reported",
                f"({i}, {t})" not in txt,
                f"row {(i, t)} named",
                txt=txt,
            )
        nontrivial = bool(expected)
        got = inp["loglike"](gen.params_frame(values))["contributions"]
        exp = ref.run_filter(model, values, panel)["contributions"]
        mon.close(
            "measurements without controls are ignored", got, exp, rtol=1e-7, atol=1e-7
        )
    else:
        mon.nontrivial = True
        params = gen.params_frame(values)
        _, exc, _ = call(simulate_dataset, model.model_dict, params)
        mon.check(
            "simulation data are checked",
            isinstance(exc, ValueError),
            "neither n_obs nor data",
            exc=exc,
        )
        if model.controls or model.observed:
            _, exc, _ = call(simulate_dataset, model.model_dict, params, n_obs=5)
            mon.check(
                "simulation data are checked",
                isinstance(exc, ValueError),
                "no data for controls or observed factors",
                exc=exc,
            )
            col = (model.controls + model.observed)[
                int(rng.integers(len(model.controls + model.observed)))
            ]
            _, exc, _ = call(
                simulate_dataset,
                model.model_dict,
                params,
                data=df.drop(columns=[col]),
            )
            mon.check(
                "simulation data are checked",
                isinstance(exc, ValueError) and names_it(str(exc), col),
                f"no column {col}",
                exc=exc,
            )
            # nothing but controls and observed factors is needed
            res = []
            for cols in (list(df.columns), model.controls + model.observed):
                np.random.seed(case["seed"] % 2**31)
                out, exc, _ = call(
                    simulate_dataset, model.model_dict, params, data=df[cols]
                )
                mon.check("controls and observed factors suffice", exc is None, "",
                          exc=exc)
                res.append(out["measurements"].sort_values(["id", "period"]))
            mon.close("measurements are irrelevant", res[1].to_numpy(dtype=float),
                      res[0].to_numpy(dtype=float), "", 0, 0)
        # measurements in the data are irrelevant for a simulation
        for v in gen.data_columns(model):
            df[v] = 1.0
        if panel.present.all():
            res, exc, msgs = call(
                simulate_dataset,
                model.model_dict,
                params,
                data=df,
                n_obs=panel.n_obs + 1,
            )
            mon.check("constants are fine in simulations", exc is None, "", exc=exc)
            mon.check(
                "ignored n_obs is reported",
                any("n_obs" in m for m in msgs),
                "no warning",
                msgs=msgs,
            )
            n = res["measurements"].shape[0]
            mon.check(
                "data determine number of individuals",
                n == panel.n_obs * model.n_periods,
                "",
                n=n,
            )
    sm.finish(mon, model, values, panel, nontrivial, kind=kind)
