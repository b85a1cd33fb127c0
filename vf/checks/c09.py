"""C09: labels and layout of the panel do not matter, only its content does."""
import numpy as np
import pandas as pd

from vf import gen
from vf import sm

RULE = (
    "The same panel is given to the code in randomly composed layouts (row and column "
    "order, ids and periods of several types with gaps, level names, unused levels, "
    "additional variables, later periods, dtypes, values of variables in periods in "
    "which the model does not use them). Contributions have to be those of the plain "
    "layout, ordered by id. Non-trivial: layout differs from the plain one."
)
ASSUMPTIONS = ["ids and periods are sortable", "every period of the model occurs"]
REQUIRED = ["layout is irrelevant", "contributions are ordered by id"]


# names that could collide with names the code uses internally
RESERVED = ["constant", "index", "level_0", "value", "variable", "name1", "__id__"]


def cases(tier, rng):
    n = 36 if tier == "quick" else 700
    return [{"seed": s} for s in gen.seeds(rng, n)]


def _labels(rng, n, what):
    kind = int(rng.integers(7))
    if kind == 0:
        out = [int(v) for v in np.sort(rng.choice(10 * n + 50, n, replace=False))]
    elif kind == 1:
        out = [int(v) - 5 * n for v in np.sort(rng.choice(10 * n, n, replace=False))]
    elif kind == 2:
        out = [f"{what}{v:04d}" for v in np.sort(rng.choice(9999, n, replace=False))]
    elif kind == 3:
        out = [float(v) / 2 + 0.5 for v in np.sort(rng.choice(50 + n, n, replace=False))]
    elif kind == 6:
        # e.g. household and number of the person, year and quarter
        width = rng.choice([0.01, 0.25, 1e-5])
        first = rng.integers(-3, 2000)
        out = [float(first + width * v)
               for v in np.sort(rng.choice(3 * n, n, replace=False))]
    elif kind == 4:
        days = np.sort(rng.choice(5000, n, replace=False))
        out = [pd.Timestamp("1979-01-01") + pd.Timedelta(days=int(d)) for d in days]
    else:
        out = list(range(1, n + 1))
    return out


def run_case(case, mon):
    rng, model, values, panel = sm.draw(case, panel_absent_rows=None)
    mon.context(model=model.describe())
    base = sm.contributions(model, gen.to_frame(panel), values)
    n, T = panel.n_obs, model.n_periods
    params = gen.params_frame(values)
    for rep in range(2):
        todo = set()
        perm = rng.permutation(n) if rng.random() < 0.6 else np.arange(n)
        ids = _labels(rng, n, "id")
        pers = _labels(rng, T, "wave")
        p2 = panel.take(perm)
        df = gen.to_frame(
            p2, rng, ids=ids, periods=pers, shuffle_cols=bool(rng.integers(2))
        )
        if rng.random() < 0.5:
            # garbage in cells that the model does not use
            todo.add("unused cells")
            used = {}
            for t, _, _, _, col in model.updates():
                used.setdefault(col, set()).add(t)
            pos = {p: i for i, p in enumerate(pers)}
            tt = df.index.get_level_values("period").map(pos)
            for col, ts in used.items():
                mask = ~np.isin(np.asarray(tt), list(ts))
                df.loc[mask, col] = rng.choice([np.nan, 1e9, -3.0])
        if rng.random() < 0.5:
            todo.add("extra columns")
            df["unused"] = rng.normal(size=len(df))
            df["text"] = "a"
            anch = [f"{o}_{f}" for f, o in model.anchoring["outcomes"].items()]
            for name in [*RESERVED, *anch]:
                if rng.random() < 0.3:
                    df[name] = rng.normal(size=len(df))
            if rng.random() < 0.5:
                df["period"] = rng.integers(0, 9, len(df))
            if rng.random() < 0.5:
                df["id"] = rng.integers(0, 9, len(df))
        if rng.random() < 0.4 and isinstance(pers[0], (int, float)):
            todo.add("later periods")
            extra = df.groupby(level=0).tail(1).copy()
            extra.index = pd.MultiIndex.from_arrays(
                [extra.index.get_level_values(0), [max(pers) + 3] * len(extra)],
                names=df.index.names,
            )
            num = [c for c in df.columns if c != "text"]
            extra[num] = rng.normal(0, 100, (len(extra), len(num)))
            df = pd.concat([df, extra])
        if rng.random() < 0.4:
            todo.add("unused levels")
            other = df.iloc[: max(1, len(df) // 10)].copy()
            first = -1e6 if isinstance(ids[0], (int, float)) else ids[0]
            if isinstance(first, float):
                mid = -1 if isinstance(pers[0], (int, float)) else pers[0]
                other.index = pd.MultiIndex.from_arrays(
                    [[first] * len(other), [mid] * len(other)], names=df.index.names
                )
                both = pd.concat([other, df])
                df = both[both.index.get_level_values(0) != first]
        if rng.random() < 0.4:
            todo.add("dtypes")
            cols = [c for c in panel.values if rng.random() < 0.5]
            for c in cols:
                df[c] = df[c].astype(object)
            if model.controls and rng.random() < 0.5:
                c = model.controls[0]
                v = df[c]
                if v.notna().all() and (v == np.floor(v)).all():
                    df[c] = v.astype(int)
            for c in df.columns:
                if df[c].dtype == float and rng.random() < 0.3:
                    todo.add("nullable dtypes")
                    whole = (df[c].dropna() % 1 == 0).all()
                    df[c] = df[c].astype("Int64" if whole else "Float64")
        if rng.random() < 0.5:
            todo.add("level names")
            names = [["period", "id"], [None, None], ["a", "b"], ["id", "id2"]]
            df.index.names = names[int(rng.integers(4))]
            if df.index.names[0] == "period" and "period" in df.columns:
                df.index.names = ["x", "y"]
            if df.index.names[0] == "id" and "id" in df.columns:
                df.index.names = ["x", "y"]
        if rng.random() < 0.7:
            todo.add("row order")
            df = df.iloc[rng.permutation(len(df))]
        mon.feature(*sorted(todo))
        mon.context(layout=(sorted(todo), ids[:3], pers))
        got = np.array(sm.inputs(model, df)["loglike"](params)["contributions"])
        kw = {"rtol": 1e-9, "atol": 1e-9}
        mon.close("layout is irrelevant", np.sort(got), np.sort(base), "", **kw)
        mon.close("contributions are ordered by id", got, base[perm], "", **kw)
    sm.finish(mon, model, values, panel)
