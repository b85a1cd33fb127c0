"""C24: transition plots show the estimated transition equations."""
import numpy as np
import pandas as pd

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random models with all kinds of transition functions, mixtures, anchoring and "
    "observed factors. Every point of every plot (fixed quantiles, averages over all, "
    "all but one, or one drawn individual) is recomputed from the reference filter and "
    "the parameters; combined figures with random orders, subsets, missing plots and "
    "name mappings are inspected cell by cell. Non-trivial: at least two factors."
)
ASSUMPTIONS = [
    "number of draws is at most the number of individuals",
    "custom state ranges cover at least one factor",
]
REQUIRED = [
    "points at fixed quantiles",
    "points averaged over draws",
    "keys",
    "axis titles",
    "cells of combined figure",
    "titles of combined figure",
    "period without transition is rejected",
]


def cases(tier, rng):
    n = 32 if tier == "quick" else 700
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = {"n_periods": (2, 3, 4), "n_mixtures": (1, 1, 2)}
        if i % 3:
            opts["n_latent"] = (2, 3)
        if i % 2:
            opts["n_observed"] = (1, 2)
        out.append({"seed": s, "opts": opts})
    return out


def traces(fig):
    return [
        (np.array(d.x, dtype=float), np.array(d.y, dtype=float), d.name)
        for d in fig.data
    ]


def run_case(case, mon):
    from skillmodels.visualize_transition_equations import combine_transition_plots
    from skillmodels.visualize_transition_equations import get_transition_plots

    rng, model, values, panel = sm.draw(case, panel_absent_rows=False)
    mon.context(model=model.describe())
    n, T = panel.n_obs, model.n_periods
    df = gen.to_frame(panel, rng, ids=[3 * i + 2 for i in range(n)], shuffle_rows=True)
    params = gen.params_frame(values, rng=rng)
    fs = ref.filtered_states(model, ref.run_filter(model, values, panel))
    scale, const = ref.anchoring_arrays(model, values)
    allf = model.all_factors

    def states_in(t):
        latent = fs[t] * scale[t] + const[t]
        obs = [panel.values[f][:, t] for f in model.observed]
        return np.column_stack([latent, *obs])

    def curve(out_fac, t, x_all):
        p = {
            k[3]: v
            for k, v in values.items()
            if k[0] == "transition" and k[1] == t and k[2] == out_fac
        }
        return gen.ref_transition(
            model.kinds[out_fac], x_all, p, allf, out_fac, model.custom_args[out_fac]
        )

    kw = {"rtol": 1e-6, "atol": 1e-6}
    common = {"model_dict": model.model_dict, "params": params, "data": df}

    for period in (T - 1, T + 1):
        try:
            get_transition_plots(period=period, **common)
            ok = False
        except ValueError:
            ok = True
        mon.check("period without transition is rejected", ok, f"{period}")

    plots = None
    for rep in range(3):
        t = int(rng.integers(T - 1))
        st = states_in(t)
        if (np.ptp(st, axis=0) < 1e-6).any():
            # nobody reports anything
            mon.feature("states without spread")
            continue
        n_points = int(rng.choice([2, 5, 20]))
        args = {"period": t, "n_points": n_points}
        bounds = {f: (st[:, i].min(), st[:, i].max()) for i, f in enumerate(allf)}
        if rng.random() < 0.3:
            # ranges of some factors, of all latent factors, or of all factors
            ranges = {}
            some = [allf[i] for i in rng.permutation(len(allf))]
            some = some[: int(rng.integers(1, len(allf) + 1))]
            for f in [some, model.latent, allf][int(rng.integers(3))]:
                low = rng.normal(-1, 0.3, T)
                up = low + rng.uniform(0.5, 3, T)
                bounds[f] = (low[t], up[t])
                ranges[f] = pd.DataFrame(
                    {"minimum": low, "maximum": up},
                    index=pd.Index(range(T), name="period"),
                )
            args["state_ranges"] = ranges
        mode = ["quantiles", "one quantile", "draws"][rep]
        draws = None
        if mode == "quantiles":
            k = int(rng.integers(2, 5))
            qs = [float(q) for q in rng.choice([0, 0.1, 0.25, 0.5, 0.8, 1], k, False)]
            args["quantiles_of_other_factors"] = (
                tuple(qs) if rng.random() < 0.5 else list(qs)
            )
            if rng.random() < 0.3:
                del args["quantiles_of_other_factors"]
                qs = [0.25, 0.5, 0.75]
        elif mode == "one quantile":
            qs = [float(rng.choice([0, 0.3, 0.5, 1]))]
            args["quantiles_of_other_factors"] = [qs[0], qs, tuple(qs)][
                int(rng.integers(3))
            ]
        else:
            args["quantiles_of_other_factors"] = None
            draws = int(rng.choice([1, n - 1, n]))
            args["n_draws"] = draws
        if rng.random() < 0.3:
            args["layout_kwargs"] = {"height": 217}
        mon.feature(mode, "custom ranges" if "state_ranges" in args else "own ranges")
        mon.context(args=args)
        plots = get_transition_plots(**args, **common)
        exp_keys = {(i, o) for i in allf for o in model.latent}
        mon.equal("keys", set(plots), exp_keys)
        for (inp, out), fig in plots.items():
            j = allf.index(inp)
            grid = np.linspace(*bounds[inp], n_points)
            mon.equal("axis titles", fig.layout.xaxis.title.text, inp, "x")
            mon.equal("axis titles", fig.layout.yaxis.title.text, out, "y")
            if "layout_kwargs" in args:
                mon.equal("layout", fig.layout.height, 217)
            got = traces(fig)
            where = f"{inp} -> {out} in {t}"
            if draws is None:
                mon.equal("number of lines", len(got), len(qs), where)
                for pos, q in enumerate(qs):
                    full = np.repeat(np.quantile(st, q, axis=0)[None], n_points, 0)
                    full[:, j] = grid
                    if len(qs) > 1:
                        hits = [g for g in got if float(g[2]) == q]
                        mon.equal("number of lines", len(hits), 1, f"{q}")
                        x, y, _ = hits[0]
                    else:
                        x, y, _ = got[pos]
                    what = "points at fixed quantiles"
                    mon.close(what, x, grid, f"x {where}", **kw)
                    mon.close(what, y, curve(out, t, full), f"y {where} {q}", **kw)
            else:
                mon.equal("number of lines", len(got), 1, where)
                x, y, _ = got[0]
                full = np.repeat(st[:, None], n_points, axis=1)
                full[:, :, j] = grid
                lines = curve(out, t, full)
                what = "points averaged over draws"
                mon.close(what, x, grid, f"x {where}", **kw)
                if draws == n:
                    mon.close(what, y, lines.mean(axis=0), f"y {where}", **kw)
                    continue
                lone = y if draws == 1 else lines.sum(axis=0) - (n - 1) * y
                dist = np.abs(lines - lone).max(axis=1).min()
                mon.check(
                    what,
                    dist < 1e-5 * (1 + np.abs(lines).max()) * n,
                    f"y {where} is not the average over {draws} of {n} individuals",
                    distance=dist,
                )

    # combined figures
    for rep in range(2 if plots else 0):
        sub = dict(plots)
        if rng.random() < 0.4 and len(sub) > 1:
            sub.pop(list(sub)[int(rng.integers(len(sub)))])
        cargs = {}
        cols = list(dict.fromkeys(k[0] for k in sub))
        rows = list(dict.fromkeys(k[1] for k in sub))
        if rng.random() < 0.6:
            k = int(rng.integers(1, len(allf) + 1))
            cols = [allf[i] for i in rng.permutation(len(allf))[:k]]
            cargs["column_order"] = cols[0] if k == 1 and rep else list(cols)
        if rng.random() < 0.6:
            k = int(rng.integers(1, len(model.latent) + 1))
            rows = [model.latent[i] for i in rng.permutation(len(model.latent))[:k]]
            cargs["row_order"] = rows[0] if k == 1 and rep else list(rows)
        mapping = {f: f for f in allf}
        if rng.random() < 0.6:
            given = {f: f"name of {i}" for i, f in enumerate(allf) if rng.random() < 0.6}
            mapping.update(given)
            cargs["factor_mapping"] = given
        if rng.random() < 0.5:
            cargs["sharex"] = bool(rng.integers(2))
            cargs["sharey"] = bool(rng.integers(2))
        if rng.random() < 0.5:
            cargs["title_kwargs"] = {"text": "the title"}
        legend = bool(rng.integers(2))
        if not legend or rng.random() < 0.5:
            cargs["showlegend"] = legend
        if rng.random() < 0.4:
            cargs["layout_kwargs"] = {"width": 555}
        mon.context(combine=cargs)
        fig = combine_transition_plots(sub, **cargs)
        total = 0
        for r, out in enumerate(rows):
            for c, inp in enumerate(cols):
                got = list(fig.select_traces(row=r + 1, col=c + 1))
                want = sub[(inp, out)].data if (inp, out) in sub else ()
                total += len(want)
                where = f"row {r} col {c}"
                mon.equal("cells of combined figure", len(got), len(want), where)
                for g, w in zip(got, want):
                    a = (list(g.x), list(g.y), g.name)
                    b = (list(w.x), list(w.y), w.name)
                    mon.equal("cells of combined figure", a, b, where)
                    if (r, c) != (0, 0):
                        mon.equal("one legend", g.showlegend, False, where)
                plot = fig.get_subplot(r + 1, c + 1)
                mon.equal(
                    "titles of combined figure",
                    plot.xaxis.title.text,
                    mapping[inp],
                    where,
                )
                mon.equal(
                    "titles of combined figure",
                    plot.yaxis.title.text,
                    mapping[out] if c == 0 else None,
                    where,
                )
        mon.equal("cells of combined figure", len(fig.data), total, "all")
        mon.equal("layout", fig.layout.showlegend, legend, "legend")
        if "title_kwargs" in cargs:
            mon.equal("layout", fig.layout.title.text, "the title")
        width = 555 if "layout_kwargs" in cargs else 300 * len(cols)
        mon.equal("layout", fig.layout.width, width, "width")
        mon.equal("layout", fig.layout.height, 300 * len(rows), "height")
    sm.finish(mon, model, values, panel, len(allf) > 1)
