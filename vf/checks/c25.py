"""C25: distribution plots show the densities of the states they are asked for."""
import warnings

import numpy as np
import pandas as pd
from scipy.stats import gaussian_kde
from scipy.stats import norm

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random models; filtered states or states made by the monitor (one frame, list or "
    "dict of scenarios), random subsets and orders of latent and observed factors and "
    "periods. All densities are recomputed with SciPy from the known states at the "
    "plotted grid; combined figures are inspected cell by cell. Non-trivial: at least "
    "two factors."
)
ASSUMPTIONS = [
    "outside the cases made for it, states are not degenerate",
    "states given by the user have one row per individual and period and a column id",
]
REQUIRED = [
    "univariate density",
    "contour",
    "surface",
    "keys",
    "axis titles",
    "cells of combined figure",
    "titles of combined figure",
    "cells with degenerate plots",
]


def cases(tier, rng):
    n = 54 if tier == "quick" else 900
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = {"n_latent": (2, 2, 3), "kinds": ["linear", "translog"]}
        if i % 6 == 0:
            opts["n_latent"] = 1
        if i % 2:
            opts["n_observed"] = (1, 2)
        case = {"seed": s, "filtered": i % 3 == 0, "opts": opts}
        if i % 18 in (4, 11):
            # more scenarios than colors in a palette
            case["n_scenarios"] = 12
        out.append(case)
    return out


def is_curve(d):
    return d.type == "scatter" and "lines" in (d.mode or "")


def degenerate(mon, rng, vd, args, latent, factors, m, regular):
    """One factor has no distribution: only the plots with it are empty."""
    bad = latent[int(rng.integers(len(latent)))]
    states = args["states"].copy()
    states[bad] = np.where(states["period"] == args["period"], 0.0, states[bad])
    args = {**args, "states": states}
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        got = [
            vd.univariate_densities(**args),
            vd.bivariate_density_contours(**args, n_points=m),
            vd.bivariate_density_surfaces(**args, n_points=m),
        ]
    what = "plots without the degenerate factor"
    for new, old in zip(got[1:], regular[1:]):
        for pair, fig in old.items():
            if bad not in pair:
                mon.close(what, new[pair].data[0].z, fig.data[0].z, str(pair))
    fig = vd.combine_distribution_plots(*got)
    for r, fr in enumerate(factors):
        for c, fc in enumerate(factors):
            cell = list(fig.select_traces(row=r + 1, col=c + 1))
            if r == c:
                want = len(got[0][fr].data)
            else:
                want = len(got[1 if r > c else 2][(fc, fr)].data)
                mon.feature("empty plot" if want == 0 else "plot")
            mon.equal("cells with degenerate plots", len(cell), want, f"{r} {c}")


def run_case(case, mon):
    from skillmodels import visualize_factor_distributions as vd

    rng, model, values, panel = sm.draw(
        case, panel_absent_rows=False, panel_n_obs=int(gen.case_rng(case).integers(15, 40))
    )
    for f in model.observed:
        panel.values[f] = rng.normal(0, 1, panel.values[f].shape)
    mon.context(model=model.describe())
    n, T = panel.n_obs, model.n_periods
    df = gen.to_frame(panel, rng, ids=[3 * i + 2 for i in range(n)], shuffle_rows=True)
    params = gen.params_frame(values, rng=rng)
    latent = model.latent

    states_by = {}  # scenario -> array (T, n, n_latent)
    surfaces_ok = True
    if case["filtered"]:
        fs = ref.filtered_states(model, ref.run_filter(model, values, panel))
        scale, const = ref.anchoring_arrays(model, values)
        states_by = {"none": {t: fs[t] * scale[t] + const[t] for t in fs}}
        states_arg = None
        kind = "filtered"
    else:
        kind = ["frame", "list", "dict"][int(rng.integers(3))]
        n_scen = 1 if kind == "frame" else int(rng.integers(1, 4))
        if "n_scenarios" in case:
            kind = "list" if kind == "list" else "dict"
            n_scen = case["n_scenarios"]
        names = ["base", "policy 1", "b", *[f"p{i}" for i in range(n_scen)]][:n_scen]
        if kind == "frame":
            names = ["none"]
        elif kind == "list":
            names = list(range(n_scen))
        frames = []
        for s in names:
            arr = rng.normal(size=(T, n, len(latent))) * rng.uniform(0.5, 2)
            arr = arr + rng.normal(size=(1, 1, len(latent)))
            states_by[s] = dict(enumerate(arr))
            parts = []
            for t in range(T):
                part = pd.DataFrame(arr[t], columns=latent)
                part["period"] = t
                part["id"] = np.arange(n)
                parts.append(part)
            frame = pd.concat(parts)
            if rng.random() < 0.5:
                frame = frame.sort_values(["id", "period"])
            elif rng.random() < 0.5:
                # tidy frames have no order
                frame = frame.sample(frac=1, random_state=int(rng.integers(1000)))
            if rng.random() < 0.5:
                frame = frame.reset_index(drop=True)
            frames.append(frame)
        states_arg = {
            "frame": frames[0],
            "list": frames,
            "dict": dict(zip(names, frames)),
        }[kind]
        surfaces_ok = kind == "frame"
    def spread(t):
        for by_period in states_by.values():
            full = [by_period[t], *[panel.values[f][:, [t]] for f in model.observed]]
            full = np.column_stack(full)
            if (full.std(axis=0) < 1e-4).any():
                return False
            eig = np.linalg.eigvalsh(np.atleast_2d(np.corrcoef(full, rowvar=False)))
            if eig[0] < 1e-6:
                return False
        return True

    # nobody reports anything in the other ones
    periods = [t for t in sorted(next(iter(states_by.values()))) if spread(t)]
    if not periods:
        return sm.finish(mon, model, values, panel, False)
    mon.feature(kind)

    for rep in range(2):
        t = int(rng.choice(periods))
        args = {
            "data": df, "model_dict": model.model_dict, "params": params, "period": t,
        }
        if states_arg is not None:
            args["states"] = states_arg
        style = int(rng.integers(3))
        if style == 0:
            factors = list(latent)
        elif style == 1:
            factors = model.all_factors
            args["observed_factors"] = True
        else:
            k = int(rng.integers(1, len(model.all_factors) + 1))
            factors = [
                model.all_factors[i]
                for i in rng.permutation(len(model.all_factors))[:k]
            ]
            args["factors"] = list(factors)
        mon.feature(f"factors {style}", f"observed={set(factors) - set(latent) != set()}")
        mon.context(factors=factors, period=t, kind=kind)

        def column(scen, f):
            if f in latent:
                return states_by[scen][t][:, latent.index(f)]
            return panel.values[f][:, t]

        # univariate
        hist, rug = rng.random() < 0.4, rng.random() < 0.4
        opts = {}
        if hist:
            opts.update(show_hist=True, bin_size=0.4)
        if rug:
            opts["show_rug"] = True
        normal = rng.random() < 0.3
        if normal:
            opts["curve_type"] = "normal"
        kde = vd.univariate_densities(**args, **opts)
        mon.equal("keys", list(kde), list(factors), "univariate")
        for f, fig in kde.items():
            mon.equal("axis titles", fig.layout.xaxis.title.text, f, "univariate")
            mon.equal("axis titles", fig.layout.yaxis.title.text, "Density")
            curves = [d for d in fig.data if is_curve(d)]
            mon.equal("one curve per scenario", len(curves), len(states_by), f)
            for s in states_by:
                if len(states_by) > 1:
                    mine = [d for d in curves if d.name == str(s)]
                    mon.equal("one curve per scenario", len(mine), 1, f"{f} {s}")
                else:
                    mine = curves
                v = column(s, f)
                x, y = np.array(mine[0].x), np.array(mine[0].y)
                exp = norm.pdf(x, *norm.fit(v)) if normal else gaussian_kde(v)(x)
                where = f"{f} {s} in {t}"
                mon.close("univariate density", y, exp, where, rtol=1e-5, atol=1e-7)
                mon.check("grid of density", len(x) > 50 and (np.diff(x) > 0).all())
                mon.close("grid of density", x[0], v.min(), where)
                step = x[1] - x[0]
                mon.close("grid of density", x[-1], v.max(), where, atol=1.5 * step)
            bars = [d for d in fig.data if d.type == "histogram"]
            mon.equal("histograms", len(bars), len(states_by) if hist else 0, f)
            for s, d in zip(states_by, bars):
                v = np.sort(column(s, f))
                mon.close("histograms", np.sort(np.array(d.x)), v, f"{f} {s}")
                mon.close("histograms", d.xbins.size, 0.4)
            marks = [d for d in fig.data if d.type == "scatter" and d.mode == "markers"]
            mon.equal("rugs", len(marks), len(states_by) if rug else 0, f)
            for s, d in zip(states_by, marks):
                v = np.sort(column(s, f))
                mon.close("rugs", np.sort(np.array(d.x)), v, f"{f} {s}")

        # bivariate
        m = int(rng.choice([3, 8]))
        contours = vd.bivariate_density_contours(**args, n_points=m)
        pairs = {(a, b) for a in factors for b in factors if a != b}
        mon.equal("keys", set(contours), pairs, "contours")
        surfaces = None
        if surfaces_ok:
            surfaces = vd.bivariate_density_surfaces(**args, n_points=m)
            mon.equal("keys", set(surfaces), pairs, "surfaces")
        else:
            try:
                vd.bivariate_density_surfaces(**args, n_points=m)
                ok = False
            except ValueError:
                ok = True
            mon.check("surfaces need a frame", ok)
        for a, b in pairs:
            fig = contours[(a, b)]
            mon.equal("axis titles", fig.layout.xaxis.title.text, a, "contour")
            mon.equal("axis titles", fig.layout.yaxis.title.text, b, "contour")
            mon.equal("one contour per scenario", len(fig.data), len(states_by))
            for s, d in zip(states_by, fig.data):
                u, v = column(s, a), column(s, b)
                gx = np.linspace(u.min(), u.max(), m)
                gy = np.linspace(v.min(), v.max(), m)
                where = f"{a}, {b}, {s} in {t}"
                mon.close("contour", d.x, gx, f"x {where}")
                mon.close("contour", d.y, gy, f"y {where}")
                yy, xx = np.meshgrid(gy, gx, indexing="ij")
                dens = gaussian_kde(np.vstack([u, v]))
                exp = dens(np.vstack([xx.ravel(), yy.ravel()])).reshape(m, m)
                mon.close("contour", np.array(d.z), exp, f"z {where}", atol=1e-8)
            if surfaces is not None:
                fig = surfaces[(a, b)]
                mon.equal("axis titles", fig.layout.scene.xaxis.title.text, a, "surface")
                mon.equal("axis titles", fig.layout.scene.yaxis.title.text, b, "surface")
                d = fig.data[0]
                # one- and two-dimensional coordinates are equivalent
                x, y = np.array(d.x, dtype=float), np.array(d.y, dtype=float)
                if x.ndim == 1:
                    x, y = np.meshgrid(x, y)
                z = np.array(d.z)
                mon.close("surface", [x.min(), x.max()], [u.min(), u.max()], where)
                mon.close("surface", [y.min(), y.max()], [v.min(), v.max()], where)
                exp = dens(np.vstack([x.ravel(), y.ravel()])).reshape(z.shape)
                mon.close("surface", z, exp, f"z {where}", atol=1e-8)

        # combined
        order = list(factors)
        cargs = {}
        if rng.random() < 0.6:
            k = int(rng.integers(1, len(factors) + 1))
            order = [factors[i] for i in rng.permutation(len(factors))[:k]]
            cargs["factor_order"] = (
                order[0] if k == 1 and rng.random() < 0.5 else list(order)
            )
        mapping = {f: f for f in factors}
        if rng.random() < 0.6:
            given = {f: f"name of {i}" for i, f in enumerate(factors) if rng.random() < 0.6}
            mapping.update(given)
            cargs["factor_mapping"] = given
        width = float(rng.choice([1.5, 3.0]))
        if width != 1.5:
            cargs["line_width"] = width
        if rng.random() < 0.4:
            cargs["title_kwargs"] = {"text": "the title"}
        if rng.random() < 0.4:
            cargs.update(eye_x=1.1, eye_y=0.7, eye_z=0.3)
        give_surfaces = surfaces is not None and rng.random() < 0.7
        fig = vd.combine_distribution_plots(
            kde, contours, surfaces if give_surfaces else None, **cargs
        )
        what = "cells of combined figure"
        total = 0
        for r, fr in enumerate(order):
            for c, fc in enumerate(order):
                got = list(fig.select_traces(row=r + 1, col=c + 1))
                if r == c:
                    want = kde[fr].data
                elif r > c:
                    want = contours[(fc, fr)].data
                else:
                    want = surfaces[(fc, fr)].data if give_surfaces else ()
                total += len(want)
                where = f"row {r} col {c}"
                mon.equal(what, len(got), len(want), where)
                for g, w in zip(got, want):
                    mon.equal(what, g.type, w.type, where)
                    for att in ("x", "y", "z"):
                        if att in w and w[att] is not None and w.type != "histogram":
                            a = np.array(g[att])
                            mon.check(what, (a == np.array(w[att])).all(), where)
                    if w.type == "scatter" and w.mode == "lines" or w.type == "contour":
                        mon.close("line width", g.line.width, width, where)
                    if (r, c) != (0, 0) and w.type != "surface":
                        mon.equal("one legend", g.showlegend, False, where)
                if r >= c:
                    plot = fig.get_subplot(r + 1, c + 1)
                    ytitle = "Density" if r == c else mapping[fr]
                    what2 = "titles of combined figure"
                    mon.equal(what2, plot.xaxis.title.text, mapping[fc], where)
                    mon.equal(what2, plot.yaxis.title.text, ytitle, where)
                elif give_surfaces and "eye_x" in cargs:
                    eye = fig.get_subplot(r + 1, c + 1).camera.eye
                    mon.equal("camera", (eye.x, eye.y, eye.z), (1.1, 0.7, 0.3))
        mon.equal(what, len(fig.data), total, "all")
        if "title_kwargs" in cargs:
            mon.equal("layout", fig.layout.title.text, "the title")
        mon.equal("layout", fig.layout.width, 300 * len(order), "width")
        if kind == "frame" and rng.random() < 0.5:
            degenerate(mon, rng, vd, args, latent, factors, m, (kde, contours, surfaces))
    sm.finish(mon, model, values, panel, len(model.all_factors) > 1)
