"""C23: heatmaps display exactly the requested part of the correlations."""
import numpy as np
import pandas as pd

from vf import gen

RULE = (
    "Random correlation tables (1 to 9 variables, missing entries, whole rows missing, "
    "odd names) are plotted with random display options. The trace, the axes and the "
    "annotations of the returned figure are compared cell by cell with the table. "
    "Non-trivial: something is displayed."
)
ASSUMPTIONS = ["variables with the same name are the same variable"]
REQUIRED = [
    "displayed cells",
    "axis labels",
    "annotations",
    "colour range",
    "options are passed on",
    "table unchanged",
]
NAMES = ["a", "b b", "it's", "m, 0", "m, 1", "f1", "ünï", "nan_", "x1", "constant", "Z"]


def cases(tier, rng):
    n = 640 if tier == "quick" else 4000
    return [{"seed": s} for s in gen.seeds(rng, n)]


def make_table(rng):
    k = int(rng.integers(1, 10))
    scale = rng.choice([0.05, 0.5, 1.0])
    a = rng.normal(size=(k, k + 3)) * 0.6 + scale * rng.normal(size=(1, k + 3))
    c = np.corrcoef(a).reshape(k, k)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    if rng.random() < 0.2:
        c[~np.eye(k, dtype=bool)] *= 0.01
    if rng.random() < 0.4:
        m = rng.random((k, k)) < 0.2
        c[m | m.T] = np.nan
    if rng.random() < 0.3:
        i = int(rng.integers(k))
        c[i] = np.nan
        c[:, i] = np.nan
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:k]]
    if k > 1 and rng.random() < 0.2:
        # measurements of several factors appear several times
        i = int(rng.integers(k))
        pos = [*range(k), i] if i != k - 1 else [i, *range(k)]
        c = c[np.ix_(pos, pos)]
        names = [names[j] for j in pos]
    return pd.DataFrame(c, index=names, columns=names)


def one(rng, mon):
    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    corr = make_table(rng)
    before = corr.copy(deep=True)
    k = len(corr)
    diag, upper, trim = (bool(v) for v in rng.integers(2, size=3))
    digits = int(rng.integers(0, 5))
    annotate = bool(rng.integers(2))
    kw = {
        "rounding": digits,
        "show_diagonal": diag,
        "show_upper_triangle": upper,
        "trim_heatmap": trim,
        "annotate": annotate,
    }
    if digits == 2 and rng.random() < 0.5:
        del kw["rounding"]
    if annotate and rng.random() < 0.5:
        del kw["annotate"]
    if diag and rng.random() < 0.5:
        del kw["show_diagonal"]
    if upper and rng.random() < 0.5:
        del kw["show_upper_triangle"]
    if not trim and rng.random() < 0.5:
        del kw["trim_heatmap"]
    limits = {}
    if rng.random() < 0.3:
        limits["zmax"] = float(rng.uniform(0.3, 2))
    if rng.random() < 0.3:
        limits["zmin"] = float(-rng.uniform(0, 2))
    if rng.random() < 0.3:
        limits["zmid"] = float(rng.uniform(-0.3, 0.3))
    if rng.random() < 0.2:
        # zero is not the same as not given
        limits[str(rng.choice(["zmin", "zmin", "zmid", "zmax"]))] = [0, 0.0][
            int(rng.integers(2))
        ]
    if rng.random() < 0.1:
        # only correlations between 0.2 and 0.6 matter
        limits.update(zmin=0.2, zmax=0.6, zmid=0.4)
    kw.update(limits)

    # what has to be displayed
    show = np.tril(np.ones((k, k), dtype=bool), -1)
    if upper:
        show |= show.T
    if diag:
        show |= np.eye(k, dtype=bool)
    vals = np.where(show, np.round(before.to_numpy(), digits), np.nan)
    rows, cols = np.arange(k), np.arange(k)
    if trim:
        seen = np.isfinite(vals)
        rows, cols = rows[seen.any(axis=1)], cols[seen.any(axis=0)]
    names = np.array(before.index, dtype=object)
    exp = vals[np.ix_(rows, cols)]
    off = names[rows][:, None] != names[cols][None, :]
    shown_off = np.abs(exp[off & np.isfinite(exp)])

    # options
    opts, checks = {}, []
    if rng.random() < 0.5:
        opts["colorscale"] = "Viridis"
        checks.append(("colorscale", None))
    show_bar = bool(rng.integers(2))
    if not show_bar or rng.random() < 0.5:
        opts["show_color_bar"] = show_bar
    size, angle, color = [(11, 14), (30, 60), ("red", "blue")]
    as_dict = bool(rng.integers(2))
    ticks = rng.random() < 0.5
    if ticks:
        conv = (lambda v: {"x": v[0], "y": v[1]}) if as_dict else (lambda v: v)
        opts["axes_tick_fontsize"] = conv(size)
        opts["axes_tick_label_angle"] = conv(angle)
        opts["axes_tick_label_color"] = conv(color)
    font = rng.random() < 0.5
    if font:
        opts["annotation_fontsize"] = 17
        opts["annotation_text_color"] = "green"
        opts["annotation_text_angle"] = 45
    override_layout = rng.random() < 0.5
    if override_layout:
        opts["layout_kwargs"] = {"title": "some title", "template": "plotly_dark"}
    override_heat = rng.random() < 0.4
    if override_heat:
        opts["heatmap_kwargs"] = {"zmax": 3.5, "xgap": 2}
    kw.update(opts)
    mon.context(corr=before, options=kw)

    fig = plot_correlation_heatmap(corr, **kw)

    mon.equal("number of traces", len(fig.data), 1)
    heat = fig.data[0]
    mon.equal("axis labels", list(heat.x), list(names[cols]), "columns")
    mon.equal("axis labels", list(heat.y), list(names[rows]), "rows")
    mon.equal("axis labels", fig.layout.yaxis.autorange, "reversed", "first row on top")
    z = np.array(heat.z, dtype=float).reshape(len(rows), len(cols))
    mon.close("displayed cells", z, exp, "", rtol=0, atol=1e-9)

    # colours
    if override_heat:
        mon.equal("options are passed on", (heat.zmax, heat.xgap), (3.5, 2), "heatmap")
    else:
        zmax = limits.get("zmax", shown_off.max() if len(shown_off) else None)
        if zmax is not None:
            mon.close("colour range", heat.zmax, zmax, "zmax", atol=1e-9)
            zmin = limits.get("zmin", -zmax)
            mon.close("colour range", heat.zmin, zmin, "zmin", atol=1e-9)
        else:
            ok = np.isfinite(heat.zmax) and heat.zmax >= 0
            mon.check("colour range", ok, "finite", zmax=heat.zmax)
    mon.close("colour range", heat.zmid, limits.get("zmid", 0), "zmid", atol=1e-12)
    mon.equal("options are passed on", heat.showscale, opts.get("show_color_bar", True))
    if "colorscale" in opts:
        first = heat.colorscale[0][1]
        mon.equal("options are passed on", first, "#440154", "colorscale")

    # annotations
    if annotate:
        got, want, cells = {}, {}, {}
        for ann in fig.layout.annotations:
            got.setdefault((ann.y, ann.x), []).append(ann)
        for i, r in enumerate(names[rows]):
            for j, c in enumerate(names[cols]):
                cells[(r, c)] = cells.get((r, c), 0) + 1
                if np.isfinite(exp[i, j]):
                    want.setdefault((r, c), []).append(exp[i, j])
        for key, anns in got.items():
            mon.check("annotations", len(anns) <= cells.get(key, 0), f"repeated {key}")
        for key in cells:
            texts = [a.text for a in got.get(key, []) if a.text not in ("", None)]
            val = sorted(want.get(key, []))
            mon.equal("annotations", len(texts), len(val), f"number in {key}")
            if val:
                shown = sorted(float(t) for t in texts)
                mon.close("annotations", shown, val, f"{key}", atol=1e-9)
        extra = set(got) - set(cells)
        mon.equal("annotations", extra, set(), "outside of the heatmap")
        if font and got:
            a = next(iter(got.values()))[0]
            mon.equal(
                "options are passed on",
                (a.font.size, a.font.color, a.textangle),
                (17, "green", 45),
                "annotations",
            )
    else:
        mon.equal("annotations", len(fig.layout.annotations), 0, "switched off")

    # axes and layout
    if ticks:
        for i, ax in enumerate([fig.layout.xaxis, fig.layout.yaxis]):
            mon.equal(
                "options are passed on",
                (ax.tickfont.size, ax.tickangle, ax.tickfont.color),
                (size[i], angle[i], color[i]),
                "ticks",
            )
    else:
        mon.equal("options are passed on", fig.layout.xaxis.tickangle, 90, "default")
        mon.equal("options are passed on", fig.layout.yaxis.tickangle, 0, "default")
    if override_layout:
        mon.equal("options are passed on", fig.layout.title.text, "some title")
    mon.equal("options are passed on", fig.layout.xaxis.showgrid, False, "grid")
    same = corr.equals(before) and list(corr.columns) == list(before.columns)
    mon.check("table unchanged", same, "modified")
    mon.feature(f"diag={diag}", f"upper={upper}", f"trim={trim}", f"n={k}")
    return np.isfinite(exp).any()


def run_case(case, mon):
    rng = gen.case_rng(case)
    shown = [one(rng, mon) for _ in range(5)]
    mon.nontrivial = any(shown)
    mon.sign(case["seed"])
    mon.sample = {"tables": 5}
