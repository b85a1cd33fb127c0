"""C04: entry points agree, are deterministic and do not remember earlier calls."""
import json
import os
import subprocess
import sys
import threading

import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random models; the functions returned by get_maximization_inputs are called in a "
    "random history (several parameter vectors, several entry points, a second model "
    "built in between, a second set of inputs from the same arguments). Each returned "
    "value is compared with the first value recorded for the same parameters. Other "
    "executions evaluate several similar models (same dimensions, other options, "
    "technologies, functions or data) in one process and in the opposite order in a "
    "fresh process with another hash seed; both have to report the same. "
    "In further executions the specification, "
    "the data or the parameters are modified in place between calls of several public "
    "functions, whose results have to be those for fresh copies. Calls from six threads "
    "at a time (with a minimal switch interval) have to agree with single calls. "
    "Non-trivial: at least two parameter vectors with different values were used."
)
ASSUMPTIONS = []
REQUIRED = [
    "repeated call identical",
    "debug agrees",
    "gradient entry agrees",
    "dtype",
    "frame changed in place",
    "fresh process agrees",
    "concurrent calls agree",
    "changed in place like new",
]


def cases(tier, rng):
    n, m = (24, 8) if tier == "quick" else (300, 60)
    out = [{"seed": s} for s in gen.seeds(rng, n)]
    new = [{"seed": s, "history": True} for s in gen.seeds(rng, m)]
    place = [{"seed": s, "place": True} for s in gen.seeds(rng, m)]
    return [
        *new[: m // 2], *place[: m // 2], *out[: n // 2],
        *new[m // 2 :], *place[m // 2 :], *out[n // 2 :],
    ]


# --------------------------------------------------------------------------------------
# similar models in one process and in a fresh process
# --------------------------------------------------------------------------------------


def variants(case):
    """Similar models with parameters and data, drawn from the seed of the case only"""
    rng = gen.case_rng(case)
    dims = {
        "n_latent": int(rng.integers(1, 3)),
        "n_observed": int(rng.integers(0, 2)),
        "n_controls": int(rng.integers(0, 2)),
        "n_periods": int(rng.integers(2, 4)),
        "n_mixtures": int(rng.integers(1, 3)),
        "names": "plain",
    }
    seed = int(rng.integers(2**31))
    kinds = ("translog", "log_ces", "log_ces_general", "linear_and_squares")
    kinds += ("custom_named", "custom_states")
    out = []
    base = None
    for i in range(3):
        r = np.random.default_rng(seed if rng.random() < 0.6 else seed + i)
        options = {
            "sigma_points_scale": float([2, 0.5, 3.7][i]),
            "clipping_upper_bound": float(rng.choice([0.5, 1e30])),
            "clipping_lower_hardness": float(rng.choice([1, 3])),
        }
        model = gen.make_model(r, kinds=kinds, options=options, **dims)
        values = gen.make_params(r, model)
        panel = gen.make_panel(r, model, n_obs=int(r.choice([7, 7, 7, 7, 7, 150, 1100])))
        base = values if base is None else base
        if i and set(values) == set(base) and rng.random() < 0.7:
            # the same parameters
            values = dict(base)
        out.append((model, values, panel))
    return out


def history(case, order):
    todo = variants(case)
    out = {}
    for i in order:
        model, values, panel = todo[i]
        inp = sm.inputs(model, gen.to_frame(panel))
        par = gen.params_frame(values)
        got = inp["loglike"](par)
        out[str(i)] = {
            "contributions": np.array(got["contributions"]).tolist(),
            "value": got["value"],
            "template": [list(map(str, k)) for k in inp["params_template"].index],
            "constraints": len(inp["constraints"]),
        }
    return out


def history_case(case, mon):
    todo = variants(case)
    mon.context(model=todo[0][0].describe())
    first = int(gen.case_rng(case, 2).integers(3))
    order = [first, (first + 1) % 3, (first + 2) % 3]
    env = {**os.environ, "PYTHONHASHSEED": str(1 + case["seed"] % 1000)}
    code = (
        "import json, sys; from vf.checks.c04 import history; "
        "print('RESULT' + json.dumps(history(*json.loads(sys.argv[1]))))"
    )
    proc = subprocess.Popen(
        [sys.executable, "-c", code, json.dumps([case, order[::-1]])],
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        env=env,
        text=True,
    )
    try:
        here = history(case, order)
        again = history(case, [order[0]])
        stdout, stderr = proc.communicate()
    finally:
        proc.kill()
        proc.wait()
    lines = [ln for ln in stdout.splitlines() if ln.startswith("RESULT")]
    mon.check("fresh process runs", len(lines) == 1, stderr[-600:])
    there = json.loads(lines[0][6:])
    kw = {"rtol": 1e-10, "atol": 1e-10}
    for i in order:
        a, b = here[str(i)], there[str(i)]
        for key in ("contributions", "value"):
            mon.close("fresh process agrees", b[key], a[key], f"{key} of {i}", **kw)
        for key in ("template", "constraints"):
            mon.equal("fresh process agrees", b[key], a[key], f"{key} of {i}")
    a, b = here[str(order[0])], again[str(order[0])]
    mon.close("model evaluated again", b["contributions"], a["contributions"], **kw)
    model, values, panel = todo[order[0]]
    vals = {round(here[str(i)]["value"], 6) for i in order}
    mon.feature("history of similar models")
    sm.finish(mon, model, values, panel, len(vals) > 1, history=len(vals))


# --------------------------------------------------------------------------------------
# arguments that are changed in place between the calls
# --------------------------------------------------------------------------------------


def everything(md, df, params, period, seed):
    """Results of several public functions as one flat dictionary"""
    from skillmodels import get_filtered_states
    from skillmodels import simulate_dataset
    from skillmodels.correlation_heatmap import get_measurements_corr
    from skillmodels.process_model import get_dimensions

    out = {}
    inp = sm.inputs(md, df)
    out["dimensions"] = get_dimensions(md)
    out["template"] = list(inp["params_template"].index)
    out["constraints"] = [
        sorted((k, repr(v)) for k, v in c.items()) for c in inp["constraints"]
    ]
    out["bounds"] = inp["params_template"][["lower_bound"]].to_numpy()
    par = params.loc[inp["params_template"].index]
    out["contributions"] = np.array(inp["loglike"](par)["contributions"])
    for typ, res in get_filtered_states(md, df, par).items():
        out[typ] = res["states"].select_dtypes("number").to_numpy()
    np.random.seed(seed)
    sim = simulate_dataset(md, par, data=df)
    out["simulated"] = sim["measurements"].select_dtypes("number").to_numpy()
    out["corr"] = get_measurements_corr(df, md, None, period).to_numpy()
    return out


def edit(rng, model, md, df, params, panel):
    """Change one of the arguments in place"""
    todo = ["options", "robust", "swap", "data", "params", "transition", "norms"]
    what = str(rng.choice(todo))
    if what == "options":
        opts = md.setdefault("estimation_options", {})
        opts["sigma_points_scale"] = float(rng.choice([0.7, 1.3, 2.9]))
        opts["clipping_upper_bound"] = float(rng.choice([0.4, 1e30]))
    elif what == "robust":
        opts = md.setdefault("estimation_options", {})
        opts["robust_bounds"] = not opts.get("robust_bounds", True)
        opts["bounds_distance"] = float(rng.choice([1e-3, 0.01]))
    elif what == "swap":
        # other order of the measurements of a factor
        f = model.latent[int(rng.integers(len(model.latent)))]
        md["factors"][f]["measurements"][0].reverse()
    elif what == "data":
        col = next(u[4] for u in model.updates() if u[2] == "measurement")
        df[col] = df[col] + rng.normal(0, 0.5, len(df))
    elif what == "params":
        params["value"] *= 1 + 0.02 * rng.uniform(-1, 1)
        weights = params.index.get_level_values(0) == "mixture_weights"
        params.loc[weights, "value"] /= params.loc[weights, "value"].sum()
    elif what == "transition":
        for f in model.latent:
            tf = md["factors"][f]["transition_function"]
            if tf in ("translog", "linear_and_squares"):
                md["factors"][f]["transition_function"] = "linear"
                break
            if tf == "linear":
                md["factors"][f]["transition_function"] = "constant"
                break
    else:
        f = model.latent[int(rng.integers(len(model.latent)))]
        norm = md["factors"][f].setdefault("normalizations", {})
        meas = md["factors"][f]["measurements"]
        norm["loadings"] = [{m[-1]: 1.25} if m else {} for m in meas]
    return what


def place_case(case, mon):
    import copy

    rng, model, values, panel = sm.draw(
        case, kinds=("translog", "linear", "linear_and_squares", "constant"),
        trailing_empty=False, names="words",
    )
    panel.present[:] = True
    for f in model.observed:
        panel.values[f] = np.nan_to_num(panel.values[f])
    mon.context(model=model.describe())
    md = copy.deepcopy(model.model_dict)
    df, params = gen.to_frame(panel), gen.params_frame(values)
    keep, prev, changes = [], None, []
    for step in range(3):
        if step:
            changes.append(edit(rng, model, md, df, params, panel))
            mon.feature(f"changed {changes[-1]}")
        mon.context(changes=changes)
        seed = int(rng.integers(2**31))
        got = everything(md, df, params, 0, seed)
        new = copy.deepcopy(md), df.copy(deep=True), params.copy(deep=True)
        # ids of objects are not reused
        keep.append(new)
        exp = everything(*new, 0, seed)
        for key, val in exp.items():
            txt = f"{key} after {changes}"
            if isinstance(val, np.ndarray):
                mon.close("changed in place like new", got[key], val, txt, 1e-9, 1e-9)
            else:
                mon.equal("changed in place like new", got[key], val, txt)
        prev = got
    sm.finish(mon, model, values, panel, prev is not None, changes=changes)


def threads(mon, inp, frames):
    """Concurrent calls give the results of calls one after another"""
    want = [inp["loglike"](p) for p in frames]
    todo = [i for i in range(len(frames)) for _ in range(2)]
    barrier = threading.Barrier(len(todo))
    got = {}

    def work(pos, i):
        barrier.wait(60)
        got[pos] = [inp["loglike"](frames[i]) for _ in range(8)]

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=work, args=a) for a in enumerate(todo)]
        for th in pool:
            th.start()
        for th in pool:
            th.join(120)
    finally:
        sys.setswitchinterval(interval)
    for pos, i in enumerate(todo):
        mon.check("concurrent calls return", pos in got, f"thread {pos}")
        for res in got[pos]:
            mon.check(
                "concurrent calls agree",
                np.array_equal(res["contributions"], want[i]["contributions"], True)
                and (res["value"] == want[i]["value"] or np.isnan(res["value"])),
                "other result than without threads",
                alone=want[i],
                concurrent=res,
            )


def run_case(case, mon):
    if case.get("history"):
        return history_case(case, mon)
    if case.get("place"):
        return place_case(case, mon)
    rng, model, values, panel = sm.draw(case, clip=0.5)
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng, shuffle_rows=True)
    inp = sm.inputs(model, df)
    vals = [values] + [gen.make_params(rng, model) for _ in range(2)]
    recorded = {}

    def record(i, got, exact):
        c, v = np.array(got["contributions"]), got["value"]
        mon.check("dtype", c.dtype == np.float64, "not double precision", dtype=c.dtype)
        mon.check(
            "value is a float", isinstance(v, float), "value is no float", t=type(v)
        )
        mon.close("value is sum", v, c.sum(), rtol=1e-9, atol=1e-9)
        if i not in recorded:
            recorded[i] = (c, v)
        elif exact:
            mon.check(
                "repeated call identical",
                np.array_equal(recorded[i][0], c, equal_nan=True)
                and (recorded[i][1] == v or np.isnan(v)),
                "same parameters, different result",
                first=recorded[i],
                now=(c, v),
            )
        else:
            kw = {"rtol": 1e-8, "atol": 1e-8}
            mon.close("same parameters same contributions", c, recorded[i][0], **kw)

    def frame(i, shuffled):
        return gen.params_frame(
            vals[i], rng=rng if shuffled else None, extra_columns=shuffled
        )

    for i in (0, 1, 0, 2, 1, 0):
        record(i, inp["loglike"](frame(i, bool(rng.integers(2)))), True)
    for i in (1, 0):
        got = inp["debug_loglike"](frame(i, True))
        mon.observed("debug agrees")
        record(i, got, False)
    do_grad = rng.random() < 0.5
    if do_grad:
        grads = {}
        for i in (2, 1, 2):
            crit, grad = inp["loglike_and_gradient"](frame(i, True))
            record(i, crit, False)
            mon.observed("gradient entry agrees")
            if i in grads:
                mon.check(
                    "repeated gradient identical",
                    np.array_equal(grads[i], grad),
                    "different gradient",
                )
            grads[i] = grad
        g = inp["gradient"](frame(2, False))
        mon.close("gradient functions agree", g, grads[2], rtol=1e-8, atol=1e-8)
    # the same frame object, whose values change between the calls
    reused = frame(0, True)
    names = ["loglike", "loglike", "debug_loglike", "loglike_and_gradient", "gradient"]
    history = [0, 1, 1, 2, 0] if do_grad else [0, 1, 2]
    todo = [names[i] for i in rng.permutation(5)] if do_grad else names[:3]
    for i, name in zip(history, todo):
        reused["value"] = [vals[i][label] for label in reused.index]
        got = inp[name](reused)
        if name == "gradient":
            mon.observed("frame changed in place")
            if i in grads:
                mon.close("gradient of changed frame", got, grads[i], "", 1e-9, 1e-9)
        else:
            mon.observed("frame changed in place")
            got = got[0] if name == "loglike_and_gradient" else got
            record(i, got, name == "loglike")
    if rng.random() < 0.5:
        threads(mon, inp, [frame(i, False) for i in range(3)])
    # another model in between and fresh inputs from the same arguments
    rng2 = gen.case_rng(case, 1)
    other = gen.make_model(rng2, n_latent=1, n_periods=2, kinds=["linear"])
    opanel = gen.make_panel(rng2, other)
    sm.contributions(other, gen.to_frame(opanel), gen.make_params(rng2, other))
    record(0, inp["loglike"](frame(0, False)), True)
    fresh = sm.inputs(model, df)
    record(1, fresh["loglike"](frame(1, False)), False)
    mon.check(
        "template reproducible",
        fresh["params_template"].index.equals(inp["params_template"].index),
        "different templates from the same arguments",
    )
    distinct = len({round(v[1], 6) for v in recorded.values()})
    sm.finish(mon, model, values, panel, distinct > 1, history=distinct)
