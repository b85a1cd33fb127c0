"""C14: specifications are completed with defaults, invalid ones are rejected."""
import copy
import functools

from vf import gen
from vf import sm

RULE = (
    "Random valid specifications are written in equivalent ways (defaults spelled out, "
    "shorter lists, empty optional sections) and have to give the same updates, "
    "parameters, constraints and likelihood; each of many kinds of damage has to be "
    "rejected with ValueError or AttributeError. Non-trivial: several damages applied."
)
ASSUMPTIONS = []
REQUIRED = [
    "defaults are filled in",
    "invalid specification is rejected",
    "dimensions",
    "updates of the model",
    "equivalent specifications agree",
]


def cases(tier, rng):
    n = 300 if tier == "quick" else 1500
    return [{"seed": s, "i": i} for i, s in enumerate(gen.seeds(rng, n))]


def spelled_out(rng, model):
    md = copy.deepcopy(model.model_dict)
    T = model.n_periods
    for fac in md["factors"].values():
        fac["measurements"] += [[] for _ in range(T - len(fac["measurements"]))]
        norm = fac.setdefault("normalizations", {})
        for typ in ("loadings", "intercepts"):
            norm.setdefault(typ, [])
            norm[typ] += [{} for _ in range(T - len(norm[typ]))]
    md.setdefault("observed_factors", [])
    md.setdefault("controls", [])
    md.setdefault("stagemap", list(range(T - 1)))
    opts = md.setdefault("estimation_options", {})
    for k, v in {
        "n_mixtures": 1,
        "sigma_points_scale": 2,
        "robust_bounds": True,
        "bounds_distance": 1e-3,
        "clipping_lower_bound": -1e250,
        "clipping_upper_bound": None,
        "clipping_lower_hardness": 1,
        "clipping_upper_hardness": 1,
    }.items():
        opts.setdefault(k, v)
    if "anchoring" in md:
        for k in (
            "free_controls",
            "free_constant",
            "free_loadings",
            "ignore_constant_when_anchoring",
        ):
            md["anchoring"].setdefault(k, False)
    return md


def damages(rng, model):
    """yield (name, damaged model_dict)"""
    T = model.n_periods
    base = model.model_dict
    facs = model.latent

    def new():
        return copy.deepcopy(base)

    md = new()
    md["stagemap"] = list(range(T))
    yield "stagemap too long", md
    if T > 2:
        md = new()
        md["stagemap"] = [0] * (T - 2)
        yield "stagemap too short", md
        md = new()
        md["stagemap"] = [0] * (T - 2) + [2]
        yield "stagemap skips a stage", md
        md = new()
        md["stagemap"] = [1] + [0] * (T - 2)
        yield "stagemap decreases", md
    md = new()
    md["stagemap"] = [1] * (T - 1)
    yield "stagemap does not start at zero", md
    fac = facs[int(rng.integers(len(facs)))]
    md = new()
    md["factors"][fac]["measurements"] = [
        tuple(m) for m in md["factors"][fac]["measurements"]
    ]
    yield "measurements not lists", md
    md = new()
    md["factors"][fac]["measurements"] = tuple(md["factors"][fac]["measurements"])
    yield "measurements no list", md
    md = new()
    md["factors"][fac]["measurements"][0] = [[1.5], [None], [["a"]]][
        int(rng.integers(3))
    ]
    yield "invalid name of measurement", md
    lists = base["factors"][fac]["measurements"]
    full = [t for t, m in enumerate(lists) if m]
    if full:
        t = full[int(rng.integers(len(full)))]
        typ = ["loadings", "intercepts"][int(rng.integers(2))]
        md = new()
        norm = [{} for _ in range(t)] + [{"no such variable": 1}]
        md["factors"][fac].setdefault("normalizations", {})[typ] = norm
        yield f"normalized {typ} of unknown variable", md
        others = [
            m
            for tt, ms in enumerate(lists)
            for m in ms
            if tt != t and m not in lists[t]
        ]
        if others:
            md = new()
            norm = [{} for _ in range(t)] + [{others[0]: 1}]
            md["factors"][fac].setdefault("normalizations", {})[typ] = norm
            yield f"normalized {typ} in wrong period", md
        md = new()
        norm = [{} for _ in range(t)] + [{lists[t][0]: [0, 0.0][int(rng.integers(2))]}]
        md["factors"][fac].setdefault("normalizations", {})["loadings"] = norm
        yield "loading normalized to zero", md
        md = new()
        norm = [[(lists[t][0], 1)] for _ in range(T)]
        md["factors"][fac].setdefault("normalizations", {})[typ] = norm
        yield "normalizations no dicts", md
        md = new()
        md["factors"][fac].setdefault("normalizations", {})[typ] = {lists[t][0]: 1}
        yield "normalizations no list", md
    md = new()
    md["factors"][fac].setdefault("normalizations", {})["variances"] = [{}] * T
    yield "normalized variances", md
    md = new()
    unknown = "no such factor"
    if model.observed and rng.random() < 0.5:
        unknown = model.observed[int(rng.integers(len(model.observed)))]
    md["anchoring"] = {"outcomes": {fac: "Q1", unknown: "Q1"}}
    yield "anchored factor is not latent", md
    flag = ["free_controls", "free_constant", "free_loadings"][int(rng.integers(3))]
    md = new()
    md["anchoring"] = {"outcomes": {fac: "Q1"}, flag: ["yes", 1, None][int(rng.integers(3))]}
    yield f"anchoring {flag} no bool", md
    md = new()
    md["anchoring"] = {"outcomes": {fac: [1.5, None][int(rng.integers(2))]}}
    yield "anchoring outcome no variable", md
    md = new()
    md["anchoring"] = {"outcomes": [fac]}
    yield "anchoring outcomes no dict", md
    md = new()
    md["factors"][fac]["transition_function"] = "no_such_function"
    yield "unknown transition function", md

    def unregistered(states, params):
        return states[0]

    md = new()
    md["factors"][fac]["transition_function"] = unregistered
    yield "function without registered params", md

    md = new()
    part = functools.partial(unregistered)
    part.__registered_params__ = ["a"]
    md["factors"][fac]["transition_function"] = part
    yield "function without name", md

    # names that cannot be told apart
    def with_factor(name, **kwargs):
        md = new()
        md["factors"][name] = {**copy.deepcopy(md["factors"][fac]), **kwargs}
        return md

    reserved = ["id", "period", "purpose", "states", "params"]
    name = reserved[int(rng.integers(len(reserved)))]
    yield "reserved name of latent factor", with_factor(name)
    md = new()
    name = (reserved + ["constant"])[int(rng.integers(len(reserved) + 1))]
    md["observed_factors"] = list(md.get("observed_factors", [])) + [name]
    yield "reserved name of observed factor", md
    md = new()
    md["observed_factors"] = list(md.get("observed_factors", [])) + [fac]
    yield "observed factor called like a latent one", md
    md = new()
    md["controls"] = list(md.get("controls", [])) + [
        ["constant"], ["same control", "same control"]
    ][int(rng.integers(2))]
    yield "controls with the same name", md
    name, kind = [("constant", "translog"), ("tfp", "log_ces_general")][
        int(rng.integers(2))
    ]
    yield (
        "factor called like a transition parameter",
        with_factor(name, transition_function=kind),
    )

    def repeated(states, params):
        return states[0] * params["a"]

    repeated.__registered_params__ = ["a", "b", "a"]
    md = new()
    md["factors"][fac]["transition_function"] = repeated
    yield "transition parameters with the same name", md
    md = new()
    md["anchoring"] = {"outcomes": {fac: "Q1"}}
    where = int(rng.integers(3))
    if where == 0:
        md["factors"][fac]["measurements"][0] = [f"Q1_{fac}", "other variable"]
        md["factors"][fac].pop("normalizations", None)
    else:
        key = ["controls", "observed_factors"][where - 1]
        md[key] = list(md.get(key, [])) + [f"Q1_{fac}"]
    yield "variable called like the copy of an outcome", md


def run_case(case, mon):
    from skillmodels.process_model import get_dimensions
    from skillmodels.process_model import process_model

    rng, model, values, panel = sm.draw(case)
    mon.context(model=model.describe())
    mod = process_model(model.model_dict)
    dims = {
        "n_latent_factors": len(model.latent),
        "n_observed_factors": len(model.observed),
        "n_all_factors": len(model.all_factors),
        "n_periods": model.n_periods,
        "n_controls": len(model.controls) + 1,
        "n_mixtures": model.n_mixtures,
    }
    for got in (mod["dimensions"], get_dimensions(model.model_dict)):
        mon.equal("dimensions", {k: got[k] for k in dims}, dims)
    lab = mod["labels"]
    mon.equal("labels", list(lab["latent_factors"]), model.latent)
    mon.equal("labels", list(lab["observed_factors"]), model.observed)
    mon.equal("labels", list(lab["all_factors"]), model.all_factors)
    mon.equal("labels", list(lab["controls"]), ["constant"] + model.controls)
    mon.equal("labels", list(lab["periods"]), list(range(model.n_periods)))
    mon.equal("labels", [int(s) for s in lab["stagemap"]], model.stagemap)
    ui = mod["update_info"]
    got = [
        (t, m, r["purpose"], sorted(f for f in model.latent if r[f]))
        for (t, m), r in zip(ui.index, ui.to_dict("records"))
    ]
    exp = [(t, m, k, sorted(fs)) for t, m, k, fs, _ in model.updates()]
    mon.equal("updates of the model", got, exp)

    full = spelled_out(rng, model)
    other = process_model(full)
    for key in ("dimensions", "labels", "estimation_options"):
        a, b = mod[key], other[key]
        a = {k: v for k, v in a.items() if k != "n_mixtures"}
        b = {k: v for k, v in b.items() if k != "n_mixtures"}
        mon.equal("defaults are filled in", repr(b), repr(a), key)
    norm = {
        f: {typ: lst + [{}] * (model.n_periods - len(lst)) for typ, lst in d.items()}
        for f, d in model.norms.items()
    }
    got = {
        f: {typ: [dict(d) for d in mod["normalizations"][f][typ]] for typ in norm[f]}
        for f in model.latent
    }
    mon.equal("normalizations", got, norm)
    same = ui.equals(other["update_info"])
    mon.check("defaults are filled in", same, "updates differ")
    df = gen.to_frame(panel)
    a, b = sm.inputs(model, df), sm.inputs(full, df)
    mon.check(
        "equivalent specifications agree",
        a["params_template"].equals(b["params_template"]),
        "templates differ",
    )
    mon.equal(
        "equivalent specifications agree", repr(b["constraints"]), repr(a["constraints"])
    )
    if case["i"] % 6 == 0:
        par = gen.params_frame(values)
        mon.close(
            "equivalent specifications agree",
            b["loglike"](par)["contributions"],
            a["loglike"](par)["contributions"],
            "likelihood",
            1e-12,
            1e-12,
        )
    n = 0
    for name, md in damages(rng, model):
        mon.feature(name)
        mon.context(damage=name)
        try:
            process_model(md)
        except (ValueError, AttributeError):
            ok, exc = True, None
        except Exception as e:  # noqa: BLE001
            ok, exc = False, e
        else:
            ok, exc = False, None
        mon.check("invalid specification is rejected", ok, name, exc=exc)
        if n % 4 == 0:
            try:
                sm.inputs(md, df)
            except Exception:  # noqa: BLE001
                pass
            else:
                mon.fail("invalid specification reaches the likelihood", name=name)
        n += 1
    # the original specification is still valid
    process_model(model.model_dict)
    sm.finish(mon, model, values, panel, n > 5, n_damages=n)
    mon.observed("damages", n)
