"""Seeded generators of model specifications, parameters and panel data.

Nothing in this module uses code of skillmodels apart from the public decorator that
attaches parameter names to custom transition functions (which is replaced by setting
the documented attribute in some of the models).
"""
import itertools
from dataclasses import dataclass
from dataclasses import field

import numpy as np
import pandas as pd

# --------------------------------------------------------------------------------------
# names
# --------------------------------------------------------------------------------------

NAME_STYLES = {
    "plain": ["fac1", "fac2", "fac3", "fac4", "fac5", "fac6", "fac7"],
    "overlap": ["f", "f1", "f11", "ff", "f1f", "F", "f_1"],
    "unsorted": ["zeta", "beta", "mu", "alpha", "xi", "gamma", "eta"],
    "words": ["health", "cognition", "constant_", "skill_", "period_", "id_", "phi_"],
    "odd": ["non cognitive", "it's", 'q"uote', "a-b", "ünï", "1st", "a * b"],
}
CONTROL_NAMES = [
    ["x1", "x2", "x10"],
    ["cont b", "cont a", "C"],
    ["age squared", "age", "a"],
]
# unusual numbers of individuals
SIZES = (2, 3, 50, 130, 300, 1100)
# share of models in which a variable has more than one role
ROLES = 0.15
# share of models that are large in one dimension
WIDE = 0.15
IDENTIFIER_STYLES = ("plain", "overlap", "unsorted", "words")

BUILTIN = (
    "linear",
    "translog",
    "robust_translog",
    "linear_and_squares",
    "log_ces",
    "log_ces_general",
    "constant",
)
CUSTOM = ("custom_states", "custom_named", "custom_mixed")


def param_names(kind, factors):
    """The names of transition parameters according to the documentation."""
    factors = list(factors)
    squares = [f"{f} ** 2" for f in factors]
    inter = [f"{a} * {b}" for a, b in itertools.combinations(factors, 2)]
    if kind == "linear":
        return factors + ["constant"]
    if kind in ("translog", "robust_translog"):
        return factors + squares + inter + ["constant"]
    if kind == "linear_and_squares":
        return factors + squares + ["constant"]
    if kind == "log_ces":
        return factors + ["phi"]
    if kind == "log_ces_general":
        return factors + [f"sigma_{f}" for f in factors] + ["tfp"]
    if kind == "constant":
        return []
    if kind == "custom_states":
        return ["scale", "slope", "shift"]
    if kind == "custom_named":
        return ["b", "a", "const"]
    if kind == "custom_mixed":
        return ["own", "rest"]
    raise ValueError(kind)


def _logsumexp(a):
    m = a.max(axis=-1, keepdims=True)
    return (m + np.log(np.exp(a - m).sum(axis=-1, keepdims=True)))[..., 0]


def ref_transition(kind, x, p, factors, own, args=()):
    """Reference transition function.

    x has shape (..., n_all_factors), p maps parameter names to values.
    """
    col = {f: x[..., i] for i, f in enumerate(factors)}
    if kind == "constant":
        return col[own]
    if kind == "linear":
        return sum(p[f] * col[f] for f in factors) + p["constant"]
    if kind in ("translog", "robust_translog", "linear_and_squares"):
        if kind == "robust_translog":
            col = {f: np.clip(c, -1e12, 1e12) for f, c in col.items()}
        out = sum(p[f] * col[f] for f in factors) + p["constant"]
        out = out + sum(p[f"{f} ** 2"] * col[f] ** 2 for f in factors)
        if kind != "linear_and_squares":
            for a, b in itertools.combinations(factors, 2):
                out = out + p[f"{a} * {b}"] * col[a] * col[b]
        return out
    if kind == "log_ces":
        with np.errstate(divide="ignore"):
            lg = np.log(np.array([p[f] for f in factors]))
        return _logsumexp(lg + x * p["phi"]) / p["phi"]
    if kind == "log_ces_general":
        with np.errstate(divide="ignore"):
            lg = np.log(np.array([p[f] for f in factors]))
        sig = np.array([p[f"sigma_{f}"] for f in factors])
        return _logsumexp(lg + x * sig) * p["tfp"]
    if kind == "custom_states":
        weights = np.arange(1, len(factors) + 1) / len(factors)
        return p["scale"] * np.tanh(p["slope"] * (x * weights).sum(-1)) + p["shift"]
    if kind == "custom_named":
        return p["a"] * col[args[0]] + p["b"] * np.sin(col[args[-1]]) + p["const"]
    if kind == "custom_mixed":
        return p["own"] * col[args[0]] + p["rest"] * x[..., 0] * x[..., -1] * 0.1
    raise ValueError(kind)


def make_custom(kind, factors, own, args, use_decorator):
    """Build a custom transition function the way a user would write it."""
    import jax.numpy as jnp

    names = param_names(kind, factors)
    if kind == "custom_states":

        def func(states, params):
            weights = jnp.arange(1, len(states) + 1) / len(states)
            return (
                params["scale"] * jnp.tanh(params["slope"] * (states * weights).sum())
                + params["shift"]
            )

    elif kind == "custom_named":
        arglist = ", ".join(dict.fromkeys(args))
        ns = {"jnp": jnp}
        exec(
            f"def func({arglist}, params):\n"
            f"    return params['a'] * {args[0]} + params['b'] * jnp.sin({args[-1]})"
            " + params['const']\n",
            ns,
        )
        func = ns["func"]
    else:
        ns = {}
        exec(
            f"def func(params, states, {args[0]}):\n"
            f"    return params['own'] * {args[0]}"
            " + params['rest'] * states[0] * states[-1] * 0.1\n",
            ns,
        )
        func = ns["func"]
    func.__name__ = kind
    if use_decorator:
        from skillmodels.decorators import register_params

        func = register_params(params=names)(func)
    else:
        func.__registered_params__ = names
    return func


# --------------------------------------------------------------------------------------
# models
# --------------------------------------------------------------------------------------


@dataclass
class Model:
    model_dict: dict
    latent: list
    observed: list
    controls: list
    n_periods: int
    n_mixtures: int
    kinds: dict
    custom_args: dict
    meas: dict  # factor -> list over periods of list of names
    anchoring: dict
    kappa: float
    options: dict
    features: list = field(default_factory=list)

    @property
    def all_factors(self):
        return self.latent + self.observed

    def updates(self):
        """Kalman updates in the documented order: (period, name, kind, factors, col)"""
        out = []
        for t in range(self.n_periods):
            rows = {}
            for f in self.latent:
                for m in self.meas[f][t]:
                    rows.setdefault(m, []).append(f)
            out += [(t, m, "measurement", fs, m) for m, fs in rows.items()]
            for f, outcome in self.anchoring["outcomes"].items():
                out.append((t, f"{outcome}_{f}", "anchoring", [f], outcome))
        return out

    def describe(self):
        return {
            "latent": self.latent,
            "observed": self.observed,
            "controls": self.controls,
            "n_periods": self.n_periods,
            "n_mixtures": self.n_mixtures,
            "kinds": self.kinds,
            "meas": {f: [list(map(str, m)) for m in v] for f, v in self.meas.items()},
            "anchoring": {**self.anchoring, "outcomes": str(self.anchoring["outcomes"])},
            "options": {k: v for k, v in self.options.items()},
        }


def _pick(rng, value, default):
    """value can be None (default), a scalar (fixed) or list/tuple (choose)."""
    value = default if value is None else value
    if isinstance(value, (list, tuple)):
        return value[int(rng.integers(len(value)))]
    return value


def make_model(
    rng,
    n_latent=None,
    n_observed=None,
    n_controls=None,
    n_periods=None,
    n_mixtures=None,
    kinds=None,
    names=None,
    meas_per=(1, 3),
    anchoring=None,
    shared=None,
    trailing_empty=None,
    options=None,
    clip=0,
    stagemap=None,
    normalizations=None,
    var_names=None,
    empty_cells=True,
    wide=None,
    roles=None,
):
    """Draw a valid model specification.

    All periods but possibly the trailing ones have at least one measurement.
    """
    if rng.random() < (WIDE if wide is None else wide):
        # more of something than there are digits, or at least more than usual
        shape = ["periods", "mixtures", "latent", "rest", "meas"][int(rng.integers(5))]
        stable = [
            k for k in (kinds or BUILTIN) if k in ("linear", "log_ces", "constant")
        ]
        if shape == "periods" and n_periods is None and n_latent is None and stable:
            n_periods, n_latent, kinds = int(rng.integers(10, 13)), 1, stable
            n_mixtures = (1, 1, 2) if n_mixtures is None else n_mixtures
            meas_per = (1, 2) if meas_per == (1, 3) else meas_per
        elif shape == "mixtures" and n_mixtures is None and n_latent is None:
            n_mixtures, n_latent = int(rng.integers(10, 13)), (1, 2)
        elif shape == "latent" and n_latent is None:
            n_latent = (4, 5)
            n_periods = 2 if n_periods is None else n_periods
            n_mixtures = 1 if n_mixtures is None else n_mixtures
        elif shape == "rest":
            n_observed = 3 if n_observed is None and n_latent is None else n_observed
            n_controls = 3 if n_controls is None else n_controls
            n_latent = (1, 2) if n_latent is None else n_latent
        elif shape == "meas" and meas_per == (1, 3):
            meas_per = (10, 12)
            n_latent = (1, 2) if n_latent is None else n_latent
            n_periods = 2 if n_periods is None else n_periods
    n_latent = int(_pick(rng, n_latent, (1, 2, 2, 3)))
    n_observed = int(_pick(rng, n_observed, (0, 0, 1, 2)))
    n_controls = int(_pick(rng, n_controls, (0, 0, 1, 2)))
    n_periods = int(_pick(rng, n_periods, (2, 3, 3, 4)))
    n_mixtures = int(_pick(rng, n_mixtures, (1, 1, 2, 3)))
    names = _pick(rng, names, ("plain", "overlap", "unsorted", "words", "odd"))
    kinds_pool = kinds if kinds is not None else BUILTIN + CUSTOM
    pool = list(NAME_STYLES[names])
    perm = rng.permutation(len(pool))
    allf = [pool[i] for i in perm[: n_latent + n_observed]]
    latent, observed = allf[:n_latent], allf[n_latent:]
    controls = CONTROL_NAMES[int(rng.integers(len(CONTROL_NAMES)))]
    controls = [controls[i] for i in rng.permutation(3)[:n_controls]]

    if controls and observed and rng.random() < (ROLES if roles is None else roles):
        # an observed factor that is a control variable as well
        controls[int(rng.integers(len(controls)))] = observed[0]

    # transition functions
    fkinds, cargs, funcs = {}, {}, {}
    identifiers = names in IDENTIFIER_STYLES
    for f in latent:
        options_ = [k for k in kinds_pool if identifiers or k in BUILTIN + CUSTOM[:1]]
        kind = options_[int(rng.integers(len(options_)))]
        fkinds[f] = kind
        if kind == "custom_named":
            others = [allf[i] for i in rng.permutation(len(allf))]
            cargs[f] = tuple(others[: min(2, len(others))])
        elif kind == "custom_mixed":
            cargs[f] = (allf[int(rng.integers(len(allf)))],)
        else:
            cargs[f] = ()
        if kind in CUSTOM:
            funcs[f] = make_custom(kind, allf, f, cargs[f], bool(rng.integers(2)))
        else:
            funcs[f] = kind

    # measurements
    style = ["per_period", "same", "mixed", "nested"][int(rng.integers(4))]
    meas = {f: [] for f in latent}
    for i, f in enumerate(latent):
        for t in range(n_periods):
            n = int(rng.integers(meas_per[0], meas_per[1] + 1))
            if style == "per_period":
                lst = [f"y_{i}_{t}_{k}" for k in range(n)]
            elif style == "same":
                lst = [f"m{i}{k}" for k in range(n)]
            elif style == "nested":
                # names that are part of other names
                lst = [f"w{i}" + "_1" * k for k in range(n)]
            else:
                # the same variable can measure different factors in different periods
                lst = [f"v{(i + t) % n_latent}{k}" for k in range(n)]
            meas[f].append(list(rng.permutation(np.array(lst, dtype=object))))
    if empty_cells and n_latent > 1:
        # factors without measurements in some periods
        for f in latent[1:]:
            for t in range(n_periods):
                if rng.random() < 0.15:
                    meas[f][t] = []
    # measurements that measure several factors
    shared = rng.random() < 0.4 if shared is None else shared
    if shared and n_latent > 1:
        for t in range(n_periods):
            src = latent[int(rng.integers(n_latent))]
            dst = latent[int(rng.integers(n_latent))]
            if src != dst and meas[src][t]:
                m = meas[src][t][0]
                if m not in meas[dst][t]:
                    meas[dst][t].insert(int(rng.integers(len(meas[dst][t]) + 1)), m)
    trailing_empty = (
        (rng.random() < 0.12 if trailing_empty is None else trailing_empty)
        and n_periods > 2
    )
    if trailing_empty:
        for f in latent:
            meas[f][-1] = []

    # anchoring
    anch = {
        "outcomes": {},
        "free_controls": False,
        "free_constant": False,
        "free_loadings": False,
        "ignore_constant_when_anchoring": False,
    }
    has_anchoring = rng.random() < 0.5 if anchoring is None else anchoring
    if has_anchoring:
        n_anch = int(rng.integers(1, n_latent + 1))
        facs = [latent[i] for i in rng.permutation(n_latent)[:n_anch]]
        same = bool(rng.integers(2))
        anch["outcomes"] = {f: "Q1" if same else f"Q{i}" for i, f in enumerate(facs)}
        if rng.random() < (ROLES if roles is None else roles):
            # outcomes that are measurements as well
            known = sorted({m for v in meas.values() for per in v for m in per})
            f = facs[int(rng.integers(len(facs)))]
            anch["outcomes"][f] = known[int(rng.integers(len(known)))]
        for k in ("free_controls", "free_constant", "free_loadings"):
            anch[k] = bool(rng.integers(2))
        anch["ignore_constant_when_anchoring"] = bool(rng.integers(2))

    # assemble
    factors = {}
    norms = {}
    want_norm = rng.random() < 0.6 if normalizations is None else normalizations
    for f in latent:
        lists = [list(m) for m in meas[f]]
        if f != latent[0] and not trailing_empty and rng.random() < 0.3:
            while len(lists) > 1 and not lists[-1]:
                lists.pop()
        factors[f] = {"measurements": lists, "transition_function": funcs[f]}
        norms[f] = {"loadings": [], "intercepts": []}
        if want_norm:
            n_norm = {}
            for typ in ("loadings", "intercepts"):
                stop = int(rng.integers(0, len(lists) + 1))
                entries = []
                for t in range(stop):
                    d = {}
                    if lists[t] and rng.random() < 0.7:
                        m = lists[t][int(rng.integers(len(lists[t])))]
                        val = [1, 0.8, 1.5, -1][int(rng.integers(4))]
                        if typ == "intercepts":
                            val = [0, 0.3, -0.2][int(rng.integers(3))]
                        d[m] = val
                    entries.append(d)
                if stop or rng.random() < 0.5:
                    n_norm[typ] = entries
                norms[f][typ] = entries
            factors[f]["normalizations"] = n_norm
    model_dict = {"factors": factors}
    if observed:
        model_dict["observed_factors"] = list(observed)
    if controls:
        model_dict["controls"] = list(controls)
    if anch["outcomes"]:
        given = {"outcomes": dict(anch["outcomes"])}
        for k, v in anch.items():
            if k != "outcomes" and (v or rng.random() < 0.5):
                given[k] = v
        model_dict["anchoring"] = given
    smap = None
    want_stage = rng.random() < 0.5 if stagemap is None else stagemap
    if want_stage:
        smap = [0]
        for _ in range(n_periods - 2):
            smap.append(smap[-1] + int(rng.integers(2)))
        model_dict["stagemap"] = list(smap)
    opts = {}
    kappa = 2.0
    if n_mixtures > 1 or rng.random() < 0.3:
        opts["n_mixtures"] = n_mixtures
    if options is None:
        if rng.random() < 0.5:
            kappa = float(rng.choice([0.5, 1.0, 2.0, 3.7]))
            opts["sigma_points_scale"] = kappa
        if rng.random() < 0.3:
            opts["robust_bounds"] = bool(rng.integers(2))
        if rng.random() < 0.3:
            opts["bounds_distance"] = float(rng.choice([1e-6, 1e-3, 0.05]))
    else:
        opts.update(options)
        kappa = float(options.get("sigma_points_scale", 2.0))
    if clip and rng.random() < clip:
        # bounds that matter for some contributions
        if rng.random() < 0.7:
            opts["clipping_lower_bound"] = float(rng.choice([-6, -2.5, 0]))
        if rng.random() < 0.7:
            opts["clipping_upper_bound"] = float(rng.choice([-1, 0, 0.7]))
        for side in ("lower", "upper"):
            if rng.random() < 0.7:
                opts[f"clipping_{side}_hardness"] = float(rng.choice([0.8, 2, 4]))
    if opts or rng.random() < 0.5:
        model_dict["estimation_options"] = opts

    model = Model(
        model_dict=model_dict,
        latent=latent,
        observed=observed,
        controls=controls,
        n_periods=n_periods,
        n_mixtures=n_mixtures,
        kinds=fkinds,
        custom_args=cargs,
        meas=meas,
        anchoring=anch,
        kappa=kappa,
        options=opts,
    )
    model.norms = norms
    model.stagemap = smap if smap is not None else list(range(n_periods - 1))
    model.features = [
        f"latent={n_latent}",
        f"observed={n_observed}",
        f"controls={n_controls}",
        f"periods={n_periods}",
        f"mixtures={n_mixtures}",
        f"names={names}",
        f"anchored={len(anch['outcomes'])}",
        *sorted({f"trans={k}" for k in fkinds.values()}),
    ]
    if trailing_empty:
        model.features.append("trailing_empty_period")
    if set(controls) & set(observed):
        model.features.append("control_is_observed_factor")
    if set(anch["outcomes"].values()) & {m for v in meas.values() for p in v for m in p}:
        model.features.append("outcome_is_measurement")
    if var_names is None:
        var_names = "str" if rng.random() > VAR_NAMES else VAR_STYLES
    var_names = _pick(rng, var_names, "str")
    if var_names != "str":
        rename_variables(rng, model, var_names)
        model.features.append(f"variables={var_names}")
    if any(len(u[3]) > 1 for u in model.updates()):
        model.features.append("shared_measurement")
    if any(not meas[f][t] for f in latent for t in range(n_periods)):
        model.features.append("factor_without_measurement_in_period")
    return model


VAR_STYLES = ("int", "tuple", "mixed")
# share of models with names of variables that are not strings
VAR_NAMES = 0.12


def rename_variables(rng, model, style):
    """Give the measurements and outcomes names that are not strings, in place."""
    names = list(data_columns(model))
    pos = rng.permutation(len(names))
    new = {}
    for i, m in zip(pos, names):
        kind = ("int", "tuple", "str")[i % 3] if style == "mixed" else style
        new[m] = {"int": int(100 - 3 * i), "tuple": ("y", int(i)), "str": m}[kind]
    model.meas = {
        f: [[new[m] for m in per] for per in v] for f, v in model.meas.items()
    }
    model.norms = {
        f: {
            typ: [{new[m]: v for m, v in d.items()} for d in per]
            for typ, per in v.items()
        }
        for f, v in model.norms.items()
    }
    for spec in model.model_dict["factors"].values():
        spec["measurements"] = [[new[m] for m in per] for per in spec["measurements"]]
        if "normalizations" in spec:
            spec["normalizations"] = {
                typ: [{new[m]: v for m, v in d.items()} for d in per]
                for typ, per in spec["normalizations"].items()
            }
    outcomes = {f: new[q] for f, q in model.anchoring["outcomes"].items()}
    model.anchoring["outcomes"] = outcomes
    if outcomes:
        model.model_dict["anchoring"]["outcomes"] = dict(outcomes)


# --------------------------------------------------------------------------------------
# parameters
# --------------------------------------------------------------------------------------


def ref_index(model):
    """The parameter index that follows from the documentation, as set of tuples."""
    out = []
    upd = model.updates()
    conts = ["constant"] + model.controls
    out += [("controls", t, m, c) for t, m, *_ in upd for c in conts]
    out += [("loadings", t, m, f) for t, m, _, fs, _ in upd for f in model.latent if f in fs]
    out += [("meas_sds", t, m, "-") for t, m, *_ in upd]
    tr = range(model.n_periods - 1)
    out += [("shock_sds", t, f, "-") for t in tr for f in model.latent]
    mix = [f"mixture_{k}" for k in range(model.n_mixtures)]
    out += [("initial_states", 0, k, f) for k in mix for f in model.latent]
    out += [("mixture_weights", 0, k, "-") for k in mix]
    out += [
        ("initial_cholcovs", 0, k, f"{a}-{b}")
        for k in mix
        for i, a in enumerate(model.latent)
        for b in model.latent[: i + 1]
    ]
    out += [
        ("transition", t, f, n)
        for f in model.latent
        for t in tr
        for n in param_names(model.kinds[f], model.all_factors)
    ]
    return out


def make_params(
    rng, model, shock_scale=1.0, zeros=True, sd_range=(0.4, 1.2), trans_scale=1.0
):
    """Draw admissible parameter values, as dict of label -> value."""
    val = {}
    own = {}
    for key in ref_index(model):
        cat, t, n1, n2 = key
        if cat == "controls":
            v = rng.normal(0, 0.5)
        elif cat == "loadings":
            v = rng.uniform(0.5, 1.5) * rng.choice([1, 1, 1, -1])
            if zeros and rng.random() < 0.03:
                v = 0.0
        elif cat == "meas_sds":
            v = rng.uniform(*sd_range)
        elif cat == "shock_sds":
            v = rng.uniform(0.3, 0.9) * shock_scale
            if model.kinds[n1] == "constant" and rng.random() < 0.7:
                v = 0.0
        elif cat == "initial_states":
            v = rng.normal(0, 0.7)
        elif cat == "initial_cholcovs":
            v = rng.normal(0, 0.3)
        elif cat == "mixture_weights":
            v = None
        else:
            v = None
        val[key] = v
    for k in range(model.n_mixtures):
        for f in model.latent:
            val[("initial_cholcovs", 0, f"mixture_{k}", f"{f}-{f}")] = rng.uniform(
                0.5, 1.2
            )
    w = rng.dirichlet(np.full(model.n_mixtures, 2.0))
    w = (w + 0.02) / (w + 0.02).sum()
    for k in range(model.n_mixtures):
        val[("mixture_weights", 0, f"mixture_{k}", "-")] = float(w[k])
    # anchoring loadings must be nonzero because states are divided by them
    for t, m, kind, fs, _ in model.updates():
        if kind == "anchoring":
            val[("loadings", t, m, fs[0])] = float(
                rng.uniform(0.6, 1.8) * rng.choice([1, 1, -1])
            )
    allf = model.all_factors
    for f in model.latent:
        kind = model.kinds[f]
        names = param_names(kind, allf)
        for t in range(model.n_periods - 1):
            p = {}
            if kind in ("linear", "translog", "robust_translog", "linear_and_squares"):
                for n in names:
                    if n in allf:
                        p[n] = rng.normal(0.6 if n == f else 0.15, 0.15) * trans_scale
                    elif n == "constant":
                        p[n] = rng.normal(0, 0.3)
                    else:
                        p[n] = rng.normal(0, 0.04) * trans_scale
            elif kind == "log_ces":
                g = rng.dirichlet(np.full(len(allf), 2.0)) * 0.98 + 0.02 / len(allf)
                p = dict(zip(allf, g))
                p["phi"] = float(rng.choice([-1, 1]) * rng.uniform(0.2, 0.8))
            elif kind == "log_ces_general":
                for n in allf:
                    p[n] = rng.uniform(0.1, 0.9)
                    p[f"sigma_{n}"] = rng.uniform(0.2, 0.8) * rng.choice([1, 1, -1])
                p["tfp"] = rng.uniform(0.5, 1.2)
            elif kind == "custom_states":
                p = {
                    "scale": rng.normal(0.8, 0.2),
                    "slope": rng.normal(0.8, 0.2),
                    "shift": rng.normal(0, 0.3),
                }
            elif kind == "custom_named":
                p = {
                    "a": rng.normal(0.6, 0.2),
                    "b": rng.normal(0.5, 0.2),
                    "const": rng.normal(0, 0.3),
                }
            elif kind == "custom_mixed":
                p = {"own": rng.normal(0.6, 0.2), "rest": rng.normal(0.3, 0.1)}
            for n, v in p.items():
                val[("transition", t, f, n)] = float(v)
    del own
    return {k: float(v) for k, v in val.items()}


def params_frame(values, index=None, rng=None, extra_columns=False):
    """Convert a dict of parameter values to an estimagic-style DataFrame."""
    keys = list(values) if index is None else list(index)
    if rng is not None:
        keys = [keys[i] for i in rng.permutation(len(keys))]
    idx = pd.MultiIndex.from_tuples(
        keys, names=["category", "period", "name1", "name2"]
    )
    df = pd.DataFrame({"value": [values[k] for k in keys]}, index=idx)
    if extra_columns:
        df.insert(0, "lower_bound", -np.inf)
        df["note"] = "x"
    return df


# --------------------------------------------------------------------------------------
# data
# --------------------------------------------------------------------------------------


@dataclass
class Panel:
    """Canonical representation of the data: var -> array of shape (n_obs, n_periods)"""

    values: dict
    present: np.ndarray
    n_obs: int
    n_periods: int

    def copy(self):
        return Panel(
            {k: v.copy() for k, v in self.values.items()},
            self.present.copy(),
            self.n_obs,
            self.n_periods,
        )

    def take(self, idx):
        idx = np.asarray(idx)
        return Panel(
            {k: v[idx] for k, v in self.values.items()},
            self.present[idx],
            len(idx),
            self.n_periods,
        )


def data_columns(model):
    upd = model.updates()
    meas = {}
    for t, _, _, _, col in upd:
        meas.setdefault(col, set()).add(t)
    return meas


def make_panel(
    rng,
    model,
    n_obs=None,
    missing=None,
    control_missing=False,
    absent_rows=None,
    scale=1.2,
):
    """Draw data on all variables of the model.

    Values of measurements are dispersed random numbers; the filter does not assume that
    the data come from the model.
    """
    if n_obs is None:
        n_obs = int(rng.integers(6, 14))
        if n_obs == 13:
            # rarely, very few or many individuals
            n_obs = int(rng.choice(SIZES))
    T = model.n_periods
    vals = {}
    meas_cols = data_columns(model)
    common = rng.normal(0, 0.8, size=(n_obs, 1))
    # somebody has controls and a row in every period, not necessarily the first one
    complete = int(rng.integers(n_obs))
    for col in meas_cols:
        arr = common + rng.normal(0, scale, size=(n_obs, T))
        for t in range(T):
            if t not in meas_cols[col] and rng.random() < 0.5:
                arr[:, t] = np.nan
        vals[col] = arr
    for c in model.controls:
        vals[c] = rng.normal(0, 1, size=(n_obs, T))
        if rng.random() < 0.3:
            vals[c] = np.floor(vals[c] * 2)
    for f in model.observed:
        vals[f] = rng.normal(0, 1, size=(n_obs, T))
        if rng.random() < 0.3:
            vals[f] = np.repeat(rng.normal(0, 1, size=(n_obs, 1)), T, axis=1)
    present = np.ones((n_obs, T), dtype=bool)
    missing = float(rng.choice([0, 0.1, 0.35])) if missing is None else missing
    if missing:
        for col in meas_cols:
            vals[col][rng.random((n_obs, T)) < missing] = np.nan
        if rng.random() < 0.5:
            i, t = int(rng.integers(n_obs)), int(rng.integers(T))
            for col in meas_cols:
                vals[col][i, t] = np.nan
        if rng.random() < 0.3:
            # a variable that nobody reports in one period
            col = list(meas_cols)[int(rng.integers(len(meas_cols)))]
            vals[col][:, int(rng.integers(T))] = np.nan
        if rng.random() < 0.3:
            i = int(rng.integers(n_obs))
            for col in meas_cols:
                vals[col][i] = np.nan
    if control_missing and model.controls:
        for c in model.controls:
            if c in model.observed:
                # observed factors have to be complete
                continue
            m = rng.random((n_obs, T)) < 0.15
            m[complete] = False
            vals[c][m] = np.nan
    absent_rows = (
        (rng.random() < 0.4 if absent_rows is None else absent_rows)
        and not model.observed
        and missing > 0
    )
    if absent_rows:
        present = rng.random((n_obs, T)) > 0.12
        present[:, 0] |= ~present.any(axis=1)
        present[complete] = True
        for v in vals.values():
            v[~present] = np.nan
    panel = Panel(vals, present, n_obs, T)
    return ensure_variance(rng, model, panel)


def ensure_variance(rng, model, panel):
    """No measurement may have exactly one distinct value in a period."""
    for t, _, _, _, col in model.updates():
        arr = panel.values[col][:, t]
        ok = np.isfinite(arr)
        if len(np.unique(arr[ok])) == 1:
            arr[:] = np.nan
    return panel


def to_frame(
    panel,
    rng=None,
    ids=None,
    periods=None,
    shuffle_rows=False,
    shuffle_cols=False,
    keep_absent=False,
):
    """Convert the panel to a DataFrame in the documented long format."""
    n, T = panel.n_obs, panel.n_periods
    ids = list(range(n)) if ids is None else list(ids)
    periods = list(range(T)) if periods is None else list(periods)
    rows = [
        (i, t)
        for i in range(n)
        for t in range(T)
        if keep_absent or panel.present[i, t]
    ]
    ii = np.array([r[0] for r in rows])
    tt = np.array([r[1] for r in rows])
    index = pd.MultiIndex.from_arrays(
        [[ids[i] for i in ii], [periods[t] for t in tt]], names=["caseid", "period"]
    )
    cols = list(panel.values)
    if shuffle_cols:
        cols = [cols[i] for i in rng.permutation(len(cols))]
    df = pd.DataFrame(dict(enumerate(panel.values[c][ii, tt] for c in cols)), index=index)
    if cols:
        df.columns = pd.Index(cols, tupleize_cols=False)
    else:
        df = pd.DataFrame(index=index)
    if shuffle_rows:
        df = df.iloc[rng.permutation(len(df))]
    return df


def case_rng(case, *extra):
    return np.random.default_rng([int(case["seed"]), *[int(e) for e in extra]])


def seeds(rng, n):
    return [int(s) for s in rng.integers(0, 2**31 - 1, size=n)]
