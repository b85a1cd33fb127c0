"""C15: transition functions compute the documented production functions."""
import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Built-in transition functions, called directly and through processed models, on "
    "random and extreme states and parameters, against formulas written down from the "
    "documentation, plus laws (weights of a CES: translation equivariance, bounds, "
    "order of inputs). Models with custom functions that restate a built-in function "
    "must give the same likelihood. Non-trivial: several inputs."
)
ASSUMPTIONS = ["parameters are ordered as documented: by label"]
REQUIRED = [
    "formula",
    "parameter names",
    "ces is between its inputs",
    "ces shifts with its inputs",
    "custom function equals built-in",
    "individual transition functions",
    "registered params",
]
FUNCS = [f for f in gen.BUILTIN if f != "constant"]


def cases(tier, rng):
    n = 180 if tier == "quick" else 1200
    kinds = ["formula", "formula", "model", "custom"]
    return [
        {"seed": s, "kind": kinds[i % 4]} for i, s in enumerate(gen.seeds(rng, n))
    ]


def draw_params(rng, name, factors, extreme=False):
    names = gen.param_names(name, factors)
    p = {n: float(rng.normal(0, 1)) for n in names}
    if name == "log_ces":
        w = rng.dirichlet(np.ones(len(factors)))
        if len(factors) > 1 and rng.random() < 0.2:
            w[0] = 0.0
            w = w / w.sum()
        p.update(zip(factors, map(float, w)))
        p["phi"] = float(rng.choice([-1, 1]) * rng.uniform(0.05, 3))
        if rng.random() < 0.3:
            # almost Cobb-Douglas
            p["phi"] = float(np.sign(p["phi"]) * 10 ** rng.uniform(-4, -1))
    if name == "log_ces_general":
        for f in factors:
            p[f] = float(rng.uniform(0, 2))
        if rng.random() < 0.2 and len(factors) > 1:
            p[factors[-1]] = 0.0
    return p


def formula_case(case, mon, rng):
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp

    import skillmodels.transition_functions as tf

    for name in FUNCS:
        for rep in range(3):
            n = int(rng.integers(1, 6))
            style = list(gen.NAME_STYLES)[int(rng.integers(5))]
            facs = [str(f) for f in rng.permutation(gen.NAME_STYLES[style])[:n]]
            names = getattr(tf, f"params_{name}")(list(facs))
            mon.equal("parameter names", list(names), gen.param_names(name, facs), name)
            p = draw_params(rng, name, facs)
            scale = float(rng.choice([1e-3, 1, 1, 20, 300, 1e4, 1e6]))
            x = rng.normal(0, scale, n)
            if name == "robust_translog" and rng.random() < 0.4:
                x[int(rng.integers(n))] = float(rng.choice([-1, 1])) * 10 ** rng.uniform(
                    11, 20
                )
            vec = jnp.array([p[m] for m in names])
            got = float(getattr(tf, name)(jnp.array(x), vec))
            exp = float(gen.ref_transition(name, x, p, facs, facs[0]))
            scale_sum = 1.0
            if "translog" in name or name == "linear_and_squares":
                xc = np.clip(x, -1e12, 1e12) if "robust" in name else x
                scale_sum = float(np.max(np.abs(xc)) ** 2) + 1
            tol = {"rtol": 1e-9, "atol": 1e-10 * scale_sum}
            mon.close("formula", got, exp, f"{name} {facs}", **tol)
            if name == "log_ces":
                pos = [v for f, v in zip(facs, x) if p[f] > 0]
                ok = min(pos) - 1e-6 <= got <= max(pos) + 1e-6
                mon.check("ces is between its inputs", ok, "", x=x, p=p, got=got)
                sh = float(rng.normal(0, 3))
                moved = float(tf.log_ces(jnp.array(x + sh), vec))
                mon.close(
                    "ces shifts with its inputs", moved, got + sh, "", 1e-8, 1e-8
                )
    x = rng.normal(0, 1, 1)
    mon.close("constant", float(tf.constant(x[0], None)), x[0], "", 0, 0)


def model_case(case, mon, rng, model, values):
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp

    from skillmodels.process_model import process_model

    info = process_model(model.model_dict)["transition_info"]
    n = 5
    x = rng.normal(0, 1, (n, len(model.all_factors)))
    t = int(rng.integers(model.n_periods - 1))
    pars, exp = {}, []
    for f in model.latent:
        names = gen.param_names(model.kinds[f], model.all_factors)
        got = list(info["param_names"][f])
        mon.equal("parameter names", got, names, f"of {f}")
        p = {m: values[("transition", t, f, m)] for m in names}
        pars[f] = jnp.array([p[m] for m in names])
        exp.append(
            gen.ref_transition(
                model.kinds[f], x, p, model.all_factors, f, model.custom_args[f]
            )
        )
    exp = np.stack(exp, axis=-1)
    got = np.array(info["func"](pars, jnp.array(x)))
    mon.close("joint transition function", got, exp, "", 1e-9, 1e-9)
    for i, f in enumerate(model.latent):
        got = np.array(info["individual_functions"][f](pars, jnp.array(x)))
        mon.close("individual transition functions", got, exp[:, i], f, 1e-9, 1e-9)


def restate(kind, factors, own, rng):
    """custom function equivalent to a built-in one, with named or vector inputs"""
    import jax.numpy as jnp

    from skillmodels.decorators import register_params

    names = gen.param_names(kind, factors)
    named = bool(rng.integers(2))
    order = [str(f) for f in rng.permutation(factors)]

    def body(col, p):
        vec = jnp.array([col[f] for f in factors])
        if kind == "constant":
            return col[own]
        if kind == "linear":
            return sum(p[f] * col[f] for f in factors) + p["constant"]
        if kind == "log_ces_general":
            g = sum(p[f] * jnp.exp(p[f"sigma_{f}"] * col[f]) for f in factors)
            return p["tfp"] * jnp.log(g)
        out = p["constant"] + sum(
            p[f] * col[f] + p[f"{f} ** 2"] * col[f] ** 2 for f in factors
        )
        if kind == "translog":
            for i, a in enumerate(factors):
                for b in factors[i + 1 :]:
                    out = out + p[f"{a} * {b}"] * col[a] * col[b]
        return out + 0 * vec[0]

    if named:
        ns = {"body": body}
        args = ", ".join(order)
        exec(
            f"def restated({args}, params):\n"
            f"    return body(dict({', '.join(f'{a}={a}' for a in order)}), params)\n",
            ns,
        )
        func = ns["restated"]
    else:

        def func(params, states):
            return body({f: states[i] for i, f in enumerate(factors)}, params)

    return register_params(params=names)(func), names


def custom_case(case, mon, rng):
    import copy

    kinds = ["linear", "translog", "linear_and_squares", "log_ces_general", "constant"]
    names = ["plain", "overlap", "unsorted", "words"]
    rng, model, values, panel = sm.draw(case, kinds=kinds, names=names)
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng)
    exp = sm.contributions(model, df, values)
    md = copy.deepcopy(model.model_dict)
    for f in model.latent:
        func, nms = restate(model.kinds[f], model.all_factors, f, rng)
        mon.check("registered params", func.__registered_params__ == nms, "")
        md["factors"][f]["transition_function"] = func
    got = sm.contributions(md, df, values)
    mon.close("custom function equals built-in", got, exp, "", 1e-8, 1e-8)
    sm.finish(mon, model, values, panel)


def run_case(case, mon):
    kind = case["kind"]
    mon.feature(kind)
    if kind == "custom":
        return custom_case(case, mon, gen.case_rng(case))
    rng, model, values, panel = sm.draw(case)
    mon.context(model=model.describe())
    if kind == "formula":
        formula_case(case, mon, rng)
    else:
        model_case(case, mon, rng, model, values)
    sm.finish(mon, model, values, panel, kind=kind)
