"""C21: clipping is a smooth, monotone bound on likelihood contributions."""
import numpy as np

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Soft clipping is called on arrays of several shapes and magnitudes with random "
    "bounds and hardnesses (also None) and compared with the softmax formula, bounds, "
    "distance to hard clipping and monotonicity; likelihoods of random models with "
    "outliers and random clipping options are compared with clipped reference "
    "contributions. Non-trivial: some values are outside of the bounds."
)
ASSUMPTIONS = ["hardness is positive and lower bound is below the upper bound"]
REQUIRED = [
    "formula",
    "within bounds",
    "close to hard clipping",
    "monotone",
    "clipped contributions",
    "clipped value",
]


def cases(tier, rng):
    n = 180 if tier == "quick" else 1000
    return [
        {"seed": s, "kind": ["array", "model"][i % 2]}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


def array_case(case, mon, rng):
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp

    from skillmodels.clipping import soft_clipping

    for _ in range(8):
        shape = [(7,), (3, 4), (2, 3, 2), (1,), (5, 1)][int(rng.integers(5))]
        scale = float(rng.choice([1, 10, 1000, 1e8]))
        x = rng.normal(0, scale, shape)
        lower = upper = None
        if rng.random() < 0.7:
            lower = float(rng.normal(-0.5 * scale, 0.3 * scale))
        if rng.random() < 0.6:
            upper = float((lower or 0) + scale * rng.uniform(0.1, 2))
        if lower is not None and rng.random() < 0.1:
            lower = -1e250
        lh, uh = (float(v) for v in rng.choice([0.3, 1, 2, 10], 2))
        kw = {"lower": lower, "upper": upper, "lower_hardness": lh, "upper_hardness": uh}
        mon.context(args=kw, x=x)
        got = np.array(soft_clipping(jnp.array(x), **kw))
        exp = ref.soft_clip(x, lower, upper, lh, uh)
        tol = {"rtol": 1e-9, "atol": 1e-9 * scale}
        mon.close("formula", got, exp, "", **tol)
        eps = 1e-9 * scale
        if upper is not None:
            mon.check("within bounds", (got <= upper + eps).all(), "upper")
        if lower is not None:
            slack = np.log(2) / uh if upper is not None else 0.0
            mon.check("within bounds", (got >= lower - slack - eps).all(), "lower")
        hard = np.clip(x, lower, upper) if (lower, upper) != (None, None) else x
        lim = (np.log(2) / lh if lower is not None else 0) + (
            np.log(2) / uh if upper is not None else 0
        )
        mon.check(
            "close to hard clipping",
            (np.abs(got - hard) <= lim * (1 + 1e-9) + eps).all(),
            "",
            got=got,
            hard=hard,
        )
        order = np.argsort(x.flatten())
        mon.check(
            "monotone", (np.diff(got.flatten()[order]) >= -1e-9 * scale).all(), ""
        )
    mon.nontrivial = True
    mon.sign(case)
    mon.sample = {"last": [lower, upper, lh, uh]}


def run_case(case, mon):
    mon.feature(case["kind"])
    rng = gen.case_rng(case)
    if case["kind"] == "array":
        return array_case(case, mon, rng)
    lower = float(rng.choice([-3.0, -10.0, -50.0]))
    options = {"clipping_lower_bound": lower}
    if rng.random() < 0.3:
        options = {"clipping_lower_bound": None}
    if rng.random() < 0.6:
        options["clipping_upper_bound"] = float(rng.choice([-1.0, -0.5, 0.0]))
    if rng.random() < 0.6:
        options["clipping_lower_hardness"] = float(rng.choice([0.5, 2.0, 5.0]))
    if rng.random() < 0.6:
        options["clipping_upper_hardness"] = float(rng.choice([0.5, 2.0, 5.0]))
    options["n_mixtures"] = 1
    rng, model, values, panel = sm.draw(case, options=options, n_mixtures=1)
    mon.context(model=model.describe())
    for col in gen.data_columns(model):
        arr = panel.values[col]
        arr[rng.random(arr.shape) < 0.1] *= 30
    gen.ensure_variance(rng, model, panel)
    out = sm.inputs(model, gen.to_frame(panel))["loglike"](gen.params_frame(values))
    exp = ref.run_filter(model, values, panel)
    kw = {"rtol": 1e-8, "atol": 1e-7}
    mon.close("clipped contributions", out["contributions"], exp["contributions"], **kw)
    mon.close("clipped value", out["value"], exp["value"], **kw)
    lo = options["clipping_lower_bound"]
    nontrivial = lo is not None and (exp["loglikes"] < lo).any()
    nontrivial = nontrivial or "clipping_upper_bound" in options
    sm.finish(mon, model, values, panel, nontrivial, options=options)
