"""C11: the params template has exactly the parameters of the model."""
import numpy as np

from vf import gen
from vf import sm

RULE = (
    "Random specifications over all model features; the index of the params template "
    "is compared with the set of labels that follows from the documentation. "
    "Non-trivial: model has at least two latent factors or two mixture components."
)
ASSUMPTIONS = ["labels as documented in the params_df section of the documentation"]
REQUIRED = ["labels complete", "labels unique", "level names", "template accepted"]


def cases(tier, rng):
    n = 420 if tier == "quick" else 2500
    return [
        {"seed": s, "opts": {"var_names": gen.VAR_STYLES} if i % 8 == 7 else {}}
        for i, s in enumerate(gen.seeds(rng, n))
    ]


def run_case(case, mon):
    rng, model, values, panel = sm.draw(case, n_mixtures=(1, 1, 2, 3, 11))
    mon.context(model=model.describe())
    inp = sm.inputs(model, gen.to_frame(panel, rng))
    tmp = inp["params_template"]
    index = list(tmp.index)
    mon.check("labels unique", len(index) == len(set(index)), "duplicates")
    exp = set(gen.ref_index(model))
    mon.check(
        "labels complete",
        set(index) == exp,
        "unexpected set of labels",
        additional=sorted(map(str, set(index) - exp))[:10],
        missing=sorted(map(str, exp - set(index)))[:10],
    )
    names = list(tmp.index.names)
    mon.equal("level names", names, ["category", "period", "name1", "name2"])
    mon.check("value column", "value" in tmp.columns, "no value column")
    mon.check("value column", tmp["value"].isna().all(), "template has values")
    # filling the template row by row gives valid parameters
    filled = tmp.copy()
    filled["value"] = [values[k] for k in index]
    filled["value"] = filled["value"].astype(float)
    if case["seed"] % 8 == 0:
        res = inp["loglike"](filled)
        mon.check("evaluates", np.isfinite(res["contributions"]).all(), "not finite")
    mon.check("template accepted", len(filled) == len(exp), "length")
    sm.finish(
        mon, model, values, panel, len(model.latent) > 1 or model.n_mixtures > 1
    )
