"""C02: linear models have exactly the joint (mixture) normal likelihood."""
import copy

from vf import gen
from vf import ref
from vf import sm

RULE = (
    "Random linear Gaussian models (linear and constant transitions, observed factors, "
    "controls, mixtures, missings). The contributions are compared with the joint "
    "density of all observed measurements of an individual, computed without any "
    "filter, and recomputed with another sigma point scale and another order of the "
    "measurements. Non-trivial: some individual has measurements in two periods."
)
ASSUMPTIONS = ["no anchoring (anchoring outcomes do not enter the joint normal model)"]
REQUIRED = ["equals joint density", "sigma scale irrelevant", "order irrelevant"]


def cases(tier, rng):
    n = 110 if tier == "quick" else 1200
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = [
            {},
            {"n_mixtures": 2},
            {"n_latent": 3, "n_observed": 2},
            {"n_periods": 5, "n_latent": 2, "n_controls": 2},
            {"n_latent": 3, "n_mixtures": 4},
        ][i % 5]
        out.append({"seed": s, "opts": opts})
    return out


def run_case(case, mon):
    rng, model, values, panel = sm.draw(
        case, kinds=["linear", "linear", "constant"], anchoring=False
    )
    mon.context(model=model.describe())
    df = gen.to_frame(panel, rng, shuffle_rows=True)
    got = sm.contributions(model, df, values)
    exp = ref.linear_joint(model, values, panel)
    mon.close("equals joint density", got, exp, rtol=1e-7, atol=1e-7)

    which = int(rng.integers(2))
    if which or case["seed"] % 3 == 0:
        md = copy.deepcopy(model.model_dict)
        md.setdefault("estimation_options", {})["sigma_points_scale"] = float(
            rng.uniform(0.1, 6)
        )
        other = sm.inputs(md, df)["loglike"](gen.params_frame(values))
        mon.close(
            "sigma scale irrelevant", other["contributions"], exp, rtol=1e-7, atol=1e-7
        )
    if not which or case["seed"] % 3 == 0:
        md = copy.deepcopy(model.model_dict)
        for fac in md["factors"].values():
            fac["measurements"] = [
                [lst[i] for i in rng.permutation(len(lst))]
                for lst in fac["measurements"]
            ]
        other = sm.inputs(md, df)["loglike"](gen.params_frame(values))
        mon.close("order irrelevant", other["contributions"], exp, rtol=1e-7, atol=1e-7)
    res = ref.run_filter(model, values, panel)
    mon.close(
        "reference filter equals joint density",
        res["contributions"],
        exp,
        rtol=1e-7,
        atol=1e-7,
    )
    sm.finish(mon, model, values, panel, len(res["predicted"]) > 0)
