"""Thin helpers around the public API of the code under test."""
import numpy as np
import pandas as pd

from vf import gen


def inputs(model, df, **kw):
    from skillmodels import get_maximization_inputs

    md = model.model_dict if hasattr(model, "model_dict") else model
    return get_maximization_inputs(md, df, **kw)


def contributions(model, df, values):
    out = inputs(model, df)["loglike"](gen.params_frame(values))
    return np.array(out["contributions"])


def draw(case, **defaults):
    """model, values, panel, df for a standard random case"""
    rng = gen.case_rng(case)
    opts = {**defaults, **case.get("opts", {})}
    pan = {k[6:]: opts.pop(k) for k in list(opts) if k.startswith("panel_")}
    par = {k[4:]: opts.pop(k) for k in list(opts) if k.startswith("par_")}
    model = gen.make_model(rng, **opts)
    values = gen.make_params(rng, model, **par)
    panel = gen.make_panel(rng, model, **pan)
    return rng, model, values, panel


def by_row(frame, keys):
    """Set the index; pandas makes a MultiIndex of columns that are all tuples."""
    out = frame.set_index(keys)
    out.columns = pd.Index(list(out.columns), tupleize_cols=False)
    return out


def finish(mon, model, values, panel, nontrivial=True, **sample):
    mon.nontrivial = bool(nontrivial)
    mon.feature(*model.features)
    mon.sign(
        model.describe(), values, *[v.tobytes() for v in panel.values.values()]
    )
    mon.sample = {"model": model.describe(), **sample}
