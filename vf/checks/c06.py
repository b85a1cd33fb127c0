"""C06: the predict step is the unscented transform of the transition equations."""
import numpy as np

from vf import gen
from vf import ref

RULE = (
    "Predict step and sigma points with the transition functions of random models, "
    "random filtered states and covariances, anchoring and observed factors, against "
    "an independent covariance-form unscented transform; for linear transitions also "
    "against exact means and covariances. Non-trivial: executed for >= 2 individuals."
)
ASSUMPTIONS = ["covariance matrices are positive definite"]
REQUIRED = ["predicted mean", "predicted covariance", "sigma weights", "linear is exact",
            "transformed points"]


def cases(tier, rng):
    n = 220 if tier == "quick" else 1500
    out = []
    for i, s in enumerate(gen.seeds(rng, n)):
        opts = {"kinds": ["linear", "constant"]} if i % 4 == 0 else {}
        out.append({"seed": s, "opts": opts})
    return out


def run_case(case, mon):
    import jax
    import jax.numpy as jnp

    jax.config.update("jax_enable_x64", True)
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict
    from skillmodels.kalman_filters import transform_sigma_points
    from skillmodels.process_model import process_model

    rng = gen.case_rng(case)
    model = gen.make_model(rng, **case["opts"])
    values = gen.make_params(rng, model)
    mon.context(model=model.describe())
    mon.feature(*model.features)
    info = process_model(model.model_dict)["transition_info"]
    d, n_obsf = len(model.latent), len(model.observed)
    kappa = float(rng.choice([0.3, 1, 2, 3.5]))
    scaling, weights = calculate_sigma_scaling_factor_and_weights(d, kappa)
    weights = np.array(weights)
    mon.check("sigma weights", weights.shape == (2 * d + 1,), "wrong shape")
    mon.close("sigma weights", weights.sum(), 1, rtol=1e-12, atol=1e-12)
    mon.check("sigma weights", (weights >= 0).all(), "negative weight")
    mon.close("sigma weights", weights[0], kappa / (d + kappa), rtol=1e-12)
    mon.close("sigma weights", weights[1:], np.full(2 * d, 0.5 / (d + kappa)), rtol=1e-12)
    mon.close("sigma scaling", float(scaling), np.sqrt(d + kappa), rtol=1e-12)

    std_scaling, std_weights = calculate_sigma_scaling_factor_and_weights(d)
    mon.close("sigma scaling", float(std_scaling), np.sqrt(d + 2), "default", 1e-12, 0)
    mon.close("sigma weights", std_weights[0], 2 / (d + 2), "default", 1e-12, 0)

    n, K = int(rng.integers(1, 7)), model.n_mixtures
    if rng.random() < 0.08:
        n = int(rng.choice([40, 129, 300]))
    t = int(rng.integers(model.n_periods - 1))
    L = np.tril(rng.normal(0, 0.3, (n, K, d, d)))
    idx = np.arange(d)
    L[..., idx, idx] = rng.uniform(0.4, 1.2, (n, K, d)) * rng.choice([1, -1])
    x = rng.normal(0, 1, (n, K, d))
    obs = rng.normal(0, 1, (n, n_obsf))
    scale, const = ref.anchoring_arrays(model, values)
    scale = np.hstack([scale, np.ones((len(scale), n_obsf))])[[t, t + 1]]
    const = np.hstack([const, np.zeros((len(const), n_obsf))])[[t, t + 1]]
    coeffs = {
        f: jnp.array(
            [
                values[("transition", t, f, nm)]
                for nm in gen.param_names(model.kinds[f], model.all_factors)
            ]
        )
        for f in model.latent
    }
    shock = np.array([values[("shock_sds", t, f, "-")] for f in model.latent])
    args = [
        jnp.array(x), jnp.array(np.swapaxes(L, -1, -2)), scaling, jnp.array(weights),
        info, coeffs, jnp.array(shock), jnp.array(scale), jnp.array(const),
        jnp.array(obs),
    ]
    m, U = kalman_predict(*args)
    m, U = np.array(m), np.array(U)
    # reference
    P = L @ np.swapaxes(L, -1, -2)
    old = model.kappa
    model.kappa = kappa
    pts, w = ref.sigma_points(x, P, kappa)
    model.kappa = old
    o = np.broadcast_to(obs[:, None, None, :], pts.shape[:-1] + (n_obsf,))
    nxt = ref.transition(model, values, t, pts, o)
    em = np.einsum("s,nksd->nkd", w, nxt)
    dv = nxt - em[:, :, None]
    eP = np.einsum("s,nksi,nksj->nkij", w, dv, dv) + np.diag(shock**2)
    mon.close("predicted mean", m, em, rtol=1e-9, atol=1e-9)
    mon.close("predicted covariance", np.swapaxes(U, -1, -2) @ U, eP, rtol=1e-8, atol=1e-9)
    low = np.tril(np.ones((d, d)), -1).astype(bool)
    mon.close("predicted root is upper triangular", U[..., low], 0 * U[..., low])
    # points are transformed one by one
    full = np.concatenate([pts, o], axis=-1)
    got = np.array(
        transform_sigma_points(
            jnp.array(full), info, coeffs, jnp.array(scale), jnp.array(const)
        )
    )
    mon.close("transformed points", got, nxt, rtol=1e-9, atol=1e-9)
    if set(model.kinds.values()) <= {"linear", "constant"}:
        zero = ref.transition(model, values, t, np.zeros((1, d)), np.zeros((1, n_obsf)))
        A = np.stack(
            [
                ref.transition(model, values, t, np.eye(d)[[j]], np.zeros((1, n_obsf)))[0]
                - zero[0]
                for j in range(d)
            ],
            axis=1,
        )
        mean = ref.transition(model, values, t, x, np.repeat(obs[:, None], K, axis=1))
        mon.close("linear is exact", m, mean, rtol=1e-9, atol=1e-9)
        cov = A @ P @ A.T + np.diag(shock**2)
        mon.close("linear is exact", np.swapaxes(U, -1, -2) @ U, cov, rtol=1e-8, atol=1e-9)
    mon.nontrivial = n >= 2
    mon.sign(model.describe(), values, x.tobytes())
    mon.sample = {"model": model.describe(), "n_obs": n, "period": t, "kappa": kappa}
