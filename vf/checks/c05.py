"""C05: one measurement update is exact Bayesian conditioning."""
import numpy as np

from vf import gen

RULE = (
    "Random states, square root covariances (ill scaled, negative diagonal, singular), "
    "loadings (zeros, negative, large), controls, weights and missing measurements are "
    "passed to the update step; posterior means, covariances, weights and likelihoods "
    "are compared with Gaussian conditioning formulas. Non-trivial: at least one "
    "observed and one missing measurement."
)
ASSUMPTIONS = ["innovation variance is positive"]
REQUIRED = ["posterior mean", "posterior covariance", "posterior weights", "loglike",
            "missing is neutral"]


def cases(tier, rng):
    n = 200 if tier == "quick" else 1500
    return [{"seed": s, "n": 6} for s in gen.seeds(rng, n)]


def run_case(case, mon):
    import jax
    import jax.numpy as jnp

    jax.config.update("jax_enable_x64", True)
    from skillmodels.kalman_filters import kalman_update

    rng = gen.case_rng(case)
    n_obs = int(rng.integers(1, 9))
    if rng.random() < 0.08:
        n_obs = int(rng.choice([40, 129, 300]))
    K = int(rng.choice([1, 1, 2, 3, 4]))
    d = int(rng.integers(1, 6))
    nc = int(rng.integers(1, 4))
    debug = bool(rng.integers(2))
    mon.feature(f"d={d}", f"mixtures={K}", f"debug={debug}")
    for _ in range(case["n"]):
        scale = float(rng.choice([1e-4, 1, 1, 1, 50]))
        x = rng.normal(0, scale, (n_obs, K, d))
        U = np.triu(rng.normal(0, scale, (n_obs, K, d, d)))
        if rng.random() < 0.2 and d > 1:
            U[..., -1, -1] = 0
        if rng.random() < 0.2:
            U[..., 0, :] *= -1
        h = rng.normal(0, 1, d)
        h[rng.random(d) < 0.3] = 0
        c = rng.normal(0, 1, nc) * scale
        sd = float(rng.uniform(0.05, 2)) * scale
        controls = np.concatenate([np.ones((n_obs, 1)), rng.normal(0, 1, (n_obs, nc - 1))], 1)
        y = rng.normal(0, 2 * scale, n_obs)
        miss = rng.random(n_obs) < 0.3
        if n_obs > 1:
            miss[0], miss[1] = True, False
        far = rng.random(n_obs) < 0.15
        y[far] *= 10 ** rng.uniform(1, 4, far.sum())
        y[miss] = np.nan
        controls[miss] = np.where(
            rng.random((miss.sum(), nc)) < 0.3, np.nan, controls[miss]
        )
        w = rng.dirichlet(np.ones(K), size=n_obs)
        lw = np.log((w + 1e-6) / (w + 1e-6).sum(1, keepdims=True))
        if K > 1 and rng.random() < 0.3:
            # weights as they are after outliers
            lw[rng.random((n_obs, K)) < 0.4] -= rng.choice([50, 1000])
            lw -= np.logaddexp.reduce(lw, axis=1)[:, None]
        out = kalman_update(
            states=jnp.array(x),
            upper_chols=jnp.array(U),
            loadings=jnp.array(h),
            control_params=jnp.array(c),
            meas_sd=sd,
            measurements=jnp.array(y),
            controls=jnp.array(controls),
            log_mixture_weights=jnp.array(lw),
            debug=debug,
        )
        x2, U2, lw2, ll = [np.array(o) for o in out[:4]]
        info = {k: np.array(v) for k, v in out[4].items()}
        P = np.swapaxes(U, -1, -2) @ U
        P2 = np.swapaxes(U2, -1, -2) @ U2
        for i in range(n_obs):
            if miss[i]:
                ok = (
                    np.array_equal(x2[i], x[i])
                    and np.array_equal(U2[i], U[i])
                    and np.allclose(lw2[i], lw[i], rtol=1e-14, atol=1e-14)
                    and ll[i] == 0
                )
                mon.check("missing is neutral", ok, "missing measurement had an effect")
                continue
            dens, z2 = np.zeros(K), np.ones(K)
            for k in range(K):
                S = h @ P[i, k] @ h + sd**2
                r = y[i] - h @ x[i, k] - controls[i] @ c
                gain = P[i, k] @ h / S
                tol = {"rtol": 1e-8, "atol": 1e-9 * scale * max(1, abs(r) / sd)}
                mon.close("posterior mean", x2[i, k], x[i, k] + gain * r, **tol)
                exp = P[i, k] - np.outer(gain, gain) * S
                mon.close(
                    "posterior covariance", P2[i, k], exp, rtol=1e-8,
                    atol=1e-10 * max(1e-12, np.abs(P[i, k]).max()),
                )
                dens[k] = -0.5 * (np.log(2 * np.pi * S) + r**2 / S)
                z2[k] = 1 + r**2 / S
                if debug:
                    mon.close("debug residual", info["residuals"][i, k], r, rtol=1e-9,
                              atol=1e-9 * scale)
                    mon.close("debug residual sd", info["residual_sds"][i, k],
                              np.sqrt(S), rtol=1e-9, atol=0)
            joint = dens + lw[i]
            tot = np.logaddexp.reduce(joint)
            if K > 1:
                exp_ll = tot
            else:
                exp_ll = dens[0]
            mon.close("loglike", ll[i], exp_ll, rtol=1e-9, atol=1e-9 * z2.max())
            if K > 1:
                mon.close("posterior weights", np.exp(lw2[i]), np.exp(joint - tot),
                          rtol=0, atol=1e-9 * z2.max())
                mon.close("posterior weights", lw2[i], joint - tot,
                          rtol=1e-9, atol=1e-9 * z2.max())
                mon.close("weights sum to one", np.exp(lw2[i]).sum(), 1, rtol=1e-9)
            if debug and K > 1:
                mon.close("debug weights", info["log_mixture_weights"][i], lw2[i],
                          rtol=1e-12, atol=1e-12)
    mon.nontrivial = n_obs > 1
    mon.sign(case, x.tobytes())
    mon.sample = {"n_obs": n_obs, "n_mixtures": K, "n_states": d, "n_controls": nc}
