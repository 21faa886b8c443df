"""Objects plugged into the training script through its configuration."""
import functools

import numpy as np

TRACE = []          # (params before, gradient, updates) per optimizer step, appended while the compiled step runs
KEYS = []           # keys used for accuracies


def optimizer(rate=0.05):
    """Gradient descent which keeps its own copy of the parameters and records every step."""
    import jax
    import optax

    def init(params):
        return dict(p=params)

    def update(grads, state, params=None):
        upd = jax.tree_util.tree_map(lambda g: -rate * g, grads)
        jax.debug.callback(lambda p, g: TRACE.append((p, g)), state['p'], grads)
        return upd, dict(p=optax.apply_updates(state['p'], upd))

    return optax.GradientTransformation(init, update)


def score(par, h, xp):
    """Stand-in for the accuracy: depends on every modulus and every entry of the matrix."""
    n = h.shape[-1]
    c = xp.asarray(np.cos(np.arange(n * n).reshape(n, n) * 0.7 + 0.2) + 1j * np.sin(np.arange(n * n).reshape(n, n) * 1.3))
    w = xp.asarray(np.array([1.0 + 0.3j, -0.4 + 0.8j, 0.2 - 1j])[:par.shape[-1]])
    return xp.abs((c * h).sum()) + xp.abs((w * par).sum() + 0.1)


def metric(variety, sections):
    import jax
    import jax.numpy as jnp
    import cyjax
    from jax_autovmap import auto_vmap

    class Metric(cyjax.donaldson.AlgebraicMetric):
        @auto_vmap(params=1, h=2)
        def sigma_accuracy(self, key, params, h, count):
            jax.debug.callback(lambda k: KEYS.append((np.asarray(k).tobytes(), count)), key)
            return score(params, h, jnp)

    return Metric(variety, sections)
