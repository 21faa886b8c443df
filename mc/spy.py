"""Varieties whose sampler is observed, or answered from a script chosen by the explorer."""
import numpy as np


def recording(variety_cls_instance):
    """A variety of the same class whose draws are recorded (also inside compiled loops)."""
    v = variety_cls_instance
    base = type(v)

    class Recorded(base):
        def sample_intersect(self, key, params, count, affine=False, weights=False):
            import jax
            out = base.sample_intersect(self, key, params, count, affine, weights)
            if affine and weights:
                (zs, patch), w = out
            elif affine:
                (zs, patch), w = out, None
            elif weights:
                zs, w = out
                patch = None
            else:
                zs, patch, w = out, None, None
            have = [x for x in (zs, patch, w) if x is not None]
            names = [n for n, x in zip(('zs', 'patch', 'weights'), (zs, patch, w)) if x is not None]

            def note(k, *arrs):
                log.append(dict(zip(names, [np.asarray(a) for a in arrs]), key=np.asarray(k)))
            jax.debug.callback(note, key, *have)
            return out

    log = []
    r = object.__new__(Recorded)
    r.__dict__.update(v.__dict__)
    return r, log


class Script:
    """Environment answers for sampling: per distinct key the next rows of the script."""

    def __init__(self, zs, patch, weights):
        self.zs, self.patch, self.w = zs, patch, weights
        self.load([])

    def load(self, order):
        self.order = list(order)
        self.pos = 0
        self.keys = {}
        self.calls = []

    def answer(self, key, count):
        kb = np.asarray(key).tobytes()
        if kb not in self.keys:
            self.keys[kb] = self.order[self.pos:self.pos + count]
            self.pos += count
        self.calls.append(kb)
        idx = np.array(self.keys[kb] + [0] * (count - len(self.keys[kb])), int)
        return (self.zs[idx], self.patch[idx].astype(np.int32), self.w[idx])


def scripted(v, script):
    """A variety of the same class whose sampler returns scripted rows."""
    base = type(v)

    class Scripted(base):
        def sample_intersect(self, key, params, count, affine=False, weights=False):
            import jax
            import jax.numpy as jnp
            count = int(count)
            shapes = (jax.ShapeDtypeStruct((count, self.dim_projective), script.zs.dtype),
                      jax.ShapeDtypeStruct((count,), np.int32),
                      jax.ShapeDtypeStruct((count,), script.w.dtype))
            zs, patch, w = jax.pure_callback(lambda k: script.answer(k, count), shapes, key)
            if not affine:
                from cyjax import affine_to_hom
                zs = affine_to_hom(zs, patch)
                return (zs, w) if weights else zs
            return ((zs, patch), w) if weights else (zs, patch)

    r = object.__new__(Scripted)
    r.__dict__.update(v.__dict__)
    return r
