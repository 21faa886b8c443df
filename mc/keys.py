"""Random source under control of the explorer.

JAX derives all randomness from key arrays through four operations (seed, split, fold in, random bits).  Both
classes below replace these operations below the public interface, so that it does not matter which functions of
``jax.random`` the code under test uses, nor whether it runs eagerly, compiled, vectorized or in a loop.
"""
import itertools

import numpy as np


def _install(**ops):
    from jax._src import prng
    real = prng.threefry_prng_impl
    impl = prng.PRNGImpl(key_shape=real.key_shape, seed=real.seed, split=ops['split'], random_bits=ops['bits'],
                         fold_in=ops['fold_in'], name=real.name, tag='mck%d' % next(_count))
    prng.prngs[real.name] = impl
    return real


_count = itertools.count()


class Monitor:
    """Records every use of every key; values are those of the original generator."""

    def __init__(self):
        import jax
        from jax._src import prng
        real = prng.threefry_prng_impl
        self.log = []

        def note(op, *extra):
            def cb(key, children=None, msg=None):
                kids = () if children is None else tuple(
                    k.tobytes() for k in np.asarray(children).reshape(-1, np.shape(key)[-1]))
                self.log.append((op, np.asarray(key).tobytes(), (*extra, *(() if msg is None else (int(msg),))), kids))
            return cb

        def split(key, shape):
            out = real.split(key, shape)
            jax.debug.callback(note('split', tuple(shape)), key, out)
            return out

        def bits(key, width, shape):
            jax.debug.callback(note('bits', width, tuple(shape)), key)
            return real.random_bits(key, width, shape)

        def fold_in(key, data):
            out = real.fold_in(key, data)
            jax.debug.callback(note('fold'), key, out, data)
            return out

        _install(split=split, bits=bits, fold_in=fold_in)

    def take(self):
        import jax
        jax.effects_barrier()
        log, self.log = list(self.log), []
        return log

    @staticmethod
    def reused(log):
        """Keys used for more than one purpose.

        Deriving the same children twice is no second use (using a child twice is), nor is folding in
        different numbers, nor deriving children which are never used.
        """
        uses = {}
        seen = {key for _, key, *_ in log}
        for op, key, how, kids in log:
            if op != 'bits' and not seen & set(kids):
                continue
            uses.setdefault(key, []).append((op, how))
        bad = []
        for key, us in uses.items():
            draws = [u for u in us if u[0] == 'bits']
            kinds = {u if u[0] == 'split' else u[0] for u in us}
            if len(draws) > 1 or len(kinds) > 1:
                bad.append((np.frombuffer(key, np.uint32).tolist(), us))
        return bad

    @staticmethod
    def foreign(log, given):
        """Keys used which are not derived from the given ones."""
        known = {np.asarray(k).tobytes() for k in given}
        todo, n = log, -1
        while n != len(todo):
            n = len(todo)
            rest = []
            for entry in todo:
                if entry[1] in known:
                    known.update(entry[3])
                else:
                    rest.append(entry)
            todo = rest
        return [(np.frombuffer(k, np.uint32).tolist(), op, how) for op, k, how, _ in todo]

    @staticmethod
    def draws(log):
        return {k for op, k, *_ in log if op == 'bits'}


class Tape:
    """Random source whose outcomes are enumerated.

    A key is a pair (outcome number, path).  ``enumerate(fn)`` evaluates ``fn(key)`` for every assignment of the
    given bit patterns to the numbers drawn by ``fn``.
    """

    def __init__(self):
        self.slots = None          # path -> (offset, size), while recording
        self.table = {}
        self.recording = False
        self.levels = None
        _install(split=self._split, bits=self._bits, fold_in=self._fold)

    def _split(self, key, shape):
        import jax.numpy as jnp
        n = int(np.prod(shape))
        path = key[1] * np.uint32(1000003) + jnp.arange(1, n + 1, dtype=jnp.uint32)
        return jnp.stack([jnp.full((n,), key[0]), path], -1).reshape(*shape, 2)

    def _fold(self, key, data):
        import jax.numpy as jnp
        path = key[1] * np.uint32(998244353) + jnp.asarray(data, jnp.uint32) + np.uint32(7919)
        return jnp.stack([key[0], path])

    def _bits(self, key, width, shape):
        import jax
        import jax.numpy as jnp
        size = int(np.prod(shape))
        dtype = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32, 64: jnp.uint64}[width]
        if self.recording:
            def note(k):
                path = int(np.asarray(k)[1])
                self.table[path] = max(size, self.table.get(path, 0))
            jax.debug.callback(note, key)
            return (jnp.arange(size) * 7919 + 12345).astype(dtype).reshape(shape)
        off = jnp.zeros((), jnp.uint32)
        at = 0
        for path, n in self.table.items():
            off = jnp.where(key[1] == np.uint32(path), np.uint32(at), off)
            at += n
        G = len(self.levels)
        slot = off + jnp.arange(size, dtype=jnp.uint32)
        power = jnp.asarray([G ** i if G ** i < 2 ** 32 else 0 for i in range(at)], jnp.uint32)
        digit = (key[0] // power[slot]) % np.uint32(G)
        values = np.array([min(int(l * 2 ** width), 2 ** width - 1) for l in self.levels], dtype=np.dtype(dtype))
        return jnp.asarray(values)[digit].reshape(shape)

    def size(self, fn):
        """Number of random values drawn by fn."""
        import jax
        import jax.numpy as jnp
        self.table, self.recording = {}, True
        try:
            with jax.disable_jit():
                fn(jnp.zeros(2, jnp.uint32))
            jax.effects_barrier()
        finally:
            self.recording = False
        self.table = dict(sorted(self.table.items()))
        return sum(self.table.values())

    def enumerate(self, fn, limit=40000, levels=None):
        """All outcomes of fn with a midpoint grid of the unit interval (or the given levels) for each value drawn.

        Returns the stacked results, the number of values drawn and the number of levels.
        """
        import jax
        import jax.numpy as jnp
        k = self.size(fn)
        if levels is None:
            G = 2
            while (G + 2) ** k <= limit and G < 64:
                G += 2
            levels = [(d + .5) / G for d in range(G)]
        G = len(levels)
        if G ** k > max(limit, 2 ** 17):
            return None, k, G
        self.levels = list(levels)
        keys = jnp.stack([jnp.arange(G ** k, dtype=jnp.uint32), jnp.zeros(G ** k, jnp.uint32)], -1)
        jax.clear_caches()
        out = jax.vmap(fn)(keys)
        return jax.tree_util.tree_map(np.asarray, out), k, G
