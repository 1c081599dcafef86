"""The figures which the package shows, recorded instead of opened."""

import contextlib

import numpy as np

HIDDEN = -(2**28)


@contextlib.contextmanager
def recorded():
    import plotly.io as pio

    out, real = [], pio.show

    def show(fig, *_a, **k):
        out.append((fig, k))

    pio.show = show
    try:
        yield out
    finally:
        pio.show = real


def colours(values, scale):
    """Fixed point values of a plotted array, hidden ones marked."""
    import lib

    v = np.asarray(values, dtype=float)
    flat = [HIDDEN if not np.isfinite(x) or x <= -9e4 else lib.q(x, scale)
            for x in v.ravel()]
    return np.array(flat, dtype=int).reshape(v.shape).tolist()
