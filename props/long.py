"""Deterministic background notes for long tracks and files (concrete, beside one or two symbolic notes)."""
from props.hist import D, Entry


def rnd(seed):
    x = seed * 7919 + 12345
    while True:
        x = (x * 1103515245 + 12345) % (1 << 31)
        yield x >> 8


def background(n, seed=1, dens=(1, 2, 4, 8, 16), span=24, vels=None, dmin=0):
    """[(pitch, (m, e), velocity byte, (k, d))]: positions up to span whole notes, with ties, duplicates and zero durations."""
    g = rnd(seed)
    out = []
    for i in range(n):
        d, e = dens[next(g) % len(dens)], dens[next(g) % len(dens)]
        k, m = next(g) % (span * d), dmin + next(g) % (2 * e + 1)
        out.append((next(g) % 60, (m, e), next(g) % 127 + 1, (k, d)))
        if i % 7 == 6:
            out.append(out[-1])
    return out[:n]


def entry(b):
    p, (m, e), v, (k, d) = b
    return Entry(k * (D // d), p, m * (D // e), v / 127.0)


def lane(n, seed=1, top=3):
    """Notes of few pitches that do not overlap per pitch, on the 1/4 grid: [(pitch, m, v, k)] in quarters."""
    g = rnd(seed)
    at = {}
    out = []
    for i in range(n):
        p = 40 + next(g) % 5
        k = at.get(p, 0) + next(g) % top
        m = 1 + next(g) % top
        out.append((p, m, next(g) % 127 + 1, k))
        at[p] = k + m
    return out
