"""Shared oracles.  No melodia internals: only the public API and arithmetic."""


def raises(exc, fn, *a, **k):
    """(result, None) or (None, exception) for the allowed exception types; others propagate."""
    try:
        return fn(*a, **k), None
    except exc as e:
        return None, e


def val_eq(ctx, s, n, d):
    """Signature s has the value n/d (d > 0)."""
    return s.nominator * d == n * s.denominator


def is_pow2(d):
    return d > 0 and d & (d - 1) == 0
