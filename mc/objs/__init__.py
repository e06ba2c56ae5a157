"""Instrumented processing objects that simulations built by the checks can use
(`add_modules: [mc.objs]`).  LOG receives one tuple per observed event."""
LOG = []


def fold(acc, *vals):
    """Order-sensitive, collision-free-in-practice fold to a 52-bit integer
    (exactly representable in float64)."""
    for v in vals:
        if v is None:
            v = 7
        acc = (acc * 1000003 + int(v) * 7919 + 12345) % ((1 << 52) - 47)
    return acc
