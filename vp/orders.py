"""Sort keys of raw headers, for building (nearly) ordered files."""


def g32(d, loc):
    lo = (loc - 1) // 2
    return d.get(lo, 0) * 65536 + (d.get(lo + 1, 0) & 0xffff)


def filekey(t, h):
    d = dict((k, v) for k, v in h)
    s = d.get(35, 0)
    f = 1 if s in (0, 1) else s if s > 0 else -1. / s
    x, y, u, v = [g32(d, l) * f for l in (73, 77, 81, 85)]
    o2, ro, il, xl = (x - u) ** 2 + (y - v) ** 2, g32(d, 37), g32(d, 189), g32(d, 193)
    return {35: (x, y, u, v), 36: (x, y, o2), 37: (x, y, ro), 38: (u, v, o2), 39: (u, v, ro), 40: (il, xl, o2),
            41: (il, xl, ro), 42: (o2, il, xl), 43: (ro, il, xl)}[t]
