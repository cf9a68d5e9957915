"""Splines (knots, coefficients, degree) with query points: inside, on knots, at and beyond the ends."""


def _knots(deg, inner, a, b):
    return [a] * (deg + 1) + inner + [b] * (deg + 1)


def _co(n, s):
    return [((7 * i * i + 3 * i * s + s) % 11) * .25 - 1.0 for i in range(n)]


XS = [0.0, 1e-9, .3, 1.0, 1.5, 2.0, 2.0 + 1e-9, 3.1, 4.0 - 1e-9, 4.0]
OUT = [-.5, -1e-9, 4.0 + 1e-9, 4.5, 7.]
TCKS, TCKS2 = [], []
for d in (1, 2, 3, 4, 5):
    for inner in ([], [2.0], [1.0, 2.0, 3.0], [1.0, 1.0, 2.5]):
        if d < 2 and inner == [1.0, 1.0, 2.5]:
            continue
        t = _knots(d, inner, 0.0, 4.0)
        n = len(t) - d - 1
        TCKS.append(((t, _co(n, d) + [0.0] * (d + 1), d), XS + OUT))
for dx, dy in ((1, 1), (3, 3), (3, 1), (2, 3)):
    for ix, iy in (([], []), ([2.0], [1.0]), ([1.0, 3.0], [1.0, 2.0])):
        tx, ty = _knots(dx, ix, 0.0, 4.0), _knots(dy, iy, 0.0, 4.0)
        nx, ny = len(tx) - dx - 1, len(ty) - dy - 1
        TCKS2.append(((tx, ty, _co(nx * ny, dx), dx, dy), XS[::2] + OUT[::2], XS[::3] + OUT[1::2]))
