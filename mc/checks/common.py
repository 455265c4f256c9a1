"""priors and spaces the checks are built from"""
from mc.spec import Pr, Sp, Noise, Model

N1 = [1.3, 4.2, 7.9]
N2 = [(-1.0, -1.0), (9.0, -1.0), (-1.0, 9.0), (9.0, 9.0)]


def plane(a, b, c):
    return [a + b * x + c * y for x, y in N2]


def prior(name, kind, dep=0, std=1.0, bstd=None):
    """kind U, G, L, C, X; dep: 0 constant, 1 on a 1D position, 2 on a 2D position"""
    if kind == "X" and dep:     # its density depends on the position, its step lengths do not
        return Pr(name, "CP", 0.2 if dep == 1 else 0.6, 1.3, std, bstd)
    if kind in "CX":
        if dep == 0:
            return Pr(name, "C", 1.0, 1.2, std, bstd)
        s, b = std, bstd
        if dep == 1:
            return Pr(name, "CP", 0.2, 1.3, [std, 1.7, 1.2], None if bstd is None else [bstd, 1.1, 2.0], N1)
        return Pr(name, "CP", 0.6, 1.3, plane(std, .05, .02), None if bstd is None else plane(bstd, .03, .06), N2)
    if dep == 0:
        a, b = dict(U=(-0.5, 3.5), G=(1.0, 1.5), L=(2.0, 1.25))[kind]
        return Pr(name, kind, a, b, std, bstd)
    if dep == 1:
        a, b = dict(U=([-0.6, -1.3, -0.2], [3.4, 2.3, 3.7]), G=([1.0, 0.4, 2.2], [1.5, 1.1, 1.9]),
                    L=([2.0, 0.3, 1.2], [1.25, 1.8, 0.9]))[kind]
        return Pr(name, kind, a, b, [std, std + 0.7, std + 0.2],
                  None if bstd is None else [bstd, bstd + 0.3, bstd + 0.6], N1)
    a, b = dict(U=(plane(-0.6, -.07, .02), plane(2.4, .06, .05)), G=(plane(1., .1, -.05), plane(1.5, .03, .04)),
                L=(plane(2., -.1, .07), plane(1.25, .04, .03)))[kind]
    return Pr(name, kind, a, b, plane(std, .05, .02), None if bstd is None else plane(bstd, .03, .06), N2)


# prior mixing constant and position-dependent hyperparameters
def half(name, kind):
    if kind == "U":
        return Pr(name, "U", -0.5, [3.4, 2.3, 3.7], 1.0, 1.5, N1)
    if kind == "G":
        return Pr(name, "G", [1.0, 0.4, 2.2], 1.5, 1.25, [1.1, 1.5, 1.3], N1)
    return Pr(name, "L", 2.0, [1.25, 1.8, 0.9], [1.0, 1.6, 1.3], None, N1)


L_SHAPE = ((0.5, 0.5), (4.5, 0.5), (4.5, 3.5), (3.5, 3.5), (3.5, 4.5), (0.5, 4.5))
