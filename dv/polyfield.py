"""Bounds of a plane polynomial map over a disc: values on a fine grid of the whole disc plus a bound of the next derivative."""
import numpy as np

NP = 9                                    # degree allowed (exactness is checked)
E = [(i, j) for i in range(NP + 1) for j in range(NP + 1 - i)]


def fit(f, R=1.3):
    """coefficients C[component, i, j] of x^i y^j of the polynomial map f, and the largest misfit on other points"""
    g = R * np.cos(np.pi * (np.arange(16) + .5) / 16)
    x, y = [a.ravel() for a in np.meshgrid(g, g)]
    A = np.array([(x / R)**i * (y / R)**j for i, j in E]).T
    B = np.linalg.lstsq(A, np.array(f(x, y)).T, rcond=None)[0]
    C = np.zeros((2, NP + 1, NP + 1))
    for k, (i, j) in enumerate(E):
        C[:, i, j] = B[k] / R**(i + j)
    C[abs(C) < 1e-15] = 0
    r = np.random.RandomState(1).uniform(-R, R, (2, 400))
    return C, np.abs(value(C, r[0], r[1]) - np.array(f(r[0], r[1]))).max()


def ev(c, x, y):
    return np.polynomial.polynomial.polyval2d(x, y, c)


def value(C, x, y):
    return np.array([ev(c, x, y) for c in C])


def dx(c):
    return np.vstack([c[1:] * np.arange(1, NP + 1)[:, None], np.zeros((1, NP + 1))])


def dy(c):
    return dx(c.T).T


def crude(c, R):
    """sum of |coefficients| times the largest monomial on the disc"""
    i, j = np.indices(c.shape)
    k = np.maximum(i + j, 1)
    m = R**(i + j) * np.sqrt(np.where(i > 0, (i / k)**i, 1.) * np.where(j > 0, (j / k)**j, 1.))
    return float((np.abs(c) * m).sum()) + 1e-12


def grid(R, h):
    n = int(np.ceil(R / h))
    g = np.arange(-n, n + 1) * h
    x, y = [a.ravel() for a in np.meshgrid(g, g)]
    k = x * x + y * y <= (R + h)**2
    return x[k], y[k]                     # every point of the disc is within h/sqrt(2) of one of them


def gradient(C):
    return [[dx(C[0]), dy(C[0])], [dx(C[1]), dy(C[1])]]


def opnorm(a, b, c, d):
    return (np.hypot(a + d, b - c) + np.hypot(a - d, b + c)) / 2


def gradient_bound(C, R, h=0.005):
    """upper bound of the operator norm of the gradient on the disc of radius R"""
    J = gradient(C)
    x, y = grid(R, h)
    top = opnorm(*[ev(c, x, y) for r in J for c in r]).max()
    G = np.sqrt(sum(crude(d(c), R + h)**2 for r in J for c in r for d in (dx, dy)))
    return float(top + G * h / np.sqrt(2) + 1e-9)


def size_bound(C, R, h=0.005):
    x, y = grid(R, h)
    top = np.hypot(*value(C, x, y)).max()
    G = np.sqrt(sum(crude(c, R + h)**2 for r in gradient(C) for c in r))
    return float(top + G * h / np.sqrt(2) + 1e-9)
