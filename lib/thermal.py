"""Thermal energy integrals of simple and double poles by quadrature (oracle for C19 and C21)."""
import numpy as np

GX, GW = np.polynomial.legendre.leggauss(16)


def occ(x):
    # Fermi function of x, accurate in relative terms
    e = np.exp(-np.abs(x))
    return np.where(x > 0, e, 1.) / (1 + e)


def window(mu, beta):
    return lambda E: occ(beta * (E - mu[0])) * occ(-beta * (E - mu[1]))


def panels(eps, mu, beta):
    T = 1 / beta
    far = max(abs(m - eps) for m in mu) + 60 * T
    b = [np.exp(np.linspace(np.log(1e-3 * T), np.log(10 * far), 60)), [0.]]
    for m in mu:
        b.append(abs(m - eps) + T * np.arange(-45, 46, 3.))
    b = np.unique(np.concatenate(b))
    b = b[(b >= 0) & (b <= 10 * far)]
    h = .5 * (b[1:] - b[:-1])
    t = (.5 * (b[1:] + b[:-1]))[:, None] + h[:, None] * GX
    return t, h[:, None] * GW, b[-1]


def finite_part(eps, mu, beta):
    """Hadamard finite part of int g(E)/(E-eps)^2 and the integral of the modulus of what is summed."""
    g = window(mu, beta)
    t, w, tmax = panels(eps, mu, beta)
    g0 = g(np.array(eps))
    # close to the pole the curvature is a smooth even function: use a wider difference quotient
    h = 2e-3 / beta
    c2 = (16 * (g(eps + h) + g(eps - h)) - (g(eps + 2 * h) + g(eps - 2 * h)) - 30 * g0) / (12 * h * h)
    y = np.where(t < h, c2, (g(eps + t) + g(eps - t) - 2 * g0) / np.maximum(t, 1e-300) ** 2)
    return float((y * w).sum() - 2 * g0 / tmax), float((np.abs(y) * w).sum() + 2 * g0 / tmax)


def principal(eps, mu, beta):
    g = window(mu, beta)
    t, w, _ = panels(eps, mu, beta)
    y = (g(eps + t) - g(eps - t)) / np.maximum(t, 1e-300)
    return float((y * w).sum()), float((np.abs(y) * w).sum())


def single(eps, mu, beta):
    v, s = finite_part(eps, mu, beta)
    return v, 1e-6 * s


def cross(ea, eb, mu, beta):
    if abs(ea - eb) * beta < 1e-3:
        # the divided difference of the principal values; its limit is the finite part (error of second order)
        v, s = finite_part(.5 * (ea + eb), mu, beta)
        return v, 2e-6 * s
    (a, sa), (b, sb) = principal(ea, mu, beta), principal(eb, mu, beta)
    return (a - b) / (ea - eb), 1e-9 * (sa + sb) / abs(ea - eb)


def regularised(A, E, mu, beta):
    """int |sum_k A_k/(e - E_k)|^2 f(e-mu0)(1-f(e-mu1)) de with the poles removed; (value, quadrature error)."""
    v, tol = 0., 0.
    for k in range(len(A)):
        a, t = single(E[k], mu, beta)
        v += A[k] ** 2 * a
        tol += A[k] ** 2 * t
        for l in range(k):
            a, t = cross(E[k], E[l], mu, beta)
            v += 2 * A[k] * A[l] * a
            tol += 2 * abs(A[k] * A[l]) * t
    return v, tol
