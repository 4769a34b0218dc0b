"""Reference values of the built-in functions, with mpmath at 60 digits.  Formulas come from the literature
(Joyce-Dixon/Sommerfeld, Paasch-Scheinert) and the documentation, not from the C++ code."""
import mpmath as mp
mp.mp.dps = 60
M = mp.mpf
EPSD, EPSQ = 2.3e-16, 2e-34


def bern(x):
    return M(1) if x == 0 else x / mp.expm1(x)


def dbern(x):
    if x == 0:
        return M('-0.5')
    if abs(x) < M('1e-18'):
        return M('-0.5') + x / 6
    with mp.workdps(110):
        e = mp.expm1(x)
        return +((e - x * mp.exp(x)) / e ** 2)


def erfc_inv(y):
    # y in (0, 2)
    if y > M('0.5'):
        return mp.erfinv(1 - y) if y != 1 else M(0)
    L = -mp.log(y)
    t = mp.sqrt(max(L - mp.log(mp.sqrt(mp.pi) * mp.sqrt(L)), M('0.01')))
    for _ in range(60):
        f = mp.log(mp.erfc(t)) + L
        fp = -2 / mp.sqrt(mp.pi) * mp.exp(-t * t) / mp.erfc(t)
        d = f / fp
        t -= d
        if abs(d) < abs(t) * M('1e-50'):
            break
    return t


def erf_inv(y):
    if abs(y) < M('0.5'):
        return mp.erfinv(y)
    s = 1 if y > 0 else -1
    return s * erfc_inv(1 - abs(y))


TSP = 2 / mp.sqrt(mp.pi)
# Joyce & Dixon 1977 and the leading Sommerfeld term, matched at BREAK
JD = [1 / mp.sqrt(8), M(-4.9500897298752622e-3), M(1.4838577128872821e-4), M(-4.4256301190009895e-6)]
BREAK = M(8.46296036621705)
OFFSET = M(-0.0137050034663995)


def invfermi(r):
    if r < BREAK:
        return mp.log(r) + sum(c * r ** (i + 1) for i, c in enumerate(JD))
    return mp.sqrt((M(3) / 4 * mp.sqrt(mp.pi) * r) ** (M(4) / 3) - mp.pi ** 2 / 6) + OFFSET


def dinvfermi(r):
    if r < BREAK:
        return 1 / r + sum((i + 1) * c * r ** i for i, c in enumerate(JD))
    k = (M(3) / 4 * mp.sqrt(mp.pi)) ** (M(4) / 3)
    return k * (M(4) / 3) * r ** (M(1) / 3) / (2 * mp.sqrt(k * r ** (M(4) / 3) - mp.pi ** 2 / 6))


def fermi(eta):
    if eta > invfermi(BREAK):
        return ((eta - OFFSET) ** 2 + mp.pi ** 2 / 6) ** (M(3) / 4) / (M(3) / 4 * mp.sqrt(mp.pi))
    r = mp.exp(eta) if eta < 1 else M(2) * eta
    for _ in range(200):
        d = (invfermi(r) - eta) / dinvfermi(r)
        n = r - d
        if n <= 0:
            n = r / 2
        if n >= BREAK:
            n = (r + BREAK) / 2
        if abs(n - r) < r * M('1e-50'):
            return n
        r = n
    return r


def dfermi(eta):
    return 1 / dinvfermi(fermi(eta))


def gh(s):
    return mp.sqrt(2) / s * erfc_inv(mp.exp(-s * s / 2))


def gfi(z, s):
    S = s * s
    H = gh(s)
    if z < -S:
        K = 2 * (1 - H / s * mp.sqrt(2 / mp.pi) * mp.exp(S / 2 * (1 - H * H)))
        return mp.exp(S / 2 + z) / (mp.exp(K * (z + S)) + 1)
    return mp.erfc(-z * H / (s * mp.sqrt(2))) / 2


def dgfi(z, s):
    S = s * s
    H = gh(s)
    if z < -S:
        K = 2 * (1 - H / s * mp.sqrt(2 / mp.pi) * mp.exp(S / 2 * (1 - H * H)))
        e = mp.exp(K * (z + S))
        return mp.exp(S / 2 + z) / (e + 1) * (1 - K * e / (e + 1))
    return H / (s * mp.sqrt(2 * mp.pi)) * mp.exp(-(z * H) ** 2 / (2 * S))


def igfi(g, s):
    S = s * s
    H = gh(s)
    if g >= mp.exp(-S / 2) / 2:
        return -s * mp.sqrt(2) / H * erfc_inv(2 * g)
    K = 2 * (1 - H / s * mp.sqrt(2 / mp.pi) * mp.exp(S / 2 * (1 - H * H)))
    z = min(mp.log(g) - S / 2, -S) if K > 0 else -S
    for _ in range(400):
        e = mp.exp(K * (z + S))
        f = S / 2 + z - mp.log(1 + e) - mp.log(g)
        d = f / (1 - K * e / (1 + e))
        z -= d
        if abs(d) < M('1e-50') * (1 + abs(z)):
            break
    return z
