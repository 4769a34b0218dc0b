"""Random expression DAGs over named operands: generation, rendering and a reference evaluation with running error bounds."""
import numpy as np
from scipy import special as sc
from hypothesis import strategies as st

EPS = 2.3e-16

UN = ['neg', 'abs', 'exp', 'B', 'dBdx', 'erf', 'erfc', 'tanh', 'asinh', 'sinh', 'cosh', 'step', 'sgn', '!', 'lg', 'root', 'sq', 'cube', 'inv', 'uf1']
BI = ['+', '-', '*', '/', '+', '-', '*', 'min', 'max', '<', '<=', '>', '>=', '==', '!=', '&&', '||', 'if', 'uf2', 'pow']
TE = ['ifelse', 'kahan3', '+3', '*3']
CONST = [0.0, 1.0, 2.0, -1.0, 0.5, 3.25, 1e-3, -7.5, 100.0]


@st.composite
def dag(draw, nop, maxn=9, ops=None, const=True):
    """List of nodes; node = [op, arg...]; an argument is ['o', k] (operand), ['c', x] or ['n', j] (earlier node)."""
    n = draw(st.integers(1, maxn))
    out = []
    for i in range(n):
        op = draw(st.sampled_from(ops if ops else UN + BI + BI + TE))
        k = 1 if op in UN else 2 if op in BI else 3
        args = []
        for _ in range(k):
            c = draw(st.integers(0, 9))
            if i and c >= 5:
                args.append(['n', draw(st.integers(max(0, i - 3), i - 1))])
            elif c == 0 and const:
                args.append(['c', draw(st.sampled_from(CONST))])
            else:
                args.append(['o', draw(st.integers(0, nop - 1))])
        out.append([op] + args)
    return out


def render(dag, names, models=None, top=None):
    """models: {index: name} nodes that are referenced by name instead of inline"""
    models = models or {}

    def arg(a):
        if a[0] == 'c':
            return repr(a[1]) if a[1] >= 0 else '(%r)' % a[1]
        if a[0] == 'o':
            return names[a[1]]
        if a[1] in models:
            return models[a[1]]
        return node(a[1])

    def node(i):
        op = dag[i][0]
        a = [arg(x) for x in dag[i][1:]]
        if op == 'neg':
            return '(-%s)' % a[0]
        if op == '!':
            return '(!%s)' % a[0]
        if op == 'lg':
            return 'log(1 + abs(%s))' % a[0]
        if op == 'root':
            return 'pow(1 + abs(%s), 0.5)' % a[0]
        if op == 'sq':
            return '(%s^2)' % a[0]
        if op == 'cube':
            return 'pow(%s, 3)' % a[0]
        if op == 'inv':
            return '(1/%s)' % a[0]
        if op == '/':
            return '(%s/(1 + abs(%s)))' % (a[0], a[1])
        if op == 'pow':
            return 'pow(0.5 + abs(%s), tanh(%s))' % (a[0], a[1])
        if op in ('+', '-', '*', '<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            return '(%s %s %s)' % (a[0], op, a[1])
        if op == '+3':
            return '(%s + %s - %s)' % tuple(a)
        if op == '*3':
            return '(%s * %s * %s)' % tuple(a)
        return '%s(%s)' % (op, ', '.join(a))
    return node(len(dag) - 1 if top is None else top)


class Bad(Exception):
    pass


def ref(dag, vals, limit=1e60, inexact=()):
    """vals: arrays per operand.  Returns (values, error bounds, decided) arrays; raises Bad when something is undefined or huge."""
    N = len(vals[0])
    ok = np.ones(N, bool)
    memo = []

    def B(x):
        with np.errstate(all='ignore'):
            return np.where(np.abs(x) < 1e-8, 1 - x / 2 + x * x / 12, x / np.expm1(np.where(x == 0, 1, x)))

    def dB(x):
        s = -0.5 + x / 6 - x**3 / 180 + x**5 / 5040 - x**7 / 151200
        with np.errstate(all='ignore'):
            e = np.expm1(np.where(x == 0, 1, x))
            g = (e - x * np.exp(x)) / e**2
        return np.where(np.abs(x) < 0.1, s, g)

    def arg(a):
        if a[0] == 'c':
            return np.full(N, a[1]), np.zeros(N)
        if a[0] == 'o':
            x = np.asarray(vals[a[1]], float)
            return x, (EPS * np.abs(x) if a[1] in inexact else np.zeros(N))
        return memo[a[1]]

    def f1(fn, d, k=8):
        def g(x, e):
            v = fn(x)
            return v, np.abs(d(x)) * e * 1.01 + k * EPS * np.abs(v)
        return g
    U = {
        'neg': lambda x, e: (-x, e), 'abs': lambda x, e: (np.abs(x), e),
        'exp': f1(np.exp, np.exp), 'B': f1(B, dB), 'dBdx': f1(dB, lambda x: 0.2 + 0 * x, 1000),
        'erf': f1(sc.erf, lambda x: 1.13 + 0 * x), 'erfc': f1(sc.erfc, lambda x: 1.13 * np.exp(-x * x), 40), 'tanh': f1(np.tanh, lambda x: 1 + 0 * x),
        'asinh': f1(np.arcsinh, lambda x: 1 + 0 * x), 'sinh': f1(np.sinh, np.cosh), 'cosh': f1(np.cosh, np.sinh),
        'lg': f1(lambda x: np.log1p(np.abs(x)), lambda x: 1 + 0 * x, 40), 'root': f1(lambda x: np.sqrt(1 + np.abs(x)), lambda x: 0.5 + 0 * x),
        'sq': f1(lambda x: x * x, lambda x: 2 * x), 'cube': f1(lambda x: x**3, lambda x: 3 * x * x, 12),
        'inv': None, 'uf1': f1(lambda x: x * x - 0.5, lambda x: 2 * x),
    }
    for nd in dag:
        op = nd[0]
        A = [arg(a) for a in nd[1:]]
        x, e = A[0]
        with np.errstate(all='ignore'):
            if op in ('step', 'sgn', '!'):
                ok &= ~((np.abs(x) <= 4 * e) & (e > 0))
                v = (x >= 0) * 1.0 if op == 'step' else np.where(x >= 0, 1.0, -1.0) if op == 'sgn' else (x == 0) * 1.0
                r = (v, np.zeros(N))
            elif op == 'inv':
                if np.any(x == 0) or np.any(np.abs(x) <= 1e3 * e):
                    raise Bad('division')
                r = (1 / x, 1.01 * e / (x * x) + 2 * EPS / np.abs(x))
            elif op == 'lg':
                v = np.log1p(np.abs(x))
                r = (v, e + 8 * EPS * (v + np.minimum(np.abs(x), 1) + 0.125 * 2))     # 1 + |x| is rounded
            elif op in U:
                r = U[op](x, e)
                if op == 'sq' or op == 'cube' or op == 'uf1':
                    r = (r[0], r[1] + e * e * 4 + (EPS * (x * x + 1) if op == 'uf1' else 0))
                if op in ('exp', 'sinh', 'cosh') and np.any(e > 1e-3):
                    raise Bad('error')
            else:
                y, f = A[1]
                if op in ('+', '-', '+3', 'kahan3', '-'):
                    v = x + y if op != '-' else x - y
                    er = e + f + EPS * np.abs(v)
                    if op in ('+3', 'kahan3'):
                        z, g = A[2]
                        w = v - z if op == '+3' else v + z
                        er = e + f + g + EPS * (np.abs(v) + np.abs(w) + np.abs(x) + np.abs(y) + np.abs(z))
                        v = w
                    r = (v, er)
                elif op in ('*', '*3'):
                    v = x * y
                    er = np.abs(x) * f + np.abs(y) * e + e * f + EPS * np.abs(v)
                    if op == '*3':
                        z, g = A[2]
                        w = v * z
                        er = np.abs(v) * g + np.abs(z) * er + er * g + 3 * EPS * np.abs(w)
                        v = w
                    r = (v, er)
                elif op == '/':
                    dd = 1 + np.abs(y)
                    v = x / dd
                    r = (v, e / dd + np.abs(v) / dd * f * 1.01 + 4 * EPS * np.abs(v))
                elif op == 'pow':
                    b = 0.5 + np.abs(x)
                    t = np.tanh(y)
                    v = b**t
                    r = (v, np.abs(v) * (np.abs(t / b) * (e + EPS * b) + np.abs(np.log(b)) * (np.minimum(f, 2) + 4 * EPS)) * 1.1 + 8 * EPS * v)
                elif op in ('min', 'max'):
                    v = np.minimum(x, y) if op == 'min' else np.maximum(x, y)
                    r = (v, np.maximum(e, f))
                elif op in ('<', '<=', '>', '>=', '==', '!='):
                    t = e + f
                    ok &= ~((np.abs(x - y) <= 4 * t) & (t > 0))
                    v = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op] * 1.0
                    r = (v, np.zeros(N))
                elif op in ('&&', '||'):
                    ok &= ~((np.abs(x) <= 4 * e) & (e > 0)) & ~((np.abs(y) <= 4 * f) & (f > 0))
                    v = ((x != 0) & (y != 0) if op == '&&' else (x != 0) | (y != 0)) * 1.0
                    r = (v, np.zeros(N))
                elif op == 'if':
                    ok &= ~((np.abs(x) <= 4 * e) & (e > 0))
                    r = (np.where(x != 0, y, 0.0), np.where(x != 0, f, 0.0))
                elif op == 'ifelse':
                    z, g = A[2]
                    ok &= ~((np.abs(x) <= 4 * e) & (e > 0))
                    r = (np.where(x != 0, y, z), np.where(x != 0, f, g))
                elif op == 'uf2':
                    v = x - 2 * y
                    r = (v, e + 2 * f + EPS * (np.abs(x) + 2 * np.abs(y)))
                else:
                    raise KeyError(op)
        if not np.all(np.isfinite(r[0])) or np.any(np.abs(r[0]) > limit) or not np.all(np.isfinite(r[1])):
            raise Bad('size')
        if op in ('exp', 'erfc', 'B', 'dBdx', 'sq', 'cube', '*', '*3', '/', 'pow', 'sinh', 'erf', 'tanh', 'asinh'):
            # underflow in this reference (the code under test may run with a wider type)
            tiny = np.abs(r[0]) < 1e-290
            if op not in ('exp', 'erfc', 'B', 'dBdx', 'pow'):
                tiny &= np.all([q[0] != 0 for q in A], axis=0)
            r = (r[0], r[1] + tiny * 1e-289)
        memo.append(r)
    return memo[-1][0], memo[-1][1], ok, memo
