"""C24: random matrices of every shape, structure and scale through the extended-precision LU routines and DenseMatrix, judged by rounding bounds computed elementwise from the factors."""
from hypothesis import strategies as st
import ctypes, fcntl, hashlib, math, os, random, subprocess
from harness import Suite, need

PROPERTY = 'C24'
RULE = ('A case is an m by n matrix (up to 160, in every tier some beyond 64, plus small ones written out entry by entry) that is dense random, integer, sparse, triangular, permuted, graded by powers of two far outside the range of double precision, subnormal, near-dependent at the level between double and extended precision, or singular by '
        'construction (zero row/column, dependent columns, zero matrix), with leading dimensions, right-hand sides and transpose options. Oracle: |PA-LU| <= c n u |L||U| and |b-op(A)x| <= c n u |L||U||x| element by element (u = 2^-113; standard bounds that hold for every matrix), |l| <= 1, the pivot row list, info = first zero pivot and zero only if there is none; padding, other rows and the factors are untouched; '
        'results are the same bits for every leading dimension, column count and column position, and T = C; bad dimensions return the negative argument number and write nothing. DenseMatrix (both precisions, double on a plain double LU) solves its filled matrix, refuses singular ones, and can be refilled. Non-trivial: at least one row exchange and size above 2.')
ASSUMPTIONS = ['the library is built by its own CMakeLists.txt from /repo/external/getrf', 'DenseMatrix<double> runs on a plain elimination in place of the external double-precision library']

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = None


def lib():
    global LIB
    if LIB is None:
        repo = os.environ.get('VERIF_REPO', '/repo')
        out = os.environ['VERIF_BUILD_OUT']
        src = VERIF + '/shim/quadlu/quadlu.cc'
        so = '%s/quadlu-%s.so' % (out, hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12])
        with open(out + '/quadlu.lock', 'w') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            if not os.path.exists(so):
                m = repo + '/src/math'
                cmd = ['g++', '-std=gnu++17', '-O1', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-DLOAD_MATHLIBS', '-DUSE_BLAS', '-DUSE_LAPACK', '-DDEVSIM_EXTENDED_PRECISION', '-fext-numeric-literals',
                       '-I' + m, '-I' + repo + '/src/utility', '-I' + repo + '/src/errors', src, m + '/DenseMatrix.cc', out + '/libgetrf.a', '-lgfortran', '-lquadmath', '-o', so + '.tmp']
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError('cannot build the harness: ' + r.stderr[-3000:])
                os.rename(so + '.tmp', so)
        LIB = ctypes.CDLL(so)
        for n in ('qfactor', 'qsolved', 'dresid'):
            getattr(LIB, n).restype = ctypes.c_double
        LIB.dnew.restype = ctypes.c_void_p
    return LIB


class Q:
    """An array of extended-precision numbers."""
    def __init__(self, n, fill=b'\x7b'):
        self.n = n
        self.b = ctypes.create_string_buffer(fill * (16 * n), max(16 * n, 16))

    @classmethod
    def of(cls, v):
        """v: list of (hi, lo, exponent)"""
        n = len(v)
        r = cls(n)
        hi = (ctypes.c_double * n)(*[x[0] for x in v])
        lo = (ctypes.c_double * n)(*[x[1] for x in v])
        e = (ctypes.c_int * n)(*[x[2] for x in v])
        lib().qmake(n, hi, lo, e, r.b)
        return r

    def at(self, i):
        return ctypes.c_void_p(ctypes.addressof(self.b) + 16 * i)

    def get(self, i, k=1):
        return self.b.raw[16 * i:16 * (i + k)]

    def put(self, i, raw):
        ctypes.memmove(ctypes.addressof(self.b) + 16 * i, raw, len(raw))

    def copy(self):
        r = Q(self.n)
        r.put(0, self.b.raw[:16 * self.n])
        return r

    def doubles(self):
        d = (ctypes.c_double * self.n)()
        lib().qhi(self.n, self.b, d)
        return list(d)


def pad(a, m, n, ld):
    """The m by n matrix a (leading dimension m) inside one with leading dimension ld."""
    r = Q(max(ld, 1) * n + 3)
    for j in range(n):
        r.put(j * ld, a.get(j * m, m))
    return r


def number(R, kind):
    if kind == 'int':
        return (float(R.randint(-3, 3)), 0.0, 0)
    if kind == 'double':
        return (R.uniform(-1, 1), 0.0, 0)
    if kind == 'quad':
        return (R.uniform(-1, 1), R.uniform(-1, 1) * 2.0**-54, 0)
    if kind == 'wide':
        return (R.choice([-1, 1]) * R.uniform(0.5, 1), R.uniform(-1, 1) * 2.0**-54, R.randint(-300, 300))
    if kind == 'close':
        return (1.0, R.uniform(-1, 1) * 2.0**-R.randint(56, 90), 0)
    if kind == 'unit':
        return (R.choice([-1.0, 1.0]), 0.0, 0)
    raise KeyError(kind)


Z = (0.0, 0.0, 0)


def matrix(c):
    """Rows of (hi, lo, exponent)."""
    m, n = c['m'], c['n']
    R = random.Random(c['seed'])
    if 'entries' in c:
        e = c['entries']
        a = [[(float(e[(i * n + j) % len(e)][0]), 0.0, e[(i * n + j) % len(e)][1]) for j in range(n)] for i in range(m)]
    else:
        a = [[number(R, c['kind']) for j in range(n)] for i in range(m)]
    s = c['shape']
    if s == 'sparse':
        p = R.choice([0.1, 0.3, 0.6])
        a = [[x if i == j or R.random() < p else Z for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif s == 'upper':
        a = [[x if j >= i else Z for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif s == 'lower':
        a = [[x if j <= i else Z for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif s == 'diagonal':
        a = [[x if j == i else Z for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif s == 'band':
        a = [[x if abs(j - i) <= 2 else Z for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif s == 'near':                                    # columns that agree to double precision
        if n > 1:
            for r in a:
                k = R.randrange(n)
                r[k] = (r[0][0], r[0][1] + R.uniform(-1, 1) * 2.0**-70 * (r[0][0] or 1.0), r[0][2])
    elif s == 'zerocol' and n:
        k = R.randrange(n)
        for r in a:
            r[k] = Z
    elif s == 'zerorow' and m:
        a[R.randrange(m)] = [Z] * n
    elif s == 'equalcols' and n > 1:
        k, l = R.sample(range(n), 2)
        for r in a:
            r[k] = r[l]
    elif s == 'zero':
        a = [[Z] * n for r in a]
    elif s == 'negzero':
        a = [[(-0.0, 0.0, 0) if R.random() < 0.7 else x for x in r] for r in a]
    if c['shuffle']:
        R.shuffle(a)
        p = list(range(n))
        R.shuffle(p)
        a = [[r[k] for k in p] for r in a]
    g = c['scale']
    if g == 'rows':
        e = [R.randint(-2000, 2000) for i in range(m)]
        a = [[(x[0], x[1], x[2] + e[i]) for x in r] for i, r in enumerate(a)]
    elif g == 'cols':
        e = [R.randint(-2000, 2000) for j in range(n)]
        a = [[(x[0], x[1], x[2] + e[j]) for j, x in enumerate(r)] for r in a]
    elif g == 'both':
        e = [R.randint(-2000, 2000) for j in range(n)]
        f = [R.randint(-2000, 2000) for j in range(m)]
        a = [[(x[0], x[1], x[2] + e[j] + f[i]) for j, x in enumerate(r)] for i, r in enumerate(a)]
    elif isinstance(g, int):
        a = [[(x[0], x[1], x[2] + g) for x in r] for r in a]
    return a


def columns(a, m, n):
    return [a[i][j] for j in range(n) for i in range(m)]


KINDS = ['int', 'double', 'quad', 'wide', 'close', 'unit']
SHAPES = ['dense', 'dense', 'sparse', 'upper', 'lower', 'diagonal', 'band', 'near', 'zerocol', 'zerorow', 'equalcols', 'zero', 'negzero']
SCALES = [None, None, 'rows', 'cols', 'both', 9000, -9000, -16300, -16400, -16440]


def ints(n):
    return (ctypes.c_int * max(n, 1))(*[-77] * max(n, 1))


def info_():
    return ctypes.c_int(-555)


def factor(a, m, n, ld, ctx=None):
    """Factors of a copy of a with leading dimension ld; checks that nothing else was written."""
    f = pad(a, m, n, ld)
    before = f.copy()
    k = min(m, n)
    p = ints(k + 2)
    info = info_()
    lib().qgetrf(m, n, f.b, ld, p, ctypes.byref(info))
    for j in range(n):
        need(f.get(j * ld + m, ld - m) == before.get(j * ld + m, ld - m), 'the rows below the matrix (leading dimension %d > %d) were written in column %d', ld, m, j)
    need(f.get(n * ld, 3) == before.get(n * ld, 3), 'memory after the matrix was written')
    need(p[k] == -77 and p[k + 1] == -77, 'pivots were written beyond min(m, n)')
    return f, list(p[:k]), info.value


def squeeze(f, m, n, ld):
    return b''.join(f.get(j * ld, m) for j in range(n))


def run_lu(c, ctx):
    L = lib()
    m, n = c['m'], c['n']
    a = Q.of(columns(matrix(c), m, n))
    lds = [max(1, m) + x for x in c['ld']]
    f, p, info = factor(a, m, n, lds[0])
    need(all(i + 1 <= v <= m for i, v in enumerate(p)), 'pivot rows %r are outside their range for %d rows', p, m)
    big, zero, at = ctypes.c_double(), ctypes.c_int(), (ctypes.c_int * 2)()
    piv = (ctypes.c_int * max(len(p), 1))(*p)
    w = L.qfactor(m, n, a.b, max(m, 1), f.b, lds[0], piv, ctypes.byref(big), ctypes.byref(zero), at)
    need(w <= 1, 'P A differs from L U at (%d, %d) by %.3g times the rounding bound', at[0], at[1], w)
    # the reciprocal of a pivot and the product round, and in the subnormal range by absolute amounts only
    need(big.value <= 1 + 2.0**-100, 'a multiplier of magnitude %.17g: the pivot was not the largest in its column', big.value)
    need(info == zero.value, 'info is %d but the first zero pivot is %d', info, zero.value)
    if c['shape'] in ('zerocol', 'zero') and min(m, n) and m >= n or c['shape'] == 'zero' and min(m, n):
        need(info > 0, 'a matrix with a zero column was not reported as singular')
    for ld in lds[1:]:
        f2, p2, info2 = factor(a, m, n, ld)
        need(info2 == info and p2 == p and squeeze(f2, m, n, ld) == squeeze(f, m, n, lds[0]), 'the factors with leading dimension %d differ from those with %d', ld, lds[0])
    if any(v != i + 1 for i, v in enumerate(p)) and min(m, n) > 2:
        ctx.nontrivial()
    if m != n or info:
        ctx.count('singular' if info else 'rectangular')
        return
    # solves
    R = random.Random(c['seed'] + 1)
    kind = c['rhs']
    cols = []
    for k in range(c['nrhs']):
        if kind == 'unit':
            cols.append([(1.0, 0.0, 0) if i == (k * 7) % max(n, 1) else Z for i in range(n)])
        elif kind == 'zero':
            cols.append([Z] * n)
        else:
            cols.append([number(R, 'quad' if kind == 'dense' else 'wide') for i in range(n)])
    if kind == 'sparse':
        cols = [[x if R.random() < 0.3 else Z for x in col] for col in cols]
    nr = len(cols)
    fac = Q(lds[0] * n + 3)
    fac.put(0, f.get(0, lds[0] * n + 3))
    results = {}
    for trans in 'NTCntc':
        for ldb in [max(1, n) + x for x in (c['ldb'] if trans in 'NT' else c['ldb'][:1])]:
            b0 = Q.of([x for col in cols for x in col])
            b = pad(b0, n, nr, ldb)
            before = b.copy()
            info = info_()
            L.qgetrs(ctypes.c_char(trans.encode()), n, nr, f.b, lds[0], piv, b.b, ldb, ctypes.byref(info))
            need(info.value == 0, 'solve with %s returned info %d', trans, info.value)
            need(f.get(0, f.n) == fac.get(0, f.n) and list(piv[:len(p)]) == p, 'the solve changed the factors')
            for j in range(nr):
                need(b.get(j * ldb + n, ldb - n) == before.get(j * ldb + n, ldb - n), 'the solve wrote below the right-hand side (leading dimension %d > %d)', ldb, n)
            need(b.get(nr * ldb, 3) == before.get(nr * ldb, 3), 'the solve wrote after the right-hand sides')
            x = squeeze(b, n, nr, ldb)
            key = 'N' if trans in 'Nn' else 'T'
            if key in results:
                need(results[key] == x, 'the %s solve with leading dimension %d differs from the first %s solve', trans, ldb, key)
                continue
            results[key] = x
            for j in range(nr):
                if any(not abs(v) < math.inf for v in b.doubles()[j * ldb:j * ldb + n]) and c['scale'] is not None:
                    ctx.count('solution outside double range')
                xq, bq, at1 = Q(n), Q(n), ctypes.c_int()
                xq.put(0, b.get(j * ldb, n))
                bq.put(0, b0.get(j * n, n))
                if finite(xq) and c['judge']:
                    w = L.qsolved(n, int(key == 'T'), a.b, max(n, 1), f.b, lds[0], piv, bq.b, xq.b, ctypes.byref(at1))
                    need(w <= 1, 'solve %s: residual of row %d, right-hand side %d is %.3g times its rounding bound', trans, at1.value, j, w)
                    ctx.count('residuals')
                # one at a time
                if j in (0, nr - 1) and trans in 'NT':
                    one = Q(n + 2)
                    one.put(0, b0.get(j * n, n))
                    i1 = info_()
                    L.qgetrs(ctypes.c_char(trans.encode()), n, 1, f.b, lds[0], piv, one.b, max(n, 1), ctypes.byref(i1))
                    need(i1.value == 0 and one.get(0, n) == xq.get(0, n), 'right-hand side %d alone gives another result than among %d', j, nr)


def finite(x):
    for i in range(x.n):
        r = x.get(i)
        if ((r[15] & 0x7f) << 8 | r[14]) == 0x7fff:
            return False
    return True


@st.composite
def lu(draw):
    size = draw(st.sampled_from(['tiny', 'small', 'small', 'small', 'mid', 'big']))
    hi = dict(tiny=3, small=9, mid=40, big=160)[size]
    m = draw(st.integers(0 if size == 'tiny' else 1, hi))
    n = m if draw(st.integers(0, 2)) else draw(st.integers(0 if size == 'tiny' else 1, hi))
    if size == 'big' and draw(st.booleans()):
        m, n = max(m, 65), max(n, 65)
    c = dict(m=m, n=n, seed=draw(st.integers(0, 10**6)), kind=draw(st.sampled_from(KINDS)), shape=draw(st.sampled_from(SHAPES)), shuffle=draw(st.booleans()),
             scale=draw(st.sampled_from(SCALES)), ld=[0] + draw(st.lists(st.integers(1, 9), min_size=1, max_size=2)), ldb=[0] + draw(st.lists(st.integers(1, 9), min_size=1, max_size=1)),
             nrhs=draw(st.sampled_from([1, 1, 2, 3, 5, 8, 33, 70] if m <= 40 else [1, 2, 33])), rhs=draw(st.sampled_from(['dense', 'dense', 'unit', 'sparse', 'wide', 'zero'])))
    if draw(st.booleans()):
        c['ld'] = c['ld'][::-1]
    if m * n and m * n <= 81 and draw(st.integers(0, 2)) == 0:
        c['entries'] = [list(x) for x in draw(st.lists(st.tuples(st.integers(-4, 4), st.sampled_from([0, 0, 0, 1, -60, -110, 70])), min_size=1, max_size=m * n))]
    # in the subnormal range products of factors and solution over- or underflow in ways the bound does not describe
    c['judge'] = c['scale'] is None or c['scale'] in ('rows', 'cols', 'both') and c['rhs'] != 'wide' or c['scale'] in (9000, -9000) and c['rhs'] != 'wide'
    return c


# ---------------------------------------------------------------- wrong arguments

def run_bad(c, ctx):
    L = lib()
    n, nrhs = c['n'], c['nrhs']
    a = Q.of([number(random.Random(c['seed'] + k), 'quad') for k in range(n * n)])
    b = Q.of([number(random.Random(c['seed'] + k), 'quad') for k in range(n * max(nrhs, 1))])
    a0, b0 = a.copy(), b.copy()
    p = (ctypes.c_int * n)(*range(1, n + 1))
    info = info_()
    w = c['what']
    if w in ('m', 'n', 'lda'):
        arg = dict(m=n, n=n, lda=n)
        arg[w] = c['value'] if w != 'lda' else n - 1 - c['value'] % (n + 3)
        L.qgetrf(arg['m'], arg['n'], a.b, arg['lda'], p, ctypes.byref(info))
        want = -dict(m=1, n=2, lda=4)[w]
    else:
        arg = dict(trans='N' if c['seed'] % 2 else 'T', sn=n, snrhs=nrhs, slda=n, sldb=n)
        arg[w] = c['letter'] if w == 'trans' else c['value'] if w in ('sn', 'snrhs') else n - 1 - c['value'] % (n + 3)
        L.qgetrs(ctypes.c_char(arg['trans'].encode()), arg['sn'], arg['snrhs'], a.b, arg['slda'], p, b.b, arg['sldb'], ctypes.byref(info))
        want = -dict(trans=1, sn=2, snrhs=3, slda=5, sldb=8)[w]
    need(info.value == want, '%s = %r: info is %d, not %d', w, arg[w], info.value, want)
    need(a.get(0, a.n) == a0.get(0, a.n) and b.get(0, b.n) == b0.get(0, b.n) and list(p) == list(range(1, n + 1)), 'the refused call (%s = %r) changed its arguments', w, arg[w])
    ctx.nontrivial()


@st.composite
def bad(draw):
    return dict(n=draw(st.integers(1, 6)), nrhs=draw(st.integers(1, 3)), seed=draw(st.integers(0, 999)), what=draw(st.sampled_from(['m', 'n', 'lda', 'trans', 'sn', 'snrhs', 'slda', 'sldb'])),
                value=draw(st.sampled_from([-1, -2, -7, -2**31, -1000])), letter=draw(st.sampled_from('ABDHRXZ10ahrx')))


# ---------------------------------------------------------------- DenseMatrix

def run_dense(c, ctx):
    L = lib()
    n = c['n']
    h = ctypes.c_void_p(L.dnew(n, int(c['extended'])))
    u = 2.0**-112 if c['extended'] else 2.0**-52
    try:
        for t in c['turns']:
            cc = dict(c, m=n, seed=t['seed'], kind=t['kind'] if c['extended'] or t['kind'] in ('int', 'double', 'unit') else 'double', shape=t['shape'], shuffle=t['shuffle'], scale=t['scale'] if c['extended'] else None)
            a = Q.of(columns(matrix(cc), n, n))
            f, p, info = factor(a, n, n, n)
            if not c['extended'] and t['shape'] == 'near':
                continue
            ok = L.dfactor(h, a.b)
            if t['shape'] in ('dense', 'upper', 'lower', 'diagonal', 'zero', 'zerocol'):
                if c['extended']:
                    need(bool(ok) == (info == 0), 'LUFactor returns %d for a matrix whose factorisation has info %d', ok, info)
                elif t['shape'] in ('zero', 'zerocol'):
                    need(not ok, 'LUFactor accepts a matrix with a zero column')
            R = random.Random(t['seed'] + 5)
            for k in range(t['solves']):
                b = Q.of([number(R, 'quad' if c['extended'] else 'double') for i in range(n)])
                x = b.copy()
                r = L.dsolve(h, x.b)
                need(bool(r) == bool(ok), 'Solve returns %d after LUFactor returned %d', r, ok)
                if not ok:
                    need(x.get(0, n) == b.get(0, n), 'Solve on a singular matrix changed its argument')
                    ctx.count('refused')
                    continue
                if not finite(x) or t['scale'] is not None:
                    continue
                w = L.dresid(n, a.b, b.b, x.b, ctypes.c_double(u))
                # growth of the factors (at most 2^(n-1), far less here) and n rounding errors
                g = growth(a, f, n)
                need(w <= 60 * n * n * g, 'turn %r, solve %d: the relative residual is %.3g times the rounding unit (growth %.3g)', t, k, w, g)
                ctx.count('solves')
                if n > 2:
                    ctx.nontrivial()
    finally:
        L.ddel(h)


def growth(a, f, n):
    """How much larger than the entries of the matrix, relative to its smallest row or column, the factors are."""
    A = [abs(v) for v in a.doubles()[:n * n]]
    F = [abs(v) for v in f.doubles()[:n * n]]
    return max(1.0, max(F) / max(max(A), 1e-300)) * 4


@st.composite
def dense(draw):
    n = draw(st.integers(1, 8)) if draw(st.integers(0, 3)) else draw(st.integers(9, 70))
    return dict(n=n, extended=draw(st.booleans()), turns=draw(st.lists(st.builds(dict, seed=st.integers(0, 10**6), kind=st.sampled_from(['int', 'double', 'quad', 'unit']), shape=st.sampled_from(['dense', 'dense', 'upper', 'lower', 'diagonal', 'sparse', 'near', 'zerocol', 'zero']),
                shuffle=st.booleans(), scale=st.sampled_from([None, None, None, 'rows', 9000, -9000]), solves=st.integers(1, 3)), min_size=1, max_size=4)))


SUITES = [Suite('lu', lu(), run_lu, quick=700, thorough=14000),
          Suite('arguments', bad(), run_bad, quick=300, thorough=2000),
          Suite('dense', dense(), run_dense, quick=400, thorough=8000)]
