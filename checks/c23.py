"""C23: generated model compiler programs: printed, simplified, expanded and differentiated expressions, split into scale and sign, against an independent evaluator; generated code compiled and run against reference assembly; damaged programs."""
from hypothesis import strategies as st
import ctypes, math, os, random, re, shutil, subprocess, tempfile
import mpmath as mp
from harness import Suite, need

PROPERTY = 'C23'
RULE = ('A case is a model compiler program: parameters, nodes, user functions with derivatives (one to three arguments, names that clash with variables, declared before or defined at once), models and equations over + - * / ^ pow exp log, comparisons, logic, unary signs, constants of every form and earlier models, with generated spacing, comments and parentheses. Oracle: an independent evaluator with 40 digits and forward '
        'derivatives, carrying an error bound for double constants: the expression as printed by the compiler, its simplify(), expand(), scale()*unscaledval(), sign()*unsignedval() and diff() with respect to any variable, node or parameter, must have the value (true derivative) at every generated point where the original is defined; printing, reading again and printing is stable in value. Generated classes are '
        'compiled and their DC and transient contributions (right-hand side, matrix, grounded nodes, changed parameters) compared with the reference. Damaged programs end with a message and without a signal. Non-trivial: a derivative that is not constant, or generated code that was run.')
ASSUMPTIONS = ['unary signs bind tighter than ^, as the grammar states', 'points where an intermediate result is undefined, infinite, or a comparison undecided within rounding are not judged', 'the generated class is compiled against small stand-ins of the circuit headers', 'a name that is used before it is defined is a variable, and functions without a derivative count as constant, as the parser documents']

mp.mp.dps = 40
M = mp.mpf
U = M(2)**-52


# ---------------------------------------------------------------- expressions
# ('num', text) ('var', name) ('neg', a) ('pos', a) ('not', a) (op, a, b) ('call', name, args)

PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '+': 5, '-': 5, '*': 6, '/': 6, '^': 7}


def text(e, R, ctxp=0, right=False):
    sp = lambda: R.choice(['', '', ' ', '  ']) if R else ''
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'var':
        return e[1]
    if k == 'call':
        return e[1] + sp() + '(' + (',' + sp()).join(text(a, R) for a in e[2]) + ')'
    if k in ('neg', 'pos', 'not'):
        s = {'neg': '-', 'pos': '+', 'not': '!'}[k] + sp() + text(e[1], R, 8)
        p = 8
        if R and R.random() < 0.1:
            return '(' + s + ')'
        # "a - -b" and "2^-x" need no parentheses
        return s
    p = PREC[k]
    if k == '^':
        s = text(e[1], R, p + 0.5) + sp() + '^' + sp() + text(e[2], R, p)
    else:
        s = text(e[1], R, p) + sp() + k + ' ' + sp() + text(e[2], R, p + 0.5)
    if p < ctxp or R and R.random() < 0.1:
        return '(' + sp() + s + sp() + ')'
    return s


class Undefined(Exception):
    pass


class Unsure(Exception):
    pass


def ck(v):
    if not mp.isfinite(v) or abs(v) > M('1e100'):
        raise Unsure
    return v


# a value: (value, error bound, size of the terms it is made of: sums may be put together in another order)

def exact(*xs):
    return all(x[1] == 0 and x[0] == int(x[0]) and x[2] < 2**50 for x in xs)


def addn(a, b, s=1):
    if a is Z and b is Z:
        return Z
    v = ck(a[0] + s * b[0])
    m = a[2] + b[2]
    return v, M(0) if exact(a, b) else a[1] + b[1] + U * m, m


def muln(a, b):
    if a is Z or b is Z:
        return Z
    v = ck(a[0] * b[0])
    m = a[2] * b[2]
    return v, M(0) if exact(a, b) and m < 2**50 else abs(a[0]) * b[1] + abs(b[0]) * a[1] + 4 * a[1] * b[1] + 2 * U * m, m


def pown(a, b):
    (va, ea, ma), (vb, eb, mb) = a, b
    if va == 0:
        if ea or eb:
            raise Unsure
        if vb < 0:
            raise Undefined
        if vb == 0:
            raise Unsure
        return M(0), M(0), M(0)
    if vb == int(vb) and eb == 0:
        if abs(vb) > 400:
            raise Unsure
        v = va ** int(vb)
        ck(v)
        m = ma ** int(vb) if vb > 0 else abs(v)
        if exact(a) and vb >= 0 and m < 2**50:
            return v, M(0), m
        if ea > abs(va) / 1000:
            raise Unsure
        return v, abs(v) * ((abs(vb) + 1) * 2 * ea / abs(va)) + 4 * U * m, m
    if va < 0:
        raise Undefined
    if ea > va / 1000:
        raise Unsure
    l = mp.log(va)
    if abs(l * vb) > 230:
        raise Unsure
    v = va ** vb
    return ck(v), abs(v) * (2 * abs(vb) * ea / va + 2 * abs(l) * eb + 4 * U + U * abs(l) * mb), v


def expn(a):
    if abs(a[0]) > 230 or a[1] > 0.01:
        raise Unsure
    v = mp.exp(a[0])
    if a[0] == 0 and a[1] == 0:
        return ONE
    return v, v * (2 * a[1] + U * a[2] + 4 * U), v


def logn(a):
    if a[0] <= 0 and abs(a[0]) < 1000 * a[1]:
        raise Unsure
    if a[0] <= 0:
        raise Undefined
    if a[1] > a[0] / 1000:
        raise Unsure
    if a[0] == 1 and a[1] == 0:
        return M(0), M(0), M(0)
    v = mp.log(a[0])
    return v, 2 * a[1] / a[0] + 4 * U * abs(v), abs(v)


def truth(a):
    if a[1] == 0:
        return a[0] != 0
    if abs(a[0]) > 1000 * a[1]:
        return True
    raise Unsure


def compare(op, a, b):
    d = a[0] - b[0]
    e = a[1] + b[1]
    if e and abs(d) <= 1000 * e + U * 64 * (abs(a[0]) + abs(b[0])):
        raise Unsure
    return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]


def B(x):
    return ONE if x else (M(0), M(0), M(0))


Z = (M(0), M(0), M(0))
ONE = (M(1), M(0), M(1))
TRIG = 8


def fsin(x):
    return mp.sin(x), mp.cos(x)


FUNCS = {          # name: (arity, value and exact partial derivatives, derivative expressions in the parameters p0, p1, ..)
    'sin': (1, lambda x: (mp.sin(x), [mp.cos(x)]), ['cos(p0)']),
    'cos': (1, lambda x: (mp.cos(x), [-mp.sin(x)]), ['-sin(p0)']),
    'tanh': (1, lambda x: (mp.tanh(x), [1 - mp.tanh(x)**2]), ['1-tanh(p0)^2']),
    'sinh': (1, lambda x: (mp.sinh(x), [mp.cosh(x)]), ['cosh(p0)']),
    'cosh': (1, lambda x: (mp.cosh(x), [mp.sinh(x)]), ['sinh(p0)']),
    'atan': (1, lambda x: (mp.atan(x), [1 / (1 + x * x)]), ['1/(1+p0*p0)']),
    'fxy': (2, lambda x, y: (x * y + 2 * x - y, [y + 2, x - 1]), ['p1+2', 'p0-1']),
    'gxy': (2, lambda x, y: (x * x * y * y * y + x, [2 * x * y**3 + 1, 3 * x * x * y * y]), ['2*p0*p1^3+1', '3*p0*p0*p1^2']),
    'h3': (3, lambda x, y, z: (x * y * z + x - 3 * z, [y * z + 1, x * z, x * y - 3]), ['p1*p2+1', 'p0*p2', 'p0*p1-3']),
    'quot': (2, lambda x, y: (x / (1 + y * y), [1 / (1 + y * y), -2 * x * y / (1 + y * y)**2]), ['1/(1+p1^2)', '-2*p0*p1*(1+p1^2)^-2']),
    'k2': (2, lambda x, y: (x - y, [0, 0]), None),                       # declared only: constant for derivatives
}


def evaluate(e, env, seeds=None, memo=None):
    """(value, error bound) and, with seeds {name: 1}, (derivative, bound); env: name -> number or ('expr', e)."""
    if memo is None:
        memo = {}
    k = e[0]
    if k == 'num':
        v = M(e[1])
        x = (ck(v), M(0) if v == int(v) and abs(v) < 2**53 else abs(v) * U, abs(v))
        return x, Z
    if k == 'var':
        n = e[1]
        if n in memo:
            return memo[n]
        if n not in env:
            raise KeyError(n)
        q = env[n]
        if isinstance(q, tuple):
            r = evaluate(q[1], env, seeds, memo)
            if seeds and n in seeds:
                r = (r[0], ONE)
        else:
            r = ((M(q), M(0), abs(M(q))), ONE if seeds and n in seeds else Z)
        memo[n] = r
        return r
    if k == 'neg':
        a, d = evaluate(e[1], env, seeds, memo)
        return (-a[0], a[1], a[2]), (Z if d is Z else (-d[0], d[1], d[2]))
    if k == 'pos':
        return evaluate(e[1], env, seeds, memo)
    if k == 'not':
        a, d = evaluate(e[1], env, seeds, memo)
        return B(not truth(a)), Z
    if k == 'call':
        args = [evaluate(a, env, seeds, memo) for a in e[2]]
        n = e[1]
        if n == 'pow':
            return power(*args)
        if n == 'exp':
            v = expn(args[0][0])
            return v, muln(v, args[0][1])
        if n == 'log':
            v = logn(args[0][0])
            return v, divn(args[0][1], args[0][0]) if args[0][1] is not Z else Z
        f = FUNCS[n]
        if any(abs(a[0][0]) > 1e6 or a[0][1] > 1e-3 for a in args):
            raise Unsure
        v, ds = f[1](*[a[0][0] for a in args])
        ck(v)
        # error by the derivatives at this point, generously
        err = sum((abs(d) + 8 * a[0][1] * (1 + abs(a[0][0]))**4) * a[0][1] * 4 for d, a in zip(ds, args)) + 64 * U * sum(1 + abs(a[0][0]) for a in args)**4 * (1 if len(args) > 1 else 0) + 16 * U * (1 + abs(v))
        if n == 'k2':
            err = sum(a[0][1] + U * abs(a[0][0]) for a in args) * 2
        D = Z
        for i, a in enumerate(args):
            if a[1][0] or a[1][1]:
                w = 64 * U * sum(1 + abs(b[0][0]) for b in args)**5 + sum(b[0][1] for b in args) * 64 * sum(1 + abs(b[0][0]) for b in args)**4
                D = addn(D, muln((M(ds[i]), w if n != 'k2' else M(0), abs(M(ds[i]))), a[1]))
        return (M(v), err, abs(M(v))), D
    a, da = evaluate(e[1], env, seeds, memo)
    b, db = evaluate(e[2], env, seeds, memo)
    if k in ('+', '-'):
        s = 1 if k == '+' else -1
        return addn(a, b, s), addn(da, db, s)
    if k == '*':
        return muln(a, b), addn(muln(da, b), muln(a, db))
    if k == '/':
        return divn(a, b), divd(a, da, b, db)
    if k == '^':
        return power((a, da), (b, db))
    if k == '&&':
        x, y = truth(a), truth(b)
        return B(x and y), Z
    if k == '||':
        x, y = truth(a), truth(b)
        return B(x or y), Z
    return B(compare(k, a, b)), Z


def divn(a, b):
    return muln(a, pown(b, (M(-1), M(0), M(1))))


def divd(a, da, b, db):
    if da is Z and db is Z:
        return Z
    r = pown(b, (M(-1), M(0), M(1)))
    x = muln(da, r)
    y = muln(muln(a, db), muln(r, r))
    return addn(x, y, -1)


def power(A, Bb):
    (a, da), (b, db) = A, Bb
    if a[0] == 0 and b[0] == 0:
        raise Unsure             # 0^0: 1 in C
    v = pown(a, b)
    if da is Z and db is Z:
        return v, Z
    D = Z
    if da[0]:
        D = muln(muln(b, pown(a, addn(b, ONE, -1))), da)
    if db is not Z and a[0] <= 0:
        raise Undefined          # log of the base, even where the derivative of the exponent happens to be zero
    if db[0]:
        D = addn(D, muln(muln(logn(a), v), db))
    return v, D


# ---------------------------------------------------------------- reading what was printed

TOK = re.compile(r'\s*(?:([0-9]+\.?[0-9]*[eE][+-]?[0-9]+|[0-9]*\.[0-9]+|[0-9]+\.?[0-9]*)|(@?[A-Za-z][A-Za-z_0-9:]*)|(<=|>=|==|!=|&&|\|\||[-+*/^()!,<>]))')


class Unreadable(Exception):
    pass


def parse(s):
    t, i = [], 0
    while i < len(s):
        if not s[i:].strip():
            break
        m = TOK.match(s, i)
        if not m:
            raise Unreadable(s)
        t.append(m)
        i = m.end()
    pos = [0]

    def peek():
        return t[pos[0]].group(3) if pos[0] < len(t) else None

    def unary():
        if pos[0] >= len(t):
            raise Unreadable(s)
        m = t[pos[0]]
        pos[0] += 1
        if m.group(1):
            return ('num', m.group(1))
        if m.group(2):
            if peek() == '(':
                pos[0] += 1
                a = [binary(1)]
                while peek() == ',':
                    pos[0] += 1
                    a.append(binary(1))
                if peek() != ')':
                    raise Unreadable(s)
                pos[0] += 1
                return ('call', m.group(2), a)
            return ('var', m.group(2))
        o = m.group(3)
        if o == '(':
            e = binary(1)
            if peek() != ')':
                raise Unreadable(s)
            pos[0] += 1
            return e
        if o in '-+!':
            return ({'-': 'neg', '+': 'pos', '!': 'not'}[o], unary())
        raise Unreadable(s)

    def binary(p):
        e = unary()
        while True:
            o = peek()
            if o not in PREC or PREC[o] < p:
                return e
            pos[0] += 1
            e = (o, e, binary(PREC[o] if o == '^' else PREC[o] + 1))

    e = binary(1)
    if pos[0] != len(t):
        raise Unreadable(s)
    return e


def names(e, out):
    if e[0] == 'var':
        out.add(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            names(x, out)
        elif isinstance(x, list):
            for y in x:
                names(y, out)
    return out


# ---------------------------------------------------------------- generation

CONST = ['0', '1', '2', '3', '10', '0.5', '.25', '2.', '1e0', '1.5e-3', '2E2', '7', '100', '123456', '1234567', '0.1', '1e-3', '3.000001', '2.0000001', '0.33333333333333331', '1.2345678901234567', '50000', '3000000000', '12345678901', '4e-05']


def num(R):
    return ('num', R.choice(CONST) if R.random() < 0.8 else '%.*g' % (R.choice([3, 17]), R.uniform(0, 5)))


def expression(R, vs, depth, funcs, logic=0.12):
    k = R.random()
    if depth <= 0 or k < 0.1:
        if R.random() < 0.65 and vs:
            return ('var', R.choice(vs))
        return num(R)
    sub = lambda: expression(R, vs, depth - 1, funcs, logic)
    if k < 0.30:
        return ('+', sub(), sub())
    if k < 0.42:
        return ('-', sub(), sub())
    if k < 0.60:
        return ('*', sub(), sub())
    if k < 0.68:
        return ('/', sub(), sub())
    if k < 0.76:
        b = sub()
        p = R.choice([('num', '2'), ('num', '3'), ('neg', ('num', '1')), ('neg', ('num', '2')), ('num', '0.5'), ('num', '1'), ('num', '0'), ('num', '1.5'), ('num', '2.0000001'), sub()])
        return ('^', b, p) if R.random() < 0.5 else ('call', 'pow', [b, p])
    if k < 0.83:
        return ('call', R.choice(['exp', 'log', 'log']), [sub()])
    if k < 0.88:
        return (R.choice(['neg', 'neg', 'pos']), sub())
    if k < 0.88 + logic:
        q = R.random()
        if q < 0.2:
            return ('not', sub())
        if q < 0.5:
            return (R.choice(['&&', '||']), sub(), sub())
        return (R.choice(['<', '<=', '>', '>=', '==', '!=']), sub(), sub())
    if funcs:
        f = R.choice(funcs)
        return ('call', f, [sub() for i in range(FUNCS[f][0])])
    return sub()


VARS = ['x', 'y', 'z', 'va', 'T0', 'a_b']


def definitions(R, funcs, taken=()):
    """Declarations of the user functions: every function used by a derivative must be there too."""
    need_ = set(funcs)
    for f in list(need_):
        for g, h in (('sin', 'cos'), ('cos', 'sin'), ('sinh', 'cosh'), ('cosh', 'sinh')):
            if f == g:
                need_.add(h)
    lines, late = [], []
    for f in sorted(need_):
        n, fn, d = FUNCS[f]
        pool = ['x', 'y', 'z', 'p', 'q', 'arg', 'va'] if R.random() < 0.6 else ['u1', 'u2', 'u3']
        arg = R.sample([a for a in pool if a not in taken], n)         # a declared name cannot be an argument
        lines_d = 'declarefunc %s(%s);' % (f, ','.join(arg))
        if d is None:
            lines.append(lines_d)
            continue
        sub = [re.sub(r'p(\d)', lambda m: arg[int(m.group(1))], s) for s in d]
        define = 'definefuncdiff %s(%s), %s;' % (f, ', '.join(arg), ', '.join(sub))
        if n == 1 or R.random() < 0.6:            # the trigonometric ones need each other
            lines.append(lines_d)
            late.append(define)
        else:
            lines.append(define)
            if R.random() < 0.2:
                late.append(define)
    return lines + late


def point(R, vs, kind):
    env = {}
    for v in vs:
        q = R.random()
        if kind == 'pos':
            env[v] = R.choice([R.uniform(0.1, 4), R.randint(1, 4)])
        else:
            env[v] = R.choice([R.uniform(-4, 4), float(R.randint(-3, 3)), R.uniform(0.1, 2), R.uniform(-2, -0.1)])
        env[v] = float(env[v])
    return env


def run_program(prog, keep=None):
    d = tempfile.mkdtemp(prefix='c23')
    try:
        p = subprocess.run([os.environ['VERIF_MODELCOMP']], input=prog.encode('latin1'), cwd=d, capture_output=True, timeout=100)
        cc = {}
        for f in os.listdir(d):
            cc[f] = open(os.path.join(d, f), errors='replace').read()
        return p.returncode, p.stderr.decode('latin1'), cc
    finally:
        shutil.rmtree(d, ignore_errors=True)


OPS = ['id', 'simplify', 'expand', 'scale', 'sign', 'diff', 'diff', 'diff', 'diff2', 'sdiff', 'reread']


def same(e1, want, env, what, ctx, seeds_env=None):
    """want: (value, bound) of the reference; e1: expression whose value must be the same."""
    try:
        got, _ = evaluate(e1, env)
    except Unsure:
        return
    except (Undefined, ZeroDivisionError) as x:
        need(False, '%s is undefined where the original has the value %s: at %r', what, mp.nstr(want[0], 8), env_text(env))
    tol = 200 * (got[1] + want[1]) + M('1e-300')
    need(abs(got[0] - want[0]) <= tol, '%s is %s, not %s (allowed difference %s) at %r', what, mp.nstr(got[0], 17), mp.nstr(want[0], 17), mp.nstr(tol, 3), env_text(env))
    ctx.count('values')


def env_text(env):
    return {k: v for k, v in env.items() if not isinstance(v, tuple)}


def parts(c):
    R = random.Random(c['seed'])
    return R


def run_expr(c, ctx):
    R = random.Random(c['seed'])
    funcs = c['funcs']
    prog = ['title t%d;' % c['seed']]
    vs = c['vars']
    params = [v for v in vs if R.random() < 0.3]
    pd = ['parameter %s "%s %d" %s;' % (p, 'text', R.randint(0, 9), R.choice(['1.0', '2.5', '1e-3'])) for p in params]
    fd = definitions(random.Random(c['seed']), funcs, params)
    start = pd + fd if R.random() < 0.5 else fd + pd
    prog += start
    items = []
    known = list(vs)
    env0 = {}
    for i, t in enumerate(c['trees']):
        e = build(t, known, funcs)
        n = 'm%d' % i
        items.append((n, e))
        prog.append('model %s %s;' % (n, text(e, R)))
        if c['use_models']:
            known.append(n)
        env0[n] = ('expr', e)
    jobs = []
    for j, (n, e, ) in enumerate(items):
        t = text(e, R)
        r = n if R.random() < 0.2 else t
        for op in c['ops']:
            v = R.choice(vs)
            w = R.choice(vs)
            q = 'r%d' % len(jobs)
            s = {'id': r, 'simplify': 'simplify(%s)' % r, 'expand': 'expand(%s)' % r, 'scale': 'scale(%s)*unscaledval(%s)' % (r, r), 'sign': 'sign(%s)*unsignedval(%s)' % (r, r), 'diff': 'diff(%s,%s)' % (r, v), 'sdiff': 'simplify(diff(%s, %s))' % (r, v),
                 'diff2': 'diff(simplify(%s),%s)' % (r, v), 'reread': r}[op]
            prog.append('model %s %s;' % (q, s))
            jobs.append((q, n, e, op, v))
    prog = '\n'.join(prog) + '\n'
    rc, err, _ = run_program(prog)
    need(rc == 0, 'the compiler ends with %d on a valid program: %s\n%s', rc, err[-400:], prog)
    said = dict(re.findall(r'^adding model: (\S+) (.*)$', err, re.M))
    listed = dict(re.findall(r'^\t(\S+)\t(.*)$', err.split('Models:', 1)[-1], re.M))
    # every printed model, also the ones the compiler adds for derivatives
    allm = dict(env0)
    for n, s in listed.items():
        if n not in env0:
            try:
                allm[n] = ('expr', parse(s))
            except Unreadable:
                allm[n] = ('expr', ('num', 'nan'))
    points = [point(R, vs, R.choice(['pos', 'any', 'any'])) for k in range(c['points'])]
    for q, n, e, op, v in jobs:
        outs = []
        for where, d in (('printed', said), ('simplified', listed)):
            need(q in d, '%s is missing from the output', q)
            outs.append((where, d[q]))
        for env in points:
            full = dict(allm, **env)
            try:
                val, der = evaluate(e, full, {v: 1} if 'diff' in op else None)
            except (Undefined, Unsure, ZeroDivisionError):
                ctx.count('undefined')
                continue
            want = der if 'diff' in op else val
            for where, s in outs:
                try:
                    pe = parse(s)
                except Unreadable:
                    need(False, 'the %s form of %s (%s of %s) cannot be read: %s', where, q, op, text(e, None), s)
                same(pe, want, full, 'the %s result "%s" of %s%s of "%s"' % (where, s[:300], op, ' by ' + v if 'diff' in op else '', text(e, None)[:300]), ctx)
            if 'diff' in op and want[0] != 0 and v in names(parse(outs[1][1]), set()):
                ctx.nontrivial()
    # printed text is read again by the compiler
    if c['reread']:
        p2 = ['title again;'] + start
        todo = []
        for q, n, e, op, v in jobs:
            if op in ('reread', 'id', 'sdiff', 'diff', 'simplify') and not any(x in allm or x in ('inf', 'nan') for x in names(parse(said[q]), set())):
                todo.append((q, said[q]))
                p2.append('model %s %s;' % (q, said[q]))
        rc, err, _ = run_program('\n'.join(p2) + '\n')
        need(rc == 0, 'the compiler does not read what it has printed: %s\n%s', err[-300:], '\n'.join(p2))
        again = dict(re.findall(r'^adding model: (\S+) (.*)$', err, re.M))
        for q, s in todo:
            a, b = parse(s), parse(again[q])
            for env in points:
                try:
                    want, _ = evaluate(a, env)
                except (Undefined, Unsure):
                    continue
                same(b, want, env, '"%s", read again and printed as "%s",' % (s, again[q]), ctx)


@st.composite
def tree(draw, depth):
    """Expressions as plain lists; variables and constants as numbers, so that cases shrink."""
    if depth <= 0 or draw(st.integers(0, 7)) == 0:
        return ['v', draw(st.integers(0, 7))] if draw(st.integers(0, 2)) else ['c', draw(st.sampled_from(CONST))]
    k = draw(st.sampled_from(['+', '+', '+', '-', '-', '*', '*', '*', '/', '^c', '^c', '^', 'pow', 'exp', 'log', 'log', 'neg', 'neg', 'pos', 'rel', 'logic', 'not', 'f', 'f', 'twice']))
    s = lambda: draw(tree(depth - 1))
    if k in ('+', '-', '*', '/', '^', 'pow'):
        return [k, s(), s()]
    if k == '^c':
        return [draw(st.sampled_from(['^', 'pow'])), s(), draw(st.sampled_from([['c', '2'], ['c', '3'], ['neg', ['c', '1']], ['neg', ['c', '2']], ['c', '0.5'], ['c', '1'], ['c', '0'], ['c', '1.5'], ['c', '2.0000001'], ['neg', ['c', '0.5']]]))]
    if k == 'rel':
        return [draw(st.sampled_from(['<', '<=', '>', '>=', '==', '!='])), s(), s()]
    if k == 'logic':
        return [draw(st.sampled_from(['&&', '||'])), s(), s()]
    if k == 'f':
        return ['f', draw(st.integers(0, 9)), [s() for i in range(draw(st.integers(1, 3)))]]
    if k == 'twice':                                   # the same operand again: things to combine
        a = s()
        o = draw(st.sampled_from(['+', '-', '*', '/', '==']))
        return [o, a, a] if draw(st.booleans()) else [o, ['*', ['c', draw(st.sampled_from(CONST))], a], a]
    return [k, s()]


def build(t, known, funcs):
    k = t[0]
    if k == 'v':
        return ('var', known[t[1] % len(known)]) if known else ('num', '2')
    if k == 'c':
        return ('num', t[1])
    if k == 'f':
        if not funcs:
            return build(t[2][0], known, funcs)
        f = funcs[t[1] % len(funcs)]
        a = [build(x, known, funcs) for x in t[2]]
        return ('call', f, [a[i % len(a)] for i in range(FUNCS[f][0])])
    if k in ('exp', 'log', 'pow'):
        return ('call', k, [build(x, known, funcs) for x in t[1:]])
    return (k,) + tuple(build(x, known, funcs) for x in t[1:])


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list) and x) if t[0] != 'f' else 1 + sum(size(x) for x in t[2])


@st.composite
def exprs(draw):
    return dict(seed=draw(st.integers(0, 10**6)), vars=draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=3, unique=True)), funcs=draw(st.lists(st.sampled_from(sorted(FUNCS)), max_size=3, unique=True)),
                trees=draw(st.lists(tree(draw(st.integers(1, 4))).filter(lambda t: size(t) < 40), min_size=1, max_size=3)), use_models=draw(st.booleans()), ops=draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5, unique=True)), points=4, reread=draw(st.booleans()))


# ---------------------------------------------------------------- generated code

HEADERS = {
    'NodeKeeper.hh': '#pragma once\n#include <vector>\n#include <string>\n#include <utility>\n#include <complex>\nstruct NodeKeeper { typedef std::vector<double> Solution; };\n',
    'CircuitNode.hh': '#pragma once\n#include <cstddef>\nstruct CircuitNode { size_t n; bool g; size_t getNumber() const {return n;} bool isGROUND() const {return g;} };\ntypedef CircuitNode *CircuitNodePtr;\n',
    'MatrixEntries.hh': '#pragma once\n#include <vector>\nnamespace dsMath { template <typename T> struct RealRowColVal { int r, c; T v; RealRowColVal(int a, int b, T x) : r(a), c(b), v(x) {} }; template <typename T> using RealRowColValueVec = std::vector<RealRowColVal<T>>; }\n',
    'InstanceModel.hh': '''#pragma once
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#include "MatrixEntries.hh"
extern CircuitNode *find_node(const char *name, bool internal);
struct InstanceModel {
  InstanceModel(NodeKeeper *, const char *) {}
  virtual ~InstanceModel() {}
  CircuitNodePtr AddCircuitNode(const char *n) { return find_node(n, false); }
  CircuitNodePtr AddInternalNode(const char *n) { return find_node(n, true); }
  virtual void assembleDC_impl(const NodeKeeper::Solution &, dsMath::RealRowColValueVec<double> &, std::vector<std::pair<int, double>> &) = 0;
  virtual void assembleTran_impl(const double, const NodeKeeper::Solution &, dsMath::RealRowColValueVec<double> *, std::vector<std::pair<int, double>> &) = 0;
  virtual bool addParam(const std::string &, double) = 0;
};
#include <cmath>
static inline double fxy(double x, double y) { return x * y + 2 * x - y; }
static inline double gxy(double x, double y) { return x * x * y * y * y + x; }
static inline double h3(double x, double y, double z) { return x * y * z + x - 3 * z; }
static inline double quot(double x, double y) { return x / (1 + y * y); }
static inline double k2(double x, double y) { return x - y; }
using std::sin; using std::cos; using std::exp; using std::log; using std::pow; using std::tanh; using std::sinh; using std::cosh; using std::atan;
'''}

MAIN = r'''
#include "@T@.cc"
#include <map>
#include <cstdio>
#include <cstring>
static std::map<std::string, CircuitNode> nodes;
CircuitNode *find_node(const char *name, bool internal) { return &nodes[std::string(internal ? "i:" : "e:") + name]; }
int main()
{
  char w[64], nm[200];
  std::vector<std::string> ext;
  NodeKeeper nk;
  NodeKeeper::Solution sol;
  InstanceModel *m = nullptr;
  double v; int a, b; unsigned long u;
  while (scanf("%63s", w) == 1)
  {
    std::string k = w;
    if (k == "ext") { scanf("%199s", nm); ext.push_back(nm); }
    else if (k == "new") { m = @T@_create(&nk, "inst", ext); for (auto &n : nodes) printf("node %s\n", n.first.c_str()); }
    else if (k == "place") { scanf("%199s %d %d", nm, &a, &b); nodes[nm].n = a; nodes[nm].g = b; }
    else if (k == "sol") { scanf("%d", &a); sol.assign(a, 0.0); for (int i = 0; i < a; ++i) { scanf("%lf", &v); sol[i] = v; } }
    else if (k == "param") { scanf("%199s %lf", nm, &v); printf("param %d\n", (int)m->addParam(nm, v)); }
    else if (k == "dc") { dsMath::RealRowColValueVec<double> mat; std::vector<std::pair<int, double>> rhs; m->assembleDC_impl(sol, mat, rhs);
      for (auto &r : rhs) printf("r %d %.17g\n", r.first, r.second); for (auto &e : mat) printf("m %d %d %.17g\n", e.r, e.c, e.v); puts("end"); }
    else if (k == "tran") { scanf("%lf %d", &v, &a); dsMath::RealRowColValueVec<double> mat; std::vector<std::pair<int, double>> rhs; m->assembleTran_impl(v, sol, a ? &mat : nullptr, rhs);
      for (auto &r : rhs) printf("r %d %.17g\n", r.first, r.second); for (auto &e : mat) printf("m %d %d %.17g\n", e.r, e.c, e.v); puts("end"); }
  }
}
'''


def run_code(c, ctx):
    R = random.Random(c['seed'])
    nodes = ['va', 'vb', 'vc', 'vd'][:c['nodes']]
    nint = min(c['internal'], len(nodes) - 1)
    ext, intn = nodes[:len(nodes) - nint], nodes[len(nodes) - nint:]
    T = 'GenModel'
    prog = ['title %s;' % T]
    decl = ['external_node %s;' % n for n in ext] + ['internal_node %s;' % n for n in intn]
    params = {}
    for i in range(c['params']):
        params['pr%d' % i] = R.choice(['1.0', '2.5', '0.0258521', '1.23456789012', '3.3333333333333335', '1e-3', '7.', '1.0000001e2'])
    pdecl = ['parameter %s "p %d" %s;' % (p, i, v) for i, (p, v) in enumerate(params.items())]
    fdecl = definitions(R, c['funcs'], nodes)
    blocks = [decl, pdecl, fdecl]
    R.shuffle(blocks)
    for b in blocks:
        prog += b + (['# comment ; with (odd "text'] if R.random() < 0.3 else [])
    known = nodes + list(params)
    env0 = {}
    for i, t in enumerate(c['models']):
        e = build(t, known, c['funcs'])
        prog.append('model md%d %s;' % (i, text(e, R)))
        known = known + ['md%d' % i] * 2
        env0['md%d' % i] = ('expr', e)
    eqs = {}
    for i, n in enumerate(nodes):
        dc, tr = [build(t, known, c['funcs']) for t in c['eqs'][i % len(c['eqs'])]]
        if R.random() < 0.15:
            dc = ('num', '0')
        if R.random() < 0.3:
            tr = ('num', '0')
        eqs[n] = (dc, tr)
        prog.append('equation e%s %s ddt %s;' % (n, text(dc, R), text(tr, R)))
    for n in R.sample(nodes, len(nodes)):
        prog.append('link e%s %s;' % (n, n))
    prog = '\n'.join(prog) + '\n'
    rc, err, files = run_program(prog)
    need(rc == 0, 'the compiler ends with %d on a valid program: %s\n%s', rc, err[-400:], prog)
    need(T + '.cc' in files and T + '.hh' in files, 'files written: %r', sorted(files))
    d = tempfile.mkdtemp(prefix='c23')
    try:
        for f, s in list(HEADERS.items()) + [(f, s) for f, s in files.items()]:
            open(os.path.join(d, f), 'w').write(s)
        open(d + '/main.cc', 'w').write(MAIN.replace('@T@', T))
        r = subprocess.run(['g++', '-std=c++17', '-O0', '-w', '-fmax-errors=3', 'main.cc', '-o', 'run'], cwd=d, capture_output=True, text=True)
        if r.returncode and re.search(r'\b(inf|nan)\b', files[T + '.cc']):
            ctx.count('constant without a value')
            return
        need(r.returncode == 0, 'the generated code does not compile: %s\n%s', r.stderr[:600], prog)
        cmds = ['ext %s' % n for n in ext] + ['new']
        expect = []
        pv = {p: float(v) for p, v in params.items()}
        changed = dict(pv)
        for k in range(c['points']):
            order = list(range(len(nodes) + 2))
            R.shuffle(order)
            place = {n: order[i] for i, n in enumerate(nodes)}
            gnd = {n for n in ext if R.random() < 0.2}
            size_ = len(order)
            env = point(R, nodes, R.choice(['pos', 'any']))
            sol = [R.uniform(50, 60) for i in range(size_)]
            for n in nodes:
                sol[place[n]] = env[n]
                cmds.append('place %s:%s %d %d' % ('e' if n in ext else 'i', n, place[n], n in gnd))
                if n in gnd:
                    env[n] = 0.0
            cmds.append('sol %d %s' % (size_, ' '.join(repr(x) for x in sol)))
            if k and params and R.random() < 0.6:
                p = R.choice(list(params))
                changed[p] = R.choice([R.uniform(0.2, 3), float(R.randint(1, 4))])
                cmds.append('param %s %r' % (p, changed[p]))
                expect.append(('param', 1))
            if R.random() < 0.2:
                cmds.append('param nosuch 1')
                expect.append(('param', 0))
            full = dict(env0, **env)
            full.update(changed)
            cmds.append('dc')
            expect.append(('dc', full, place, gnd, 1.0, True))
            scl = R.choice([1.0, 0.5, 1e3, -2.0])
            wm = R.random() < 0.8
            cmds.append('tran %r %d' % (scl, wm))
            expect.append(('tran', full, place, gnd, scl, wm))
        try:
            r = subprocess.run(['./run'], cwd=d, input='\n'.join(cmds) + '\n', capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            need(False, 'the generated code hangs')
        need(r.returncode == 0, 'the generated code ends with %d\n%s', r.returncode, prog)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines = r.stdout.split('\n')
    seen = [l.split()[1] for l in lines if l.startswith('node ')]
    need(sorted(seen) == sorted(['e:' + n for n in ext] + ['i:' + n for n in intn]), 'nodes used by the constructor: %r', seen)
    lines = [l for l in lines if l and not l.startswith('node ')]
    for x in expect:
        if x[0] == 'param':
            need(lines[0] == 'param %d' % x[1], 'addParam returned %s for %s parameter', lines[0], 'a known' if x[1] else 'an unknown')
            lines.pop(0)
            continue
        kind, full, place, gnd, scl, wm = x
        got = {}
        while lines[0] != 'end':
            w = lines.pop(0).split()
            key = tuple(int(q) for q in w[1:-1])
            got[key] = got.get(key, M(0)) + M(w[-1]) if w[-1] not in ('nan', '-nan', 'inf', '-inf') else M(w[-1].replace('-nan', 'nan'))
        lines.pop(0)
        for key in got:
            names_ = [n for n in nodes if place[n] in key and n in gnd]
            need(not names_, '%s: an entry %r for the grounded node %r', kind, key, names_)
            need(all(any(place[n] == q for n in nodes) for q in key), '%s: an entry %r for a row or column that is none of the nodes', kind, key)
        for n in nodes:
            if n in gnd:
                continue
            e = eqs[n][kind == 'tran']
            for w in [None] + [q for q in nodes if q not in gnd]:
                if w is not None and not wm:
                    need((place[n], place[w]) not in got, 'tran: matrix entries without a matrix')
                    continue
                try:
                    val, der = evaluate(e, full, {w: 1} if w else None)
                except (Undefined, Unsure, ZeroDivisionError):
                    ctx.count('undefined')
                    continue
                v = val if w is None else der
                key = (place[n],) if w is None else (place[n], place[w])
                g = got.get(key, M(0))
                tol = (400 * v[1] + 1e-12 * abs(v[0])) * abs(scl) + M('1e-280')
                if v[1] > abs(v[0]) * M('1e-6') and abs(g - scl * v[0]) > tol:
                    # heavy cancellation: rounding inside the generated code is not bounded by this estimate
                    ctx.count('cancelled')
                    continue
                if mp.isnan(g) or mp.isinf(g):
                    if w is not None or not mp.isfinite(g):
                        need(False, '%s %s of equation of %s is %s, not %s\n%s', kind, 'value' if w is None else 'derivative by ' + w, n, g, mp.nstr(scl * v[0], 10), prog)
                need(abs(g - scl * v[0]) <= tol, '%s %s of the equation of %s is %s, not %s (allowed difference %s) at %r\n%s', kind, 'value' if w is None else 'derivative by ' + w, n, mp.nstr(g, 17), mp.nstr(scl * v[0], 17), mp.nstr(tol, 3), env_text(full), prog)
                ctx.count('entries')
                if w is not None and v[0]:
                    ctx.nontrivial()


@st.composite
def codes(draw):
    t = lambda: tree(draw(st.integers(1, 3))).filter(lambda x: size(x) < 25)
    return dict(seed=draw(st.integers(0, 10**6)), nodes=draw(st.integers(1, 4)), internal=draw(st.integers(0, 2)), params=draw(st.integers(0, 3)), funcs=draw(st.lists(st.sampled_from(sorted(FUNCS)), max_size=2, unique=True)),
                models=draw(st.lists(t(), max_size=4)), eqs=[[draw(t()), draw(t())] for i in range(draw(st.integers(1, 3)))], points=4)


# ---------------------------------------------------------------- damaged programs

GOOD = open('/dev/null').read()


def run_damage(c, ctx):
    R = random.Random(c['seed'])
    base = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'testing', 'mctest.mc')).read() if R.random() < 0.3 else None
    if base is None:
        prog = ['title t;', 'external_node va;', 'external_node vb;', 'parameter pa "x" 1.0;'] + definitions(R, R.sample(sorted(FUNCS), 2))
        prog += ['model m%d %s;' % (i, text(expression(R, ['va', 'vb', 'pa', 'w'], 2, []), R)) for i in range(2)] + ['equation ea m0+va ddt vb;', 'equation eb m1 ddt 0;', 'link ea va;', 'link eb vb;']
        base = '\n'.join(prog) + '\n'
    s = base
    tokens = re.findall(r'\s+|[A-Za-z_0-9.]+|.', s, re.S)
    sure = False
    for k in range(c['edits']):
        w = R.random()
        if w < 0.25 and tokens:
            tokens.pop(R.randrange(len(tokens)))
        elif w < 0.45:
            tokens.insert(R.randrange(len(tokens) + 1), R.choice(['(', ')', ';', ',', '^', '-', '!', 'ddt', 'diff', 'pow', 'exp', 'simplify', '&&', '1e', '1e999', '"', '@', '$', '\\', '\x01', '\xff', '\xc3\xa9', '0x1', '1..2', 'va', 'm0', 'ea', 'title', '\nmodel', '\nequation', '\nlink', '\nexternal_node', '\ndeclarefunc', '\ndefinefuncdiff', '\nhelp', '99999999999999999999', '\n']))
        elif w < 0.6 and len(tokens) > 1:
            i, j = R.randrange(len(tokens)), R.randrange(len(tokens))
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif w < 0.75:
            i = R.randrange(len(tokens))
            tokens[i:i] = tokens[R.randrange(len(tokens)):][:R.randint(1, 30)]
        elif w < 0.9:
            i = R.randrange(len(tokens) + 1)
            del tokens[i:i + R.randint(1, 20)]
        else:
            i = R.randrange(len(tokens) + 1)
            tokens[i:i] = ['('] * R.choice([3, 50, 300, 3000]) if R.random() < 0.5 else ['-'] * R.choice([2, 77, 2000])
    s = ''.join(tokens)
    bad = c['bad']
    if bad:
        n = R.randint(1, 3)
        extra, why = {'arity1': ('model zz exp(1,2);', 1), 'arity2': ('model zz pow(3);', 1), 'unbalanced': ('model zz ((1+2);', 1), 'noname': ('model 1+2;', 1), 'operator': ('model zz 1 + * 2;', 1), 'empty': ('model zz ;', 1), 'twice': ('model zz 1;\nmodel zz 2;', 1),
                      'node': ('internal_node zz;\ninternal_node zz;', 1), 'equse': ('equation zq 1 ddt 0;\nmodel zz zq;', 1), 'userarity': ('declarefunc zf(x);\nmodel zz zf(1,2);', 1), 'redeclare': ('declarefunc zf(x);\ndeclarefunc zf(x);', 1), 'diffcount': ('definefuncdiff zf(x,y), 1;', 1), 'redefine': ('declarefunc zf(x);\ndefinefuncdiff zf(x,y), 1, 2;', 1),
                      'nolink': ('internal_node zn;\nequation zq 1 ddt 0;', 1), 'linknode': ('link ea nosuchnode;', 1), 'utf': ('model z\xc3\xa9 1;', 1), 'title2': ('title other;', 1)}[bad]
        s = base + extra + '\n'
    try:
        rc, err, files = run_program(s)
    except subprocess.TimeoutExpired:
        # repeated simplification of a long random expression
        ctx.count('slow')
        return
    need(rc >= 0, 'the compiler ends with signal %d on\n%s', -rc, s[:3000])
    if bad:
        msg = [l for l in err.split('\n') if l and not re.match(r'^(adding (model|equation):|External Node|Internal Node|Parameter Node|Creating derivative|Reusing derivative|Ref count|Equations:|Models:|\t| |Derivatives|Internal Nodes:|External Nodes:)', l)]
        need(rc != 0 or msg, 'a wrong program (%s) is accepted without a message\n%s\n%s', bad, s, err)
        ctx.nontrivial()
    ctx.count('rejected' if rc else 'accepted')


@st.composite
def damages(draw):
    return dict(seed=draw(st.integers(0, 10**7)), edits=draw(st.integers(1, 4)), bad=draw(st.sampled_from([None, None, None, 'arity1', 'arity2', 'unbalanced', 'noname', 'operator', 'empty', 'twice', 'node', 'equse', 'userarity', 'redeclare', 'diffcount', 'redefine', 'nolink', 'linknode', 'utf', 'title2'])))


SUITES = [Suite('expr', exprs(), run_expr, quick=1500, thorough=30000, hang=150),
          Suite('code', codes(), run_code, quick=220, thorough=5000, hang=200),
          Suite('damage', damages(), run_damage, quick=800, thorough=15000, hang=150)]
