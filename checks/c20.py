"""C20: parameter scoping, against a dictionary model."""
from hypothesis import strategies as st
from harness import Suite, need, Violation
import dsx
from dsx import ds
import meshgen

PROPERTY = 'C20'
RULE = ('A case is a history of 4..40 operations (set/get/list/unset-like overwrite of parameters in region, device and global scope, '
        'creating and deleting devices, reading a model that uses the parameter, failing sets; in the second suite every model is read before every operation) replayed against a dictionary model. '
        'Non-trivial: at least one read resolved through an outer scope, or after a shadowing value was set, or after a device was deleted.')
ASSUMPTIONS = ['parameter objects are compared with == and by type (identity for callables)']

NAMES = ['p', 'q', 'temp', 'V_c0', 'a b', 'name', 'é']
DEVS = ['d0', 'd1', 'd2']
REGS = ['r0', 'r1']


def fn_token():
    return 'callable'


scalar = st.one_of(st.floats(allow_nan=False, allow_infinity=True), st.integers(-2**70, 2**70), st.booleans(),
                   st.text(alphabet=st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), min_size=1, max_size=6),
                   st.sampled_from(['1.5', '0', ' ', 'None', 'NodeVolume']))
value = st.one_of(scalar, st.lists(st.integers(0, 3), min_size=1, max_size=3))
number = st.one_of(st.floats(-1e6, 1e6).map(lambda x: round(x, 6)), st.integers(-1000, 1000))


@st.composite
def op(draw):
    k = draw(st.sampled_from(['set', 'set', 'setnum', 'get', 'get', 'get', 'list', 'mk', 'del', 'model', 'model', 'badset', 'reget']))
    d = draw(st.sampled_from(DEVS + [None]))
    r = draw(st.sampled_from(REGS + [None])) if d else None
    n = draw(st.sampled_from(NAMES[:4] if k in ('setnum', 'model') else NAMES))
    o = [k, d, r, n]
    if k == 'set':
        o.append(draw(value))
    elif k in ('setnum',):
        o.append(draw(number))
    elif k == 'badset':
        o.append(draw(st.sampled_from(['noname', 'novalue', 'baddev', 'badreg', 'regonly', 'badget', 'unknown', 'emptyname'])))
    elif k == 'list':
        pass
    return o


def strategy():
    return st.lists(op(), min_size=4, max_size=40).map(lambda l: [['mk', 'd0', None, 'p']] + l)


MESH = meshgen.line_mesh([0.0, 1.0, 2.0, 3.0], split=(1,))
DEFAULTS = None


def eq(a, b):
    return type(a) is type(b) and a == b


def kw(d, r):
    k = {}
    if d is not None:
        k['device'] = d
    if r is not None:
        k['region'] = r
    return k


def run_models(case, ctx):
    # after every change all models have been evaluated before, so that none may keep an old value
    run(case, ctx, eager=True)


def run(case, ctx, eager=False):
    dsx.reset()
    defaults = {n: ds.get_parameter(name=n) for n in ds.get_parameter_list()}
    G = dict(defaults)
    D, R, live = {}, {}, set()
    nmesh = 0
    deleted = False

    def resolve(d, r, n):
        if d is not None:
            if r is not None and n in R.get((d, r), {}):
                return True, R[d, r][n], 0
            if n in D.get(d, {}):
                return True, D[d][n], 1 if r is not None else 0
        if n in G:
            return True, G[n], 2 if d is not None else 0
        return False, None, 0

    def check_get(d, r, n):
        found, v, depth = resolve(d, r, n)
        try:
            got = ds.get_parameter(name=n, **kw(d, r))
        except ds.error as e:
            need(not found, 'get_parameter(%r) raised %s, expected %r', (d, r, n), e, v)
            return
        need(found, 'get_parameter(%r) returned %r although never set', (d, r, n), got)
        need(eq(got, v), 'get_parameter(%r) = %r, expected %r', (d, r, n), got, v)
        shadow = sum(n in x for x in (G, D.get(d, {}), R.get((d, r), {})))
        ctx.nontrivial(depth > 0 or shadow > 1 or deleted)

    def check_model(d, r, n):
        found, v, depth = resolve(d, r, n)
        isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
        if not found or not isnum or abs(v) > 1e15:
            return
        got = ds.get_node_model_values(device=d, region=r, name='use_' + n)
        want = 2.0 * float(v) + 1.0
        need(all(dsx.bits(x) == dsx.bits(want) for x in got), 'model of parameter %r in %r: %r expected %r', n, (d, r), list(got), want)
        ctx.count('model_reads')
        ctx.nontrivial(depth > 0)

    for o in case:
        if eager:
            for dd in sorted(live):
                for rr in REGS:
                    for nn in NAMES[:4]:
                        check_model(dd, rr, nn)
        k, d, r, n = o[:4]
        if k == 'mk':
            if d is None or d in live:
                continue
            nmesh += 1
            meshgen.make_device(ds, MESH, device=d, meshname='m%d' % nmesh)
            live.add(d)
            for q in REGS:
                for nm in NAMES[:4]:
                    ds.node_model(device=d, region=q, name='use_' + nm, equation='2*%s + 1' % nm)
            continue
        if d is not None and d not in live:
            # the device does not exist: every access must fail
            if k in ('set', 'setnum'):
                m = dsx.raises(ds.set_parameter, name=n, value=o[4], **kw(d, r))
                need(m, 'set_parameter on missing device %s succeeded', d)
            elif k == 'get':
                need(dsx.raises(ds.get_parameter, name=n, **kw(d, r)), 'get_parameter on missing device succeeded')
            elif k == 'list':
                need(dsx.raises(ds.get_parameter_list, **kw(d, r)), 'get_parameter_list on missing device succeeded')
            elif k == 'del':
                need(dsx.raises(ds.delete_device, device=d), 'delete of missing device succeeded')
            continue
        if k in ('set', 'setnum'):
            ds.set_parameter(name=n, value=o[4], **kw(d, r))
            if d is None:
                G[n] = o[4]
            elif r is None:
                D.setdefault(d, {})[n] = o[4]
            else:
                R.setdefault((d, r), {})[n] = o[4]
            check_get(d, r, n)
        elif k == 'get':
            check_get(d, r, n)
        elif k == 'reget':
            for dd in sorted(live) + [None]:
                for rr in (REGS + [None] if dd else [None]):
                    check_get(dd, rr, n)
        elif k == 'list':
            got = sorted(ds.get_parameter_list(**kw(d, r)))
            want = sorted(G if d is None else (D.get(d, {}) if r is None else R.get((d, r), {})))
            need(got == want, 'get_parameter_list(%r) = %r, expected %r', (d, r), got, want)
        elif k == 'del':
            if d is None:
                continue
            ds.delete_device(device=d)
            live.discard(d)
            D.pop(d, None)
            for q in REGS:
                R.pop((d, q), None)
            deleted = True
        elif k == 'model':
            if d is None or r is None:
                continue
            check_model(d, r, n)
        elif k == 'badset':
            how = o[4]
            v = 17.25
            if how == 'noname':
                m = dsx.raises(ds.set_parameter, value=v, **kw(d, r))
            elif how == 'novalue':
                m = dsx.raises(ds.set_parameter, name=n, **kw(d, r))
            elif how == 'baddev':
                m = dsx.raises(ds.set_parameter, name=n, value=v, device='nodev')
            elif how == 'badreg':
                if d is None:
                    continue
                m = dsx.raises(ds.set_parameter, name=n, value=v, device=d, region='noreg')
            elif how == 'regonly':
                m = dsx.raises(ds.set_parameter, name=n, value=v, region='r0')
            elif how == 'badget':
                m = dsx.raises(ds.get_parameter, name='never set', **kw(d, r))
            elif how == 'unknown':
                m = dsx.raises(ds.set_parameter, name=n, value=v, bogus=1, **kw(d, r))
            else:
                m = dsx.raises(ds.set_parameter, name='', value=v, **kw(d, r))
            need(m, 'bad call %s succeeded', how)
            check_get(d, r, n)
    # final sweep over everything
    for dd in sorted(live) + [None]:
        for rr in (REGS + [None] if dd else [None]):
            for n in NAMES:
                check_get(dd, rr, n)
            got = sorted(ds.get_parameter_list(**kw(dd, rr)))
            want = sorted(G if dd is None else (D.get(dd, {}) if rr is None else R.get((dd, rr), {})))
            need(got == want, 'get_parameter_list(%r) = %r, expected %r', (dd, rr), got, want)


@st.composite
def op2(draw):
    k = draw(st.sampled_from(['setnum'] * 8 + ['mk', 'del']))
    d = draw(st.sampled_from(DEVS[:2] + [None]))
    r = draw(st.sampled_from(REGS + [None])) if d else None
    o = [k, d, r, draw(st.sampled_from(NAMES[:4]))]
    if k == 'setnum':
        o.append(draw(number))
    return o


MODELS = st.lists(op2(), min_size=2, max_size=20).map(lambda l: [['mk', 'd0', None, 'p']] + l + [['model', 'd0', 'r0', 'p']])
SUITES = [Suite('history', strategy, run, quick=20000, thorough=200000), Suite('models', MODELS, run_models, quick=4000, thorough=50000)]
