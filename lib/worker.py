"""Worker process: explores suites of one check, or replays one case."""
import importlib, json, os, sys, time, faulthandler

spec = json.load(open(sys.argv[1]))
out_path = spec['out']
real_out = os.dup(1)
log = os.open(spec['log'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
os.dup2(log, 2)
null = os.open('/dev/null', os.O_WRONLY)
os.dup2(null, 1)
faulthandler.enable(file=2, all_threads=False) if spec.get('fh', True) else None
import resource
try:
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)) if not spec.get('asan') else None
except Exception:
    pass
os.chdir(spec['scratch'])
import harness
mod = importlib.import_module(spec['module'])
suites = {s.name: s for s in mod.SUITES}


def write(res):
    with open(out_path + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(out_path + '.tmp', out_path)


ctx = harness.Ctx()
if spec['mode'] == 'case':
    try:
        ctx.begin()
        suites[spec['suite']].run(spec['case'], ctx)
        write({'fail': None})
    except Exception as e:
        import traceback
        write({'fail': '%s: %s' % (type(e).__name__, str(e)[:3000]), 'tb': traceback.format_exc()[-3000:]})
elif spec['mode'] == 'probe':
    # a probe returns a falsy value when the code is right, a description when it is wrong
    try:
        r = mod.PROBES[spec['probe']]()
        write({'fail': r or None})
    except Exception as e:
        import traceback
        write({'fail': '%s: %s' % (type(e).__name__, str(e)[:3000]), 'tb': traceback.format_exc()[-3000:]})
else:
    heart = harness.Heart(spec['heart'])
    res = {'done': [], 'failure': None}
    for name, n in spec['suites']:
        t0 = time.time()
        sd = harness.subseed(spec['property'], name, spec['seed'], spec['worker'], spec['tier'])
        f = harness.explore(suites[name], n, sd, ctx, heart, spec['deadline'], isolate=spec.get('isolate', False),
                            shrink_s=spec.get('shrink_s', 45))
        ctx.count('suite:%s:seconds_x1000' % name, int(1000 * (time.time() - t0)))
        res['done'].append(name)
        if f:
            f['suite'] = name
            f['worker'] = spec['worker']
            res['failure'] = f
            break
    res.update(evaluations=ctx.evaluations, hashes=sorted(ctx.hashes), counts=ctx.counts, samples=ctx.samples)
    write(res)
sys.stderr.flush()
os._exit(0)
