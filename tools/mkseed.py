#!/usr/bin/env python3
"""mkseed.py ID PROPERTY : reads from stdin
   file: path / <<< old / === / new / >>> blocks, then 'needs: ...' and 'what: ...' lines, then 'demo:' and the demo.py text."""
import sys, os, subprocess, json, re
sid, prop = sys.argv[1:3]
t = sys.stdin.read()
head, demo = t.split('\ndemo:\n', 1)
REPO = os.environ.get('SEED_REPO', '/repo')
d = os.environ.get('SEED_OUT', '/verif/seeded') + '/' + sid
os.makedirs(d, exist_ok=True)
assert subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
for f, old, new in re.findall(r'file: (\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>', head, re.S):
    p = REPO + '/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
out = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'])
assert out
open(d + '/patch.diff', 'w').write(out)
needs = re.search(r'^needs: (.*)$', head, re.M).group(1)
what = re.search(r'^what: (.*)$', head, re.M).group(1)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkdemo.sh'), d], check=True)
open(d + '/demo.py', 'w').write(demo)
