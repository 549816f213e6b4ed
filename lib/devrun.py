"""development helper: python3 lib/devrun.py <harness.cc> [config] [args...] builds and runs one harness"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
a = sys.argv[1:]
cfg = a[1] if len(a) > 1 and a[1] in build.CONFIGS else 'plain'
rest = a[2:] if len(a) > 1 and a[1] in build.CONFIGS else a[1:]
b = build.Builder(cfg)
p = b.program(a[0].split('+'), a[0].split('+')[0].replace('.cc', '') + '-' + cfg, link_extra=__import__('os').environ.get('VLINK','').split())
out = '/tmp/dev-' + a[0].split('+')[0]
import re
kn = [m.group(1) + '/' + m.group(2) for m in (re.match(r'finding: property=\S+ space=(\S+) key=(.*?) :: ', l) for l in open(os.path.join(build.VERIF, 'known-findings.txt'))) if m]
r = subprocess.run([p, '--out', out, '--known', ';'.join(kn)] + rest)
if os.path.exists(out + '.viol') and '--replay' not in rest:
    import json, collections
    seen = collections.OrderedDict()
    for l in open(out + '.viol'):
        v = json.loads(l); k = (v['space'], v['key'])
        if k not in seen or len(v['input']) < len(seen[k][0]['input']): seen[k] = (v, seen.get(k, (0, 0))[1] + 1)
        else: seen[k] = (seen[k][0], seen[k][1] + 1)
    for k, (v, n) in seen.items():
        print('---', k, 'x%d' % n, '\n  ', v['msg'], '\n   INPUT', v['input'], '\n  ', '%s:%s' % (v['space'], ','.join(map(str, v['choices']))))
sys.exit(r.returncode)
