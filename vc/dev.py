import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend, engine
from irparse import Module, Unsupported
src = sys.argv[1]
pat = sys.argv[2] if len(sys.argv) > 2 else ''
os.makedirs('/tmp/vcw', exist_ok=True)
t0 = time.time()
import re
sd = re.search(r'//\s*@std:\s*(\S+)', open(src).read())
text = frontend.compile_ll(src, '/tmp/vcw/%s.ll' % os.path.basename(src), std=sd.group(1) if sd else 'gnu++17')
t1 = time.time()
m = Module(text)
print('compile %.1fs parse %.1fs' % (t1 - t0, time.time() - t1))
for n in sorted(m.funcs):
    if n.startswith('vcu__') and pat in n:
        e = engine.Engine(m)
        t0 = time.time()
        try:
            e.run_unit(n, time.time() + float(os.environ.get('T', '60')))
            r = 'FAIL' if e.failures else 'ok'
        except Unsupported as u:
            r = 'UNSUPPORTED %s' % u
        print(n, r, '%.2fs' % (time.time() - t0), {k: (round(v, 2) if isinstance(v, float) else v) for k, v in e.stats.items() if v}, e.bounded, 'obl', sum(sum(v) for v in e.obl.values()), 'cov', e.covers)
        for f in e.failures:
            print('   ', f['name'], '|', f['msg'], '|', f['where'])
            if os.environ.get('V'):
                print('       trace', f['trace'])
                for s in f['stack']:
                    for l in s: print('        ', l[:300])
                    print('         --')
