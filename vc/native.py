"""Validation of the trusted base: runs every unit of a contract file natively (same IR, real threads, random schedules and
choices) under AddressSanitizer and ThreadSanitizer and reports what differs from the verifier's verdict on the clean tree.
usage: native.py contracts/X.cpp [unit-substring] [runs]"""
import concurrent.futures as cf
import os
import re
import shutil
import sys
import tempfile
import subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend  # noqa: E402
import replay  # noqa: E402
from check import UNIT_RE  # noqa: E402

src = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ''
runs = int(sys.argv[3]) if len(sys.argv) > 3 else 40
text = open(src).read()
std = re.search(r'//\s*@std:\s*(\S+)', text)
work = tempfile.mkdtemp(prefix='vcn_')
bad = 0
try:
    ll = os.path.join(work, 'u.ll')
    frontend.compile_ll(src, ll, std=std.group(1) if std else 'gnu++17')
    tl = os.path.join(work, 't.ll')
    frontend.compile_ll(src, tl, std=std.group(1) if std else 'gnu++17', defs=['__SANITIZE_THREAD__=1'])
    units = ['vcu__%s__%s' % (m.group(2), m.group(3)) for m in UNIT_RE.finditer(text)]
    units = [u for u in units if sub in u]
    tf = os.path.join(work, 'empty')
    open(tf, 'w').close()
    subprocess.run(['clang++', '-std=c++17', '-O1', '-g', '-c', os.path.join(replay.VERIF, 'rt', 'native_rt.cpp'), '-o', os.path.join(work, 'native_rt.o')], check=True)

    def one(a):
        u, san = a
        try:
            exe = replay.build(tl if san == 'thread' else ll, u, san, work)
        except Exception as e:
            return u, san, 'build', str(e)[:300]
        codes = {}
        first = ''
        for k in range(runs):
            os.environ['X'] = ''
            env = dict(os.environ, VCN_RANDOM=str(k + 1), ASAN_OPTIONS='exitcode=43:detect_leaks=0:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0',
                       TSAN_OPTIONS='exitcode=44:halt_on_error=1:report_thread_leaks=0')
            try:
                r = subprocess.run([exe, tf, ''], capture_output=True, text=True, env=env, timeout=60, errors='replace')
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', ''
            codes[rc] = codes.get(rc, 0) + 1
            if rc != 0 and not first:
                first = 'seed %d: ' % (k + 1) + err[:1500]
        os.unlink(exe)
        return u, san, codes, first
    with cf.ThreadPoolExecutor(8) as ex:
        for u, san, codes, first in ex.map(one, [(u, s) for u in units for s in ('address', 'thread')]):
            if codes != {0: runs}:
                bad += 1
                print(u, san, codes, first)
    print('%s: %d units, %d runs each under two sanitizers, %d differ' % (src, len(units), runs, bad))
finally:
    shutil.rmtree(work, ignore_errors=True)
