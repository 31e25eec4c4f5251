"""Replays a counterexample of the verifier against the real code: the unit's LLVM IR (compiled from /repo's current source)
is built natively with AddressSanitizer or ThreadSanitizer and run on real threads under the counterexample's choices and
schedule (rt/native_rt.cpp)."""
import hashlib
import os
import re
import subprocess

import frontend

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REF = ('__gnu_cxx', '_Sp_counted', '__exception_ptr')
GHOST = re.compile(r'^\s+(?:%\S+ = load [^@]*|store [^@]*)ptr @_ZN2vc\w+, align \d+$')  # ghost variables of the contract language
PLAIN = re.compile(r'^\s+(?:%\S+ = load (?!atomic)|store (?!atomic)).*, align \d+$')
ATOM = re.compile(r'^\s+(?:%\S+ = )?(cmpxchg|atomicrmw|load atomic|store atomic)\b')
WEAK = re.compile(r'^(\s+%\S+ = cmpxchg weak )ptr (\S+), (\S+) (\S+), (.*)$')


def instrument(text, unit, san):
    """scheduling hook before every atomic operation; sanitizer attribute on every function; the unit renamed"""
    out = []
    ref = 0
    ghost = False
    attr = 'sanitize_%s ' % san
    for l in text.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@([\w.$"]+)\(', l)
            name = m.group(1) if m else ''
            ref = int(any(r in name for r in REF))
            ghost = 'vc_ghost' in name
        elif l.startswith('attributes #') and san != 'none':
            l = l.replace('{ ', '{ ' + attr, 1)
        elif l.startswith('  ') and (GHOST.match(l) or ghost and PLAIN.match(l)):
            l += ', !nosanitize !99990'
        elif l.startswith(' ') and ATOM.match(l):
            out.append('  call void @vcn_atomic(i32 %d, i32 0)' % ref)
            m = WEAK.match(l) if not ref else None
            if m:
                # a spurious failure of compare_exchange_weak: compare with a value different from the current one
                pre, p, ty, cv, rest = m.groups()
                k = '%%vcnw%d' % len(out)
                al = re.search(r'align (\d+)', rest).group(1)
                out += ['  %so = load atomic %s, ptr %s monotonic, align %s' % (k, ty, p, al),
                        '  %se = icmp eq %s %so, %s' % (k, ty, k, cv),
                        '  %sz = zext i1 %se to i32' % (k, k),
                        '  %sw = call i32 @vcn_weak(i32 %sz)' % (k, k),
                        '  %sb = icmp ne i32 %sw, 0' % (k, k),
                        '  %sd = getelementptr i8, ptr %so, i64 1' % (k, k) if ty == 'ptr' else '  %sd = add %s %so, 1' % (k, ty, k),
                        '  %sc = select i1 %sb, %s %sd, %s %s' % (k, k, ty, k, ty, cv)]
                l = '%sptr %s, %s %sc, %s' % (pre, p, ty, k, rest)
        out.append(l)
    text = '\n'.join(out)
    text = re.sub(r'@%s\b' % re.escape(unit), '@vcn_unit', text)
    text = re.sub(r'@_(Znwm|Znam|ZdlPv|ZdaPv)(\w*)\(', r'@vcn_\1\2(', text)
    return text + '\ndeclare void @vcn_atomic(i32, i32)\ndeclare i32 @vcn_weak(i32)\n!99990 = !{}\n'


def build(ll, unit, san, work, src=None, std='gnu++17'):
    """san == 'thread': the contract file is compiled again with libstdc++'s TSan-aware reference counting"""
    exe = os.path.join(work, 'replay_%s_%s' % (hashlib.sha1((ll + unit).encode()).hexdigest()[:8], san))
    if os.path.exists(exe):
        return exe
    if san == 'thread' and src:
        tl = exe + '.tsan.ll'
        frontend.compile_ll(src, tl, std=std, defs=['__SANITIZE_THREAD__=1'])
        ll = tl
    src = exe + '.ll'
    open(src, 'w').write(instrument(open(ll).read(), unit, san))
    rt = os.path.join(work, 'native_rt.o')
    if not os.path.exists(rt):
        subprocess.run(['clang++', '-std=c++17', '-O1', '-g', '-c', os.path.join(VERIF, 'rt', 'native_rt.cpp'), '-o', rt], check=True, capture_output=True, text=True, timeout=120)
    r = subprocess.run(['clang++', '-O0', '-w', '-fsanitize=' + san, '-Wno-override-module', src, rt, '-o', exe, '-lpthread'], capture_output=True, text=True, timeout=240)
    os.unlink(src)
    if r.returncode:
        raise RuntimeError('native build failed: ' + r.stderr[-600:])
    return exe


def events(trace):
    ev = []
    for t in trace:
        if t[0] == 'sched':
            ev.append('s %d 0' % t[1])
        elif t[0] == 'sym':
            v = t[1]
            if v >> 63:
                v -= 1 << 64
            ev.append('n %d 0' % v)
        else:
            ev.append('c %d %d' % (t[1], t[2]))
    return '\n'.join(ev) + '\n'


def run(exe, tf, expect, san):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'exitcode=43:detect_leaks=0:detect_stack_use_after_return=1:symbolize=1:allocator_may_return_null=1:alloc_dealloc_mismatch=0'
    env['TSAN_OPTIONS'] = 'exitcode=44:halt_on_error=1:report_bugs=1:history_size=7:report_thread_leaks=0:report_destroy_locked=0'
    try:
        r = subprocess.run([exe, tf, expect], capture_output=True, text=True, timeout=90, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return r.returncode, r.stderr


def replay(ll, unit, fail, work, src=None, std='gnu++17'):
    d = dict(reproduced=False)
    if not fail.get('replayable', True):
        d['why'] = 'the obligation speaks about an arbitrary environment (rely-guarantee or monitor mode): no single native run'
        return d
    tf = os.path.join(work, 'trace_%s.txt' % hashlib.sha1(repr((unit, fail['trace'], fail['name'])).encode()).hexdigest()[:10])
    open(tf, 'w').write(events(fail['trace']))
    kind = fail['kind']
    order = ['thread', 'address'] if kind == 'race' else ['address']
    if kind in ('mem', 'leak') and fail['name'] == 'no-leak':
        order = ['address']
    d['runs'] = []
    for san in order:
        exe = build(ll, unit, san, work, src, std)
        rc, err = run(exe, tf, fail['name'], san)
        txt = '\n'.join(l for l in (err or '').splitlines() if l.startswith('VCN') or 'ERROR:' in l or 'WARNING:' in l or 'SUMMARY' in l or re.match(r'\s+#[0-5] ', l))[:2500]
        d['runs'].append(dict(sanitizer=san, exit=rc, output=txt))
        what = {42: 'the contract assertion fails natively', 43: 'AddressSanitizer reports', 44: 'ThreadSanitizer reports', 45: 'native deadlock', 46: 'memory leaked natively',
                47: 'std::terminate natively', 48: 'library assertion fails natively'}.get(rc)
        if rc is not None and rc < 0:
            what = 'native run killed by signal %d' % -rc
        if rc == 50:
            d['why'] = 'the native run diverged from the verifier trace'
        if what and rc != -14:
            d['reproduced'] = True
            d['how'] = what
            break
    return d
