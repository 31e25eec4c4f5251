"""compiles a contract file together with the real code to LLVM IR and redirects synchronisation primitives to the shims"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')

RENAME = {
    'pthread_mutex_lock': 'vcs_mutex_lock', 'pthread_mutex_unlock': 'vcs_mutex_unlock',
    '_ZNSt18condition_variableC1Ev': 'vcs_cv_ctor', '_ZNSt18condition_variableD1Ev': 'vcs_cv_dtor',
    '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': 'vcs_cv_wait',
    '_ZNSt18condition_variable10notify_oneEv': 'vcs_cv_notify_one',
    '_ZNSt18condition_variable10notify_allEv': 'vcs_cv_notify_all',
    'pthread_rwlock_rdlock': 'vcs_rwlock_lock', 'pthread_rwlock_wrlock': 'vcs_rwlock_lock', 'pthread_rwlock_unlock': 'vcs_rwlock_unlock',
    'pthread_rwlock_init': 'vcs_rwlock_init', 'pthread_rwlock_destroy': 'vcs_rwlock_destroy',
    'pthread_cond_clockwait': 'vcs_cond_clockwait', 'pthread_cond_timedwait': 'vcs_cond_timedwait',
    '_ZNSt6chrono3_V212steady_clock3nowEv': 'vcs_clock_now', '_ZNSt6chrono3_V212system_clock3nowEv': 'vcs_clock_now',
    '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE': 'vcs_thread_start',
    '_ZNSt6thread4joinEv': 'vcs_thread_join', '_ZNSt6thread6detachEv': 'vcs_thread_detach',
    '_ZNSt6thread20hardware_concurrencyEv': 'vcs_hw',
    'pthread_mutex_trylock': 'vcs_mutex_trylock', 'pthread_self': 'vcs_pthread_self', 'pthread_equal': 'vcs_pthread_equal',
    'nanosleep': 'vcs_nanosleep', 'sched_yield': 'vcs_yield',
    '_ZNSt10_Sp_lockerC1EPKv': 'vcs_sp_lock', '_ZNSt10_Sp_lockerC1EPKvS1_': 'vcs_sp_lock2', '_ZNSt10_Sp_lockerD1Ev': 'vcs_sp_unlock',
    '_ZNSt8__detail15_List_node_base7_M_hookEPS0_': 'vcs_list_hook', '_ZNSt8__detail15_List_node_base9_M_unhookEv': 'vcs_list_unhook',
    '_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_': 'vcs_list_transfer', '_ZNSt8__detail15_List_node_base10_M_reverseEv': 'vcs_list_reverse',
    '_ZNSt8__detail15_List_node_base4swapERS0_S1_': 'vcs_list_swap',
    '_ZSt25__throw_bad_function_callv': 'vcs_throw_bad_function_call', '_ZSt17__throw_bad_allocv': 'vcs_throw_bad_alloc',
    '_ZSt20__throw_future_errori': 'vcs_throw_future_error', '_ZSt20__throw_length_errorPKc': 'vcs_throw_length_error',
    '_ZSt20__throw_out_of_rangePKc': 'vcs_throw_out_of_range', '_ZSt19__throw_logic_errorPKc': 'vcs_throw_logic_error',
    '_ZSt24__throw_out_of_range_fmtPKcz': 'vcs_throw_out_of_range_fmt',
    '_ZSt20__throw_system_errori': 'vcs_throw_system_error',
}


class CompileError(Exception):
    pass


def library(d):
    """the translation units of the library, for kit.h to include"""
    root = os.path.join(REPO, 'portable_concurrency')
    cpp = sorted(os.path.join(b, f) for b, _, fs in os.walk(root) for f in fs if f.endswith(('.cpp', '.cc', '.cxx')))
    tmp = os.path.join(d, 'vc_library.h.%d' % os.getpid())
    with open(tmp, 'w') as f:
        f.write(''.join('#include "%s"\n' % c for c in cpp))
    os.rename(tmp, os.path.join(d, 'vc_library.h'))


def compile_ll(src, out, std='gnu++17', defs=(), extra=()):
    d = os.path.dirname(os.path.abspath(out))
    library(d)
    # -fsanitize=memory: destructors report the members whose lifetime they end; the instrumentation pass itself is not run
    cmd = ['clang++', '-std=' + std, '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-fno-access-control',
           '-Xclang', '-disable-llvm-passes', '-fsanitize=memory',
           '-Xclang', '-fsanitize-address-use-after-scope', '-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'contracts'), '-I' + d,
           '-o', out, src] + ['-D' + d for d in defs] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise CompileError(r.stderr[-6000:])
    if '20' in std:  # coroutines: the lowering passes clang runs at -O0
        r = subprocess.run(['opt', '-S', '-passes=coro-early,cgscc(coro-split),coro-cleanup', '-o', out, out], capture_output=True, text=True)
        if r.returncode != 0:
            raise CompileError(r.stderr[-6000:])
    text = open(out).read()
    text = redirect(text)
    open(out, 'w').write(text)
    return text


def redirect(text):
    defined = set(re.findall(r'^define [^\n]*?@(vcs_\w+)\(', text, re.M))
    ren = {k: v for k, v in RENAME.items() if v in defined}
    if not ren:
        return text
    # drop declarations of the redirected externals
    pat = re.compile(r'^declare [^\n]*@(%s)\([^\n]*\n' % '|'.join(re.escape(k) for k in ren), re.M)
    text = pat.sub('', text)
    pat = re.compile(r'@(%s)\b' % '|'.join(re.escape(k) for k in ren))
    return pat.sub(lambda m: '@' + ren[m.group(1)], text)


if __name__ == '__main__':
    compile_ll(sys.argv[1], sys.argv[2])
