"""What is compiled and linked for each property."""
import os

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign'))]
SEQ = {
    'C01': ['w_vec_tracked', 'w_vec_int', 'w_vec_pod', 'w_vec_str', 'w_vec_byte', 'w_vec_big'],
    'C02': ['w_vec_tracked', 'w_vec_str', 'w_vec_big'],
    'C03': ['w_vec_tracked', 'w_vec_int', 'w_vec_byte', 'w_vec_big', 'w_str'],
    'C04': ['w_str'],
    'C05': ['w_str'],
    'C07': ['w_opt_soft', 'w_opt_str'],
    'C08': ['w_var', 'w_var_one', 'w_var_many'],
    'C09': ['w_arr', 'w_tup'],
    'C10': ['w_io'], 'C11': ['w_io'],
    'C16': ['w_call', 'w_call_move'], 'C17': ['w_vis'], 'C18': ['w_view', 'w_view_bits'],
    'C19': ['w_vec_tracked', 'w_vec_int', 'w_vec_pod', 'w_vec_str', 'w_str', 'w_opt_soft', 'w_opt_str', 'w_var', 'w_var_one'],
    'C20': ['w_hand_dyn', 'w_hand_fix'],
    'C21': ['w_work'],
    'C22': ['w_odd_vec', 'w_odd_opt', 'w_odd_var', 'w_odd_fix', 'w_odd_any', 'w_odd_view'],
    'C23': ['w_give_obj', 'w_give_str'],
    'C24': ['w_src'],
    'C30': ['w_cmp_a', 'w_cmp_b', 'w_cmp_c', 'w_cmp_d', 'w_cmp_e'],
    'C33': ['w_iter'],
    'C31': ['w_bits_a', 'w_bits_b', 'w_bits_c', 'w_bits_d', 'w_bits_e', 'w_bits_z'],
    'C06': ['w_vec_tracked', 'w_vec_int', 'w_vec_byte', 'w_vec_big', 'w_vec_str', 'w_str'],
}
ASSUME = ['sampled, not exhaustive: only the generated histories and fault placements were explored',
          'single process with the installed compiler and standard library; element moves, swaps and destructors do not throw (the library requires this)']

def target(prop, sim, inc):
    if prop in SEQ: return seq(prop, SEQ[prop], sim, inc)
    if prop in MOD: return mod(prop, sim, inc)
    if prop in THR: return thr(prop, sim, inc)
    raise SystemExit('unknown property ' + prop)

def seq(prop, worlds, sim, inc):
    cmd = ['g++', '-std=c++17', '-O1', '-g0', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-w', '-I', sim, '-include', os.path.join(sim, 'std.hpp'), '-I', inc]
    srcs = ['core', 'modes', 'seam_asan'] + worlds
    return {
        'name': prop, 'optional': [os.path.join(sim, w + '.cpp') for w in worlds],
        'links': [{'out': 'sim', 'cmd': ['g++', '-fsanitize=address'] + WRAP, 'objects': [(cmd, os.path.join(sim, s + '.cpp')) for s in srcs]}],
        'real': ['all ptl headers used by the worlds, compiled unmodified from /repo/inc with AddressSanitizer', 'libstdc++ algorithms the library calls'],
        'stub': ['memory allocation (malloc family and operator new/delete are intercepted, ledgered and can refuse)', 'element types, source iterators, stream buffers and callables (instrumented, can throw)'],
        'assumptions': ASSUME,
    }

MOD = ['C12', 'C13']
def mod(prop, sim, inc):
    host = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-I', sim, '-include', os.path.join(sim, 'std.hpp')]
    srcs = ['core', 'modes', 'seam_mod', 'w_mod']
    links = [{'out': 'sim', 'cmd': ['g++'], 'objects': [(host, os.path.join(sim, s + '.cpp')) for s in srcs], 'tail': ['-ldl']}]
    common = ['-std=c++17', '-fPIC', '-g0', '-w', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-I', sim, '-include', os.path.join(sim, 'std.hpp')]
    for name, cc, where in (('gcc', ['g++', '-O2'], inc), ('clang', ['clang++', '-O1'], inc), ('debug', ['g++', '-O0', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'], inc), ('pinned', ['g++', '-O2'], os.path.join(sim, 'frozen'))):
        links.append({'out': 'mod_%s.so' % name, 'cmd': [cc[0], '-shared', '-Wl,-Bsymbolic', '-Wl,--version-script=' + os.path.join(sim, 'mod.map')] + WRAP, 'objects': [(cc + common + ['-I', where], os.path.join(sim, 'mod.cpp'))]})
    return {
        'name': prop, 'links': links,
        'real': ['all ptl headers, compiled unmodified into three separate shared objects (g++ -O2, clang++ -O1, g++ -O0 with assertions) from /repo/inc and into a fourth from the pinned release in sim/frozen', 'the dynamic linker'],
        'stub': ['one heap per module (malloc family and operator new/delete of every module are redirected to its own ledgered heap, which can refuse)'],
        'assumptions': ['sampled, not exhaustive', 'only the installed compilers, one platform; the pinned release is the tree of this verification after its fix: commits'],
    }

THR = ['C14', 'C15']
THR_WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('memcmp', 'bcmp', 'memchr', 'strlen', 'strcmp', 'strncmp', '_ZSt11_Hash_bytesPKvmm', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_once', 'sched_yield', 'nanosleep', 'clock_nanosleep', 'usleep'))]
def thr(prop, sim, inc):
    host = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-I', sim, '-include', os.path.join(sim, 'std.hpp')]
    task = ['clang++', '-std=c++17', '-O1', '-g0', '-w', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-fsanitize=thread', '-I', sim, '-include', os.path.join(sim, 'std.hpp'), '-I', inc]
    glue = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-fPIC', '-I', sim, '-include', os.path.join(sim, 'std.hpp')]
    return {
        'name': prop,
        'links': [{'out': 'sim', 'cmd': ['g++', '-rdynamic'], 'objects': [(host, os.path.join(sim, s + '.cpp')) for s in ('core', 'modes', 'seam_thr', 'w_thr')], 'tail': ['-ldl', '-lpthread']},
                  {'out': 'tasks.so', 'cmd': ['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,now', '-Wl,--version-script=' + os.path.join(sim, 'mod.map')] + WRAP + THR_WRAP, 'objects': [(task, os.path.join(sim, 'mod.cpp')), (glue, os.path.join(sim, 'thr_glue.cpp'))]}],
        'real': ['all ptl headers, compiled unmodified from /repo/inc by clang++ with memory-access instrumentation', 'one real pthread per task (thread-local storage, stacks, exception handling)'],
        'stub': ['the thread scheduler (one thread runs at a time; every switch is taken from the plan at a memory access, allocation, atomic operation or lock)', 'the data-race detector (own happens-before implementation of the instrumentation callbacks)', 'memory allocation (can refuse)', 'locks, local-static guards, yield and sleep (simulated)'],
        'assumptions': ['sampled schedules with at most 16 preemptions, two or three threads', 'sequentially consistent memory: reorderings of correctly synchronised relaxed atomics are not explored (the library uses no atomics)', 'bytes accessed inside uninstrumented libstdc++ functions other than the wrapped ones are not seen'],
    }

KIND = {p: 'seq' for p in SEQ}
KIND.update({p: 'mod' for p in MOD})
KIND.update({p: 'thr' for p in THR})
