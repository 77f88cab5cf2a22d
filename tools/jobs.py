# Which scenarios, configurations and violation classes decide which property.
import json, os
_P = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')):
    if _l.strip(): _d = json.loads(_l); _P[_d['id']] = _d['title']

CONFIGS = {  # name -> (compiler, options)
    'linux':     ('g++', ['-O1']),
    'ndebug':    ('clang++', ['-O2', '-DNDEBUG']),
    'pthread':   ('g++', ['-O1', '-DBOOST_SYNC_USE_PTHREAD']),
    'emul':      ('g++', ['-O1', '-DBOOST_SYNC_USE_PTHREAD', '-DSIM_EMUL', '-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG']),
    'noinit':    ('g++', ['-O1', '-DSIM_NOSTATICINIT']),
    'noinit-emul': ('g++', ['-O1', '-DBOOST_SYNC_USE_PTHREAD', '-DSIM_EMUL', '-DSIM_NOSTATICINIT']),
    'tls':       ('g++', ['-O1', '-DBOOST_SYNC_USE_COMPILER_TLS']),
    'ttas':      ('g++', ['-O1', '-DATOMIC_BOOL_LOCKFREE=2', '-DBOOST_ATOMIC_BOOL_LOCKFREE=2']),   # the test-test-and-set spin_mutex, compiled only where these macros exist
    'eintr':     ('g++', ['-O1', '-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG']),   # pthread calls may return EINTR, native timed lock
    'ptns':      ('g++', ['-O1', '-DBOOST_DATE_TIME_POSIX_TIME_STD_CONFIG']),   # posix_time with nanosecond ticks
    'cxx03':     ('g++', ['-O1', '-DBOOST_NO_CXX11_RVALUE_REFERENCES', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES', '-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX', '-DBOOST_NO_CXX11_INLINE_NAMESPACES']),   # emulated move semantics and the other code paths for old compilers
    'cxx03-emul': ('g++', ['-O1', '-DBOOST_NO_CXX11_RVALUE_REFERENCES', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES', '-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX', '-DBOOST_NO_CXX11_INLINE_NAMESPACES', '-DBOOST_SYNC_USE_PTHREAD', '-DSIM_EMUL']),
    'stdsyserr': ('g++', ['-O1', '-DBOOST_SYNC_USE_STD_SYSTEM_ERROR']),
}
_TSS = ['src/tss_pthread.cpp']
SOURCES = {'s_locks': [], 's_sem': [], 's_cv': [], 's_time': [], 's_pub': [], 's_tss': _TSS, 's_wrap': [], 's_fail': _TSS, 's_destroy': [], 's_crowd': _TSS}

TIMEOUT = ['timeout-early', 'timeout-late', 'timed-op-stuck']
PROGRESS = ['deadlock', 'stuck', 'no-progress', 'residue', 'timed-op-stuck', 'lost-notify']
SAFETY_MUTEX = ['exclusion', 'data-race', 'torn-data', 'lost-update']

PROPS = {}
def prop(id, jobs, **kw):
    PROPS[id] = dict(title=_P[id], jobs=jobs, **kw)
def J(src, scns, cfgs, **kw):
    return [dict(src=src, scn=s, cfg=c, **kw) for s in scns.split() for c in cfgs.split()]

ALLC = 'linux ndebug pthread emul'
_P1 = [c for c in PROGRESS if c != 'residue']
prop('C01', J('s_locks', 'mutex spin_mutex shared_spin_mutex', 'linux ndebug', exclude=_P1 + TIMEOUT)
          + J('s_locks', 'timed_mutex', 'linux ndebug emul', exclude=_P1 + TIMEOUT) + J('s_locks', 'mutex timed_mutex', 'cxx03', exclude=_P1 + TIMEOUT, weight=.4) + J('s_locks', 'timed_mutex', 'cxx03-emul', exclude=_P1 + TIMEOUT, weight=.4) + J('s_locks', 'spin_mutex', 'ttas', exclude=_P1 + TIMEOUT, weight=.5)
          + J('s_time', 'time_timed_mutex', 'linux emul', exclude=_P1 + TIMEOUT, weight=.5)
          + J('s_cv', 'cv cv_any', 'linux', only=SAFETY_MUTEX + ['cv-lock', 'history-mutex', 'unlock-not-owner']))
prop('C02', J('s_locks', 'shared_spin_mutex', 'linux ndebug', exclude=['no-progress', 'stuck']))
prop('C03', J('s_locks', 'mutex spin_mutex shared_spin_mutex', 'linux ndebug', exclude=['exclusion', 'data-race', 'torn-data', 'lost-update'])
          + J('s_locks', 'timed_mutex', 'linux ndebug emul', exclude=['exclusion', 'data-race', 'torn-data', 'lost-update', 'timeout-early', 'timeout-late'])
          + J('s_time', 'time_timed_mutex', 'linux emul', exclude=['exclusion', 'data-race', 'torn-data', 'lost-update', 'timeout-early', 'timeout-late'], weight=.5) + J('s_locks', 'spin_mutex', 'ttas', exclude=['exclusion', 'data-race', 'torn-data', 'lost-update'], weight=.5))
prop('C04', J('s_sem', 'semaphore', 'linux ndebug emul', exclude=['timeout-early', 'timeout-late']) + J('s_time', 'time_semaphore', 'linux emul', exclude=['timeout-early', 'timeout-late'], weight=.4))
prop('C05', J('s_sem', 'auto_reset_event', ALLC, exclude=['timeout-early', 'timeout-late']) + J('s_time', 'time_auto_reset_event', 'linux pthread', exclude=['timeout-early', 'timeout-late'], weight=.4))
prop('C06', J('s_sem', 'manual_reset_event', ALLC, exclude=['timeout-early', 'timeout-late']) + J('s_time', 'time_manual_reset_event', 'linux pthread', exclude=['timeout-early', 'timeout-late'], weight=.4))
_TCV = ['timeout-early', 'lost-notify', 'cv-lock', 'pred-result', 'data-race', 'uncaught-exception', 'assert', 'crash', 'deadlock']
_FCV = ['timeout-early', 'lost-notify', 'cv-lock', 'deadlock', 'stuck', 'residue', 'unlock-not-owner', 'wait-not-owner', 'exclusion']
prop('C07', J('s_cv', 'cv cv_pred', 'linux ndebug emul', exclude=['timeout-late']) + J('s_fail', 'fail_cv', 'linux emul', only=_FCV, weight=.5) + J('s_time', 'time_cv', 'linux emul', only=_TCV, weight=.5) + J('s_cv', 'cv', 'cxx03', exclude=['timeout-late'], weight=.3))
prop('C08', J('s_cv', 'cv_any cv_any_pred cv_any_throw cv_any_pred_throw', 'linux ndebug emul', exclude=['timeout-late']) + J('s_fail', 'fail_cv_any', 'linux emul', only=_FCV, weight=.5) + J('s_time', 'time_cv_any', 'linux emul', only=_TCV, weight=.5))
prop('C09', J('s_cv', 'cv_pred cv_any_pred cv_any_pred_throw', 'linux ndebug emul') + J('s_time', 'time_cv time_cv_any', 'linux', only=_TCV + TIMEOUT, weight=.5))
prop('C10', J('s_time', 'time_semaphore time_auto_reset_event time_manual_reset_event time_timed_mutex time_cv time_cv_any', 'linux ndebug pthread emul', only=TIMEOUT + ['history-semaphore', 'history-mutex', 'history-auto_reset_event', 'history-manual_reset_event', 'history-condvar', 'uncaught-exception', 'assert', 'abort', 'crash', 'terminate', 'deadlock', 'stuck', 'no-progress'])
          + J('s_time', 'time_semaphore time_timed_mutex time_cv', 'ptns', only=TIMEOUT, weight=.3)
          + J('s_locks', 'timed_mutex', 'linux emul', only=TIMEOUT, weight=.5) + J('s_sem', 'semaphore auto_reset_event manual_reset_event', 'linux emul', only=TIMEOUT, weight=.5)
          + J('s_cv', 'cv cv_pred cv_any cv_any_pred', 'linux', only=TIMEOUT, weight=.5), quick_s=50)
prop('C11', J('s_sem', 'semaphore auto_reset_event manual_reset_event', ALLC, interruption=1)
          + J('s_locks', 'timed_mutex spin_mutex shared_spin_mutex mutex', 'linux emul', interruption=1)
          + J('s_time', 'time_semaphore time_auto_reset_event time_manual_reset_event time_timed_mutex', 'linux emul', interruption=1)
          + J('s_locks', 'mutex timed_mutex', 'eintr', interruption=1, weight=.7)
          + J('s_cv', 'cv cv_pred cv_any cv_any_pred', 'linux emul', interruption=1, weight=.5), quick_s=50)
prop('C12', J('s_sem', 'semaphore auto_reset_event manual_reset_event', ALLC, exclude=['timeout-early', 'timeout-late', 'data-race'])
          + J('s_locks', 'timed_mutex', 'linux emul', exclude=['timeout-early', 'timeout-late', 'data-race']) + J('s_locks', 'spin_mutex shared_spin_mutex mutex', 'linux', exclude=['timeout-early', 'timeout-late', 'data-race'])
          + J('s_time', 'time_semaphore time_auto_reset_event time_manual_reset_event time_timed_mutex', 'linux emul', exclude=['timeout-early', 'timeout-late', 'data-race'], weight=.4))
prop('C13', J('s_pub', 'pub_semaphore pub_auto_reset_event pub_manual_reset_event', ALLC)
          + J('s_locks', 'mutex timed_mutex spin_mutex shared_spin_mutex', 'linux ndebug', only=['data-race', 'torn-data', 'lost-update', 'publication']) + J('s_locks', 'timed_mutex', 'emul', only=['data-race', 'torn-data', 'lost-update', 'publication']) + J('s_locks', 'spin_mutex', 'ttas', only=['data-race', 'torn-data', 'lost-update', 'publication'], weight=.5))
prop('C14', J('s_tss', 'tss_ptr', 'linux ndebug tls') + J('s_tss', 'tss_keys', 'linux tls', weight=.5))
prop('C15', J('s_tss', 'at_exit', 'linux ndebug tls'))
prop('C16', J('s_tss', 'notify_exit', 'linux ndebug tls') + J('s_tss', 'notify_exit', 'cxx03', weight=.4))
prop('C17', J('s_tss', 'tss_keys', 'linux ndebug tls', weight=2) + J('s_tss', 'tss_ptr at_exit notify_exit', 'linux tls') + J('s_fail', 'fail_churn', 'linux', weight=.4, only=['leak', 'crash', 'use-after-free', 'double-free']))
prop('C18', J('s_wrap', 'wrappers', 'linux ndebug stdsyserr cxx03'))
_FAILS = 'fail_mutex fail_timed_mutex fail_cv fail_cv_any fail_semaphore fail_auto_reset_event fail_manual_reset_event fail_limits'
prop('C19', J('s_fail', _FAILS, 'linux ndebug emul') + J('s_fail', 'fail_mutex fail_cv fail_cv_any fail_semaphore', 'stdsyserr', weight=.5) + J('s_fail', 'fail_mutex fail_timed_mutex fail_cv fail_semaphore', 'cxx03', weight=.3) + J('s_fail', 'fail_tss', 'cxx03', weight=.5)
          + J('s_fail', 'fail_construct', 'linux noinit noinit-emul') + J('s_fail', 'fail_tss', 'linux ndebug tls', weight=2) + J('s_fail', 'fail_churn', 'linux tls', weight=.6))
prop('C20', J('s_destroy', 'destroy_mutex destroy_timed_mutex destroy_spin_mutex destroy_shared_spin_mutex destroy_cv destroy_cv_any', 'linux ndebug emul', weight=.7) + J('s_destroy', 'destroy_spin_mutex', 'ttas', weight=.3)
          + J('s_destroy', 'destroy_semaphore destroy_auto_reset_event destroy_manual_reset_event destroy_multi_semaphore destroy_multi_auto_reset_event destroy_multi_manual_reset_event', ALLC))

# crowds: many threads, keys and callbacks
def crowd(id, scns, cfgs, w, **kw): PROPS[id]['jobs'] += J('s_crowd', scns, cfgs, weight=w, **kw)
crowd('C01', 'crowd_mutex crowd_timed_mutex crowd_spin_mutex crowd_shared_spin_mutex', 'linux', .15, exclude=_P1 + TIMEOUT); crowd('C01', 'crowd_timed_mutex', 'emul', .15, exclude=_P1 + TIMEOUT)
crowd('C02', 'crowd_readers crowd_shared_spin_mutex', 'linux', .2)
crowd('C03', 'crowd_mutex crowd_timed_mutex crowd_spin_mutex crowd_shared_spin_mutex crowd_readers', 'linux', .15, exclude=['exclusion']); crowd('C03', 'crowd_timed_mutex', 'emul', .15, exclude=['exclusion'])
crowd('C04', 'crowd_semaphore', 'linux emul', .4); crowd('C05', 'crowd_auto_reset_event', 'linux pthread', .6); crowd('C06', 'crowd_manual_reset_event', 'linux pthread', .6)
crowd('C07', 'crowd_cv', 'linux', .3); crowd('C08', 'crowd_cv_any', 'linux emul', .3)
crowd('C12', 'crowd_semaphore crowd_auto_reset_event crowd_manual_reset_event crowd_timed_mutex', 'linux emul', .2)
crowd('C14', 'crowd_tss', 'linux tls', .4, exclude=['at-exit']); crowd('C15', 'crowd_tss', 'linux tls', .3, only=['at-exit', 'crash', 'stuck', 'no-progress']); crowd('C16', 'crowd_notify_exit', 'linux tls', .4); crowd('C17', 'crowd_tss', 'linux tls', .4)

COMPONENTS = dict(
    real=['every header of include/boost/sync used by the scenario (compiled from /repo with memory-access instrumentation)', 'src/tss_pthread.cpp and src/tss_manager.hpp (thread-specific scenarios)', 'Boost.Atomic front end, Boost.Chrono/DateTime value types, std::chrono value types', 'C++ exception handling'],
    stub=['pthread mutexes, condition variables, keys, once (simulated, POSIX semantics)', 'POSIX semaphores (simulated)', 'futex system call (simulated)', 'clocks and all blocking with timeouts (virtual time)', 'operator new/delete (checked arena)', 'threads (fibers under the seeded scheduler)', 'hardware memory order (simulated store histories)'])
FAULTDOC = dict(eintr='blocking call interrupted by a signal', spurious_wakeup='spurious futex or condition variable wakeup', weak_cas_failure='weak compare-exchange fails spuriously', stale_load='atomic load observes an older store the C++ memory model allows', stall='running thread stalls while time passes', deadline_expiry='time jumps to the next pending deadline while other threads are runnable', realtime_clock_jump='system clock stepped forward or backward', alloc_failure='operator new throws bad_alloc', mutex_syscall_error='pthread mutex call fails', cond_syscall_error='pthread condition wait fails', sem_syscall_error='semaphore initialisation, wait or post fails', setspecific_enomem='pthread_setspecific fails', init_error='pthread mutex or condition initialisation fails', wake_order='a waiter other than the oldest is woken', preemption='thread preempted', user_code_throw='user-supplied lock, predicate or callback throws')
