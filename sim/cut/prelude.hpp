// Force-included before every translation unit of the code under test.
// Boost.Atomic implements its extra operations (opaque_*, add, ...) with inline assembly on x86; select the portable
// backend, which is expressed with compiler builtins the simulator can see. Semantics are the same.
#include <boost/atomic/detail/platform.hpp>
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND_HEADER
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#ifdef SIM_EMUL      // platform without POSIX semaphores and timed mutexes
#undef _POSIX_SEMAPHORES
#undef _POSIX_TIMEOUTS
#endif
#ifdef SIM_NOSTATICINIT  // platform without static initialisers
#include <iostream>
#include <mutex>
#include <condition_variable>
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
