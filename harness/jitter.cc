// delays after a mutex is released, so that other threads run in between
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  static const char* const e = getenv("JITTER");
  int r = __real_pthread_mutex_unlock(m);
  if (e) {
    static thread_local unsigned s = atoi(e) + 7919u * (unsigned)pthread_self();
    s = s * 1103515245u + 12345u;
    unsigned k = (s >> 16) % 8;
    if (k < 2) usleep((s >> 20) % 1500);
    else if (k < 4) usleep(0);
  }
  return r;
}
