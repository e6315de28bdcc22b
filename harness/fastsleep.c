/* The R glue waits in whole seconds for its searches; here a second lasts a millisecond. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static struct timespec quick(const struct timespec *t) {
  long long ns = ((long long)t->tv_sec * 1000000000LL + t->tv_nsec) / 1000;
  struct timespec r = {ns / 1000000000LL, ns % 1000000000LL};
  return r;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  struct timespec q = quick(t);
  return syscall(SYS_clock_nanosleep, CLOCK_REALTIME, 0, &q, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  if (flags) return syscall(SYS_clock_nanosleep, c, flags, t, rem);
  struct timespec q = quick(t);
  return syscall(SYS_clock_nanosleep, c, 0, &q, rem);
}
