// Seams at the operating-system boundary, defined in the executable so that they override libc.
#include <cstdint>
#include <ctime>
#include <cerrno>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

// ------------------------------------------------------------ simulated clock
static int64_t g_now_ns = 1600000000LL * 1000000000LL;
static int64_t g_step_ns = 1700; // every reading advances time a little
static int64_t g_mono_ns = 1000LL * 1000000000LL;
extern "C" {
static void tick(int64_t d) { g_now_ns += d, g_mono_ns += d; }
int gettimeofday(struct timeval *tv, void *) noexcept {
  tick(g_step_ns);
  if (tv)
    tv->tv_sec = g_now_ns / 1000000000LL, tv->tv_usec = (g_now_ns % 1000000000LL) / 1000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  tick(g_step_ns);
  int64_t v = c == CLOCK_REALTIME ? g_now_ns : g_mono_ns;
  if (ts)
    ts->tv_sec = v / 1000000000LL, ts->tv_nsec = v % 1000000000LL;
  return 0;
}
time_t time(time_t *t) noexcept {
  tick(g_step_ns);
  time_t v = g_now_ns / 1000000000LL;
  if (t)
    *t = v;
  return v;
}
int nanosleep(const struct timespec *r, struct timespec *) {
  tick(r->tv_sec * 1000000000LL + r->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) {
  tick(r->tv_sec * 1000000000LL + r->tv_nsec);
  return 0;
}
int usleep(useconds_t u) {
  tick((int64_t)u * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  tick((int64_t)s * 1000000000LL);
  return 0;
}
}
void sim_clock_jump(double s) { g_now_ns += (int64_t)(s * 1e9); }
void sim_clock_set_step(int64_t ns) { g_step_ns = ns; }
double sim_clock_now() { return g_now_ns * 1e-9; }
