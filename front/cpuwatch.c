/* interrupts a solver after a given amount of processor time of this process */
#define _GNU_SOURCE
#include <pthread.h>
#include <time.h>
#include <unistd.h>

typedef void (*interrupt_fn)(void *, void *);

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t wake = PTHREAD_COND_INITIALIZER;
static pid_t owner;
static int active, fired;
static double end;
static interrupt_fn fn;
static void *ctx, *solver;

static double cpu(void)
{
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void *watch(void *unused)
{
  (void)unused;
  for (;;) {
    pthread_mutex_lock(&lock);
    while (!active || fired)
      pthread_cond_wait(&wake, &lock);
    double left = end - cpu();
    if (left <= 0) {
      fired = 1;
      fn(ctx, solver);
    }
    pthread_mutex_unlock(&lock);
    if (left > 0)
      usleep(left > 0.05 ? 20000 : 4000);
  }
  return 0;
}

/* all further runs of the watched process share one watching thread; a forked child starts its own */
int cpuwatch_start(double ms, interrupt_fn f, void *c, void *s)
{
  if (owner != getpid()) {
    pthread_t t;
    pthread_mutex_init(&lock, 0);
    pthread_cond_init(&wake, 0);
    owner = getpid();
    active = 0;
    if (pthread_create(&t, 0, watch, 0))
      return -1;
    pthread_detach(t);
  }
  pthread_mutex_lock(&lock);
  end = cpu() + ms / 1000;
  fn = f;
  ctx = c;
  solver = s;
  fired = 0;
  active = 1;
  pthread_cond_signal(&wake);
  pthread_mutex_unlock(&lock);
  return 0;
}

int cpuwatch_stop(void)
{
  pthread_mutex_lock(&lock);
  active = 0;
  int r = fired;
  pthread_mutex_unlock(&lock);
  return r;
}
