// Scheduling of the drivers that run the real controller manager: a service call that waits lets the
// control loop run instead, one cycle (tick) at a time, on a thread of its own.
#pragma once
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <condition_variable>
#include <functional>
#include <iostream>
#include <thread>

static thread_local bool in_service = false;  // this thread is inside a service call
static thread_local bool is_rt = false;
static bool stall = false;                    // the control loop does not run
static bool mid = false;                      // let the loop run inside callbacks of a service
static bool quiet = false;                    // cycles run by the driver while an operation waits
static int ticks = 0;
static const char * phase = "s";
static void tick();
extern "C" {
int nanosleep(const struct timespec * a, struct timespec * b)
{
  static auto real = reinterpret_cast<int (*)(const timespec *, timespec *)>(dlsym(RTLD_NEXT, "nanosleep"));
  if (in_service && !stall) { tick(); return 0; }
  return real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b)
{
  static auto real = reinterpret_cast<int (*)(clockid_t, int, const timespec *, timespec *)>(dlsym(RTLD_NEXT, "clock_nanosleep"));
  if (in_service && !stall) { tick(); return 0; }
  return real(c, f, a, b);
}
int sched_yield(void) noexcept
{
  static auto real = reinterpret_cast<int (*)()>(dlsym(RTLD_NEXT, "sched_yield"));
  if (in_service && !stall) { tick(); return 0; }
  return real();
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  static auto real = reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>(dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
  if (in_service && !stall)
  {
    pthread_mutex_unlock(m);
    tick();
    pthread_mutex_lock(m);
    return 0;
  }
  return real(c, m, k, t);
}
}

// the thread of the control loop
struct Loop
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false;
  std::thread th;
  Loop()
  {
    th = std::thread(
      [this]
      {
        is_rt = true;
        std::unique_lock<std::mutex> l(m);
        for (;;)
        {
          cv.wait(l, [this] { return busy; });
          auto j = job;
          l.unlock();
          j();
          l.lock();
          busy = false;
          cv.notify_all();
        }
      });
    th.detach();
  }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> l(m);
    job = std::move(f);
    busy = true;
    cv.notify_all();
    const bool was = in_service;
    in_service = false;
    for (int i = 0; busy; ++i)
    {
      if (cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::seconds(1)) == std::cv_status::timeout && i >= 4)
      {
        std::cerr << "the control loop is blocked by a request that waits for it\n";
        _exit(97);
      }
    }
    in_service = was;
  }
};
static Loop & loop() { static auto * l = new Loop; return *l; }
