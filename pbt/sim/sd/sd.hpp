// The simulated event loop.
#pragma once

#include <systemd/sd-event.h>

#include <functional>
#include <string>
#include <vector>

namespace sim {

extern uint64_t now;                         // microseconds, of the monotonic clock
extern std::vector<sd_event_source *> sources; // all that live
extern std::string event_problem;            // a misuse of the interface

// Called by a loop that has nothing to do. Returns false to stop it: it then
// exits with -1 (a loop without events would block forever).
extern std::function<bool()> idle;
// Called before every dispatch with the number of sources that are ready.
extern std::function<size_t(size_t)> choose;

uint64_t next_timer(); // the earliest enabled one, or UINT64_MAX
void raise(int signal);

} // namespace sim

struct sd_event {
  int references = 1;
  bool exiting = false;
  int code = 0;
};

struct sd_event_source {
  enum kind { io, time, signal } what;
  sd_event *event;
  int references = 1;
  bool floating = false;
  int enabled = SD_EVENT_ON;
  int fd = -1;
  int epoll = -1;
  uint64_t usec = UINT64_MAX;
  int sig = 0;
  bool raised = false;
  uint32_t revents = 0; // what is pending
  sd_event_io_handler_t io_handler = nullptr;
  sd_event_time_handler_t time_handler = nullptr;
  sd_event_signal_handler_t signal_handler = nullptr;
  void *userdata = nullptr;
};
