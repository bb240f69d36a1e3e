#include "sd.hpp"

#include <algorithm>
#include <cerrno>
#include <unistd.h>

namespace sim {

uint64_t now = 1000000;
std::vector<sd_event_source *> sources;
std::string event_problem;
std::function<bool()> idle;
std::function<size_t(size_t)> choose;

static sd_event *default_event = nullptr;

static void
misuse(const std::string &text)
{
  if (event_problem.empty()) {
    event_problem = text;
  }
}

uint64_t
next_timer()
{
  uint64_t first = UINT64_MAX;
  for (sd_event_source *s : sources) {
    if (s->what == sd_event_source::time && s->enabled != SD_EVENT_OFF) {
      first = std::min(first, s->usec);
    }
  }
  return first;
}

void
raise(int signal)
{
  for (sd_event_source *s : sources) {
    if (s->what == sd_event_source::signal && s->sig == signal) {
      s->raised = true;
    }
  }
}

static sd_event_source *
add(sd_event *e, sd_event_source **out, sd_event_source::kind what, void *userdata)
{
  sd_event_source *s = new sd_event_source{ what, e };
  s->userdata = userdata;
  sources.push_back(s);
  if (out != nullptr) {
    *out = s;
  } else {
    s->floating = true;
  }
  return s;
}

static void
destroy(sd_event_source *s)
{
  if (s->epoll != -1) {
    close(s->epoll);
  }
  sources.erase(std::remove(sources.begin(), sources.end(), s), sources.end());
  delete s;
}

} // namespace sim

int
sd_event_new(sd_event **e)
{
  *e = new sd_event;
  return 0;
}

int
sd_event_default(sd_event **e)
{
  if (sim::default_event == nullptr) {
    sim::default_event = new sd_event;
  } else {
    sim::default_event->references++;
  }
  *e = sim::default_event;
  return 1;
}

sd_event *
sd_event_ref(sd_event *e)
{
  if (e != nullptr) {
    e->references++;
  }
  return e;
}

sd_event *
sd_event_unref(sd_event *e)
{
  if (e == nullptr || --e->references > 0) {
    return nullptr;
  }
  for (sd_event_source *s : std::vector<sd_event_source *>(sim::sources)) {
    if (s->event == e) {
      if (s->floating) {
        sim::destroy(s);
      } else {
        s->event = nullptr; // never dispatched again
      }
    }
  }
  if (sim::default_event == e) {
    sim::default_event = nullptr;
  }
  delete e;
  return nullptr;
}

int
sd_event_add_io(sd_event *e, sd_event_source **s, int fd, uint32_t events, sd_event_io_handler_t callback, void *userdata)
{
  if (fd < 0) {
    return -EBADF;
  }
  int epoll = epoll_create1(EPOLL_CLOEXEC);
  struct epoll_event ev = {};
  ev.events = events;
  if (epoll_ctl(epoll, EPOLL_CTL_ADD, fd, &ev) == -1) {
    int error = errno;
    close(epoll);
    return -error;
  }
  sd_event_source *x = sim::add(e, s, sd_event_source::io, userdata);
  x->fd = fd;
  x->epoll = epoll;
  x->io_handler = callback;
  return 0;
}

int
sd_event_add_time(sd_event *e, sd_event_source **s, clockid_t, uint64_t usec, uint64_t, sd_event_time_handler_t callback,
                  void *userdata)
{
  sd_event_source *x = sim::add(e, s, sd_event_source::time, userdata);
  x->usec = usec;
  x->enabled = SD_EVENT_ONESHOT;
  x->time_handler = callback;
  return 0;
}

int
sd_event_add_signal(sd_event *e, sd_event_source **s, int sig, sd_event_signal_handler_t callback, void *userdata)
{
  sigset_t blocked;
  sigprocmask(SIG_BLOCK, nullptr, &blocked);
  if (sigismember(&blocked, sig) != 1) {
    return -EBUSY;
  }
  sd_event_source *x = sim::add(e, s, sd_event_source::signal, userdata);
  x->sig = sig;
  x->signal_handler = callback;
  return 0;
}

int
sd_event_now(sd_event *, clockid_t, uint64_t *usec)
{
  *usec = sim::now;
  return 0;
}

int
sd_event_exit(sd_event *e, int code)
{
  e->exiting = true;
  e->code = code;
  return 0;
}

// One round. Returns 0 when there was nothing to do.
int
sd_event_run(sd_event *e, uint64_t)
{
  std::vector<sd_event_source *> ready;
  for (sd_event_source *s : sim::sources) {
    if (s->event != e || s->enabled == SD_EVENT_OFF) {
      continue;
    }
    switch (s->what) {
      case sd_event_source::io: {
        struct epoll_event ev = {};
        if (epoll_wait(s->epoll, &ev, 1, 0) == 1) {
          s->revents |= ev.events;
        }
        if (s->revents != 0) {
          ready.push_back(s);
        }
        break;
      }
      case sd_event_source::time:
        if (s->usec <= sim::now) {
          ready.push_back(s);
        }
        break;
      case sd_event_source::signal:
        if (s->raised) {
          ready.push_back(s);
        }
        break;
    }
  }
  if (ready.empty()) {
    return 0;
  }
  sd_event_source *s = ready[sim::choose ? sim::choose(ready.size()) % ready.size() : 0];
  if (s->enabled == SD_EVENT_ONESHOT) {
    s->enabled = SD_EVENT_OFF;
  }
  s->references++;
  int rv = 0;
  switch (s->what) {
    case sd_event_source::io: {
      uint32_t revents = s->revents;
      s->revents = 0;
      rv = s->io_handler(s, s->fd, revents, s->userdata);
      break;
    }
    case sd_event_source::time:
      rv = s->time_handler(s, s->usec, s->userdata);
      break;
    case sd_event_source::signal:
      s->raised = false;
      if (s->signal_handler != nullptr) {
        rv = s->signal_handler(s, nullptr, s->userdata);
      } else {
        sd_event_exit(e, static_cast<int>(reinterpret_cast<intptr_t>(s->userdata)));
      }
      break;
  }
  if (rv < 0) {
    s->enabled = SD_EVENT_OFF;
  }
  sd_event_source_unref(s);
  return 1;
}

int
sd_event_loop(sd_event *e)
{
  while (!e->exiting) {
    if (sd_event_run(e, UINT64_MAX) == 0 && !e->exiting) {
      if (!sim::idle || !sim::idle()) {
        return -EIO;
      }
    }
  }
  return e->code;
}

sd_event_source *
sd_event_source_ref(sd_event_source *s)
{
  if (s != nullptr) {
    s->references++;
  }
  return s;
}

sd_event_source *
sd_event_source_unref(sd_event_source *s)
{
  if (s != nullptr && --s->references == 0) {
    sim::destroy(s);
  }
  return nullptr;
}

sd_event_source *
sd_event_source_disable_unref(sd_event_source *s)
{
  if (s != nullptr) {
    s->enabled = SD_EVENT_OFF;
  }
  return sd_event_source_unref(s);
}

sd_event *
sd_event_source_get_event(sd_event_source *s)
{
  return s->event;
}

void *
sd_event_source_get_userdata(sd_event_source *s)
{
  return s->userdata;
}

void *
sd_event_source_set_userdata(sd_event_source *s, void *userdata)
{
  if (s == nullptr) {
    sim::misuse("a source that does not exist gets a new owner");
    return nullptr;
  }
  void *old = s->userdata;
  s->userdata = userdata;
  return old;
}

int
sd_event_source_get_enabled(sd_event_source *s, int *enabled)
{
  *enabled = s->enabled;
  return s->enabled != SD_EVENT_OFF;
}

int
sd_event_source_set_enabled(sd_event_source *s, int enabled)
{
  s->enabled = enabled;
  return 0;
}

int
sd_event_source_get_time(sd_event_source *s, uint64_t *usec)
{
  *usec = s->usec;
  return 0;
}

int
sd_event_source_set_time(sd_event_source *s, uint64_t usec)
{
  s->usec = usec;
  return 0;
}
