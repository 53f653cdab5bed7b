// World E: the event loops (GLib and libev back ends), driven by a random program of sources over simulated
// descriptors and virtual time, judged against what the caller registered.
#include "world.h"
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "repo.h"
extern "C" {
#include <milter/core/milter-glib-event-loop.h>
#include <milter/core/milter-libev-event-loop.h>
#include <ev.h>
}
using namespace sim;
namespace world {
namespace {
enum Kind { TIMER, IDLE, IO };
static const char *kname[] = {"timer", "idle", "io"};
struct Link;
struct Src {
  Kind kind; int n; guint id = 0; bool active = false, notified = false, running = false, keep = false;
  T interval = 0, lo = 0, hi = 0; long fired = 0; int late = 0;   // timers
  Link *link = nullptr; int want = 0; bool held = false, seen = false; int missed = 0;  // io
  T ended = -1;
};
struct Link { int fd = -1; GIOChannel *ch = nullptr; int n; };
struct EPeer : Peer {
  Conn *c = nullptr; int left = 0; string k;
  void on_open(Conn *cc) override { c = cc; left = 1 + choose(k, 12); next(); }
  void on_data(Conn *, const string &) override {}
  void on_close(Conn *, bool) override { c = nullptr; }
  void next() {
    static const T scale[] = {MS / 10, MS, 20 * MS, 700 * MS, 5 * SEC};
    after((T)choose(k, 1000) * scale[choose(k, 5)] / 200, [this] { act(); });
  }
  void act() {
    if (!c || !c->open()) return;
    if (left-- <= 0) { uint32_t e = choose(k, 4); if (e == 0) c->close(), count("event.peer_close"); else if (e == 1) c->reset(), count("event.peer_reset"); else if (e == 2) { left = 3; next(); } return; }
    switch (choose(k, 6)) {
    case 4: c->stall(true), count("event.peer_stall"); break;
    case 5: c->stall(false); break;
    default: c->send(string(1 + choose(k, 300), 'x'));
    }
    next();
  }
};
struct ESvc : Service { Peer *accept(Conn *) override { EPeer *p = new EPeer; static int n = 0; p->k = "peer" + std::to_string(n++); return p; } };

static MilterEventLoop *loop; static bool libev, own_context;
static std::vector<Src *> all; static std::vector<Link *> links;
static bool in_run, quitting, nonblock_iter; static int ops_left, calls, limit, depth, iters_calls; static T last_wake, due_by; static long waits;
static int iter_kinds; // kinds of callbacks since the last wake-up
static uint64_t hist;

static void bad(const char *what, const Src *s, const char *fmt, ...) {
  char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (s) violate(string("event.") + what, "%s loop: %s %d (id %u): %s", libev ? "libev" : "GLib", kname[s->kind], s->n, s->id, b);
  else violate(string("event.") + what, "%s loop: %s", libev ? "libev" : "GLib", b);
}
static int may_hold(int rev, int want) { // conditions that can be reported for what poll says
  int r = 0;
  if (rev & (POLLIN | POLLERR | POLLHUP)) r |= G_IO_IN;
  if (rev & (POLLOUT | POLLERR | POLLHUP)) r |= G_IO_OUT;
  if (rev & POLLERR) r |= G_IO_ERR;
  if (rev & POLLHUP) r |= G_IO_HUP;
  return r & want;
}
static int must_hold(int rev, int want) { int r = 0; if (rev & POLLIN) r |= G_IO_IN; if (rev & POLLOUT) r |= G_IO_OUT; return r & want; }
static void op();
static void finish_src(Src *s) { s->active = false; s->ended = waits; }
static void notify(gpointer d) {
  Src *s = (Src *)d;
  if (s->notified) bad("notify", s, "its destroy function is called twice");
  s->notified = true; trace("  notify %s %d", kname[s->kind], s->n);
  if (s->active) { bad("notify", s, "destroyed while it is active"); finish_src(s); }
}
static bool enter(Src *s) {
  calls++; iters_calls++; s->fired++;
  int act = 0; for (Src *o : all) act += o->active;
  hist = (hist << 8 | (uint64_t)(s->kind | (s->fired > 1) << 2 | (s->active && s->missed > 0) << 3 | (act > 4) << 4 | (act > 12) << 5)) & 0xffffffffffull; cover(hist << 1 | libev); // the last five callbacks
  trace(" call %s %d (id %u)", kname[s->kind], s->n, s->id);
  if (!s->active) bad("removed", s, "called after it was removed");
  if (s->notified) bad("removed", s, "called after its destroy function");
  if (depth) bad("nested", s, "called from inside another callback");
  if (quitting && !in_run) bad("quit", s, "called outside of a run");
  int bit = 1 << s->kind;
  if (s->kind == IDLE) {
    if (iter_kinds & ~bit) bad("idle", s, "idle callback called together with callbacks of ready sources");
    if (!knobs.subset && !knobs.eintr) for (Src *o : all) if (o->active && o->kind == IO && o->seen && o->held && o->missed == 0)
      bad("idle", s, "idle callback called although io %d was ready", o->n);
    for (Src *o : all) if (o->active && o->kind == TIMER && !knobs.eintr && o->hi + 3 * MS < due_by && o->late >= 0) bad("idle", s, "idle callback called although timer %d had expired", o->n);
  } else if (iter_kinds & (1 << IDLE)) bad("idle", s, "called together with idle callbacks");
  iter_kinds |= bit;
  depth++; s->running = true;
  return true;
}
static gboolean leave(Src *s, bool again) {
  depth--; s->running = false;
  if (!s->active) again = choose("E.ret", 2); // removed itself: what it returns must not matter
  else if (!again) finish_src(s);
  return again;
}
static void ops(int max) { int n = choose("E.nops", max + 1); while (n-- > 0) op(); }
static void maybe_quit() {
  if (in_run && !quitting && (calls >= limit || chance("E.quit", 1, 150))) { quitting = true; trace("  quit"); count("event.quit"); milter_event_loop_quit(loop); }
}
static gboolean on_timer(gpointer d) {
  Src *s = (Src *)d; enter(s);
  if (now() < s->lo) bad("early", s, "interval %.3f ms: call %ld comes %.3f ms early", s->interval / 1e6, s->fired, (s->lo - now()) / 1e6);
  T eff = libev ? s->interval : s->interval / MS * MS;
  s->lo += eff; s->hi = now() + s->interval; s->late = 0;
  ops(3);
  if (choose("E.busy", 12) == 11) { sleep_virtual((T)choose("E.busy", 300) * MS); count("event.busy"); }
  maybe_quit();
  return leave(s, s->keep || choose("E.again", s->fired > 30 ? 2 : 4) > 0);
}
static gboolean on_idle(gpointer d) {
  Src *s = (Src *)d; enter(s); ops(2);
  if (choose("E.busy", 12) == 11) sleep_virtual((T)choose("E.busy", 300) * MS);
  maybe_quit();
  return leave(s, choose("E.again", 3) > 0 && s->fired < 20);
}
static void drop(Src *s, const char *why) {
  trace("  remove %s %d (id %u) %s", kname[s->kind], s->n, s->id, why);
  bool was = s->active; if (was) finish_src(s);
  gboolean r = milter_event_loop_remove(loop, s->id);
  if (!!r != was) bad("remove", s, "remove returned %d for a source that %s", r, was ? "is active" : "is gone");
}
static gboolean on_io(GIOChannel *ch, GIOCondition cond, gpointer d) {
  Src *s = (Src *)d; enter(s); Link *l = s->link;
  int nowr = may_hold(revents(l->fd, POLLIN | POLLOUT), s->want);
  if (ch != l->ch) bad("io", s, "called with another channel");
  if (cond & ~s->want) bad("io", s, "called for condition %x, watched %x", cond, s->want);
  if (!(cond & s->want)) bad("io", s, "called without any of the watched conditions (%x)", cond);
  if (!s->held && !nowr) bad("io", s, "called although the watched condition %x does not hold", s->want);
  s->missed = 0; s->seen = false;
  char buf[4096]; bool again = true;
  if (cond & G_IO_IN && choose("E.read", 5)) {
    ssize_t n = read(l->fd, buf, 1 + choose("E.read", 400));
    if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) { if (choose("E.eof", 8)) again = false; }
  }
  if (cond & G_IO_OUT && choose("E.write", 4)) { memset(buf, 'y', sizeof buf); ssize_t n = write(l->fd, buf, 1 + choose("E.write", 4000)); (void)n; if (choose("E.write", 2)) again = false; }
  ops(2); maybe_quit();
  return leave(s, again && choose("E.again", 12) > 0);
}
static Src *add(Kind k) {
  Src *s = new Src; s->kind = k; s->n = (int)all.size(); s->active = true; all.push_back(s);
  bool full = true;
  if (k == TIMER) {
    static const T unit[] = {0, MS / 4, 3 * MS, 40 * MS, 1500 * MS, 70 * SEC};
    T u = unit[choose("E.unit", 6)]; s->interval = u ? u / 50 * (1 + choose("E.int", 100)) : 0;
    double sec = s->interval / 1e9; s->interval = (T)(sec * 1e9);
    T base = libev ? last_wake : now();
    s->lo = base + (libev ? s->interval : s->interval / MS * MS) - (libev ? MS / 100 : 0);
    s->hi = now() + s->interval;
    s->id = milter_event_loop_add_timeout_full(loop, G_PRIORITY_DEFAULT, sec, on_timer, s, notify);
    trace("  add timer %d %.3f ms (id %u)", s->n, s->interval / 1e6, s->id);
  } else if (k == IDLE) {
    s->id = milter_event_loop_add_idle_full(loop, G_PRIORITY_DEFAULT_IDLE, on_idle, s, notify);
    trace("  add idle %d (id %u)", s->n, s->id);
  } else {
    s->link = links[choose("E.link", links.size())];
    static const int w[] = {G_IO_IN, G_IO_IN | G_IO_ERR | G_IO_HUP, G_IO_OUT, G_IO_IN | G_IO_OUT, G_IO_OUT | G_IO_ERR | G_IO_HUP};
    s->want = w[choose("E.want", 5)];
    s->id = milter_event_loop_watch_io_full(loop, G_PRIORITY_DEFAULT, s->link->ch, (GIOCondition)s->want, on_io, s, notify);
    trace("  add io %d on fd %d for %x (id %u)", s->n, s->link->fd, s->want, s->id);
  }
  (void)full;
  count(string("event.add_") + kname[k]);
  if (!s->id) bad("id", s, "no id returned");
  for (Src *o : all) if (o != s && o->active && o->id == s->id) bad("id", s, "id already in use by %s %d", kname[o->kind], o->n);
  return s;
}
static void open_link() {
  Link *l = new Link; l->n = (int)links.size(); l->fd = socket(AF_INET, SOCK_STREAM, 0);
  fcntl(l->fd, F_SETFL, O_NONBLOCK);
  struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  int r = connect(l->fd, (struct sockaddr *)&a, sizeof a); (void)r;
  l->ch = g_io_channel_unix_new(l->fd); g_io_channel_set_encoding(l->ch, NULL, NULL); g_io_channel_set_buffered(l->ch, FALSE);
  links.push_back(l); trace("  open fd %d", l->fd);
}
static void close_link(size_t i) {
  Link *l = links[i];
  for (Src *s : all) if (s->link == l && (s->active || s->running)) return;
  if (l->ch->ref_count > 1 && depth) return; // a source removed while others are dispatched may be let go of a little later
  if (l->ch->ref_count != 1) bad("leak", nullptr, "channel of fd %d keeps %d references", l->fd, l->ch->ref_count);
  trace("  close fd %d", l->fd);
  close(l->fd); g_io_channel_unref(l->ch); links.erase(links.begin() + i); count("event.close_fd");
  open_link();
}
static void op() {
  if (ops_left <= 0) return;
  ops_left--;
  int active = 0; for (Src *s : all) active += s->active;
  switch (choose("E.op", active > 25 ? 14 : 10)) {
  case 0: case 1: add(TIMER); break;
  case 2: add(IDLE); break;
  case 3: case 4: add(IO); break;
  case 5: if (!links.empty()) close_link(choose("E.link", links.size())); break;
  case 6: jump_realtime((T)choose("E.jump", 7200) * SEC - 3600 * SEC); count("fault.clock_jump"); break;
  default: // remove something: mostly active, sometimes gone
    if (all.empty()) return;
    { size_t i = choose("E.rm", all.size()); for (size_t t = 0; t < all.size() && !all[i]->active && choose("E.rm", 12); t++) i = (i + 1) % all.size();
      Src *s = all[i]; if (s->keep) return;
      if (!s->active) { for (Src *o : all) if (o->active && o->id == s->id) return; if (!libev && (s->running || !s->notified)) return; }
      drop(s, s->running ? "from its own callback" : ""); }
  }
}
static void before_wait(T timeout) {
  waits++; iter_kinds = 0; due_by = now();
  static int seen_calls = 0; static T since = now(); // nothing more can happen: libev wakes up every minute all the same
  if (calls != seen_calls) seen_calls = calls, since = now();
  else if (now() - since > 600 * SEC) { count("event.starved"); finish_run(); }
  bool idle = false;
  for (Src *s : all) {
    if (!s->active && !s->notified && s->ended >= 0 && waits > s->ended + 1 && !s->running) { bad("notify", s, "is gone and its destroy function was not called"); s->notified = true; }
    if (!s->active) continue;
    if (s->kind == IDLE) idle = true;
    if (s->kind == TIMER) {
      if (s->late >= 0 && now() > s->hi + 3 * MS && ++s->late > (knobs.eintr ? 20 : 3)) { bad("lost", s, "expired %.3f ms ago and was not called", (now() - s->hi) / 1e6); s->late = -1; }
      if (timeout < 0) bad("lost", s, "the loop waits for ever"), s->active = false;
      else if (now() + timeout > std::max(s->hi, now()) + 3 * MS) { bad("late", s, "expires in %.3f ms and the loop waits %.3f ms", (s->hi - now()) / 1e6, timeout / 1e6); s->active = false; }
    }
    if (s->kind == IO && s->seen && s->held) { // it was ready at the last wake-up and was not called; is it still?
      if (must_hold(revents(s->link->fd, POLLIN | POLLOUT), s->want)) { if (++s->missed > (knobs.subset || knobs.eintr ? 60 : 3)) { bad("lost", s, "ready for %d iterations and not called", s->missed); s->seen = false; s->missed = -100000; } }
      else s->missed = 0;
    }
  }
  if (idle && timeout != 0) bad("idle", nullptr, "the loop waits (%.3f ms) although an idle callback is registered", timeout / 1e6);
  if (nonblock_iter && timeout != 0) bad("block", nullptr, "iterate(may_block = FALSE) waits %.3f ms", timeout / 1e6);
}
static void after_wait() {
  last_wake = now(); if (libev || poll_timeout() != 0) due_by = now(); // GLib does not look at the clock again after a poll that cannot wait
  for (Src *s : all) if (s->active && s->kind == IO) {
    int r = revents(s->link->fd, POLLIN | POLLOUT);
    s->held = may_hold(r, s->want); s->seen = must_hold(r, s->want);
  }
}
}
void run_events(const string &) {
  const string k = "E.cfg";
  libev = choose(k, 2); own_context = choose(k, 2);
  knobs.lat_class = (int)choose(k, 4);
  if (choose(k, 3) == 0) knobs.subset = choose(k, 900);
  if (choose(k, 5) == 0) knobs.eintr = choose(k, 300);
  if (choose(k, 3) == 0) knobs.sndbuf = 300 + choose(k, 20000);
  if (choose(k, 5) == 0) knobs.sched_jitter = choose(k, 100);
  if (choose(k, 3) == 0) knobs.short_read = choose(k, 500);
  limit = 30 + choose(k, 370); ops_left = 20 + choose(k, 300);
  count(libev ? "event.libev" : "event.glib");
  active = true; last_wake = now();
  GMainContext *ctx = nullptr;
  if (libev) loop = own_context ? milter_libev_event_loop_new() : milter_libev_event_loop_default();
  else { if (own_context) ctx = g_main_context_new(); loop = milter_glib_event_loop_new(ctx); if (ctx) g_main_context_unref(ctx); }
  add_service("inet:7000", new ESvc);
  wait_hook = before_wait; wake_hook = after_wait;
  int nl = 1 + choose(k, 5); for (int i = 0; i < nl; i++) open_link();
  stuck_hook([]() -> bool { count("event.starved"); finish_run(); return false; });
  bool use_run = choose(k, 4) > 0;
  ops(8);
  if (choose(k, 5)) { Src *s = add(TIMER); s->keep = true; }
  for (int round = 0; round < (use_run ? 3 : 1) && !violated(); round++) {
    if (use_run) {
      if (calls >= limit) limit = calls + 20;
      quitting = false; in_run = true; count("event.run");
      bool any = false; for (Src *s : all) any |= s->active && s->kind == TIMER;
      if (!any) add(TIMER);
      if (milter_event_loop_is_running(loop)) bad("run", nullptr, "is_running before the run");
      milter_event_loop_run(loop);
      if (!quitting) bad("quit", nullptr, "the run ended without quit");
      if (milter_event_loop_is_running(loop)) bad("run", nullptr, "is_running after the run");
      in_run = false; quitting = false; trace("run ended");
    } else {
      for (int i = 0; i < limit && calls < limit && !violated(); i++) {
        nonblock_iter = choose("E.mb", 5) == 4; iters_calls = 0; count("event.iterate");
        gboolean r = milter_event_loop_iterate(loop, !nonblock_iter);
        nonblock_iter = false;
        if (r && !iters_calls && !own_context && !libev) count("obs.foreign_source");
        ops(2);
      }
    }
    ops(4);
  }
  if (!libev && !own_context) for (Src *s : all) if (s->active) drop(s, "at the end");
  std::vector<bool> was; for (Src *s : all) { was.push_back(s->active); if (s->active) finish_src(s); }
  // the loop goes away and every source with it
  wait_hook = nullptr; wake_hook = nullptr;
  G_OBJECT(loop)->ref_count > 1 ? count("obs.loop_kept") : (void)0;
  trace("loop released");
  g_object_unref(loop);
  for (Src *s : all) if (!s->notified) bad("notify", s, "its destroy function was not called when the loop went away");
  for (Link *l : links) if (l->ch->ref_count != 1) bad("leak", nullptr, "channel of fd %d keeps %d references", l->fd, l->ch->ref_count);
  active = false;
  finish_run();
}
}
