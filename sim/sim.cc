// Deterministic simulator core, and the interposed libc entry points.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <dirent.h>
#include <time.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>

namespace sim {

// ---- choices -------------------------------------------------------------
struct Stream { std::vector<uint32_t> v; size_t pos = 0, mark = 0; uint64_t s = 0; bool seeded = false; };
static std::map<std::string, Stream> streams;
static std::map<std::string, std::vector<uint32_t>> made;
static uint64_t the_seed = 0;
static bool replaying = false;
static uint64_t mix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t fnv(const char *p, size_t n, uint64_t h = 1469598103934665603ull) {
  for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
  return h;
}
void choices_seed(uint64_t seed) { the_seed = seed; replaying = false; streams.clear(); made.clear(); }
void choices_replay(const std::map<std::string, std::vector<uint32_t>> &m) {
  replaying = true; streams.clear(); made.clear();
  for (auto &e : m) { Stream &s = streams[e.first]; s.v = e.second; }
}
bool choices_replaying() { return replaying; }
uint32_t choose(const std::string &name, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t r;
  Stream &s = streams[name]; auto &m = made[name];
  if (s.pos < m.size()) return m[s.pos++] % n; // rewound
  if (replaying) r = s.pos < s.v.size() ? s.v[s.pos] % n : 0;
  else {
    if (!s.seeded) { s.seeded = true; s.s = fnv(name.data(), name.size()) ^ (the_seed * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull); mix(s.s); }
    r = (uint32_t)(mix(s.s) % n);
  }
  s.pos++;
  m.push_back(r);
  return r;
}
void choices_mark() { for (auto &s : streams) s.second.mark = s.second.pos; }
void choices_rewind() { for (auto &s : streams) s.second.pos = s.second.mark; }
bool chance(const std::string &name, uint32_t num, uint32_t den) {
  if (num == 0) return false;
  return choose(name, den) >= den - std::min(num, den);
}
const std::map<std::string, std::vector<uint32_t>> &choices_made() { return made; }

// ---- trace -----------------------------------------------------------------
std::string trace_text; bool trace_on = false; uint64_t trace_hash = 1469598103934665603ull;
std::vector<Violation> violations;
std::map<std::string, int64_t> counters;
std::set<uint64_t> coverage;
T virtual_total = 0;
Knobs knobs;
bool active = false;
bool sut_done = false;
void (*finish_cb)() = nullptr;
static T now_ns = 1000 * SEC;
static T real_off = 1600000000LL * SEC;

void trace(const char *fmt, ...) {
  char buf[700]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  char head[40]; int hn = snprintf(head, sizeof head, "%.6f ", (now_ns - 1000 * SEC) / 1e9);
  trace_hash = fnv(head, hn, trace_hash); trace_hash = fnv(buf, n, trace_hash);
  if (trace_on) { trace_text.append(head, hn); trace_text.append(buf, n); trace_text += '\n'; }
}
void count(const std::string &name, int64_t n) { counters[name] += n; }
bool violated() { return !violations.empty(); }
void violate(const std::string &tag, const char *fmt, ...) {
  char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  trace("VIOLATION[%s] %s", tag.c_str(), buf);
  if (violations.size() < 40) violations.push_back({tag, buf});
}
void cover(uint64_t h) { if (coverage.size() < 4000) coverage.insert(h); }

// ---- events ------------------------------------------------------------------
struct Ev { std::function<void()> f; };
static std::map<std::pair<T, uint64_t>, Ev> queue_;
static std::map<uint64_t, T> ev_time;
static uint64_t ev_seq = 0;
static std::function<bool()> stuck_cb;
void stuck_hook(std::function<bool()> f) { stuck_cb = f; }
T now() { return now_ns; }
T realtime() { return now_ns + real_off; }
void jump_realtime(T d) { real_off += d; count("fault.clock_jump"); trace("realtime jump %lld ms", (long long)(d / MS)); }
uint64_t at(T when, std::function<void()> f) {
  if (when < now_ns) when = now_ns;
  uint64_t id = ++ev_seq;
  queue_[{when, id}] = Ev{std::move(f)};
  ev_time[id] = when;
  return id;
}
uint64_t after(T d, std::function<void()> f) { return at(now_ns + d, std::move(f)); }
void cancel(uint64_t id) {
  auto it = ev_time.find(id);
  if (it == ev_time.end()) return;
  queue_.erase({it->second, id}); ev_time.erase(it);
}
bool run_due() {
  bool any = false;
  while (!queue_.empty() && queue_.begin()->first.first <= now_ns) {
    auto it = queue_.begin();
    auto f = std::move(it->second.f);
    ev_time.erase(it->first.second);
    queue_.erase(it);
    f(); any = true;
  }
  return any;
}

// ---- network -------------------------------------------------------------------
enum SockState { S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_FAILED };
struct Sock {
  int fd = -1; int family = AF_INET; SockState st = S_NEW; bool nonblock = false;
  std::shared_ptr<Conn> conn; int so_error = 0; int connect_err = 0;
  std::string addr; std::string local; bool control = false, signaled = false;
  uint64_t pending_ev = 0; std::string paddr;
};
struct Listener { Sock *sock = nullptr; std::deque<std::shared_ptr<Conn>> backlog; std::deque<int> errors; };
static std::map<int, Sock *> socks;
static std::map<std::string, Listener> listeners;
static std::map<std::string, Service *> services;
static std::vector<std::shared_ptr<Conn>> all_conns;
static std::map<Conn *, Sock *> conn_sock;
static int conn_seq = 0;
struct Ep { std::map<int, struct epoll_event> set; };
static std::map<int, Ep> epolls;
std::function<int(const char *, int, size_t)> file_fault;
std::set<int> spool_fds;
std::function<int(const char *, size_t)> conf_fault; bool conf_failed = false; static std::set<int> conf_fds;

static Sock *vsock(int fd) {
  if (!active) return nullptr;
  auto it = socks.find(fd);
  return it == socks.end() ? nullptr : it->second;
}
int fd_open_count() { return (int)socks.size(); }
std::vector<std::string> fd_open_list() {
  std::vector<std::string> r;
  for (auto &e : socks) {
    Sock *s = e.second;
    char b[200]; snprintf(b, sizeof b, "fd%d %s%s", e.first, s->control ? "control" : s->st == S_LISTEN ? "listen " : s->st == S_NEW ? "new" : s->st == S_CONNECTING ? "connecting " : s->st == S_FAILED ? "failed " : "conn ",
             s->conn ? s->conn->name.c_str() : s->addr.c_str());
    r.push_back(b);
  }
  return r;
}
size_t real_fd_count() {
  size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0;
  while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
static std::string addr_name(const struct sockaddr *a, socklen_t len) {
  char b[200];
  if (a->sa_family == AF_UNIX) { snprintf(b, sizeof b, "unix:%.*s", (int)(sizeof(((struct sockaddr_un *)0)->sun_path)), ((struct sockaddr_un *)a)->sun_path); return b; }
  if (a->sa_family == AF_INET) { snprintf(b, sizeof b, "inet:%d", ntohs(((struct sockaddr_in *)a)->sin_port)); return b; }
  if (a->sa_family == AF_INET6) { snprintf(b, sizeof b, "inet:%d", ntohs(((struct sockaddr_in6 *)a)->sin6_port)); return b; }
  return "?";
}
void add_service(const std::string &addr, Service *s) { services[addr] = s; }
bool listening(const std::string &addr) { auto it = listeners.find(addr); return it != listeners.end() && it->second.sock; }
size_t backlog_len(const std::string &addr) { auto it = listeners.find(addr); return it == listeners.end() ? 0 : it->second.backlog.size(); }
void inject_accept_error(const std::string &addr, int err) { listeners[addr].errors.push_back(err); trace("accept error %d queued on %s", err, addr.c_str()); }

static T latency(Conn *c) {
  // drawn per segment
  const std::string k = "S/" + c->name;
  switch (knobs.lat_class) {
    case 0: return 20 * US;
    case 1: return (T)choose(k, 1000) * US;
    case 2: return (T)choose(k, 50) * MS;
    default: {
      uint32_t r = choose(k, 100);
      if (r < 60) return (T)r * 10 * US;
      if (r < 90) return (T)(r - 59) * 3 * MS;
      return (T)(r - 89) * 150 * MS;
    }
  }
}
static Conn *new_conn(int family, const std::string &name) {
  auto c = std::make_shared<Conn>();
  c->id = ++conn_seq; c->name = name; c->family = family; c->sndbuf = knobs.sndbuf;
  all_conns.push_back(c);
  return c.get();
}
static std::shared_ptr<Conn> share(Conn *c) { for (auto &p : all_conns) if (p.get() == c) return p; return nullptr; }

static void arrive_rx(Conn *c, const std::string &b) {
  if (c->sut_closed || c->rst) return;
  c->rx += b; c->bytes_to_sut += b.size();
}
void Conn::send(const std::string &bytes) {
  if (peer_closed || bytes.empty()) return;
  size_t i = 0;
  std::string k = "S/" + name + "/seg"; int cuts = 0;
  while (i < bytes.size()) {
    size_t n = bytes.size() - i;
    if (knobs.seg && n > 1 && cuts < 200 && chance(k, knobs.seg, 1000)) {
      static const uint32_t lim[] = {0, 1, 2, 3, 4, 5, 7, 16, 100, 1000};
      uint32_t which = choose(k, 10);
      uint32_t l = lim[which];
      if (l == 0) l = 1 + choose(k, (uint32_t)std::min<size_t>(n - 1, 70000));
      n = std::min<size_t>(n, l); count("net.segment_cut"); cuts++;
    }
    std::string part = bytes.substr(i, n); i += n;
    T t = std::max(last_rx_arrival, now() + latency(this)); last_rx_arrival = t;
    Conn *self = this;
    at(t, [self, part] { arrive_rx(self, part); });
  }
}
void Conn::close() {
  if (peer_closed) return;
  peer_closed = true;
  T t = std::max(last_rx_arrival, now() + latency(this)); last_rx_arrival = t;
  Conn *self = this;
  at(t, [self] { if (!self->sut_closed) { trace("fin -> %s", self->name.c_str()); self->rx_eof = true; } });
}
void Conn::reset() {
  if (peer_closed) return;
  peer_closed = true;
  T t = now() + latency(this); // may overtake nothing: TCP RST drops what is queued
  t = std::max(t, last_rx_arrival); last_rx_arrival = t;
  Conn *self = this; count("fault.rst");
  at(t, [self] { if (!self->sut_closed) { trace("rst -> %s", self->name.c_str()); self->rst = true; self->err = ECONNRESET; } });
}
static void deliver_tx(Conn *c, const std::string &b) {
  if (c->stalled) { c->held.push_back(b); return; }
  c->unacked -= std::min(c->unacked, b.size());
  if (c->peer_closed || !c->peer) {
    // data to a closed peer: reset comes back (TCP) ; on a unix socket the pipe is broken
    if (c->peer_closed && !c->rst && !c->sut_closed) { c->rst = true; c->err = c->family == AF_UNIX ? EPIPE : ECONNRESET; trace("rst (late data) -> %s", c->name.c_str()); }
    return;
  }
  c->peer->on_data(c, b);
}
static void deliver_close(Conn *c, bool rst) {
  if (c->stalled) { c->held_close = true; c->held_rst = rst; return; }
  if (c->close_delivered) return;
  c->close_delivered = true;
  if (c->peer && !c->peer_closed) c->peer->on_close(c, rst);
}
void Conn::stall(bool on) {
  stalled = on;
  if (on) { count("fault.stall_reader"); return; }
  while (!stalled && !held.empty()) { std::string b = held.front(); held.pop_front(); deliver_tx(this, b); }
  if (!stalled && held_close) { held_close = false; deliver_close(this, held_rst); }
}
Conn *dial(const std::string &addr, Peer *p, const std::string &name) {
  auto it = listeners.find(addr);
  if (it == listeners.end() || !it->second.sock) return nullptr;
  Conn *c = new_conn(it->second.sock->family, name);
  c->peer = p;
  it->second.backlog.push_back(share(c));
  trace("dial %s as %s", addr.c_str(), name.c_str());
  return c;
}
Conn *attach(Peer *p, const std::string &name) {
  int fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM, 0);
  Conn *c = new_conn(AF_UNIX, name); c->peer = p; c->fd = fd;
  Sock *s = new Sock; s->fd = fd; s->family = AF_UNIX; s->st = S_CONNECTED; s->nonblock = true; s->conn = share(c); conn_sock[c] = s;
  socks[fd] = s; return c;
}
int control_fd() {
  int fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM, 0);
  Sock *s = new Sock; s->fd = fd; s->control = true; s->st = S_CONNECTED; s->nonblock = true;
  socks[fd] = s;
  return fd;
}
void control_signal(int fd) { auto it = socks.find(fd); if (it != socks.end()) it->second->signaled = true; }

static short revents_of(Sock *s) {
  if (s->control) return s->signaled ? POLLIN : 0;
  switch (s->st) {
    case S_NEW: return POLLOUT | POLLHUP;
    case S_LISTEN: { Listener &l = listeners[s->addr]; return (!l.backlog.empty() || !l.errors.empty()) ? POLLIN : 0; }
    case S_CONNECTING: return 0;
    case S_FAILED: return POLLIN | POLLOUT | POLLERR | POLLHUP;
    case S_CONNECTED: {
      Conn *c = s->conn.get(); short r = 0;
      if (c->rst) return POLLIN | POLLOUT | POLLERR | POLLHUP | POLLRDHUP;
      if (c->rxpos < c->rx.size() || c->rx_eof) r |= POLLIN;
      if (c->rx_eof) r |= POLLRDHUP;
      if (c->rx_eof && (c->sut_shut_wr || c->family == AF_UNIX)) r |= POLLHUP;
      if (c->unacked < c->sndbuf || (c->rx_eof && c->family == AF_UNIX)) r |= POLLOUT;
      return r;
    }
  }
  return 0;
}
static short revents_fd(int fd, short events) {
  Sock *s = vsock(fd);
  if (s) return revents_of(s) & (events | POLLERR | POLLHUP | POLLNVAL);
  struct pollfd p = {fd, events, 0};
  struct timespec z = {0, 0};
  if (syscall(SYS_ppoll, &p, 1, &z, nullptr, 0) > 0) return p.revents;
  return 0;
}

static long n_polls = 0, idle_polls = 0;
static uint64_t progress_mark = 0;
void reset_core(uint64_t) {
  queue_.clear(); ev_time.clear();
}
extern "C" void __gcov_dump() __attribute__((weak)); // only in the coverage build
void finish_run() {
  active = false;
  virtual_total = now_ns - 1000 * SEC;
  if (finish_cb) finish_cb();
  if (__gcov_dump) __gcov_dump();
  _exit(0);
}
static uint64_t io_ops = 0; // reads/writes/accepts done by the SUT
static uint64_t io_eagain = 0; // ... of which did nothing

// Waits until one of the descriptors is ready. Returns chosen indices.
static T cur_timeout = -1;
T poll_timeout() { return cur_timeout; }
std::function<void(T)> wait_hook; std::function<void()> wake_hook;
short revents(int fd, short events) { return revents_fd(fd, events); }
static int do_wait_(std::vector<std::pair<int, short>> &fds, std::vector<short> &out, T timeout, bool may_subset) {
  n_polls++; cur_timeout = timeout;
  if (n_polls > knobs.max_polls) { violate("stuck", "more than %ld waits in one run: livelock", knobs.max_polls); finish_run(); }
  T start = now_ns;
  now_ns += knobs.cpu;
  // waking up again and again for nothing costs more and more time, so that a busy wait does not use up the run
  static uint64_t fruit = 0; static long fruitless = 0;
  uint64_t f = (io_ops - io_eagain) * 1000003u + ev_seq;
  if (f != fruit) fruit = f, fruitless = 0;
  else if (++fruitless > 300) { now_ns += fruitless > 2000 ? 5 * MS : 200 * US; if (fruitless == 301) count("obs.busy_wait"); }
  if (knobs.sched_jitter && chance("S/jitter", knobs.sched_jitter, 1000)) { now_ns += (T)(1 + choose("S/jitter", 200)) * MS; count("fault.sut_pause"); }
  if (timeout != 0 && (knobs.eintr && chance("F/eintr", knobs.eintr, 4000))) { count("fault.eintr_poll"); run_due(); errno = EINTR; return -1; }
  for (;;) {
    run_due();
    int n = 0;
    out.assign(fds.size(), 0);
    for (size_t i = 0; i < fds.size(); i++) { out[i] = revents_fd(fds[i].first, fds[i].second); if (out[i]) n++; }
    if (n) {
      uint64_t mark = io_ops * 1000003u + ev_seq;
      if (mark == progress_mark) {
        if (++idle_polls > 20000) { violate("stuck", "the event loop spins: 20000 wake-ups without input, output or timer progress"); finish_run(); }
      } else { progress_mark = mark; idle_polls = 0; }
      if (may_subset && n > 1 && knobs.subset && chance("S/subset", knobs.subset, 1000)) {
        // report only some of the ready descriptors now
        int keep = (int)choose("S/subset", n), k = 0; bool any = false;
        for (size_t i = 0; i < out.size(); i++) if (out[i]) { if (k != keep && choose("S/subset", 2)) { out[i] = 0; } else any = true; k++; }
        (void)any; count("sched.subset");
      }
      int m = 0; for (auto r : out) if (r) m++;
      return m;
    }
    if (timeout == 0) return 0;
    T deadline = timeout < 0 ? INT64_MAX : start + timeout;
    if (now_ns >= deadline) return 0;
    T next = queue_.empty() ? INT64_MAX : queue_.begin()->first.first;
    if (next == INT64_MAX && deadline == INT64_MAX) {
      if (stuck_cb && stuck_cb()) continue;
      trace("quiescent: nothing will ever happen");
      violate("stuck", "the service waits forever with nothing left to happen");
      finish_run();
    }
    idle_polls = 0;
    if (next <= deadline) now_ns = std::max(now_ns, next); else { now_ns = deadline; run_due(); return 0; }
  }
}
static int do_wait(std::vector<std::pair<int, short>> &fds, std::vector<short> &out, T timeout, bool may_subset) {
  if (wait_hook) wait_hook(timeout);
  int r = do_wait_(fds, out, timeout, may_subset);
  if (wake_hook) { int e = errno; wake_hook(); errno = e; }
  return r;
}
void sleep_virtual(T d) {
  T end = now_ns + d;
  while (!queue_.empty() && queue_.begin()->first.first <= end) { now_ns = std::max(now_ns, queue_.begin()->first.first); run_due(); }
  now_ns = std::max(end, now_ns);
}

// ---- SUT side socket calls ------------------------------------------------------
static int sut_connect(Sock *s, const struct sockaddr *a, socklen_t len) {
  std::string name = addr_name(a, len);
  s->paddr.assign((const char *)a, len);
  if (s->st == S_CONNECTED) { errno = EISCONN; return -1; }
  if (s->st == S_CONNECTING) { errno = EALREADY; return -1; }
  auto it = services.find(name);
  T delay = 0; ConnectResult r = CONNECT_REFUSED_SYNC; Service *svc = nullptr;
  if (it != services.end()) { svc = it->second; r = svc->on_connect(delay); }
  s->addr = name;
  trace("connect %s -> %s", name.c_str(), r == CONNECT_OK ? "ok" : r == CONNECT_REFUSED_SYNC ? "refused now" : r == CONNECT_REFUSED ? "refused later" : r == CONNECT_NEVER ? "never" : "unreach");
  if (r == CONNECT_REFUSED_SYNC) { errno = a->sa_family == AF_UNIX ? ENOENT : ECONNREFUSED; count("fault.connect_refused_sync"); return -1; }
  if (a->sa_family == AF_UNIX && r != CONNECT_OK) { // unix connects complete or fail at once
    errno = r == CONNECT_NEVER ? EAGAIN : ECONNREFUSED; count("fault.connect_refused_sync"); return -1;
  }
  auto establish = [s, svc]() {
    Conn *c = new_conn(s->family, "");
    c->to_sut_initiated = true; c->fd = s->fd;
    s->conn = share(c); conn_sock[c] = s; s->st = S_CONNECTED;
    char nm[64]; snprintf(nm, sizeof nm, "c%d", c->id); c->name = nm;
    Peer *p = svc->accept(c);
    c->peer = p;
    trace("connected %s", c->name.c_str());
    if (p) p->on_open(c);
  };
  if (r == CONNECT_OK && (a->sa_family == AF_UNIX || !s->nonblock)) { establish(); return 0; }
  if (r == CONNECT_OK) {
    s->st = S_CONNECTING;
    int fd = s->fd;
    s->pending_ev = after(delay + 20 * US, [s, fd, establish] { if (vsock(fd) == s && s->st == S_CONNECTING) establish(); });
  } else if (r == CONNECT_NEVER) { s->st = S_CONNECTING; count("fault.connect_never"); }
  else {
    s->st = S_CONNECTING; count("fault.connect_refused");
    int fd = s->fd; int e = r == CONNECT_UNREACH ? EHOSTUNREACH : ECONNREFUSED;
    s->pending_ev = after(delay + 20 * US, [s, fd, e] { if (vsock(fd) == s && s->st == S_CONNECTING) { s->st = S_FAILED; s->so_error = e; trace("connect failed fd"); } });
  }
  if (!s->nonblock) {
    std::vector<std::pair<int, short>> f{{s->fd, POLLOUT}}; std::vector<short> o;
    do_wait(f, o, -1, false);
    if (s->st == S_FAILED) { errno = s->so_error; return -1; }
    return 0;
  }
  errno = EINPROGRESS; return -1;
}
static ssize_t sut_read(Sock *s, void *buf, size_t n, int flags) {
  io_ops++;
  if (s->control) { s->signaled = false; return 0; }
  if (knobs.eintr && chance("F/eintr", knobs.eintr, 1000)) { count("fault.eintr"); io_eagain++; errno = EINTR; return -1; }
  if (s->st == S_FAILED) { int e = s->so_error; s->so_error = 0; if (e) { errno = e; return -1; } return 0; }
  if (s->st != S_CONNECTED) { errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  Conn *c = s->conn.get();
  for (;;) {
    if (c->rst) { if (c->err) { errno = c->err; c->err = 0; if (errno == EPIPE) return 0; return -1; } return 0; }
    size_t avail = c->rx.size() - c->rxpos;
    if (avail) {
      size_t k = std::min(n, avail);
      if (k > 1 && knobs.short_read && chance("F/" + c->name + "/sr", knobs.short_read, 1000)) { k = 1 + choose("F/" + c->name + "/sr", (uint32_t)std::min<size_t>(k - 1, 9000)); count("fault.short_read"); }
      memcpy(buf, c->rx.data() + c->rxpos, k);
      if (!(flags & MSG_PEEK)) { c->rxpos += k; if (c->rxpos == c->rx.size()) { c->rx.clear(); c->rxpos = 0; } }
      return (ssize_t)k;
    }
    if (c->rx_eof) return 0;
    if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; io_eagain++; return -1; }
    std::vector<std::pair<int, short>> f{{s->fd, POLLIN}}; std::vector<short> o; do_wait(f, o, -1, false);
  }
}
static ssize_t sut_write(Sock *s, const void *buf, size_t n, int) {
  io_ops++;
  if (s->control) return (ssize_t)n;
  if (knobs.eintr && chance("F/eintr", knobs.eintr, 1000)) { count("fault.eintr"); io_eagain++; errno = EINTR; return -1; }
  if (s->st == S_FAILED) { errno = s->so_error ? s->so_error : EPIPE; s->so_error = 0; return -1; }
  if (s->st != S_CONNECTED) { errno = s->st == S_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  Conn *c = s->conn.get();
  for (;;) {
    if (c->sut_shut_wr) { errno = EPIPE; return -1; }
    if (c->rst) { if (c->err) { errno = c->err; c->err = 0; } else errno = EPIPE; return -1; }
    if (c->family == AF_UNIX && c->rx_eof) { errno = EPIPE; return -1; }
    if (c->unacked < c->sndbuf) {
      size_t k = std::min(n, c->sndbuf - c->unacked);
      if (k < n) count("fault.full_sndbuf");
      if (k > 1 && knobs.short_write && chance("F/" + c->name + "/sw", knobs.short_write, 1000)) { k = 1 + choose("F/" + c->name + "/sw", (uint32_t)std::min<size_t>(k - 1, 9000)); count("fault.short_write"); }
      std::string b((const char *)buf, k);
      c->unacked += k; c->bytes_from_sut += k;
      T t = std::max(c->last_tx_arrival, now_ns + latency(c)); c->last_tx_arrival = t;
      at(t, [c, b] { deliver_tx(c, b); });
      return (ssize_t)k;
    }
    if (s->nonblock) { errno = EAGAIN; count("fault.eagain_write"); io_eagain++; return -1; }
    std::vector<std::pair<int, short>> f{{s->fd, POLLOUT}}; std::vector<short> o; do_wait(f, o, -1, false);
  }
}
static void sut_close(Sock *s) {
  if (s->st == S_LISTEN) {
    Listener &l = listeners[s->addr]; l.sock = nullptr;
    for (auto &c : l.backlog) { Conn *p = c.get(); p->sut_closed = true; after(latency(p), [p] { deliver_close(p, true); }); }
    l.backlog.clear();
    trace("listener %s closed", s->addr.c_str());
  }
  if (s->pending_ev) cancel(s->pending_ev);
  if (s->conn) {
    Conn *c = s->conn.get();
    if (!c->sut_closed) {
      c->sut_closed = true;
      bool unread = c->rxpos < c->rx.size();
      T t = std::max(c->last_tx_arrival, now_ns + latency(c)); c->last_tx_arrival = t;
      trace("sut closes %s%s", c->name.c_str(), unread ? " (unread data)" : "");
      at(t, [c, unread] { deliver_close(c, unread); });
    }
    conn_sock.erase(c);
  }
  socks.erase(s->fd);
  delete s;
}
} // namespace sim

// ================= interposed libc ==================================================
using namespace sim;
extern "C" {
int socket(int domain, int type, int protocol) {
  int fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM | (type & (SOCK_CLOEXEC | SOCK_NONBLOCK)), 0);
  if (!active || fd < 0) return fd;
  if (file_fault) { int e = file_fault("socket", -1, 0); if (e) { syscall(SYS_close, fd); errno = e; return -1; } }
  Sock *s = new Sock; s->fd = fd; s->family = domain; s->nonblock = type & SOCK_NONBLOCK;
  socks[fd] = s;
  return fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t len) {
  if (Sock *s = vsock(fd)) return sut_connect(s, a, len);
  return (int)syscall(SYS_connect, fd, a, len);
}
int bind(int fd, const struct sockaddr *a, socklen_t len) {
  if (Sock *s = vsock(fd)) {
    std::string nm = addr_name(a, len);
    if (listening(nm)) { errno = EADDRINUSE; return -1; }
    s->addr = nm; s->local.assign((const char *)a, len);
    if (a->sa_family == AF_UNIX) { // leave a file behind as the kernel does
      const char *p = ((struct sockaddr_un *)a)->sun_path;
      int f = (int)syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_EXCL | O_WRONLY, 0666);
      if (f < 0) { errno = errno == EEXIST ? EADDRINUSE : errno; return -1; }
      syscall(SYS_close, f);
    }
    return 0;
  }
  return (int)syscall(SYS_bind, fd, a, len);
}
int listen(int fd, int n) {
  if (Sock *s = vsock(fd)) { s->st = S_LISTEN; listeners[s->addr].sock = s; trace("listen %s", s->addr.c_str()); return 0; }
  return (int)syscall(SYS_listen, fd, n);
}
int accept4(int fd, struct sockaddr *a, socklen_t *len, int flags) {
  Sock *s = vsock(fd);
  if (!s) return (int)syscall(SYS_accept4, fd, a, len, flags);
  io_ops++;
  if (s->st != S_LISTEN) { errno = EINVAL; return -1; }
  for (;;) {
    Listener &l = listeners[s->addr];
    if (!l.errors.empty()) {
      int e = l.errors.front(); l.errors.pop_front();
      char nm[40]; snprintf(nm, sizeof nm, "fault.accept_errno_%d", e); count(nm);
      trace("accept fails errno %d", e);
      if (e == EAGAIN && !s->nonblock) violate("stuck", "accept() on %s waits for the next connection: the one announced is gone", s->addr.c_str());
      errno = e; return -1;
    }
    if (!l.backlog.empty()) {
      auto c = l.backlog.front(); l.backlog.pop_front();
      int nfd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM | (flags & (SOCK_CLOEXEC | SOCK_NONBLOCK)), 0);
      Sock *n = new Sock; n->fd = nfd; n->family = s->family; n->st = S_CONNECTED; n->conn = c; c->fd = nfd; n->nonblock = flags & SOCK_NONBLOCK;
      n->local = s->local;
      socks[nfd] = n; conn_sock[c.get()] = n;
      if (a && len) {
        if (s->family == AF_INET) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(20000 + c->id); in.sin_addr.s_addr = htonl(0x7f000001); size_t k = std::min<size_t>(*len, sizeof in); memcpy(a, &in, k); *len = sizeof in; }
        else if (s->family == AF_INET6) { struct sockaddr_in6 in; memset(&in, 0, sizeof in); in.sin6_family = AF_INET6; in.sin6_port = htons(20000 + c->id); in.sin6_addr = in6addr_loopback; size_t k = std::min<size_t>(*len, sizeof in); memcpy(a, &in, k); *len = sizeof in; }
        else { sa_family_t f = AF_UNIX; memcpy(a, &f, std::min<size_t>(*len, sizeof f)); *len = sizeof f; }
      }
      trace("accept %s", c->name.c_str());
      if (c->peer) { Conn *p = c.get(); after(0, [p] { if (!p->peer_closed && p->peer) p->peer->on_open(p); }); }
      return nfd;
    }
    if (s->nonblock) { errno = EAGAIN; return -1; }
    count("sut.blocking_accept");
    std::vector<std::pair<int, short>> f{{fd, POLLIN}}; std::vector<short> o; do_wait(f, o, -1, false);
  }
}
int accept(int fd, struct sockaddr *a, socklen_t *len) {
  if (!vsock(fd)) return (int)syscall(SYS_accept, fd, a, len);
  return accept4(fd, a, len, 0);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (Sock *s = vsock(fd)) return sut_read(s, buf, n, 0);
  if (active && file_fault && spool_fds.count(fd)) { int e = file_fault("read", fd, n); if (e > 0) { errno = e; return -1; } if (e < 0) n = std::min<size_t>(n, (size_t)-e); }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
ssize_t write(int fd, const void *buf, size_t n) {
  if (Sock *s = vsock(fd)) return sut_write(s, buf, n, 0);
  if (active && file_fault && spool_fds.count(fd)) { int e = file_fault("write", fd, n); if (e > 0) { errno = e; return -1; } if (e < 0) n = std::min<size_t>(n, (size_t)-e); }
  if (active && conf_fault && conf_fds.count(fd)) { int e = conf_fault("write", n); if (e > 0) { errno = e; return -1; } if (e < 0) n = std::min<size_t>(n, (size_t)-e); }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t recv(int fd, void *buf, size_t n, int fl) { if (Sock *s = vsock(fd)) return sut_read(s, buf, n, fl); return syscall(SYS_recvfrom, fd, buf, n, fl, nullptr, nullptr); }
ssize_t send(int fd, const void *buf, size_t n, int fl) { if (Sock *s = vsock(fd)) return sut_write(s, buf, n, fl); return syscall(SYS_sendto, fd, buf, n, fl, nullptr, 0); }
off_t lseek(int fd, off_t o, int w) {
  if (vsock(fd)) { errno = ESPIPE; return -1; }
  if (active && file_fault && spool_fds.count(fd)) { int e = file_fault("seek", fd, 0); if (e > 0) { errno = e; return -1; } }
  return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
  if (Sock *s = vsock(fd)) { sut_close(s); return (int)syscall(SYS_close, fd); }
  if (active) { epolls.erase(fd); spool_fds.erase(fd); conf_fds.erase(fd); }
  return (int)syscall(SYS_close, fd);
}
int shutdown(int fd, int how) {
  Sock *s = vsock(fd);
  if (!s) return (int)syscall(SYS_shutdown, fd, how);
  if (!s->conn) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !s->conn->sut_shut_wr) { s->conn->sut_shut_wr = true; Conn *c = s->conn.get(); T t = std::max(c->last_tx_arrival, now_ns + latency(c)); c->last_tx_arrival = t; at(t, [c] { deliver_close(c, false); }); }
  return 0;
}
static int do_fcntl(int fd, int cmd, unsigned long arg) {
  Sock *s = vsock(fd);
  if (s) {
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
  }
  return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); unsigned long a = va_arg(ap, unsigned long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); unsigned long a = va_arg(ap, unsigned long); va_end(ap); return do_fcntl(fd, cmd, a); }
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (vsock(fd)) return 0; return (int)syscall(SYS_setsockopt, fd, l, o, v, n); }
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
  if (Sock *s = vsock(fd)) {
    if (l == SOL_SOCKET && o == SO_ERROR) {
      int e = s->so_error; s->so_error = 0;
      if (s->conn && s->conn->rst) { e = s->conn->err; s->conn->err = 0; }
      memcpy(v, &e, sizeof e); *n = sizeof e; return 0;
    }
    int z = 0; memcpy(v, &z, std::min<size_t>(*n, sizeof z)); return 0;
  }
  return (int)syscall(SYS_getsockopt, fd, l, o, v, n);
}
int getsockname(int fd, struct sockaddr *a, socklen_t *n) {
  if (Sock *s = vsock(fd)) {
    std::string l = s->local;
    if (l.empty()) { if (s->family == AF_UNIX) { sa_family_t f = AF_UNIX; l.assign((char *)&f, sizeof f); } else { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(40000 + (fd & 1023)); l.assign((char *)&in, sizeof in); } }
    memcpy(a, l.data(), std::min<size_t>(*n, l.size())); *n = l.size(); return 0;
  }
  return (int)syscall(SYS_getsockname, fd, a, n);
}
int getpeername(int fd, struct sockaddr *a, socklen_t *n) {
  if (Sock *s = vsock(fd)) {
    if (s->st != S_CONNECTED) { errno = ENOTCONN; return -1; }
    std::string l = s->paddr.empty() ? s->local : s->paddr;
    memcpy(a, l.data(), std::min<size_t>(*n, l.size())); *n = l.size(); return 0;
  }
  return (int)syscall(SYS_getpeername, fd, a, n);
}
// ---- waiting ----
static int vpoll(struct pollfd *p, nfds_t n, T timeout) {
  std::vector<std::pair<int, short>> f; std::vector<short> o;
  for (nfds_t i = 0; i < n; i++) f.push_back({p[i].fd, p[i].fd < 0 ? 0 : p[i].events});
  int r = do_wait(f, o, timeout, true);
  if (r < 0) return r;
  for (nfds_t i = 0; i < n; i++) p[i].revents = r ? o[i] : 0;
  return r;
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!active) { struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L}; return (int)syscall(SYS_ppoll, p, n, ms < 0 ? nullptr : &ts, nullptr, 0); }
  return vpoll(p, n, ms < 0 ? -1 : (T)ms * MS);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss) {
  if (!active) { struct timespec c; if (ts) c = *ts; return (int)syscall(SYS_ppoll, p, n, ts ? &c : nullptr, ss, 8); }
  return vpoll(p, n, ts ? (T)ts->tv_sec * SEC + ts->tv_nsec : -1);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (!active) return (int)syscall(SYS_select, n, r, w, e, tv);
  std::vector<std::pair<int, short>> f; std::vector<short> o;
  for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev || (e && FD_ISSET(i, e))) f.push_back({i, ev}); }
  int k = do_wait(f, o, tv ? (T)tv->tv_sec * SEC + tv->tv_usec * US : -1, true);
  if (k < 0) return k;
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
  int c = 0;
  for (size_t i = 0; i < f.size() && k; i++) {
    if (r && (f[i].second & POLLIN) && (o[i] & (POLLIN | POLLHUP | POLLERR))) { FD_SET(f[i].first, r); c++; }
    if (w && (f[i].second & POLLOUT) && (o[i] & (POLLOUT | POLLERR))) { FD_SET(f[i].first, w); c++; }
  }
  return c;
}
int epoll_create1(int fl) { int fd = (int)syscall(SYS_epoll_create1, fl); if (active && fd >= 0) epolls[fd]; return fd; }
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  auto it = epolls.find(ep);
  if (!active || it == epolls.end()) return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
  auto &set = it->second.set;
  if (op == EPOLL_CTL_ADD) {
    if (!vsock(fd) && syscall(SYS_fcntl, fd, F_GETFD, 0) < 0) { errno = EBADF; return -1; }
    if (set.count(fd)) { errno = EEXIST; return -1; }
    if (!vsock(fd)) { // the kernel refuses what cannot be polled
      struct stat st; if (!fstat(fd, &st) && S_ISREG(st.st_mode)) { errno = EPERM; return -1; }
    }
    set[fd] = *ev; return 0;
  }
  if (!set.count(fd)) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) set.erase(fd); else set[fd] = *ev;
  return 0;
}
static short ep2poll(uint32_t e) { return (e & EPOLLIN ? POLLIN : 0) | (e & EPOLLOUT ? POLLOUT : 0) | (e & EPOLLRDHUP ? POLLRDHUP : 0) | (e & EPOLLPRI ? POLLPRI : 0); }
int epoll_wait(int ep, struct epoll_event *evs, int max, int ms) {
  auto it = epolls.find(ep);
  if (!active || it == epolls.end()) return (int)syscall(SYS_epoll_pwait, ep, evs, max, ms, nullptr, 8);
  // a closed descriptor leaves the set
  for (auto i = it->second.set.begin(); i != it->second.set.end();) { if (!vsock(i->first) && syscall(SYS_fcntl, i->first, F_GETFD, 0) < 0) i = it->second.set.erase(i); else ++i; }
  std::vector<std::pair<int, short>> f; std::vector<short> o; std::vector<struct epoll_event> e;
  for (auto &x : it->second.set) { f.push_back({x.first, ep2poll(x.second.events)}); e.push_back(x.second); }
  int r = do_wait(f, o, ms < 0 ? -1 : (T)ms * MS, true);
  if (r <= 0) return r;
  std::vector<size_t> idx; for (size_t i = 0; i < o.size(); i++) if (o[i]) idx.push_back(i);
  if (idx.size() > 1 && knobs.subset) for (size_t i = 0; i + 1 < idx.size(); i++) { size_t j = i + choose("S/order", (uint32_t)(idx.size() - i)); std::swap(idx[i], idx[j]); }
  int k = 0;
  for (size_t i : idx) { if (k >= max) break; evs[k] = e[i]; uint32_t x = 0; if (o[i] & POLLIN) x |= EPOLLIN; if (o[i] & POLLOUT) x |= EPOLLOUT; if (o[i] & POLLERR) x |= EPOLLERR; if (o[i] & POLLHUP) x |= EPOLLHUP; if (o[i] & POLLRDHUP) x |= EPOLLRDHUP; evs[k].events = x; k++; }
  return k;
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int ms, const sigset_t *) { return epoll_wait(ep, evs, max, ms); }
int timerfd_create(int, int) { errno = ENOSYS; return -1; }
// ---- clocks ----
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active) return (int)syscall(SYS_clock_gettime, c, ts);
  T t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realtime() : now_ns;
  ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!active) return (int)syscall(SYS_gettimeofday, tv, tz);
  T t = realtime(); tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / 1000; return 0;
}
time_t time(time_t *p) {
  time_t t; if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; } else t = realtime() / SEC;
  if (p) *p = t; return t;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active) return (int)syscall(SYS_nanosleep, r, rem);
  count("sut.blocking_sleep"); trace("sut sleeps %lld ms", (long long)(r->tv_sec * 1000 + r->tv_nsec / MS));
  n_polls++;
  if (++n_polls > knobs.max_polls) { violate("stuck", "sleeps forever"); finish_run(); }
  static long sleeps = 0; if (++sleeps > 2000) { violate("stuck", "the service keeps sleeping (2000 blocking sleeps)"); finish_run(); }
  sleep_virtual((T)r->tv_sec * SEC + r->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *rem) {
  if (!active) return (int)syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, flags, r, rem);
  if (flags & TIMER_ABSTIME) { T t = (T)r->tv_sec * SEC + r->tv_nsec - now_ns; struct timespec d = {0, 0}; if (t > 0) { d.tv_sec = t / SEC; d.tv_nsec = t % SEC; } return nanosleep(&d, rem); }
  return nanosleep(r, rem);
}
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
// ---- files: spool ----
static const char *spool_dir() { static const char *d = getenv("SIM_SPOOL"); return d; }
static int do_open(const char *p, int fl, mode_t m) {
  if (active && (fl & O_CREAT) && strstr(p, "custom.conf")) {
    if (conf_fault) { int e = conf_fault("open", 0); if (e > 0) { errno = e; return -1; } }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); if (fd >= 0) conf_fds.insert(fd); return fd;
  }
  if (active && spool_dir() && !strncmp(p, spool_dir(), strlen(spool_dir()))) {
    if (file_fault && (fl & O_CREAT)) { int e = file_fault("open", -1, 0); if (e > 0) { errno = e; return -1; } }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    if (fd >= 0) { spool_fds.insert(fd); count("spool.open"); }
    return fd;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int rename(const char *a, const char *b) {
  if (active && conf_fault && strstr(a, "custom.conf")) { int e = conf_fault("rename", 0); if (e > 0) { errno = e; return -1; } }
  return (int)syscall(SYS_rename, a, b);
}
int fsync(int fd) {
  if (active && conf_fault && conf_fds.count(fd)) { int e = conf_fault("fsync", 0); if (e > 0) { errno = e; return -1; } }
  return (int)syscall(SYS_fsync, fd);
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
}
