// Deterministic simulator core: choices, virtual time, network, descriptors.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <functional>
#include <memory>
#include <set>

namespace sim {

typedef int64_t T;  // nanoseconds
static const T US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---- choices -------------------------------------------------------------
// Every nondeterministic decision is a draw from a named stream.  A stream is
// a sequence of integers: generated from (seed, name) or replayed from a file.
// 0 is always the simplest choice; a replayed stream that runs out yields 0.
void choices_seed(uint64_t seed);
void choices_replay(const std::map<std::string, std::vector<uint32_t>> &m);
uint32_t choose(const std::string &stream, uint32_t n);           // [0,n)
bool chance(const std::string &stream, uint32_t num, uint32_t den); // false simplest
const std::map<std::string, std::vector<uint32_t>> &choices_made();
bool choices_replaying();
void choices_mark();              // remember every stream's position ...
void choices_rewind();            // ... and go back there: what follows happens the same way again

// ---- trace, statistics, verdict -------------------------------------------
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const std::string &name, int64_t n = 1);
void violate(const std::string &tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool violated();
void cover(uint64_t h);           // state / interleaving coverage element
extern std::string trace_text;
extern bool trace_on;
extern uint64_t trace_hash;
struct Violation { std::string tag, text; };
extern std::vector<Violation> violations;
extern std::map<std::string, int64_t> counters;
extern std::set<uint64_t> coverage;
extern T virtual_total;

// ---- time and events --------------------------------------------------------
extern bool active;               // interposition on?
T now();
T realtime();
void jump_realtime(T delta);
uint64_t at(T when, std::function<void()> f);
uint64_t after(T delay, std::function<void()> f);
void cancel(uint64_t id);
bool run_due();
extern bool sut_done;             // set when the SUT main returned

// ---- knobs ---------------------------------------------------------------------
struct Knobs {
  uint32_t short_read = 0, short_write = 0, eintr = 0, subset = 0, spurious = 0; // per mille
  int lat_class = 0;      // latency distribution
  uint32_t seg = 0;       // per mille chance to cut a segment
  size_t sndbuf = 1 << 20;
  T cpu = 2 * US;
  uint32_t sched_jitter = 0; // per mille: a poll takes noticeable time
  long max_polls = 400000;
};
extern Knobs knobs;

// ---- network ----------------------------------------------------------------------
struct Conn;
struct Peer {
  virtual ~Peer() {}
  virtual void on_open(Conn *) {}
  virtual void on_data(Conn *, const std::string &) {}
  virtual void on_close(Conn *, bool rst) {}   // the SUT closed its end
};
struct Conn {
  int id = 0;
  std::string name;
  int family = 2;
  bool to_sut_initiated = false;   // SUT connected to us
  Peer *peer = nullptr;
  // towards the SUT
  std::string rx; size_t rxpos = 0;
  bool rx_eof = false, rst = false;
  T last_rx_arrival = 0;
  // from the SUT
  size_t unacked = 0, sndbuf = 1 << 20;
  T last_tx_arrival = 0;
  bool stalled = false;             // peer does not read
  std::deque<std::string> held; bool held_close = false, held_rst = false;
  bool sut_closed = false, sut_shut_wr = false;
  bool peer_closed = false;         // peer called close()
  bool close_delivered = false;
  int err = 0;
  int fd = -1;
  T lat_base = 0;
  uint64_t bytes_to_sut = 0, bytes_from_sut = 0;
  // peer-side API
  void send(const std::string &bytes);
  void close();                     // FIN after queued data
  void reset();                     // RST
  void stall(bool on);
  bool open() const { return !peer_closed && !close_delivered; }
};
enum ConnectResult { CONNECT_OK, CONNECT_REFUSED_SYNC, CONNECT_REFUSED, CONNECT_NEVER, CONNECT_UNREACH };
struct Service {                    // a scripted listener the SUT connects to
  virtual ~Service() {}
  virtual ConnectResult on_connect(T &delay) { delay = 0; return CONNECT_OK; }
  virtual Peer *accept(Conn *) = 0;
};
// address strings: "inet:PORT" or "unix:PATH"
void add_service(const std::string &addr, Service *s);
// connect an actor to a listener of the SUT; false when nobody listens.
Conn *dial(const std::string &addr, Peer *p, const std::string &name);
Conn *attach(Peer *p, const std::string &name); // a connected descriptor (conn->fd) the SUT starts with
bool listening(const std::string &addr);
size_t backlog_len(const std::string &addr);
void inject_accept_error(const std::string &addr, int err);
int control_fd();                   // a virtual readable descriptor
void control_signal(int fd);        // make it readable
int fd_open_count();                // virtual descriptors open
std::vector<std::string> fd_open_list();
size_t real_fd_count();
void stuck_hook(std::function<bool()> f);  // called when nothing can happen; true = retry
extern std::function<void(T timeout)> wait_hook;  // the SUT begins to wait
extern std::function<void()> wake_hook;           // ... and goes on
short revents(int fd, short events);              // what poll would say now
// thread-less blocking helpers
void sleep_virtual(T d);

// ---- file faults ---------------------------------------------------------------------
extern std::function<int(const char *op, int fd, size_t n)> file_fault; // 0 or errno; for registered spool files
extern std::set<int> spool_fds;
extern std::function<int(const char *op, size_t n)> conf_fault; extern bool conf_failed; // the same for configuration files being saved


// ---- heap of the code under test -----------------------------------------------------------
extern long heap_live; extern int heap_trace; void heap_report(int from, int to);
T poll_timeout();                   // how long the current wait of the SUT may take, -1: for ever

void reset_core(uint64_t);
[[noreturn]] void finish_run();     // report and exit the process
extern void (*finish_cb)();
}
