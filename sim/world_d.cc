// World D: the process that starts milters for the manager. The launcher, its decoder, its encoder and the GLib
// event loop are real; what it asks the system for (a new process, another identity, the end of a process) is simulated.
#include "world.h"
#include <cstring>
#include <cerrno>
#include <csetjmp>
#include <deque>
#include <unistd.h>
#include <pwd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include "repo.h"
extern "C" {
#include <milter/core/milter-glib-event-loop.h>
#include <milter/manager/milter-manager-process-launcher.h>
}
using namespace sim; using namespace model;
namespace world {
namespace {
using wire::packet; using wire::z; using wire::show; using wire::Reader;
bool on = false, in_child = false; int child_status = 0; jmp_buf child_exit;
bool pm(const string &key, int p) { return p > 0 && chance(key, (uint32_t)p, 1000); }
// the identity of the process being started
struct Identity { unsigned uid = 0, gid = 0; string groups = "root"; } child_id; int fail_call = 0; // 1 setgid, 2 initgroups, 3 setuid
struct User { const char *name; unsigned uid, gid; };
const User users[] = {{"nobody", 65534, 65533}, {"milter", 120, 121}, {"spam", 120, 130}};
const User *user_of(const string &n) { for (auto &u : users) if (n == u.name) return &u; return nullptr; }

struct Proc {
  int pid; string line; Conn *out, *err, *end; T life; bool dead = false, noticed = false, told = false, daemon = false; int status = 0; long written = 0, read = 0; T noticed_at = 0; };
struct Pipe : Peer { };
std::vector<Proc *> procs;
struct Req { string line, user; bool user_given = false; int kind = 0; bool replied = false, may_be_running = false; T sent = 0; };
enum { GOOD, BAD_USER, BAD_LINE, NO_START };
std::vector<Req *> reqs; size_t answered = 0; 
Conn *cmd = nullptr, *rep = nullptr; MilterManagerProcessLauncher *launcher; bool closing = false, quit = false; std::vector<long> heap_at; int round_no = 0, rounds = 1; std::vector<int> to_send;
Proc *running(const string &line) { for (auto *p : procs) if (!p->noticed && p->line == line) return p; return nullptr; }

struct Start { bool ok, gone; Identity id; int fail; }; std::map<string, std::deque<Start>> starts; // not yet replied to
void judge(int n, Req *r, const Start &s) {
  const User *u = user_of(r->user);
  if (s.gone) { count("proc.gave_up"); if (!(s.fail && r->user_given)) violate("launch.user", "request %d: <%s> gives up before it begins", n, r->line.c_str()); return; }
  count("check.identity"); bool ok = r->user.empty() ? s.id.uid == 0 && s.id.gid == 0 : u && s.id.uid == u->uid && s.id.gid == u->gid && s.id.groups == u->name;
  if (!ok) violate("launch.user", "request %d: <%s> runs with uid %u, gid %u and the groups of %s, asked for as <%s>%s", n, r->line.c_str(), s.id.uid, s.id.gid, s.id.groups.c_str(), r->user.c_str(), s.fail ? " (a call to change it failed)" : "");
}
struct CmdPeer : Peer { void on_data(Conn *, const string &) override {} void on_close(Conn *, bool) override {} } cmd_peer;
struct RepPeer : Peer {
  Reader rd;
  void on_data(Conn *, const string &b) override {
    rd.feed(b); char c; string d;
    while (rd.next(c, d)) {
      trace("reply %s", show(string(1, c) + d, 100).c_str());
      if (answered >= reqs.size()) { violate("launch.unexpected", "reply without a request: %s", show(string(1, c) + d).c_str()); return; }
      Req *r = reqs[answered++]; r->replied = true; string full = string(1, c) + d; count("check.reply");
      bool good = full == "success" || full == z("success"), failed = full.compare(0, 6, z("error")) == 0 && full.size() > 6;
      int n = (int)answered - 1; if (!good && !failed) { violate("launch.wrong", "request %d: reply %s", n, show(full).c_str()); return; }
      std::deque<Start> &q = starts[r->line]; bool tried = false;
      if (good) {
        while (!q.empty() && !q.front().ok) q.pop_front();
        if (q.empty()) violate("launch.missing", "request %d for <%s> as <%s>: the reply is success and nothing was started", n, r->line.c_str(), r->user.c_str());
        else { judge(n, r, q.front()); q.pop_front(); }
      } else if (r->kind == GOOD && !r->may_be_running) {
        tried = !q.empty() && !q.front().ok; if (tried) q.pop_front(); else violate("launch.missing", "request %d for <%s> as <%s>: nothing was started: %s", n, r->line.c_str(), r->user.c_str(), show(full).c_str());
      }
      int live = 0; for (auto *p : procs) live += !p->noticed;
      cover((((uint64_t)live * 4 + r->kind) * 4 + good + 2 * r->may_be_running) * 64 + (r->user_given ? r->user.size() : 0) * 4 + (reqs.size() - answered > 3 ? 3 : reqs.size() - answered));
      count(good ? "answer.success" : r->kind == GOOD ? (tried ? "answer.not_started" : "answer.running") : "answer.error");
    }
  }
  void on_close(Conn *, bool) override {}
} rep_peer;
void talk(Proc *p) { // it writes something now and then
  if (p->dead) return;
  if (pm("d.out", 400)) { Conn *c = pm("d.out", 500) ? p->out : p->err; if (c->open()) { size_t n = 1 + choose("d.out", 3000); c->send(string(n, '%')); p->written += n; count("proc.output"); } }
  after((T)(1 + choose("d.out", 4000)) * MS, [p] { talk(p); });
}
void end(Proc *p) {
  if (p->dead) return; p->dead = true; trace("process %d ends", p->pid); count(WIFSIGNALED(p->status) ? "proc.killed" : p->status ? "proc.failed" : "proc.exit");
  if (!p->daemon) { if (p->out->open()) p->out->close(); if (p->err->open()) p->err->close(); }
  p->end->send("x");
}
void close_pipes(Proc *p) { if (p->out->open()) p->out->close(); if (p->err->open()) p->err->close(); }
// ---- what a glib program sees of the end of a child ----
struct Watch { GSource s; int pid; gpointer tag; };
gboolean w_prepare(GSource *, gint *t) { *t = -1; return FALSE; }
Proc *proc_of(int pid) { for (auto *p : procs) if (p->pid == pid) return p; return nullptr; }
gboolean w_check(GSource *s) { Proc *p = proc_of(((Watch *)s)->pid); return p && p->dead && (g_source_query_unix_fd(s, ((Watch *)s)->tag) & G_IO_IN); }
gboolean w_dispatch(GSource *s, GSourceFunc f, gpointer d) {
  Proc *p = proc_of(((Watch *)s)->pid); if (!p || p->noticed) return FALSE;
  trace("end of process %d is seen", p->pid); p->noticed = true; p->noticed_at = now();
  for (auto *r : reqs) if (!r->replied && r->line == p->line) r->may_be_running = true;
  ((GChildWatchFunc)(void *)f)(p->pid, p->status, d);
  after(2 * SEC, [p] { count("check.pipes"); string nm = "proc" + std::to_string(p->pid); for (auto &f : fd_open_list()) if (f.find(nm) != string::npos && f.find(".end") == string::npos) { violate("cleanup.fd", "process %d has ended and its output is still open (%s)", p->pid, f.c_str()); break; } close_pipes(p); });
  return FALSE;
}
GSourceFuncs watch_funcs = {w_prepare, w_check, w_dispatch, nullptr, nullptr, nullptr};

void send_request(int n) {
  Req *r = new Req; string k = "d.req"; int which = choose(k, 4);
  if (mix.repeat) which = n % 2;
  static const char *lines[] = {"/usr/sbin/one", "/usr/sbin/two -p 'a b' --x=\"1 2\"", "three\\ times  -v", "/opt/four -u nobody -p inet:1@localhost"};
  r->line = lines[which]; r->kind = GOOD; uint32_t u = choose(k, 6);
  r->user = u < 3 ? users[u].name : ""; r->user_given = u < 3;
  if (pm(k, 120)) { r->user = pm(k, 500) ? "nosuch" : "nobodyx"; r->user_given = true; r->kind = BAD_USER; }
  else if (pm(k, 100)) { static const char *bad[] = {"/usr/sbin/five 'oops", "   ", "/usr/sbin/six \""}; r->line = bad[choose(k, 3)]; r->kind = BAD_LINE; }
  r->sent = now(); if (running(r->line)) r->may_be_running = true;
  reqs.push_back(r); count("cmd.launch"); trace("request %d: <%s> as <%s>", (int)reqs.size() - 1, r->line.c_str(), r->user.c_str());
  cmd->send(packet('l', z("aunch") + z(r->line) + r->user));
}
void finish() {
  closing = true; trace("the manager goes away"); count("obs.running_at_end"); cmd->close();
}
int total = 0;
void step(int n) {
  if (n == total) { after(mix.repeat ? 40 * SEC : (T)(5000 + choose("d.end", 20000)) * MS, finish); return; }
  int burst = pm("d.burst", 250) ? 1 + choose("d.burst", 3) : 0;
  send_request(n); while (burst-- > 0 && n + 1 < total) send_request(++n);
  static const T gap[] = {MS / 4, 10 * MS, SEC, 8 * SEC}; T g = (T)choose("d.gap", 1000) * gap[choose("d.gap", 4)] / 300;
  after(g, [n] { step(n + 1); });
}
void rep_round(int k) { // the same again and again: start, end
  heap_at.push_back(heap_live); if (getenv("SIM_LEAK")) heap_trace = k + 1;
  trace("after %d rounds: %+ld blocks", k, k ? heap_at.back() - heap_at[k - 1] : 0L);
  if (k == 8) {
    long a = heap_at[k] - heap_at[k - 1], b = heap_at[k - 1] - heap_at[k - 2], c = heap_at[k - 2] - heap_at[k - 3];
    count("check.heap"); if (a > 0 && b > 0 && c > 0) { violate("cleanup.memory", "every process started leaves %ld blocks of memory allocated", std::min(a, std::min(b, c))); if (getenv("SIM_LEAK")) heap_report(k - 1, k - 1); }
    finish(); return;
  }
  if (k == 0) choices_mark(); else choices_rewind();
  send_request(0); after(60 * SEC, [k] { for (auto *p : procs) if (!p->noticed) end(p); after(60 * SEC, [k] { rep_round(k + 1); }); });
}
void cb_finished(MilterFinishedEmittable *, gpointer) { trace("finished"); quit = true; milter_manager_process_launcher_shutdown(launcher); }
}
}
using namespace world;
extern "C" {
gboolean g_spawn_async_with_pipes(const gchar *wd, gchar **argv, gchar **envp, GSpawnFlags flags, GSpawnChildSetupFunc setup, gpointer data, GPid *pid, gint *in, gint *out, gint *err, GError **error) {
  typedef gboolean (*F)(const gchar *, gchar **, gchar **, GSpawnFlags, GSpawnChildSetupFunc, gpointer, GPid *, gint *, gint *, gint *, GError **);
  if (!on) { static F f = (F)dlsym(RTLD_NEXT, "g_spawn_async_with_pipes"); return f(wd, argv, envp, flags, setup, data, pid, in, out, err, error); }
  string line; for (gchar **a = argv; *a; a++) line += (a == argv ? "" : "|") + string(*a);
  trace("start [%s]", line.c_str()); count("check.start");
  string want; bool asked = false;
  for (Req *q : reqs) { if (q->replied || q->kind == BAD_USER) continue; gchar **v; gint n; if (!g_shell_parse_argv(q->line.c_str(), &n, &v, NULL)) continue; string l; for (gchar **a = v; *a; a++) l += (a == v ? "" : "|") + string(*a); g_strfreev(v); if (l == line) { want = q->line; asked = true; break; } }
  if (!asked) { violate("launch.unexpected", "[%s] is started and nobody asked for it", line.c_str()); g_set_error(error, G_SPAWN_ERROR, G_SPAWN_ERROR_FAILED, "no"); return FALSE; }
  if (Proc *p = running(want)) violate("launch.twice", "<%s> is started though process %d runs it", want.c_str(), p->pid);
  if (!(flags & G_SPAWN_DO_NOT_REAP_CHILD)) violate("launch.wrong", "the end of <%s> could not be seen", want.c_str());
  uint32_t f = choose("d.spawn", 12);
  if (f == 11 && !mix.repeat) { count("fault.spawn_fails"); starts[want].push_back({false, false, Identity(), 0}); g_set_error(error, G_SPAWN_ERROR, choose("d.spawn", 2) ? G_SPAWN_ERROR_NOENT : G_SPAWN_ERROR_FORK, "Failed to fork (Resource temporarily unavailable)"); return FALSE; }
  // the new process
  child_id = Identity(); fail_call = 0; uint32_t cf = choose("d.spawn", 12); if (cf >= 9) { fail_call = cf - 8; } bool gone = false;
  if (setup) { in_child = true; if (setjmp(child_exit) == 0) setup(data); else gone = true; in_child = false; }
  Proc *p = new Proc; p->pid = 40000 + (int)procs.size(); p->line = want; starts[want].push_back({true, gone, child_id, fail_call});
  bool first = true; for (Req *q : reqs) if (!q->replied && q->line == want) { if (!first) q->may_be_running = true; first = false; } // the others may have come later
  static Pipe nobody; Peer *po = &nobody, *pe = &nobody;
  string nm = "proc" + std::to_string(p->pid); p->out = attach(po, nm + ".out"); p->err = attach(pe, nm + ".err"); p->end = attach(&nobody, nm + ".end");
  *pid = p->pid; if (in) *in = -1; if (out) *out = p->out->fd; if (err) *err = p->err->fd;
  procs.push_back(p);
  uint32_t how = choose("d.proc", 8); p->daemon = how == 7; p->status = gone ? 1 << 8 : how < 3 ? 0 : how == 3 ? 9 : how == 4 ? 1 << 8 : 0;
  static const T life[] = {MS, 200 * MS, 5 * SEC, 60 * SEC}; uint32_t l = choose("d.proc", 5); p->life = l == 4 ? -1 : (T)(1 + choose("d.proc", 1000)) * life[l] / 400;
  if (gone) p->life = MS; if (mix.repeat && p->life < 0) p->life = SEC; if (p->life >= 0) after(p->life, [p] { end(p); });
  talk(p);
  return TRUE;
}
GSource *g_child_watch_source_new(GPid pid) {
  typedef GSource *(*F)(GPid); if (!on) { static F f = (F)dlsym(RTLD_NEXT, "g_child_watch_source_new"); return f(pid); }
  GSource *s = g_source_new(&watch_funcs, sizeof(Watch)); ((Watch *)s)->pid = pid; Proc *p = proc_of(pid);
  if (!p) violate("launch.wrong", "the end of process %d is waited for", pid); else ((Watch *)s)->tag = g_source_add_unix_fd(s, p->end->fd, G_IO_IN);
  return s;
}
int getpwnam_r(const char *name, struct passwd *pw, char *buf, size_t n, struct passwd **res) {
  typedef int (*F)(const char *, struct passwd *, char *, size_t, struct passwd **);
  if (!on) { static F f = (F)dlsym(RTLD_NEXT, "getpwnam_r"); return f(name, pw, buf, n, res); }
  const User *u = user_of(name); *res = nullptr; if (!u) return 0;
  snprintf(buf, n, "%s", u->name); memset(pw, 0, sizeof *pw); pw->pw_name = buf; pw->pw_uid = u->uid; pw->pw_gid = u->gid; pw->pw_dir = pw->pw_shell = pw->pw_passwd = pw->pw_gecos = buf; *res = pw; return 0;
}
static int may(int which) { if (fail_call == which) { count(which == 1 ? "fault.setgid" : which == 2 ? "fault.initgroups" : "fault.setuid"); errno = which == 3 ? EAGAIN : EPERM; return -1; } if (child_id.uid) { errno = EPERM; return -1; } return 0; }
// (the names of the C library; nothing of this reaches the system while a world runs)
int setgid(gid_t g) { if (!in_child) { errno = EPERM; return -1; } if (may(1)) return -1; child_id.gid = g; return 0; }
int initgroups(const char *u, gid_t) { if (!in_child) { errno = EPERM; return -1; } if (may(2)) return -1; child_id.groups = u; return 0; }
int setuid(uid_t u) { if (!in_child) { errno = EPERM; return -1; } if (may(3)) return -1; child_id.uid = u; return 0; }
uid_t geteuid(void) { return in_child ? child_id.uid : (uid_t)syscall(SYS_geteuid); }
uid_t getuid(void) { return in_child ? child_id.uid : (uid_t)syscall(SYS_getuid); }
gid_t getegid(void) { return in_child ? child_id.gid : (gid_t)syscall(SYS_getegid); }
gid_t getgid(void) { return in_child ? child_id.gid : (gid_t)syscall(SYS_getgid); }
void _exit(int s) { if (in_child) { child_status = s; longjmp(child_exit, 1); } for (;;) syscall(SYS_exit_group, s); }
void exit(int s) { if (in_child) { child_status = s; longjmp(child_exit, 1); } static void (*f)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit"); f(s); __builtin_unreachable(); }
}
namespace world {
void run_launcher(const string &) {
  const string k = "D.cfg"; on = true;
  knobs.lat_class = (int)choose(k, 4); if (choose(k, 2)) knobs.seg = 1 + choose(k, 600);
  if (mix.faults_net) { if (choose(k, 3) == 0) knobs.subset = choose(k, 900); if (choose(k, 4) == 0) knobs.eintr = choose(k, 300); if (choose(k, 3) == 0) knobs.short_read = choose(k, 500); if (choose(k, 3) == 0) knobs.sched_jitter = choose(k, 100); }
  active = true;
  cmd = attach(&cmd_peer, "launcher.in"); rep = attach(&rep_peer, "launcher.out");
  GIOChannel *ic[2]; for (int j = 0; j < 2; j++) { ic[j] = g_io_channel_unix_new((j ? rep : cmd)->fd); g_io_channel_set_encoding(ic[j], NULL, NULL); g_io_channel_set_flags(ic[j], G_IO_FLAG_NONBLOCK, NULL); g_io_channel_set_close_on_unref(ic[j], TRUE); }
  MilterReader *reader = milter_reader_io_channel_new(ic[0]); MilterWriter *writer = milter_writer_io_channel_new(ic[1]); g_io_channel_unref(ic[0]); g_io_channel_unref(ic[1]);
  launcher = milter_manager_process_launcher_new();
  milter_agent_set_reader(MILTER_AGENT(launcher), reader); milter_agent_set_writer(MILTER_AGENT(launcher), writer); g_object_unref(reader); g_object_unref(writer);
  MilterEventLoop *loop = milter_glib_event_loop_new(NULL); milter_agent_set_event_loop(MILTER_AGENT(launcher), loop); g_object_unref(loop);
  GError *e = NULL; if (!milter_agent_start(MILTER_AGENT(launcher), &e)) { fprintf(stderr, "start: %s\n", e->message); _exit(3); }
  g_signal_connect(launcher, "finished", G_CALLBACK(cb_finished), NULL);
  total = 2 + choose("d.n", 14);
  if (mix.repeat) after(SEC, [] { rep_round(0); }); else after(SEC, [] { step(0); });
  stuck_hook([]() -> bool { violate("stuck", "the launcher waits for ever%s", closing ? " after the manager went away" : ""); finish_run(); return false; });
  milter_manager_process_launcher_run(launcher);
  stuck_hook(nullptr);
  if (!closing) violate("launch.quit", "the launcher stopped while the manager was there");
  for (size_t i = 0; i < reqs.size(); i++) if (!reqs[i]->replied) violate("answer.missing", "request %zu for <%s> got no reply", i, reqs[i]->line.c_str());
  for (auto &q : starts) for (auto &x : q.second) if (x.ok) violate("launch.wrong", "<%s> was started and no reply says so", q.first.c_str());
  trace("released"); g_object_unref(launcher);
  int left = 0; for (auto &f : fd_open_list()) if ((f.find("proc") != string::npos && f.find(".end") == string::npos) || f.find("launcher.") != string::npos) { left++; violate("cleanup.fd", "at the end: descriptor left open: %s", f.c_str()); }
  count("check.fds");
  active = false; finish_run();
}
}
