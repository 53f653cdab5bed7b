// World A: the whole manager between scripted MTAs and scripted milters.
#include "world.h"
#include <cstring>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <glib-object.h>
#include "repo.h"
using namespace sim; using namespace wire; using namespace model;

namespace world {
static bool pm(const string &key, int p) { return p > 0 && chance(key, (uint32_t)p, 1000); }

// ---- configuration class standing in for the Ruby one --------------------------
typedef struct { MilterManagerConfiguration parent; } SimConf;
typedef struct { MilterManagerConfigurationClass parent; } SimConfClass;
extern "C" { gsize milter_manager_simulation_max_on_memory_body_size = 5242880; }
static int n_maintain = 0, n_connected = 0;
static gboolean sc_true(MilterManagerConfiguration *, const gchar *, GError **) { return TRUE; }
static gboolean sc_maintain(MilterManagerConfiguration *, GError **) { n_maintain++; trace("maintain"); return TRUE; }
static void note_load(); static bool load_custom_file(MilterManagerConfiguration *); static void apply_config(MilterManagerConfiguration *);
static gboolean sc_load(MilterManagerConfiguration *c, const gchar *, GError **) { if (mix.ctl) { apply_config(c); note_load(); } return TRUE; }
static gboolean sc_load_custom(MilterManagerConfiguration *c, const gchar *, GError **e) { if (load_custom_file(c)) return TRUE; g_set_error(e, g_quark_from_static_string("sim"), 7, "bad custom configuration"); return FALSE; }
static gboolean sc_loop(MilterManagerConfiguration *, MilterEventLoop *, GError **) { return TRUE; }
static void session_connected(MilterManagerLeader *l);
static void sc_connected(MilterManagerConfiguration *, MilterManagerLeader *l) { n_connected++; session_connected(l); }
static gchar *sc_dump(MilterManagerConfiguration *) { return g_strdup("sim"); }
static void sim_conf_class_init(gpointer k, gpointer) {
  MilterManagerConfigurationClass *c = (MilterManagerConfigurationClass *)k;
  c->load = sc_load; c->load_custom = sc_load_custom; c->maintain = sc_maintain; c->event_loop_created = sc_loop; c->connected = sc_connected; c->dump = sc_dump;
  // clear: leave the parent's behaviour of "nothing more to clear"
  c->clear = [](MilterManagerConfiguration *, GError **) -> gboolean { return TRUE; };
}
static GType sim_conf_type() {
  static GType t = 0;
  if (!t) { GTypeInfo i; memset(&i, 0, sizeof i); i.class_size = sizeof(SimConfClass); i.class_init = (GClassInitFunc)sim_conf_class_init; i.instance_size = sizeof(SimConf);
    t = g_type_register_static(MILTER_TYPE_MANAGER_CONFIGURATION, "SimConf", &i, (GTypeFlags)0); }
  return t;
}

static void late_dial(); static T shut_at;
struct SessionActor; static bool parallel_dial() { return mix.max_conn || mix.accept_err || mix.shut; }
static vector<SessionActor *> sessions;
static int neg_lock = -1; static std::deque<int> neg_wait;
static MilterClient *client; static string listen_addr;
static void repeat_next(int k); static void check_left(const char *when); static void end_phase(); static int ctl_fd; static int live_sessions = 0; static bool shutting_down = false; static bool run_returned = false;

static string show_set(const std::set<string> &s) { string r = "{"; for (auto &x : s) { if (r.size() > 1) r += " | "; r += show(x); } return r + "}"; }

// ---- milter side ------------------------------------------------------------------
struct MilterConn : Peer {
  int i, k; Conn *c = nullptr; Reader rd; size_t ep = 0; bool negotiated = false, in_body = false, skipping = false; string body; bool first_body_done = false;
  char macro_ctx = 0; map<string, string> macros; bool have_macros = false; bool done = false, got_quit = false, closed = false, diverged = false;
  void handle_lenient(char cmd, const string &d);
  bool body_cut = false; T last_cmd = 0, ans_due = 0; int n_cmd = 0; bool failed = false;
  SessionActor *sa();
  Session *mod();
  void bad(const char *tag, const string &t);
  void on_open(Conn *cc) override { c = cc; }
  void on_data(Conn *, const string &b) override {
    if (done) return;
    rd.feed(b); char cmd; string d;
    while (!done && rd.next(cmd, d)) handle(cmd, d);
    if (!done && rd.left() > 4) stall_early(rd.buf[rd.pos + 4]);
  }
  void stall_early(char cmd);
  void on_close(Conn *, bool) override;
  void handle(char cmd, const string &d);
  void flush_body();
  void watch_vanish();
  void answer(const Exp &e, bool reply_needed);
  void send(const string &p) { if (!done && c->open()) c->send(p); }
  void fail(Fail f);
  void finish_check();
};
// the process that starts milters
static std::map<std::pair<int, int>, int> tries; static std::map<std::pair<int, int>, T> first_try; static std::map<int, T> launched; static std::map<int, int> n_launched;
struct Launcher : Peer {
  Conn *out = nullptr; Reader rd;   // out: what the manager reads
  void on_data(Conn *, const string &b) override { rd.feed(b); char cmd; string d; while (rd.next(cmd, d)) request(string(1, cmd) + d); }
  void on_close(Conn *, bool) override {}
  void request(const string &p) {
    trace("launcher < %s", show(p, 80).c_str()); count("check.launch");
    int found = -1; for (size_t i = 0; i < cfg.milters.size(); i++) { const MilterCfg &m = cfg.milters[i]; if (m.command.empty()) continue; if (p == z("launch") + z(m.command + (m.options.empty() ? "" : " " + m.options)) + m.user) found = (int)i; }
    if (found < 0) { violate("launch.wrong", "the launcher was asked for %s", show(p, 80).c_str()); return; }
    launched[found] = now(); int fails = 0, running = 0; for (auto &t : tries) if (t.first.second == found) { fails++; if (now() - first_try[t.first] < 10 * SEC) running++; }
    if (!running) violate("launch.unexpected", "milter %d was started though nobody failed to reach it", found);
    if (++n_launched[found] > fails) violate("launch.unexpected", "milter %d was started %d times after %d failures to reach it", found, n_launched[found], fails);
    after(choose("launcher", 100) * MS, [this] { if (out && out->open()) out->send(packet(chance("launcher", 1, 3) ? 'e' : 's', chance("launcher", 1, 2) ? "uccess" : z("rror") + "already launched")); });
  }
};
static Launcher launcher;
struct MilterSvc : Service {
  int i;
  ConnectResult on_connect(T &delay) override {
    if (neg_lock < 0) { trace("stray connect to milter %d", i); return CONNECT_REFUSED; }
    if (neg_lock >= 1000) return CONNECT_OK;
    NegPlan &p = neg_plan(i, neg_lock); delay = p.conn_delay;
    if (p.conn) {
      bool later = (p.conn == 2 || p.conn == 4) && !cfg.milters[i].is_unix(); // when the failure shows
      int n = ++tries[{neg_lock, i}]; if (n == 1) first_try[{neg_lock, i}] = now() + (later ? delay : 0);
      if (n > (retried(i, p) ? 2 : 1)) violate("launch.connect", "session %d: connection attempt %d to milter %d", neg_lock, n, i);
      if (n == 2) {
        count("check.retry"); T t = now() - first_try[{neg_lock, i}]; if (t < 4 * SEC || t > 8 * SEC) violate("launch.connect", "session %d: milter %d tried again after %lld ms", neg_lock, i, (long long)(t / MS));
        if (launches(i) && !cfg.no_launcher) { count("check.launched"); auto it = launched.find(i); if (it == launched.end() || it->second < first_try[{neg_lock, i}]) violate("launch.missing", "session %d: milter %d was not started", neg_lock, i); }
        if (p.up) { count("obs.up_at_retry"); return CONNECT_OK; }
      }
    }
    switch (p.conn) { case 1: return CONNECT_REFUSED_SYNC; case 2: return CONNECT_REFUSED; case 3: return CONNECT_NEVER; case 4: return CONNECT_UNREACH; }
    return CONNECT_OK;
  }
  Peer *accept(Conn *cc) override;
};

// ---- MTA side -----------------------------------------------------------------------
struct SessionActor : Peer {
  int k; Session mod; Conn *c = nullptr; Reader rd; vector<MilterConn *> mc;
  string key; bool waiting = false, done = false, closed = false, broken = false, negotiated = false;
  Answer ans; char cur = 0; uint64_t guard = 0; int n_cmds = 0, break_at = -1; int break_how = 0; int silent_at = -1, silent_how = 0; bool silent = false, settled = false;
  // script state
  enum St { CONNECT, HELO, MSG, RCPT, DATA, HDR, EOH, BODY, EOM, QUIT, OVER } st = CONNECT;
  int helos = 0, msgs = 0, n_msgs = 1, rcpts = 0, n_rcpts = 1, hdrs = 0, n_hdrs = 2, chunks = 0, n_chunks = 1; bool in_msg = false, leadspc = false; int good_rcpts = 0;
  bool stop_body = false; size_t chunk_len = 0; bool big = false;
  vector<std::pair<char, string>> mods; map<int, string> macro_req; string hist; string cov_prev;
  bool disk = false; int disk_msg = -1; std::set<string> cands; void lenient_mods(); // a disk error met: what follows is only judged by the bodies
  bool aligned = false, opened = false, refused = false; T done_at = 0, dialed = 0, not_full = 0; // not_full: since when one more could have been served
  void watch_admission();
  int dk; // k as it shows in data and choices
  SessionActor(int k) : k(k), mod(k), dk(mix.repeat ? 0 : k) { key = "s" + std::to_string(dk); }
  void start(); void begin();
  void on_open(Conn *cc) override;
  void on_data(Conn *, const string &b) override { if (closed && broken) return; if (vanished) { on_vanished_data(); return; } rd.feed(b); char cmd; string d; while (rd.next(cmd, d)) handle(cmd, d); }
  void on_close(Conn *, bool rst) override;
  void negotiate();
  void handle(char cmd, const string &d);
  void final_answer(const string &pkt);
  void send_cmd(char cmd, const string &data, bool with_macros = true);
  void next();
  void later(T d) { after(d, [this] { if (!done) next(); }); }
  T think() { if (!pm(key + ".think", mix.p_delay)) return 0; static const T dd[] = {50 * US, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 500 * MS, 2 * SEC, 5 * SEC}; return dd[choose(key + ".think", 8)]; }
  void end_message(bool abort);
  void finish();
  void check_mods();
  void do_break();
  bool fall_silent(); T broke = 0, vanished = 0; MilterManagerLeader *leader = nullptr; void on_vanished_data(); void expect_told(); bool vanish_told = false, noticed = false, eager = false, started = false;
  T break_bound() { return 15 * SEC; }
  void bad(const char *tag, const string &t) { violate(tag, "session %d: %s [history: %s]", k, t.c_str(), hist.size() > 500 ? ("..." + hist.substr(hist.size() - 500)).c_str() : hist.c_str()); }
};
// what the configured connection check (netstat in a real deployment) says about an MTA
static gboolean on_connection_check(MilterManagerLeader *, gpointer p) {
  SessionActor *s = (SessionActor *)p; count("check.connection");
  if (!s->vanished || s->noticed) return !s->vanished;
  s->noticed = true; trace("%s: the connection check finds the MTA gone", s->key.c_str()); count("check.connection_gone");
  s->broke = now(); s->expect_told();
  for (auto *t : sessions) if (t->eager && !t->started) { t->start(); break; }
  return FALSE;
}
static void session_connected(MilterManagerLeader *l) {
  if (!cfg.check_interval || neg_lock < 0 || neg_lock >= 1000) return;
  g_signal_connect(l, "connection-check", G_CALLBACK(on_connection_check), sessions[neg_lock]);
}
SessionActor *MilterConn::sa() { return sessions[k]; }
Session *MilterConn::mod() { return &sessions[k]->mod; }
static void wake_next();
#include "hostile.h"
#include "control.h"
Peer *MilterSvc::accept(Conn *cc) {
  if (neg_lock >= HOSTILE) return hostile_accept(i, cc);
  MilterConn *m = new MilterConn; m->i = i; m->k = neg_lock; m->c = cc;
  cc->name = "m" + std::to_string(i) + ".s" + std::to_string(sessions[neg_lock]->dk) + ".n" + std::to_string(sessions[neg_lock]->mc.size());
  sessions[neg_lock]->mc.push_back(m);
  return m;
}
void MilterConn::bad(const char *tag, const string &t) {
  if (diverged) return;
  diverged = true;
  violate(tag, "session %d, milter %s: %s [MTA history: %s]", k, cfg.milters[i].name.c_str(), t.c_str(), sa()->hist.size() > 400 ? ("..." + sa()->hist.substr(sa()->hist.size() - 400)).c_str() : sa()->hist.c_str());
}
void MilterConn::on_close(Conn *, bool) {
  closed = true; trace("m%d.s%d: closed by the manager", i, k);
  if (!done) { flush_body(); done = true; }
  if (c->open()) c->close();
}
void MilterConn::fail(Fail f) {
  static const char *n[] = {"none", "close", "rst", "garbage", "silent", "partial", "stall"};
  flush_body(); count(string("fault.milter_") + n[f]); trace("m%d.s%d: fails (%s)", i, k, n[f]); failed = true;
  switch (f) {
    case F_CLOSE: done = true; c->close(); break;
    case F_RST: done = true; c->reset(); break;
    case F_GARBAGE: { static const string g[] = {packet('?', "junk"), string("\0\0\0\0", 4) + "xxxx", packet('y', "9"), packet('h', "noterm"), packet('+', ""), packet('m', "ab"), packet('i', "zz"), packet('O', "short"), "\x7f\xff\xff\xff" "zzzz"}; c->send(g[choose("m" + std::to_string(i) + ".garbage", 9)]); done = true; break; }
    case F_STALL: c->stall(true); done = true; break;
    case F_SILENT: done = true; break;
    case F_PARTIAL: c->send(packet('y', z("550 5.0.0 x")).substr(0, 3 + choose("m" + std::to_string(i) + ".garbage", 8))); done = true; break;
    default: break;
  }
}
// a command is arriving: a milter that stops reading there stops before the rest of it
void MilterConn::stall_early(char cmd) {
  if (!mix.p_stall || cmd != 'B' || in_body) return;
  auto &v = mod()->ms[i].exp; size_t j = ep;
  while (j < v.size() && v[j].cmd != cmd && (v[j].optional || v[j].truncatable)) j++;
  if (j >= v.size() || v[j].cmd != cmd || !v[j].reply) return;
  if (script(i, k, v[j].msg, cmd, v[j].idx).fail == F_STALL) { ep = j + 1; count("fault.milter_stall_writing"); fail(F_STALL); }
}
// a milter still working on a command while the MTA is gone must be told so by the next connection check
void MilterConn::watch_vanish() {
  T lim = cfg.check_interval * SEC + 2 * SEC;
  if (!cfg.check_interval || !sa()->vanished || done || ans_due <= now() + lim) return;
  T due = ans_due; count("check.vanish_watch");
  after(lim, [this, due] { if (!done && ans_due == due) bad("break.unnoticed", "a milter at work was not told within the connection check interval (" + std::to_string(cfg.check_interval) + " s) that the MTA is gone"); });
}
void MilterConn::flush_body() {
  if (!in_body) return;
  in_body = false;
  if (sa()->disk) return;
  auto &v = mod()->ms[i].exp;
  if (ep >= v.size()) return;
  const Exp &e = v[ep];
  bool ok = body == e.data || ((e.prefix_ok || e.truncatable || sa()->broken || (!e.reply && closed && !got_quit)) && body.size() <= e.data.size() && e.data.compare(0, body.size(), body) == 0);
  if (!ok) {
    size_t j = 0; while (j < body.size() && j < e.data.size() && body[j] == e.data[j]) j++;
    bad("input.body", "body of " + std::to_string(body.size()) + " bytes received, expected " + std::to_string(e.data.size()) + "; first difference at " + std::to_string(j) + ": got " + show(body.substr(j, 40)) + " expected " + show(e.data.substr(std::min(j, e.data.size()), 40)));
  }
  ep++;
}
void MilterConn::handle(char cmd, const string &d) {
  auto &x = mod()->ms[i]; auto &v = x.exp;
  n_cmd++;
  trace("m%d.s%d < %c %s", i, k, cmd, show(d, 60).c_str());
  if (cmd == 'D') {
    if (d.empty()) { bad("input.macros", "empty macro packet"); return; }
    if (in_body && d[0] != 'E') flush_body();
    auto p = split0(d.substr(1)); macros.clear(); macro_ctx = d[0]; have_macros = true;
    // empty values vanish at the end of split0: rebuild pairs exactly
    { string s = d.substr(1); vector<string> w; size_t q = 0; while (q < s.size()) { size_t e = s.find('\0', q); if (e == string::npos) e = s.size(); w.push_back(s.substr(q, e - q)); q = e + 1; } for (size_t j = 0; j + 1 < w.size(); j += 2) macros[w[j]] = w[j + 1]; }
    return;
  }
  if (cmd == 'Q' || cmd == 'K') {
    flush_body();
    if (got_quit) bad("input.order", "quit received twice");
    got_quit = true; done = true; c->close();
    return;
  }
  if (got_quit) { bad("input.order", string("command ") + cmd + " after quit"); return; }
  if (sa()->broke && now() > sa()->broke + sa()->break_bound() && cmd != 'A') { bad("break.unnoticed", string("command ") + cmd + " received long after the MTA was gone"); return; }
  if (sa()->disk) { handle_lenient(cmd, d); return; }
  string edata = d;
  if (cmd == 'E' && x.skip) edata = "";
  else if (cmd == 'E' && !d.empty()) { // last piece of body inside the end of message
    if (!in_body) { size_t j = ep; while (j < v.size() && v[j].optional) j++; if (j < v.size() && v[j].cmd == 'B') { ep = j; in_body = true; body.clear(); first_body_done = true; } }
    if (in_body) body += d;
    edata = "";
  }
  if (cmd == 'B') {
    if (!in_body) {
      size_t j = ep; while (j < v.size() && v[j].cmd != 'B' && (v[j].optional || v[j].truncatable)) j++;
      if (j >= v.size() || v[j].cmd != 'B') { bad("input.order", string("unexpected body chunk, expected ") + (j < v.size() ? string(1, v[j].cmd) : "nothing")); return; }
      ep = j; in_body = true; body.clear(); first_body_done = false;
    }
    if (d.size() > 65535) bad("input.body", "body chunk of " + std::to_string(d.size()) + " bytes");
    body += d; have_macros = false;
    const Exp e = v[ep];
    if (!first_body_done) { first_body_done = true; answer(e, e.reply); }
    else if (e.reply) { send(packet('c')); }
    return;
  }
  flush_body();
  size_t j = ep;
  while (j < v.size() && v[j].cmd != cmd && (v[j].optional || v[j].truncatable)) j++;
  if (cmd == 'A') {
    // an abort may also come where the manager gives up early on what was to follow
    bool skips = false; for (size_t q = ep; q < j; q++) if (!v[q].optional) skips = true;
    if (skips && ep > 0 && v[ep - 1].cmd == 'E' && j < v.size() && v[j].cmd == 'A') { v[j].optional = true; count("obs.abort_after_eom"); return; } // this message's or a later one's
    if (j < v.size() && v[j].cmd == 'A') { ep = j + 1; return; }
    if (ep > 0 && ep - 1 < v.size() && v[ep - 1].cmd == 'A') { count("obs.double_abort"); return; }
    if (ep > 0 && ep - 1 < v.size() && v[ep - 1].cmd == 'E') { count("obs.abort_after_eom"); return; }
    if (sa()->broken || x.loose) { return; }
    bad("input.order", string("unexpected abort, expected ") + (j < v.size() ? string(1, v[j].cmd) : "nothing"));
    return;
  }
  if (x.loose && (j >= v.size() || v[j].cmd != cmd)) return;
  if (j >= v.size() || v[j].cmd != cmd) {
    bad("input.order", string("got command ") + cmd + " " + show(d, 60) + ", expected " + (j < v.size() ? string(1, v[j].cmd) + " " + show(v[j].data, 60) : string("nothing")));
    return;
  }
  ep = j + 1;
  const Exp e = v[j];
  if (canon(cmd, edata) != canon(cmd, e.data)) {
    if (cmd == 'O') { char b[200]; snprintf(b, sizeof b, "offered version %u actions 0x%x steps 0x%x, the MTA's offer is version %u actions 0x%x steps 0x%x", g32(d, 0), g32(d, 4), g32(d, 8), g32(e.data, 0), g32(e.data, 4), g32(e.data, 8)); bad("negotiate.offer", b); }
    else bad("input.data", string("command ") + cmd + " carried " + show(edata) + ", expected " + show(e.data));
  }
  if (e.check_macros) {
    map<string, string> got; if (have_macros && macro_ctx == cmd) got = macros;
    if (got != e.macros) { string g, w; for (auto &p : got) g += p.first + "=" + show(p.second) + " "; for (auto &p : e.macros) w += p.first + "=" + show(p.second) + " "; bad("input.macros", string("macros for ") + cmd + ": got " + g + "; expected " + w); }
  }
  have_macros = false;
  if (cmd == 'O') {
    NegPlan &p = neg_plan(i, k);
    auto f = [this, &p, &x] {
      if (done) return;
      if (p.fail != F_NONE) { fail(p.fail); return; }
      string r = u32(x.ver) + u32(x.actions) + u32(x.steps);
      if (x.has_req) for (auto &m : x.macro_req) r += u32(m.first) + z(m.second);
      trace("m%d.s%d > O %u 0x%x 0x%x", i, k, x.ver, x.actions, x.steps);
      negotiated = true; send(packet('O', r));
    };
    if (p.delay) after(p.delay, f); else f();
    return;
  }
  answer(e, e.reply);
}
// the content a milter is given must be whole whenever it is told the message is complete
void MilterConn::handle_lenient(char cmd, const string &d) {
  auto &x = mod()->ms[i];
  if (cmd == 'B') { if (!in_body) { in_body = true; body.clear(); } body += d; if (!(x.steps & P_NR_BODY)) send(packet('c')); return; }
  string b = in_body ? body : ""; in_body = false;
  if (cmd == 'A') return;
  if (cmd == 'E') {
    b += d; count("check.lenient_body");
    if (!x.skip && !(x.steps & P_NOBODY) && !sa()->cands.count(b)) { string w; for (auto &s : sa()->cands) w += std::to_string(s.size()) + " "; bad("input.body", "told the message is complete after a body of " + std::to_string(b.size()) + " bytes " + show(b, 30) + "; whole bodies have " + w + "bytes"); }
    Exp e; e.cmd = 'E'; e.msg = mod()->msg; e.idx = 0; answer(e, true); return;
  }
  if (!(x.steps & nr_flag(cmd))) send(packet('c'));
}
void MilterConn::answer(const Exp &e, bool reply_needed) {
  if (!reply_needed) return;
  const Script &s = script(i, k, e.msg, e.cmd, e.idx);
  auto &x = mod()->ms[i];
  char cmd = e.cmd;
  auto fin = [this, &s, cmd, &x] {
    if (done) return;
    if (s.fail != F_NONE) { fail(s.fail); return; }
    string out, nb; bool rep = false;
    if (cmd == 'E') for (auto &m : s.mods) {
      uint32_t need = 0; string p;
      switch (m.c) {
        case 'h': need = A_ADDHDRS; p = packet('h', z(m.a) + z(m.b)); break;
        case 'i': need = A_ADDHDRS; p = packet('i', u32(m.idx) + z(m.a) + z(m.b)); break;
        case 'm': need = A_CHGHDRS; p = packet('m', u32(m.idx) + z(m.a) + z(m.b)); break;
        case 'b': need = A_CHGBODY; for (size_t o = 0; o < m.a.size(); o += 65535) p += packet('b', m.a.substr(o, 65535)); break;
        case '+': need = m.b.empty() ? A_ADDRCPT : A_ADDRCPT_PAR; p = m.b.empty() ? packet('+', z(m.a)) : packet('2', z(m.a) + z(m.b)); break;
        case '-': need = A_DELRCPT; p = packet('-', z(m.a)); break;
        case 'e': need = A_CHGFROM; p = packet('e', z(m.a) + (m.b.empty() ? "" : z(m.b))); break;
        case 'q': need = A_QUARANTINE; p = packet('q', z(m.a)); break;
      }
      if (!(x.actions & need)) continue;
      count(string("mod.") + m.c); out += p; if (m.c == 'b') rep = true, nb += m.a;
    }
    if (rep) sa()->cands.insert(nb);
    char a = s.ans; if (a == 's' && !(x.steps & P_SKIP)) a = 'c';
    if (!s.code.empty()) out += packet('y', z(s.code)); else out += packet(a);
    trace("m%d.s%d > %s", i, k, show(out, 60).c_str()); count(string("answer.") + cmd + "." + (s.code.empty() ? a : 'y'));
    send(out);
    if (s.idle) { count("fault.milter_idle_close"); trace("m%d.s%d: closes behind its answer", i, k); failed = true; flush_body(); done = true; c->close(); return; }
    if (cmd == 'B' && a != 'c') flush_body(); // nothing more of this body may come
  };
  T d = s.delay;
  for (int p = 0; p < s.progress; p++) { d += p && s.gap ? s.gap : 300 * MS; after(d, [this] { send(packet('p')); }); }
  if (s.progress) d += s.gap ? s.gap : 100 * MS;
  if (d) { ans_due = now() + d; after(d, [this, fin] { ans_due = 0; fin(); }); watch_vanish(); } else fin();
}
void MilterConn::finish_check() {
  auto &x = mod()->ms[i]; auto &v = x.exp;
  if (diverged) return;
  if (c->open() && !closed && !c->sut_closed) bad("cleanup.milter", "connection still open after the session ended");
  if (sa()->broken || x.loose || sa()->disk) return;
  for (size_t j = ep; j < v.size(); j++) if (!v[j].optional && !v[j].truncatable) {
    if (v[j].cmd == 'A' && (got_quit || closed)) continue;     // quit ends the message too
    if (!v[j].reply && closed && !got_quit) { count("obs.unanswered_command_cut_by_quit"); continue; } // the session was over before it could be sent
    bad("input.missing", string("never got command ") + v[j].cmd + " " + show(v[j].data, 60)); break;
  }
}

void SessionActor::start() {
  if (started) return;
  started = true;
  if (shutting_down) { late_dial(); done = true; return; }
  if (parallel_dial()) { c = dial(listen_addr, this, key); live_sessions++; dialed = not_full = now(); watch_admission(); return; }
  if (neg_lock >= 0) neg_wait.push_back(k); else begin();
}
// a connection made after the shutdown request must never be served
struct LatePeer : Peer {
  void on_open(Conn *) override { violate("shutdown", "a connection made after the shutdown request was accepted"); }
};
static void late_dial() { if (listening(listen_addr)) { count("check.late_connection"); dial(listen_addr, new LatePeer, "late"); } }
// how many sessions the manager serves, as seen from outside
static int served() { int n = 0; for (auto *s : sessions) if (s->opened && !s->done && !s->c->sut_closed) n++; return n; }
static int serving() { int n = 0; for (auto *s : sessions) if (s->opened && !s->c->sut_closed) n++; return n; } // the most the manager may count
static int errs_injected = 0;
void SessionActor::watch_admission() {
  if (opened || done) return;
  if (cfg.max_conn && serving() >= cfg.max_conn) not_full = now();
  T lim = (1 + errs_injected) * (cfg.suspend + 3) * SEC + (mix.p_mta_break || mix.p_fail_cmd ? 30 * SEC : 0);
  if (now() - not_full > lim) { bad("admission", "not accepted within " + std::to_string(lim / SEC) + " s although " + std::to_string(served()) + " sessions of at most " + std::to_string(cfg.max_conn) + " are being served"); finish_run(); }
  after(500 * MS, [this] { watch_admission(); });
}
void SessionActor::begin() {
  neg_lock = k;
  if (c) { negotiate(); return; }
  live_sessions++;
  c = dial(listen_addr, this, key);
  if (!c) { bad("admission", "nobody listens"); neg_lock = -1; done = true; live_sessions--; return; }
  after(0, [this] { });
}
static void release_lock(int k) {
  if (neg_lock != k) return;
  neg_lock = -1;
  wake_next();
}
void SessionActor::on_open(Conn *) {
  trace("%s: accepted", key.c_str()); opened = true;
  if (refused) { bad("shutdown", "a connection not yet accepted at the shutdown request was accepted afterwards"); return; }
  if (cfg.max_conn) {
    count("check.admission"); int n = served();
    if (n > cfg.max_conn) bad("admission", std::to_string(n) + " sessions are being served at once, at most " + std::to_string(cfg.max_conn) + " are allowed");
    if (serving() >= cfg.max_conn) { count("obs.maximum_reached"); for (auto *s : sessions) if (!s->opened) s->not_full = now(); }
  }
  if (parallel_dial()) { if (neg_lock >= 0) neg_wait.push_back(k); else begin(); return; }
  negotiate();
}
void SessionActor::negotiate() {
  if (break_at == 0) { do_break(); return; }
  if (fall_silent()) return;
  mod.negotiate();
  waiting = true; cur = 'O'; ans = Answer();
  hist += "O ";
  c->send(packet('O', u32(mod.ver) + u32(mod.actions) + u32(mod.steps)));
  guard = after(mod.bound('O'), [this] { guard = 0; bad("progress", "no answer to the negotiation"); finish_run(); });
}
void SessionActor::on_close(Conn *, bool) {
  closed = true; trace("%s: closed by the manager", key.c_str());
  if (!done && !broken) {
    if (waiting && !mod.loose_answers) bad("answer.missing", string("connection closed while waiting for the answer to ") + cur);
    else if (st != OVER && !mod.loose_answers) bad("answer.closed", "connection closed in mid-session");
  }
  if (guard) cancel(guard), guard = 0;
  finish();
}
void SessionActor::finish() {
  if (done) return;
  done = true; live_sessions--; done_at = now();
  if (guard) cancel(guard), guard = 0;
  if (c && c->open()) c->close();
  release_lock(k);
}
// says nothing any more, without closing: the service has to give the session up
bool SessionActor::fall_silent() {
  if (silent_at < 0 || n_cmds < silent_at || done || waiting || (silent_how == 3 && !negotiated)) return silent;
  if (silent) return true;
  if (silent_how == 3 && st != EOM) return false;
  if (silent_how == 3) { c->stall(true); send_cmd('E', "", false); }
  silent = broken = true; static const char *n[] = {"silent", "silent_after_macros", "silent_in_packet", "not_reading"};
  count(string("fault.mta_") + n[silent_how]); trace("%s: MTA falls silent (%s)", key.c_str(), n[silent_how]); hist += "SILENT ";
  if (silent_how == 1 && negotiated) c->send(packet('D', "M" + z("{mac1}") + z("silence")));
  if (silent_how == 2) c->send(packet('M', z("<nobody@x>")).substr(0, 1 + choose(key + ".silent", 12)));
  if (guard) cancel(guard), guard = 0;
  guard = after((7210 + 60) * SEC + (silent_how == 3 ? mod.bound('E') : 0), [this] { guard = 0; if (!c->sut_closed) bad("progress", "the MTA has been silent for 7270 s and its session is still open"); finish(); });
  return true;
}
void SessionActor::do_break() {
  if (broken) return;
  if (break_how == 2) { // gone without a trace: only the connection check can tell
    broken = silent = true; vanished = now(); waiting = false; count("fault.mta_vanish"); trace("%s: MTA vanishes", key.c_str()); hist += "VANISH ";
    if (guard) cancel(guard), guard = 0;
    guard = after((7210 + 60 + 700) * SEC, [this] { guard = 0; if (!c->sut_closed) bad("progress", "the MTA has been gone for 7970 s and its session is still open"); finish(); });
    for (auto *m : mc) m->watch_vanish();
    release_lock(k); return;
  }
  broken = true; count(break_how ? "fault.mta_rst" : "fault.mta_fin"); trace("%s: MTA breaks the connection", key.c_str()); hist += break_how ? "RST " : "FIN ";
  broke = now();
  if (break_how) c->reset(); else c->close();
  expect_told();
  finish();
}
void SessionActor::expect_told() {
  T b = break_bound();
  after(b, [this, b] { for (auto *m : mc) if (!m->closed && !m->got_quit && !m->done) bad("break.unnoticed", "milter " + cfg.milters[m->i].name + " was not told within " + std::to_string(b / SEC) + " s that the MTA is gone"); });
}
// what still arrives where the MTA was: refused with a reset, or lost
void SessionActor::on_vanished_data() {
  if (!noticed || vanish_told || done) return;
  vanish_told = true;
  if (pm(key + ".brk", 700)) { trace("%s: the lost MTA's host answers with a reset", key.c_str()); c->reset(); finish(); }
}
void SessionActor::handle(char cmd, const string &d) {
  trace("%s < %c %s", key.c_str(), cmd, show(d, 70).c_str());
  if (!waiting) { bad("answer.unexpected", string("packet ") + cmd + " " + show(d, 40) + " received while no command awaits an answer"); return; }
  if (cur == 'O') {
    if (cmd != 'O') { bad("answer.wrong", string("negotiation answered with ") + cmd); finish_run(); }
    if (guard) cancel(guard), guard = 0;
    uint32_t v = g32(d, 0), a = g32(d, 4), s = g32(d, 8);
    size_t o = 12; macro_req.clear();
    while (o + 4 < d.size()) { uint32_t stg = g32(d, o); o += 4; size_t e = d.find('\0', o); if (e == string::npos) break; macro_req[stg] = d.substr(o, e - o); o = e + 1; }
    string err = mod.check_grant(v, a, s, macro_req);
    if (!err.empty()) bad("negotiate.grant", err);
    mod.granted(v, a, s); leadspc = s & P_HDR_LEADSPC;
    waiting = false; negotiated = true; mod.answered(); release_lock(k);
    later(think());
    return;
  }
  if (strchr("hmi+-2ebq", cmd)) {
    if (cur != 'E') { bad("answer.unexpected", string("modification ") + cmd + " before the end of the message"); return; }
    mods.push_back({cmd, d}); return;
  }
  if (cmd == 'p') { if (cur != 'E') count("obs.progress_elsewhere"); return; }
  if (!strchr("cartdysf4", cmd)) { bad("answer.wrong", string("unknown answer ") + cmd); return; }
  string p(1, cmd); p += d; while (!p.empty() && p.back() == '\0') p.pop_back();
  final_answer(p);
}
void SessionActor::final_answer(const string &p) {
  if (guard) cancel(guard), guard = 0;
  waiting = false;
  hist += "=" + p.substr(0, 12) + " ";
  if (!ans.allowed.count(p) && !mod.loose_answers) {
    bad("answer.verdict", string("command ") + cur + " answered " + show(p) + ", expected " + show_set(ans.allowed) + (ans.why.empty() ? "" : " (" + ans.why + ")"));
    finish_run();
  }
  { char b[100]; snprintf(b, sizeof b, "%c%c%s|", cur, p[0], cov_prev.c_str()); cov_prev = string(1, cur) + p[0]; uint64_t h = 1469598103934665603ull; for (char *q = b; *q; q++) { h ^= (unsigned char)*q; h *= 1099511628211ull; } cover(h); }
  if (cur == 'E' && strchr("cas", p[0])) { if (disk) lenient_mods(); else check_mods(); }
  mod.answered();
  // what a mail server does with the answer
  char a = p[0]; if (a == 'y') a = p.size() > 1 && p[1] == '5' ? 'r' : 't';
  switch (cur) {
    case 'C': if (a == 'c') st = HELO; else st = QUIT; break;
    case 'H': if (a == 'c') { st = MSG; if (helos < 2 && pm(key + ".cfg", mix.p_multi_helo)) st = HELO; } else st = QUIT; break;
    case 'U': break;
    case 'M': if (a == 'c') st = RCPT; else end_message(a != 'a' ? true : pm(key + ".cfg", 500)); break;
    case 'R': if (a == 'c') { good_rcpts++; mod.orig.rcpts.push_back("<rcpt" + std::to_string(rcpts - 1) + "@x>"); }
      else if (a == 'a') { end_message(pm(key + ".cfg", 500)); break; }
      else if (a == 'd') { end_message(true); break; }
      break;
    case 'T': if (a == 'c') st = HDR; else end_message(true); break;
    case 'L': case 'N': case 'B':
      if (a == 's' && cur == 'B') stop_body = true;
      else if (a != 'c') end_message(a == 'a' ? pm(key + ".cfg", 500) : pm(key + ".cfg", 850)); break;
    case 'E': in_msg = false; st = MSG; break;
  }
  later(think());
}
void SessionActor::end_message(bool abort) {
  if (abort && in_msg) { send_cmd('A', "", false); }
  in_msg = false; st = MSG;
}
void SessionActor::lenient_mods() {
  bool rep = false; string nb; for (auto &m : mods) if (m.first == 'b') rep = true, nb += m.second;
  count("check.lenient_result");
  if (rep && !cands.count(nb)) { string w; for (auto &s : cands) w += std::to_string(s.size()) + " "; bad("mods.body", "the replacement body has " + std::to_string(nb.size()) + " bytes " + show(nb, 30) + "; whole bodies have " + w + "bytes"); }
  bool strict = !mix.p_verdict && !mix.p_fail_cmd && !mix.p_idle_close && cfg.fallback != 'a' && mod.msg == disk_msg; // (after an error the milters answer content with continue) for (auto &m : cfg.milters) if (m.fallback == 'a' && !m.eval) strict = false;
  if (strict) { count("check.strict_result"); if ((rep ? nb : mod.orig.body) != mod.result.body) bad("mods.body", "the message was accepted with a body of " + std::to_string((rep ? nb : mod.orig.body).size()) + " bytes instead of the " + std::to_string(mod.result.body.size()) + " bytes the milters made of it"); }
  mods.clear();
}
static void gen_disk() {
  if (!mix.spool_fault) return;
  static const int pr[] = {30, 5, 200, 1000};
  int popen = pm("cfg.disk", 300) ? pr[choose("cfg.disk", 4)] : 0, pwrite = pm("cfg.disk", 600) ? pr[choose("cfg.disk", 4)] : 0, pread = pm("cfg.disk", 600) ? pr[choose("cfg.disk", 4)] : 0, pseek = pm("cfg.disk", 300) ? pr[choose("cfg.disk", 4)] : 0, pshort = pm("cfg.disk", 400) ? 300 : 0;
  T from = (T)choose("cfg.disk", 3000) * MS, to = pm("cfg.disk", 500) ? from + (T)choose("cfg.disk", 4000) * MS : 1000000 * SEC;
  file_fault = [=](const char *op, int, size_t n) -> int {
    if (!strcmp(op, "socket") || now() < from || now() > to) return 0;
    int p = *op == 'o' ? popen : *op == 'w' ? pwrite : *op == 'r' ? pread : pseek;
    if (p && chance("F/disk", p, 1000)) {
      static const int we[] = {ENOSPC, EIO, EDQUOT}, oe[] = {ENOSPC, EMFILE, EACCES};
      int e = *op == 'w' ? we[choose("F/disk", 3)] : *op == 'o' ? oe[choose("F/disk", 3)] : EIO;
      count(string("fault.disk_") + op); trace("disk error: %s fails with %d", op, e);
      for (auto *s : sessions) if ((s->in_msg || (s->waiting && s->cur == 'E')) && !s->disk && !s->done) { s->disk = true; s->disk_msg = s->mod.msg; s->mod.loose_answers = true; s->cands.insert(s->mod.orig.body); }
      return e;
    }
    if (pshort && n > 1 && (*op == 'w' || *op == 'r') && chance("F/disk", pshort, 1000)) { count(string("fault.disk_short_") + op); return -(int)(1 + choose("F/disk", (uint32_t)std::min<size_t>(n - 1, 5000))); }
    return 0;
  };
}
void SessionActor::check_mods() {
  Content got = mod.orig; bool replaced = false; string nb; std::set<string> reasons; bool quar = false;
  for (auto &m : mods) {
    const string &d = m.second; auto v = split0(d);
    switch (m.first) {
      case 'h': { string n = v.empty() ? "" : v[0], val = v.size() > 1 ? v[1] : ""; auto it = got.headers.begin(); for (; it != got.headers.end(); ++it) if (!strcasecmp(it->name.c_str(), n.c_str())) break; got.headers.insert(it, {n, val}); break; }
      case 'i': { uint32_t x = g32(d, 0); auto w = split0(d.substr(4)); got.headers.insert(got.headers.begin() + std::min<size_t>(x, got.headers.size()), {w[0], w.size() > 1 ? w[1] : ""}); break; }
      case 'm': { uint32_t x = g32(d, 0), n = 0; auto w = split0(d.substr(4)); string val = w.size() > 1 ? w[1] : ""; auto it = got.headers.begin(); for (; it != got.headers.end(); ++it) if (!strcasecmp(it->name.c_str(), w[0].c_str()) && ++n == x) break;
        if (val.empty()) { if (it != got.headers.end()) got.headers.erase(it); } else if (it != got.headers.end()) it->value = val; else got.headers.insert(it, {w[0], val}); break; }
      case '+': got.rcpts.push_back(v[0]); break;
      case '2': got.rcpts.push_back(v[0] + (v.size() > 1 ? " " + v[1] : "")); break;
      case '-': { auto it = std::find(got.rcpts.begin(), got.rcpts.end(), v[0]); if (it != got.rcpts.end()) got.rcpts.erase(it); break; }
      case 'e': got.from = v[0] + (v.size() > 1 && !v[1].empty() ? " " + v[1] : ""); got.from_changed = true; break;
      case 'b': replaced = true; nb += d; if (d.size() > 65535) bad("mods.body", "replacement chunk of " + std::to_string(d.size()) + " bytes"); break;
      case 'q': quar = true; reasons.insert(v.empty() ? "" : v[0]); break;
    }
    uint32_t need = 0; switch (m.first) { case 'h': case 'i': need = A_ADDHDRS; break; case 'm': need = A_CHGHDRS; break; case '+': need = A_ADDRCPT; break; case '2': need = A_ADDRCPT_PAR; break; case '-': need = A_DELRCPT; break; case 'b': need = A_CHGBODY; break; case 'e': need = A_CHGFROM; break; case 'q': need = A_QUARANTINE; break; }
    if (need & ~mod.actions) bad("mods.ungranted", string("modification ") + m.first + " was not offered by the MTA");
  }
  if (replaced) got.body = nb;
  const Content &want = mod.result;
  auto dump = [](const vector<Header> &h) { string s; for (auto &x : h) s += x.name + ":" + show(x.value, 30) + "; "; return s; };
  auto sorted = [](vector<Header> h) { std::stable_sort(h.begin(), h.end(), [](const Header &a, const Header &b) { return strcasecmp(a.name.c_str(), b.name.c_str()) < 0; }); return h; };
  if (sorted(got.headers) != sorted(want.headers)) {
    string ms; for (auto &m : mods) if (strchr("him", m.first)) ms += string(1, m.first) + (m.first == 'h' ? show(m.second) : std::to_string(g32(m.second, 0)) + show(m.second.substr(4))) + " ";
    bad("mods.headers", "headers after modifications are [" + dump(got.headers) + "], milters made [" + dump(want.headers) + "]; sent: " + ms);
  }
  else if (got.headers != want.headers) { count("obs.header_order"); }
  if (got.body != want.body) bad("mods.body", "body after modifications has " + std::to_string(got.body.size()) + " bytes (" + show(got.body, 40) + "), milters made " + std::to_string(want.body.size()) + " (" + show(want.body, 40) + ")");
  if (got.from != want.from) bad("mods.from", "sender " + got.from + ", milters made " + want.from);
  auto gr = got.rcpts, wr = want.rcpts; std::sort(gr.begin(), gr.end()); std::sort(wr.begin(), wr.end());
  if (gr != wr) bad("mods.rcpts", "recipients differ");
  if (quar != want.quarantined) bad("mods.quarantine", quar ? "quarantined though no milter asked" : "quarantine request lost");
  else if (quar) for (auto &r : reasons) if (!want.reasons.count(r)) bad("mods.quarantine", "quarantine reason " + show(r));
  count("check.mods"); if (!mods.empty()) count("check.mods_nonempty");
  mods.clear();
}
void SessionActor::send_cmd(char cmd, const string &data, bool with_macros) {
  n_cmds++;
  map<string, string> mac; bool have = false; string out;
  if (with_macros && strchr("CHMRTNEU", cmd) && pm(key + ".mac", mix.p_macros)) {
    static const char *stages = "CHMRTEN"; int stg = cmd == 'U' ? -1 : (int)(strchr(stages, cmd) - stages);
    have = true; bool restricted = macro_req.count(stg); string l = restricted ? " " + macro_req[stg] + " " : "";
    for (int j = 0; j < 5; j++) { string n = model::macro_name(j); if (restricted ? l.find(" " + n + " ") != string::npos : pm(key + ".mac", 500)) mac[n] = "v" + std::to_string(dk) + "_" + std::to_string(n_cmds) + "_" + std::to_string(j); }
    string p(1, cmd); for (auto &e : mac) p += z(e.first) + z(e.second);
    if (mac.empty()) have = false; else out += packet('D', p);
  }
  hist += string(1, cmd) + " ";
  mods.clear();
  if (cmd == 'M') cands.clear();
  ans = mod.command(cmd, data, have ? &mac : nullptr);
  if (!have && strchr("CHMRTNE", cmd)) {} 
  if (cmd == 'E') cands.insert(mod.orig.body);
  cur = cmd; waiting = ans.needed;
  out += packet(cmd, data);
  trace("%s > %c %s%s", key.c_str(), cmd, show(data, 60).c_str(), ans.needed ? "" : " (no answer)");
  c->send(out);
  count(string("cmd.") + cmd);
  if (break_at >= 0 && n_cmds >= break_at) { T d = pm(key + ".break", 500) ? (T)choose(key + ".break", 3000) * MS : 0; if (d) after(d, [this] { if (!done) do_break(); }); else do_break(); if (done) return; }
  if (waiting) { T b = mod.bound(cmd); guard = after(b, [this, b] { guard = 0; bad("progress", string("no answer to ") + cur + " within " + std::to_string(b / SEC) + " s"); finish_run(); }); }
}
void SessionActor::next() {
  if (done || waiting || broken) return;
  if (fall_silent()) return;
  string ck = key + ".cfg";
  if (in_msg && st != MSG && !mod.idle_pending() && pm(key + ".abort", mix.p_abort / 4)) { count("mta.abort"); send_cmd('A', "", false); in_msg = false; st = MSG; if (done || broken) return; }
  if ((st == MSG || st == RCPT) && mod.r_ver >= 3 && pm(key + ".unk", mix.p_unknown)) { count("mta.unknown"); send_cmd('U', z("HOGE " + std::to_string(n_cmds))); if (!done && !waiting) later(think()); return; }
  switch (st) {
    case CONNECT: {
      string d; switch (choose(ck, 4)) { case 0: case 1: d = z("host" + std::to_string(dk) + ".example") + '4' + string("\x30\x39", 2) + z("192.0.2." + std::to_string(dk + 1)); break; case 2: d = z("[v6]") + '6' + string("\x1f\x90", 2) + z((choose(ck, 3) ? "IPv6:" : "") + string("2001:db8::") + std::to_string(dk + 1)); break; default: d = z("unk" + std::to_string(dk)) + 'U'; break; }
      send_cmd('C', d); if (!waiting) st = HELO; break; }
    case HELO: helos++; send_cmd('H', z("helo" + std::to_string(helos) + ".s" + std::to_string(dk))); if (!waiting) st = MSG; break;
    case MSG: {
      if (msgs >= n_msgs) { st = QUIT; next(); return; }
      msgs++; in_msg = true; rcpts = hdrs = chunks = good_rcpts = 0; stop_body = false;
      string mk = key + ".g" + std::to_string(msgs);
      n_rcpts = 1 + choose(mk, 3); n_hdrs = choose(mk, 6); n_chunks = choose(mk, mix.p_body ? 8 : 4); big = pm(mk, mix.p_bigbody);
      send_cmd('M', z("<from" + std::to_string(msgs) + ".s" + std::to_string(dk) + "@x>") + (pm(mk, 300) ? z("SIZE=100") : "")); if (!waiting) st = RCPT; break; }
    case RCPT:
      if (rcpts < n_rcpts) { string a = "<rcpt" + std::to_string(rcpts) + "@x>"; rcpts++; send_cmd('R', z(a) + (pm(ck, 200) ? z("NOTIFY=NEVER") : "")); if (!waiting) { good_rcpts++; mod.orig.rcpts.push_back(a); } }
      else if (!good_rcpts) end_message(true);
      else { st = mod.r_ver >= 4 && !(mix.p_data_omitted && !(mod.r_steps & (P_NR_HDR | P_NR_EOH | P_NR_BODY)) && pm(key + ".nodata", mix.p_data_omitted)) ? DATA : HDR; next(); return; }
      break;
    case DATA: send_cmd('T', ""); if (!waiting) st = HDR; break;
    case HDR:
      if (hdrs < n_hdrs) {
        static const char *names[] = {"Subject", "X-A", "Received", "X-B", "subject", "To"}; string mk = key + ".g" + std::to_string(msgs) + ".h";
        string n = names[choose(mk, 6)], val;
        switch (choose(mk, 6)) { case 0: val = ""; break; case 1: val = "folded\n\tvalue" + std::to_string(hdrs); break; case 2: val = "same"; break; default: val = "v" + std::to_string(msgs) + "." + std::to_string(hdrs); }
        if (leadspc && !pm(mk, 200)) val = (pm(mk, 200) ? "  " : " ") + val;
        hdrs++; send_cmd('L', z(n) + z(val));
      } else { st = EOH; next(); return; }
      break;
    case EOH: send_cmd('N', ""); if (!waiting || st == EOH) st = BODY; break;
    case BODY: {
      if (chunks < n_chunks && !stop_body) {
        string mk = key + ".g" + std::to_string(msgs) + ".b"; size_t len = 1 + choose(mk, 120); if (big) len = 20000 + choose(mk, 45536); if (len > 65535) len = 65535;
        string b; b.reserve(len); uint32_t r = choose(mk, 1000); for (size_t j = 0; j < len; j++) { r = r * 1103515245 + 12345; b += (char)(r >> 16); if (!pm("none", 0) && j % 60 == 59) b += ""; }
        bool nul = pm(mk, mix.p_nul); for (auto &ch : b) { if (!nul && ch == 0) ch = 'N'; }
        if (nul && len) b[choose(mk, (uint32_t)len)] = 0;
        chunks++; send_cmd('B', b);
      } else { st = EOM; next(); return; }
      break; }
    case EOM: { string tail; if (pm(ck, 60)) { tail = "tail of the body " + std::to_string(dk); } send_cmd('E', tail); in_msg = false; if (!waiting) st = MSG; break; }
    case QUIT:
      if (mix.counts && !aligned && pm("cfg.align", 700)) { aligned = true; T u = 5 * SEC; later(u - now() % u); return; } // many sessions end at once
      st = OVER; hist += "Q "; trace("%s > Q", key.c_str()); c->send(packet('Q'));
      if (pm(ck, 500)) { after(think(), [this] { finish(); }); }
      else guard = after(30 * SEC, [this] { guard = 0; if (!closed) { bad("cleanup.mta", "connection not closed 30 s after quit"); finish(); } });
      return;
    case OVER: return;
  }
  if (!done && !waiting) later(think());
}

// ---- set-up ----------------------------------------------------------------------------
static MilterStatus st_of(char c) { switch (c) { case 'a': return MILTER_STATUS_ACCEPT; case 'r': return MILTER_STATUS_REJECT; case 't': return MILTER_STATUS_TEMPORARY_FAILURE; case 'd': return MILTER_STATUS_DISCARD; } return MILTER_STATUS_CONTINUE; }
static gboolean stop_generic(MilterServerContext *ctx, char cmd, int i) {
  string k = string("seen") + cmd; int n = GPOINTER_TO_INT(g_object_get_data(G_OBJECT(ctx), k.c_str()));
  g_object_set_data(G_OBJECT(ctx), k.c_str(), GINT_TO_POINTER(n + 1));
  return cfg.milters[i].stop_at == cmd && cfg.milters[i].stop_nth == n;
}
static int ud(gpointer p) { return GPOINTER_TO_INT(p); }
static gboolean s_conn(MilterServerContext *c, const gchar *, struct sockaddr *, socklen_t, gpointer p) { return stop_generic(c, 'C', ud(p)); }
static gboolean s_helo(MilterServerContext *c, const gchar *, gpointer p) { return stop_generic(c, 'H', ud(p)); }
static gboolean s_from(MilterServerContext *c, const gchar *, gpointer p) { return stop_generic(c, 'M', ud(p)); }
static gboolean s_rcpt(MilterServerContext *c, const gchar *, gpointer p) { return stop_generic(c, 'R', ud(p)); }
static gboolean s_data(MilterServerContext *c, gpointer p) { return stop_generic(c, 'T', ud(p)); }
static gboolean s_hdr(MilterServerContext *c, const gchar *, const gchar *, gpointer p) { return stop_generic(c, 'L', ud(p)); }
static gboolean s_eoh(MilterServerContext *c, gpointer p) { return stop_generic(c, 'N', ud(p)); }
static gboolean s_body(MilterServerContext *c, const gchar *, gsize, gpointer p) { return stop_generic(c, 'B', ud(p)); }
static gboolean s_eom(MilterServerContext *c, const gchar *, gsize, gpointer p) { return stop_generic(c, 'E', ud(p)); }
static void on_hatched(MilterManagerEgg *, MilterManagerChild *child, gpointer p) {
  if (!cfg.milters[ud(p)].stop_at) return;
  g_signal_connect(child, "stop-on-connect", G_CALLBACK(s_conn), p); g_signal_connect(child, "stop-on-helo", G_CALLBACK(s_helo), p);
  g_signal_connect(child, "stop-on-envelope-from", G_CALLBACK(s_from), p); g_signal_connect(child, "stop-on-envelope-recipient", G_CALLBACK(s_rcpt), p);
  g_signal_connect(child, "stop-on-data", G_CALLBACK(s_data), p); g_signal_connect(child, "stop-on-header", G_CALLBACK(s_hdr), p);
  g_signal_connect(child, "stop-on-end-of-header", G_CALLBACK(s_eoh), p); g_signal_connect(child, "stop-on-body", G_CALLBACK(s_body), p);
  g_signal_connect(child, "stop-on-end-of-message", G_CALLBACK(s_eom), p);
}
static void gen_config() {
  cfg = Config(); string ck = "cfg";
  int n = mix.milters_min + choose(ck, mix.milters_max - mix.milters_min + 1);
  for (int i = 0; i < n; i++) {
    string mk = "cfg.m" + std::to_string(i); MilterCfg m; m.name = "milter" + std::to_string(i);
    m.spec = pm(mk, 250) ? "unix:/sim/m" + std::to_string(i) : "inet:" + std::to_string(11000 + i) + "@127.0.0.1";
    if (mix.launch && !pm(mk + ".launch", 150)) { m.command = "/usr/sbin/milter" + std::to_string(i); if (pm(mk + ".launch", 500)) m.options = "-p 'a b' --x=" + std::to_string(i); if (pm(mk + ".launch", 500)) m.user = "nobody"; }
    m.enabled = !pm(mk + ".d", mix.p_disabled); m.eval = pm(mk + ".e", mix.p_eval);
    if (pm(mk + ".f", mix.p_fallback)) m.fallback = "rt"[choose(mk + ".f", 2)];
    if (mix.p_stop && pm(mk + ".s", mix.p_stop)) { m.stop_at = "CHMRTLNBE"[choose(mk + ".s", 9)]; m.stop_nth = m.stop_at == 'B' ? 0 : choose(mk + ".s", m.stop_at == 'C' ? 1 : 3); }
    static const double to[] = {10, 20, 60, 300};
    m.t_read = to[choose(mk + ".t", 4)]; m.t_write = to[choose(mk + ".t", 4)]; m.t_eom = to[choose(mk + ".t", 4)]; m.t_conn = to[choose(mk + ".t", 4)];
    cfg.milters.push_back(m);
  }
  cfg.libev = pm(ck + ".loop", 500); cfg.unix_listen = pm(ck + ".unix", 200); if (mix.ctl) cfg.ctl_unix = pm(ck + ".unix", 500);
  static const unsigned cs[] = {65535, 1, 7, 100, 4096, 65535}; cfg.chunk_size = cs[choose(ck + ".chunk", 6)];
  if (cfg.chunk_size < 50 && mix.p_bigbody) cfg.chunk_size = 1000; if (mix.p_body && pm(ck + ".chunk", 500)) cfg.chunk_size = 500 + choose(ck + ".chunk", 3000);
  static const unsigned pb[] = {0, 0, 1, 100, 4096, 1 << 20}; cfg.packet_buffer = pb[choose(ck + ".pbuf", 6)];
  if (mix.p_check) { static const int iv[] = {1, 3, 10, 30}; cfg.check_interval = iv[choose(ck + ".check", 4)]; }
  if (mix.max_conn) { cfg.max_conn = 1 + choose(ck + ".max", 3); static const int st[] = {5, 1, 2, 20}; cfg.suspend = st[choose(ck + ".max", 4)]; }
  if (pm(ck + ".spool", mix.p_spool)) { static const size_t ss[] = {0, 1, 30, 100, 1000, 20000, 65535, 200000}; cfg.spool_at = ss[choose(ck + ".spool", 8)]; }
  if (!mix.spool_fault && pm(ck + ".cfb", 250)) cfg.fallback = "rtd"[choose(ck + ".cfb", 3)];
  if (mix.spool_fault && pm(ck + ".fb", 500)) { cfg.fallback = "rt"[choose(ck + ".fb", 2)]; for (auto &m : cfg.milters) m.fallback = "rt"[choose(ck + ".fb", 2)]; }
  if (mix.launch) cfg.no_launcher = pm(ck + ".launcher", 150);
  if (mix.shut) cfg.pid_file = pm(ck + ".pid", 300);
  cfg.maint = choose(ck + ".maint", 4); cfg.max_pending = choose(ck + ".pend", 4);
}
static void gen_knobs() {
  knobs = Knobs(); string k = "knobs";
  knobs.lat_class = (int)choose(k, 4);
  if (pm(k, 500)) knobs.seg = 1 + choose(k, 600);
  // a milter that stops reading fills a small window: writing to it blocks
  if (mix.p_stall && pm(k, 500)) { knobs.sndbuf = 1000 + choose(k, 30000); mix.p_bigbody = 600; if (knobs.sndbuf < 20000) for (auto &m : cfg.milters) m.t_write = std::max(m.t_write, 60.0); }
  if (mix.faults_net) {
    if (pm(k, 400)) knobs.short_read = choose(k, 500);
    if (pm(k, 400)) knobs.short_write = choose(k, 500);
    if (pm(k, 200)) knobs.eintr = choose(k, 60);
    if (pm(k, 500)) knobs.subset = choose(k, 900);
    if (pm(k, 200)) knobs.sndbuf = 300 + choose(k, 70000);
    // a small window makes a body slow to send: not a milter that hangs
    if (knobs.sndbuf < 20000) for (auto &m : cfg.milters) m.t_write = std::max(m.t_write, 300.0);
    if (pm(k, 150)) knobs.sched_jitter = choose(k, 100);
  }
}
// ---- session counts and maintenance ------------------------------------------------------
static guint fin_total = 0; static int maint_due = -1, maint_seen = 0; static map<string, int> ended;
static guint accepted() { guint n = 0; for (auto *s : sessions) if (s->opened || (s->c && s->c->fd >= 0)) n++; return n; }
static void settle_maint() {
  if (maint_due >= 0 && n_maintain - maint_seen != maint_due) violate("count.maintenance", "maintenance ran %d times instead of %d after %u sessions finished, %u in progress, interval %d", n_maintain - maint_seen, maint_due, fin_total, accepted() - fin_total, cfg.maint);
  else if (maint_due < 0 && n_maintain != maint_seen) violate("count.maintenance", "maintenance ran without need, after %u sessions", fin_total);
  maint_seen = n_maintain; maint_due = -1;
}
static void check_counts(const char *when) {
  guint n = milter_client_get_n_processing_sessions(client); count("check.counts");
  if (n != accepted() - fin_total) violate("count.processing", "%s: %u sessions counted as being processed, %u accepted and %u finished", when, n, accepted(), fin_total);
}
static void on_finished(MilterClient *, guint n, gpointer) {
  settle_maint();
  guint before = fin_total; fin_total += n; trace("%u sessions finished (+%u)", fin_total, n); count("check.finished_batch"); if (n > 1) count("obs.batch_of_several");
  if (fin_total > accepted()) violate("count.processing", "%u sessions counted as finished, %u accepted", fin_total, accepted());
  check_counts("when sessions finished");
  maint_due = n && (accepted() == fin_total || (cfg.maint && fin_total / cfg.maint != before / cfg.maint)) ? 1 : 0;
  if (maint_due) count("check.maintenance_due");
}
static void on_stat(MilterLogger *, const gchar *, MilterLogLevelFlags, const gchar *, guint, const gchar *, GTimeVal *, const gchar *msg, gpointer) {
  if (strncmp(msg, "[session][end]", 14)) return;
  string id = strrchr(msg, '(') ? strrchr(msg, '(') : ""; trace("statistics %s", msg); count("check.session_end");
  if (ended[id]++) violate("count.statistics", "the end of session %s was reported twice", id.c_str());
  if (ended.size() > accepted()) violate("count.statistics", "%zu ends of sessions were reported, %u accepted", ended.size(), accepted());
}
static void watch_counts() { if (run_returned) return; check_counts("meanwhile"); settle_maint();
  // what ended a while ago is no longer being processed
  guint live = 0; for (auto *s : sessions) if (s->opened && (!s->done || now() < s->done_at + 30 * SEC)) live++;
  guint n = milter_client_get_n_processing_sessions(client);
  if (n > live && !mix.p_stall && !mix.p_silent && !mix.p_slow) violate("count.processing", "%u sessions counted as being processed, all but %u ended more than 30 s ago", n, live);
  after((T)(1 + choose("cfg.watch", 5000)) * MS, watch_counts); }
static gboolean on_control(GIOChannel *, GIOCondition, gpointer) {
  trace("shutdown requested"); shutting_down = true; shut_at = now();
  int n = 0;
  for (auto *s : sessions) {
    if (s->started && !s->done && (s->opened || (s->c && s->c->fd >= 0))) { n++; continue; }
    if (s->done || !s->started) continue;
    s->refused = s->done = true; live_sessions--; count("check.waiting_at_shutdown"); trace("%s: not accepted any more", s->key.c_str());
  }
  count("obs.sessions_at_shutdown", n); if (n) count("check.shutdown_busy");
  milter_client_shutdown(client);
  if (mix.shut && pm("cfg.shut", 200)) milter_client_shutdown(client);
  if (mix.shut && pm("cfg.shut", 500)) after((T)choose("cfg.shut", 3000) * MS, late_dial);
  return FALSE;
}

// ---- the same session over and over: nothing may be left each time ----------------------
static vector<long> heap_at; static int files_left() {
  int n = 0; if (DIR *d = opendir(".")) { while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.' && strcmp(e->d_name, "mm.sock") && strcmp(e->d_name, "mm.pid") && strcmp(e->d_name, "ctl.sock") && strcmp(e->d_name, "milter-manager.conf") && strcmp(e->d_name, CUSTOM)) { n++; trace("file %s", e->d_name); } closedir(d); }
  return n;
}
static void repeat_next(int k) {
  for (int i = 0; i < k; i++) if (!sessions[i]->done) { after(2 * SEC, [k] { repeat_next(k); }); return; }
  if (live_sessions) { after(2 * SEC, [k] { repeat_next(k); }); return; }
  for (auto *x : ctls) if (!x->done) { after(2 * SEC, [k] { repeat_next(k); }); return; }
  if (k && !sessions[k - 1]->settled) { sessions[k - 1]->settled = true; after(30 * SEC, [k] { repeat_next(k); }); return; }
  heap_at.push_back(heap_live); if (getenv("SIM_LEAK")) heap_trace = k + 1;
  trace("after %d sessions: %+ld blocks", k, k ? heap_at.back() - heap_at[k - 1] : 0L);
  if (k) check_left(("after session " + std::to_string(k - 1)).c_str());
  if (k == (int)sessions.size()) {
    long a = heap_at[k] - heap_at[k - 1], b = heap_at[k - 1] - heap_at[k - 2], c = heap_at[k - 2] - heap_at[k - 3];
    count("check.heap"); if (a > 0 && b > 0 && c > 0) { violate("cleanup.memory", "every repetition of the session leaves %ld blocks of memory allocated", std::min(a, std::min(b, c))); if (getenv("SIM_LEAK")) heap_report(k - 1, k - 1); }
    end_phase(); return;
  }
  if (k == 0) choices_mark(); else choices_rewind();
  if (mix.ctl) { CtlClient *x = new CtlClient(k); ctls.push_back(x); after((T)choose("cfg.ctlrep", 3000) * MS, [x] { x->start(); }); }
  sessions[k]->start(); after(2 * SEC, [k] { repeat_next(k + 1); });
}
static void check_left(const char *when) {
  for (auto &f : fd_open_list()) if ((f.find("conn") != string::npos && f.find("launch") == string::npos) || f.find("new") != string::npos || f.find("failed") != string::npos) violate("cleanup.fd", "%s: descriptor left open: %s", when, f.c_str());
  for (int fd : spool_fds) violate("cleanup.fd", "%s: temporary file still open (%d)", when, fd);
  if (int n = files_left()) violate("cleanup.file", "%s: %d temporary files left", when, n);
  T t = poll_timeout(); count("check.timers");
  if (cfg.libev ? t >= 0 && t < 50 * SEC : t >= 0) violate("cleanup.timer", "%s: the event loop still has a timer to run (%lld ms)", when, (long long)(t / MS));
}
static void wake_next() { if (neg_wait.empty()) return; int n = neg_wait.front(); neg_wait.pop_front(); if (n >= HOSTILE) hostiles[n - HOSTILE]->begin(); else sessions[n]->begin(); }
static void end_phase() {
  for (auto *s : ctls) if (!s->done) { after(2 * SEC, end_phase); return; }
  for (auto *s : hostiles) if (!s->done) { after(2 * SEC, end_phase); return; }
  for (auto *s : sessions) if (!s->done) { after(2 * SEC, end_phase); return; }
  if (live_sessions) { after(2 * SEC, end_phase); return; }
  // let everything settle, then ask for shutdown
  after(20 * SEC, [] {
    if (run_returned) return;
    for (auto *s : sessions) for (auto *m : s->mc) m->finish_check();
    guint n = milter_client_get_n_processing_sessions(client);
    if (n) violate("count.processing", "%u sessions still counted as being processed after all ended", n);
    if (mix.ctl) {
      check_custom_file(); int ok = 0; for (bool b : loads) ok += b; int err = (int)loads.size() - ok;
      if (reload_ok > ok || reload_err > err || reload_ok + reload_err + reload_unknown < (int)loads.size()) violate("ctl.reload", "%d good and %d bad answers to reload (and %d unanswered ones) for %d good and %d bad loads", reload_ok, reload_err, reload_unknown, ok, err);
    }
    if (mix.shut && shutting_down) { violate("shutdown", "all sessions ended 20 s ago and the service has not stopped"); finish_run(); }
    check_left("after all sessions");
    if (mix.counts) { settle_maint(); check_counts("at the end"); if (fin_total != accepted()) violate("count.processing", "%u sessions finished, %u accepted", fin_total, accepted()); { size_t sil = 0; for (auto *s : sessions) sil += s->silent; if (ended.size() + sil < accepted()) violate("count.statistics", "the ends of %zu sessions were reported, %u were accepted", ended.size(), accepted()); } }
    control_signal(ctl_fd);
    after(20 * SEC, [] { violate("shutdown", "no session is in progress and the service did not stop within 20 s"); finish_run(); });
  });
}
static string listen_spec() { return cfg.unix_listen ? "unix:mm.sock" : "inet:10025@127.0.0.1"; }
static void apply_config(MilterManagerConfiguration *conf) {
  milter_manager_configuration_set_privilege_mode(conf, FALSE);
  milter_manager_configuration_set_use_syslog(conf, FALSE);
  milter_manager_configuration_set_daemon(conf, FALSE);
  milter_manager_configuration_set_event_loop_backend(conf, cfg.libev ? MILTER_CLIENT_EVENT_LOOP_BACKEND_LIBEV : MILTER_CLIENT_EVENT_LOOP_BACKEND_GLIB);
  milter_manager_configuration_set_n_workers(conf, 0);
  milter_manager_configuration_set_fallback_status(conf, st_of(cfg.fallback));
  milter_manager_configuration_set_chunk_size(conf, cfg.chunk_size);
  milter_manager_configuration_set_default_packet_buffer_size(conf, cfg.packet_buffer);
  milter_manager_configuration_set_maintenance_interval(conf, cfg.maint);
  milter_manager_configuration_set_max_pending_finished_sessions(conf, cfg.max_pending);
  if (cfg.check_interval) milter_manager_configuration_set_connection_check_interval(conf, cfg.check_interval);
  milter_manager_configuration_set_suspend_time_on_unacceptable(conf, cfg.suspend);
  if (cfg.max_conn) milter_manager_configuration_set_max_connections(conf, cfg.max_conn);
  milter_manager_configuration_set_manager_connection_spec(conf, listen_spec().c_str());
  if (mix.ctl) milter_manager_configuration_set_controller_connection_spec(conf, cfg.ctl_unix ? "unix:ctl.sock" : "inet:7001@127.0.0.1");
  for (size_t i = 0; i < cfg.milters.size(); i++) {
    MilterCfg &m = cfg.milters[i];
    MilterManagerEgg *egg = milter_manager_egg_new(m.name.c_str());
    GError *e = NULL; milter_manager_egg_set_connection_spec(egg, m.spec.c_str(), &e);
    if (e) { fprintf(stderr, "bad spec %s: %s\n", m.spec.c_str(), e->message); _exit(3); }
    milter_manager_egg_set_enabled(egg, m.enabled); milter_manager_egg_set_evaluation_mode(egg, m.eval);
    if (!m.command.empty()) { milter_manager_egg_set_command(egg, m.command.c_str()); if (!m.options.empty()) milter_manager_egg_set_command_options(egg, m.options.c_str()); if (!m.user.empty()) milter_manager_egg_set_user_name(egg, m.user.c_str()); }
    milter_manager_egg_set_fallback_status(egg, st_of(m.fallback));
    milter_manager_egg_set_connection_timeout(egg, m.t_conn); milter_manager_egg_set_writing_timeout(egg, m.t_write);
    milter_manager_egg_set_reading_timeout(egg, m.t_read); milter_manager_egg_set_end_of_message_timeout(egg, m.t_eom);
    g_signal_connect(egg, "hatched", G_CALLBACK(on_hatched), GINT_TO_POINTER((int)i));
    milter_manager_configuration_add_egg(conf, egg); g_object_unref(egg);
  }
  if (cfg.pid_file) { milter_manager_configuration_set_pid_file(conf, "mm.pid"); }
}
void run_manager(const string &) {
  gen_config(); gen_knobs(); gen_disk(); model::reset(); milter_manager_simulation_max_on_memory_body_size = cfg.spool_at;
  MilterManagerConfiguration *conf = (MilterManagerConfiguration *)g_object_new(sim_conf_type(), NULL);
  milter_manager_configuration_clear(conf, NULL);
  string lspec = listen_spec(); listen_addr = cfg.unix_listen ? lspec : "inet:10025";
  if (mix.ctl) {
    if (pm("cfg.ctl", 200)) milter_manager_configuration_append_load_path(conf, "nowhere");
    milter_manager_configuration_append_load_path(conf, "."); if (FILE *f = fopen("milter-manager.conf", "w")) fclose(f);
    gen_conf_faults();
  }
  apply_config(conf);
  for (size_t i = 0; i < cfg.milters.size(); i++) { const string &spec = cfg.milters[i].spec; MilterSvc *s = new MilterSvc; s->i = (int)i; add_service(spec.compare(0, 4, "unix") == 0 ? spec : "inet:" + std::to_string(11000 + i), s); }
  MilterManager *manager = milter_manager_new(conf);
  if (mix.launch) {
    milter_manager_configuration_set_privilege_mode(conf, TRUE);
    GIOChannel *io[2]; Conn *lcs[2]; for (int j = 0; j < 2; j++) { Conn *lc = attach(&launcher, j ? "launch.w" : "launch.r"); lcs[j] = lc; if (!j) launcher.out = lc; io[j] = g_io_channel_unix_new(lc->fd); g_io_channel_set_encoding(io[j], NULL, NULL); g_io_channel_set_flags(io[j], G_IO_FLAG_NONBLOCK, NULL); g_io_channel_set_close_on_unref(io[j], TRUE); }
    milter_manager_set_launcher_channel(manager, io[0], io[1]); if (cfg.no_launcher) { count("fault.launcher_gone"); for (int j = 0; j < 2; j++) lcs[j]->close(); } g_io_channel_unref(io[0]); g_io_channel_unref(io[1]);
  }
  client = MILTER_CLIENT(manager);
  GError *e = NULL;
  active = true;
  if (!milter_client_set_connection_spec(client, lspec.c_str(), &e)) { fprintf(stderr, "spec: %s\n", e->message); _exit(3); }
  if (!milter_client_listen(client, &e)) { fprintf(stderr, "listen: %s\n", e->message); _exit(3); }
  MilterEventLoop *loop = milter_client_create_event_loop(client, TRUE);
  milter_client_set_event_loop(client, loop);
  if (mix.counts) {
    g_signal_connect(client, "sessions-finished", G_CALLBACK(on_finished), NULL);
    milter_logger_set_target_level(milter_logger(), MILTER_LOG_LEVEL_STATISTICS); g_signal_connect(milter_logger(), "log", G_CALLBACK(on_stat), NULL);
    if (!getenv("SIM_LOG")) milter_logger_disconnect_default_handler(milter_logger());
    after(1 * MS, watch_counts);
  }
  ctl_fd = control_fd();
  GIOChannel *ch = g_io_channel_unix_new(ctl_fd); g_io_channel_set_encoding(ch, NULL, NULL); g_io_channel_set_close_on_unref(ch, FALSE);
  milter_event_loop_watch_io(loop, ch, (GIOCondition)(G_IO_IN), on_control, NULL);
  if (mix.ctl) {
    ctl_addr = cfg.ctl_unix ? "unix:ctl.sock" : "inet:7001"; note_version();
    controller = milter_manager_controller_new(manager, loop);
    if (!milter_manager_controller_listen(controller, &e)) { fprintf(stderr, "control: %s\n", e->message); _exit(3); }
    if (milter_manager_controller_listen(controller, NULL)) violate("ctl.wrong", "listening twice");
  }
  // sessions
  int ns = mix.repeat ? 6 : 1 + choose("cfg.sessions", mix.sessions_max);
  for (int k = 0; k < ns; k++) {
    SessionActor *s = new SessionActor(k); sessions.push_back(s);
    if (mix.repeat && k) { SessionActor *f = sessions[0]; s->mod.ver = f->mod.ver; s->mod.actions = f->mod.actions; s->mod.steps = f->mod.steps; s->n_msgs = f->n_msgs; s->break_at = f->break_at; s->break_how = f->break_how; s->silent_at = f->silent_at; s->silent_how = f->silent_how; continue; }
    string ck = s->key + ".cfg";
    s->mod.ver = pm(ck, mix.p_old_version) ? 2 + choose(ck, 4) : 6; if (pm(ck, 50)) s->mod.ver = 7;
    s->mod.actions = pm(ck, 750) ? A_ALL : choose(ck, A_ALL + 1);
    if (!(s->mod.actions & A_ADDHDRS)) s->mod.actions &= ~A_CHGHDRS; // see known finding on changed headers
    s->mod.steps = pm(ck, 750) ? P_ALL : choose(ck, P_ALL + 1);
    if (s->mod.ver < 6) { s->mod.actions &= 0x3f; s->mod.steps &= s->mod.ver < 3 ? 0x7f : 0x3ff; }
    s->n_msgs = 1 + choose(ck, mix.messages_max);
    if (pm(s->key + ".brk", mix.p_mta_break)) { s->break_at = choose(s->key + ".brk", 16); s->break_how = choose(s->key + ".brk", cfg.check_interval ? 4 : 2); if (s->break_how == 3) s->break_how = 2; }
    s->eager = cfg.check_interval && k && pm(s->key + ".brk", 300);
    if (pm(s->key + ".silent", mix.p_silent)) { s->silent_at = choose(s->key + ".silent", 18); s->silent_how = choose(s->key + ".silent", 4); if (s->silent_how == 3) s->silent_at = 0; }
  }
  T t = 0;
  if (mix.repeat) after(1 * MS, [] { repeat_next(0); });
  else for (int k = 0; k < ns; k++) {
    SessionActor *s = sessions[k];
    t = mix.concurrency ? (T)choose("cfg.start", 5000) * MS : t + 1000 * SEC;
    if (mix.accept_err && pm("cfg.accept", 500)) {
      static const int es[] = {EMFILE, ECONNABORTED, EINTR, ENFILE, ENOBUFS, ENOMEM, EPROTO, EAGAIN};
      int e = es[choose("cfg.accept", 8)], n = 1 + choose("cfg.accept", 3);
      after(t, [e, n] { for (int j = 0; j < n; j++) inject_accept_error(listen_addr, e), errs_injected++; });
    }
    after(t, [s] { s->start(); });
  }
  if (mix.ctl) {
    int n = mix.repeat ? 0 : 1 + choose("cfg.ctl", 5); bool near = pm("cfg.ctl", 600);
    for (int i = 0; i < n; i++) {
      CtlClient *x = new CtlClient(i); ctls.push_back(x); T at = near ? (T)choose("cfg.ctl", 8000) * MS : (T)choose("cfg.ctl", 60000 * (ns + 1)) * MS;
      if (pm("cfg.ctl", 80)) { static const int es[] = {EAGAIN, ECONNABORTED, EMFILE, EINTR}; int er = es[choose("cfg.ctl", 4)]; after(at, [er] { inject_accept_error(ctl_addr, er); }); }
      after(at, [x] { x->start(); });
    }
  }
  if (mix.hostile_mta || mix.hostile_mil) {
    int nh = 1 + choose("cfg.hostile", 4);
    for (int h = 0; h < nh; h++) hostiles.push_back(new HSession(h));
    for (auto *s : hostiles) after((T)choose("cfg.hostile", 5000) * MS, [s] { s->start(); });
    // whoever comes after them is served as usual
    SessionActor *s = new SessionActor(ns); sessions.push_back(s); s->mod.ver = 6; s->mod.actions = A_ALL; s->mod.steps = P_ALL; s->n_msgs = 1;
    after(3000 * SEC, [s] { s->start(); });
  }
  if (!mix.repeat) after(100 * MS, end_phase);
  trace("start: %d milters, %d sessions, %s", (int)cfg.milters.size(), ns, cfg.libev ? "libev" : "glib");
  if (mix.shut) {
    static const int scale[] = {5000, 1000, 10000, 0};
    after((T)choose("cfg.shut", 1 + scale[choose("cfg.shut", 4)]) * MS, [] {
      if (cfg.pid_file) { FILE *f = fopen("mm.pid", "r"); char b[40] = ""; if (f) { if (!fgets(b, sizeof b, f)) b[0] = 0; fclose(f); } if (atoi(b) != getpid()) violate("shutdown", "the PID file holds <%s>", b); }
      control_signal(ctl_fd); });
  }
  gboolean ok = milter_client_run(client, &e);
  run_returned = true;
  trace("run returned %d", ok);
  if (!shutting_down) violate("shutdown", "the service stopped by itself: %s", e ? e->message : "");
  g_io_channel_unref(ch);
  for (auto *s : sessions) if (s->opened && !s->done && !s->c->sut_closed) s->bad("shutdown", "the service stopped while the session was in progress");
  guint n = milter_client_get_n_processing_sessions(client);
  if (n) violate("count.processing", "%u sessions still counted as being processed when the service stopped", n);
  if (controller) { g_object_unref(controller); if (cfg.ctl_unix && access("ctl.sock", F_OK) == 0) violate("shutdown", "the control socket file was not removed"); }
  if (cfg.unix_listen && access("mm.sock", F_OK) == 0) violate("shutdown", "the socket file was not removed");
  if (cfg.pid_file && access("mm.pid", F_OK) == 0) violate("shutdown", "the PID file was not removed");
  if (mix.shut) { sleep_virtual(20 * SEC); for (auto *s : sessions) for (auto *m : s->mc) m->finish_check(); }
  finish_run();
}
}
