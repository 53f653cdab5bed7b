// World C: an MTA written with the server library (MilterServerContext) between scripted milters.
// Every packet a milter gets is compared with the steps the MTA issued, every signal the MTA gets
// with what the milter answered, or with the timeouts and failures it met.
#include "world.h"
#include <cstring>
#include <algorithm>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include "repo.h"
using namespace sim; using namespace wire; using model::Mix; using model::mix;
namespace world {
namespace {
bool pm(const string &key, int p) { return p > 0 && chance(key, (uint32_t)p, 1000); }
void gen_knobs() {
  knobs = Knobs(); string k = "knobs"; knobs.lat_class = (int)choose(k, 4); if (pm(k, 500)) knobs.seg = 1 + choose(k, 600);
  if (!mix.faults_net) return;
  if (pm(k, 400)) knobs.short_read = choose(k, 500);
  if (pm(k, 400)) knobs.short_write = choose(k, 500);
  if (pm(k, 200)) knobs.eintr = choose(k, 60);
  if (pm(k, 500)) knobs.subset = choose(k, 900);
  if (pm(k, 200)) knobs.sndbuf = 300 + choose(k, 70000);
  if (pm(k, 150)) knobs.sched_jitter = choose(k, 100);
}
MilterEventLoop *loop; bool use_libev, over;
// what the MTA does it does in its event loop: jobs are handed to it
int job_fd; std::deque<std::function<void()>> jobs;
void in_loop(std::function<void()> f) { jobs.push_back(f); control_signal(job_fd); }
void in_loop(T d, std::function<void()> f) { after(d, [f] { in_loop(f); }); }
gboolean on_job(GIOChannel *, GIOCondition, gpointer) { char b[1]; if (read(job_fd, b, 1) < 0) {} while (!jobs.empty()) { auto f = jobs.front(); jobs.pop_front(); f(); } return TRUE; }
string esc(const char *s) { return s ? show(s, 200) : "(null)"; }
const char *step_name(char c) { switch (c) { case 'O': return "negotiate"; case 'C': return "connect"; case 'H': return "helo"; case 'M': return "envelope-from"; case 'R': return "envelope-recipient"; case 'T': return "data"; case 'L': return "header"; case 'N': return "end-of-header"; case 'B': return "body"; case 'E': return "end-of-message"; case 'U': return "unknown"; case 'A': return "abort"; case 'Q': return "quit"; } return "?"; }
int stage_of(char c) { const char *s = c ? strchr("CHMRTEN", c) : nullptr; return s ? (int)(s - "CHMRTEN") : -1; }
// what the milter will do with a packet
struct Plan { char ans = 'c'; string code; T delay = 0; int progress = 0; T gap = 0; char fail = 0; bool twice = false; vector<string> mods; };
struct Want { string pkt; bool step = false; char cmd = 0; bool reply = false, last = true; int n = 0; };
struct Result { bool on = false; string from; vector<string> rcpts, rejected, temp; string headers, added, removed; uint64_t body = 0; bool quarantine = false; };
struct CS; vector<CS *> all;
struct Svc : Service { CS *s; ConnectResult on_connect(T &delay) override; Peer *accept(Conn *) override; };
struct CS : Peer {
  int k, dk; string key, spec; Svc svc; Conn *c = nullptr; Reader rd; MilterServerContext *ctx = nullptr; bool started = false, done = false, settled = false;
  double tc = 300, tw = 10, tr = 10, te = 300;
  // connecting and negotiating
  int conn_how = 0; T conn_delay = 0; uint32_t ver = 6, actions = 0, steps = 0, mver = 6, mactions = 0, msteps = 0, gver = 0, gsteps = 0; map<int, string> reqs;
  // history
  string hist; std::deque<Want> want; std::deque<string> sigs; uint64_t guard = 0, n_want = 0; int n_cmds = 0, n_replies = 0;
  bool quit_seen = false, waiting = false, ended = false, quit_sent = false, dead = false, stalled = false, err_ok = false, timed = false, finished = false, in_call = false, chain = false, closed = false; char cur = 0; T t_issue = 0, t_recv = 0, t_prog = 0, dead_at = 0, t_last_write = 0; uint64_t sent_bytes = 0; Plan plan;
  map<char, map<string, string>> macros; Result res; char status = 0; int processed = 0; bool rcpt_failed = false; char rcpt_status = 0, last_state = 0; string cur_rcpt;
  enum St { NEG, CONNECT, HELO, MSG, RCPT, DATA, HDR, EOH, BODY, EOM, QUIT } st = NEG;
  int helos = 0, msgs = 0, n_msgs = 1, rcpts = 0, n_rcpts = 1, hdrs = 0, n_hdrs = 0, chunks = 0, n_chunks = 0, good = 0; bool in_msg = false, skip = false; int die_at = -1; char die_how = 0; int stop_at = -1; uint64_t h = 0; int busy_left = 1;
  CS(int k) : k(k), dk(mix.repeat ? 0 : k) { key = "s" + std::to_string(dk); }
  void bad(const char *tag, const string &t) { violate(tag, "session %d: %s [%s]", k, t.c_str(), hist.size() > 400 ? ("..." + hist.substr(hist.size() - 400)).c_str() : hist.c_str()); static bool once; if (!once) { once = true; after(60 * SEC, finish_run); } }
  T slack() { return 400 * MS; }
  void config() {
    string ck = key + ".cfg"; bool un = pm(ck, 150);
    spec = un ? "unix:milter" + std::to_string(dk) + ".sock" : "inet:" + std::to_string(20000 + k) + "@127.0.0.1";
    if (un && mix.repeat) spec = "unix:milter" + std::to_string(k) + ".sock";
    svc.s = this; add_service(un ? spec : "inet:" + std::to_string(20000 + k), &svc);
    static const double tt[] = {300, 20, 40, 90}; tc = tt[choose(ck, 4)]; tw = tt[choose(ck, 4)]; tr = tt[choose(ck, 4)]; te = tt[choose(ck, 4)];
    conn_how = 0; if (pm(ck, mix.p_fail_conn)) conn_how = 1 + choose(ck, 4); static const T cd[] = {0, 1 * MS, 40 * MS, 700 * MS, 5 * SEC, 15 * SEC}; conn_delay = pm(ck, mix.p_delay) ? cd[choose(ck, 6)] : 0;
    ver = pm(ck, mix.p_old_version) ? 2 + choose(ck, 5) : 6; actions = pm(ck, 700) ? A_ALL : choose(ck, A_ALL + 1); steps = pm(ck, 700) ? P_ALL : choose(ck, P_ALL + 1);
    mver = ver; if (pm(ck, 100)) mver = 2 + choose(ck, ver - 1); mactions = pm(ck, 600) ? actions : choose(ck, A_ALL + 1); msteps = 0;
    for (uint32_t b = 1; b <= P_HDR_LEADSPC; b <<= 1) if ((b & P_NO_EVENT) ? pm(ck, mix.p_no_event) : (b & P_NR) ? pm(ck, mix.p_nr) : pm(ck, 500)) msteps |= b;
    if (pm(ck, 900)) msteps &= steps;                    // now and then it asks for what was not offered
    reqs.clear(); if (pm(ck, 300)) for (int i = 0; i < 7; i++) if (pm(ck, 400)) { string l; for (int j = 0; j < 5; j++) if (pm(ck, 500)) l += string(l.empty() ? "" : " ") + mac(j); if (!l.empty()) reqs[i] = l; }
    n_msgs = 1 + choose(ck, mix.messages_max);
    if (pm(ck, mix.p_fail_cmd * 5 + mix.p_stall)) { die_at = choose(ck, 16); die_how = "CRSPGXI"[choose(ck, 7)]; if (pm(ck, mix.p_stall)) die_how = 'X'; if (die_how == 'X' && pm(ck, 600)) knobs.sndbuf = 100 + choose(ck, 8000); }
    if (pm(ck, mix.p_stop)) stop_at = 1 + choose(ck, 14);
    busy_left = pm(ck, 150);
  }
  static string mac(int j) { static const char *n[] = {"i", "{mac1}", "{auth_type}", "j", "{mac4}"}; return n[j]; }
  T think() { if (!pm(key + ".think", mix.p_delay)) return 0; static const T dd[] = {50 * US, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 500 * MS, 2 * SEC, 5 * SEC}; return dd[choose(key + ".think", 8)]; }
  // ---- the MTA ------------------------------------------------------------------------
  void start();
  void expect_sig(const string &s) { sigs.push_back(s); }
  void arm(T d, const char *what) { if (guard) cancel(guard); string w = what; guard = after(d, [this, w] { guard = 0; if (!ended) { bad("progress", "no " + w); finish_run(); } }); }
  void disarm() { if (guard) cancel(guard), guard = 0; }
  bool is_terminal(const string &s) { return !strncmp(s.c_str(), "continue", 8) || s[0] == '!' ; }
  void sig(const string &s);
  void after_signal(const string &s);
  void go(T d) { in_loop(d, [this] { if (!ended && !waiting) next(); }); }
  void next();
  bool issue(char cmd, const string &a = "", const string &b = "");
  bool skipped(char cmd) { return (gsteps & no_flag(cmd)) || (cmd == 'T' && gver < 4); }
  bool no_reply(char cmd) { return cmd == 'A' || cmd == 'Q' || (gsteps & nr_flag(cmd)); }
  void set_macros(char cmd);
  void advance(char a);
  void over_msg() { if (pm(key + ".cfg", 500)) end_message(); in_msg = false; } void expect_result(char st_, char alt); void note(char a); void busy(); string gen_body(); bool gnr(char c) { return gsteps & nr_flag(c) || false; } bool dead_early() { return dead && !quit_seen; }
  std::deque<std::pair<Result, std::pair<char, char>>> results; size_t n_pieces = 1; char last_step = 0; bool nr_clean = true, pause = false, sync_done = false;
  void check_result(MilterMessageResult *r);
  void end_message() { if (!in_msg) return; in_msg = false; issue('A'); }
  void on_finished(); void teardown(); void expect_finish(T d);
  // ---- the milter -----------------------------------------------------------------------
  void on_open(Conn *cc) override { c = cc; }
  void on_data(Conn *, const string &b) override { if (dead || stalled) return; rd.feed(b); char cmd; string d; while (!dead && rd.next(cmd, d)) got(packet(cmd, d)); }
  void on_close(Conn *, bool) override { closed = true; trace("%s: closed by the MTA", key.c_str()); if (c->open()) c->close(); }
  void got(const string &p);
  void reply(const string &p, const string &s) { if (!s.empty()) expect_sig(s); if (!dead && c->open()) c->send(p); }
  void answer(const Want &w);
  void die(char how);
  Plan make_plan(char cmd);
};
ConnectResult Svc::on_connect(T &delay) { delay = s->conn_delay; switch (s->conn_how) { case 1: return CONNECT_REFUSED_SYNC; case 2: return CONNECT_REFUSED; case 3: return CONNECT_NEVER; case 4: return CONNECT_UNREACH; } return CONNECT_OK; }
Peer *Svc::accept(Conn *cc) { cc->name = s->key; s->c = cc; return s; }
CS *of(gpointer p) { return (CS *)p; }
// ---- signals of the server library ---------------------------------------------------
void s_ready(MilterServerContext *, gpointer p) { of(p)->sig("ready"); }
void s_stopped(MilterServerContext *, gpointer p) { of(p)->sig("stopped"); }
void s_plain(CS *s, const char *n) { s->sig(n); }
#define PLAIN(f, n) void f(MilterServerContext *, gpointer p) { s_plain(of(p), n); }
PLAIN(s_continue, "continue") PLAIN(s_tempfail, "temporary-failure") PLAIN(s_reject, "reject") PLAIN(s_accept, "accept") PLAIN(s_discard, "discard") PLAIN(s_skip, "skip") PLAIN(s_progress, "progress") PLAIN(s_connfail, "connection-failure") PLAIN(s_shutdown, "shutdown")
PLAIN(s_tconn, "connection-timeout") PLAIN(s_twrite, "writing-timeout") PLAIN(s_tread, "reading-timeout") PLAIN(s_teom, "end-of-message-timeout")
string show_option(uint32_t v, uint32_t a, uint32_t s, const map<int, string> &r) { string o = "negotiate-reply " + std::to_string(v) + " " + std::to_string(a) + " " + std::to_string(s); for (auto &x : r) o += " [" + std::to_string(x.first) + ":" + x.second + "]"; return o; }
void s_negotiate(MilterServerContext *, MilterOption *o, MilterMacrosRequests *r, gpointer p) {
  static const MilterCommand mc[] = {MILTER_COMMAND_CONNECT, MILTER_COMMAND_HELO, MILTER_COMMAND_ENVELOPE_FROM, MILTER_COMMAND_ENVELOPE_RECIPIENT, MILTER_COMMAND_DATA, MILTER_COMMAND_END_OF_MESSAGE, MILTER_COMMAND_END_OF_HEADER};
  map<int, string> m; if (r) for (int i = 0; i < 7; i++) { string l; for (GList *n = milter_macros_requests_get_symbols(r, mc[i]); n; n = n->next) { string w = (char *)n->data; if (w.size() > 1 && w[0] != '{') w = "{" + w + "}"; l += string(l.empty() ? "" : " ") + w; } if (!l.empty()) m[i] = l; }
  of(p)->sig(show_option(milter_option_get_version(o), milter_option_get_action(o), milter_option_get_step(o), m));
}
void s_code(MilterServerContext *, guint c, const gchar *e, const gchar *m, gpointer p) { of(p)->sig("reply-code " + std::to_string(c) + "|" + (e ? e : "") + "|" + (m ? m : "")); }
void s_addh(MilterServerContext *, const gchar *a, const gchar *b, gpointer p) { of(p)->sig("add-header " + esc(a) + "|" + esc(b)); }
void s_insh(MilterServerContext *, guint32 i, const gchar *a, const gchar *b, gpointer p) { of(p)->sig("insert-header " + std::to_string(i) + "|" + esc(a) + "|" + esc(b)); }
void s_chgh(MilterServerContext *, const gchar *a, guint32 i, const gchar *b, gpointer p) { of(p)->sig("change-header " + esc(a) + "|" + std::to_string(i) + "|" + esc(b)); }
void s_delh(MilterServerContext *, const gchar *a, guint32 i, gpointer p) { of(p)->sig("delete-header " + esc(a) + "|" + std::to_string(i)); }
void s_from(MilterServerContext *, const gchar *a, const gchar *b, gpointer p) { of(p)->sig("change-from " + esc(a) + "|" + (b ? esc(b) : "")); }
void s_addr(MilterServerContext *, const gchar *a, const gchar *b, gpointer p) { of(p)->sig("add-recipient " + esc(a) + "|" + (b ? esc(b) : "")); }
void s_delr(MilterServerContext *, const gchar *a, gpointer p) { of(p)->sig("delete-recipient " + esc(a)); }
string body_sig(const string &b) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : b) h = (h ^ c) * 1099511628211ULL; return "replace-body " + std::to_string(b.size()) + "/" + std::to_string(h); }
void s_body(MilterServerContext *, const gchar *b, gsize n, gpointer p) { of(p)->sig(body_sig(string(b, n))); }
void s_quar(MilterServerContext *, const gchar *a, gpointer p) { of(p)->sig("quarantine " + esc(a)); }
void s_error(MilterServerContext *, GError *e, gpointer p) { trace("%s: error: %s", of(p)->key.c_str(), e->message); of(p)->sig(e->domain == MILTER_SERVER_CONTEXT_ERROR && e->code == MILTER_SERVER_CONTEXT_ERROR_BUSY ? "error busy" : e->domain == MILTER_SERVER_CONTEXT_ERROR && e->code == MILTER_SERVER_CONTEXT_ERROR_INVALID_STATE ? "error state" : e->domain == MILTER_SERVER_CONTEXT_ERROR && e->code == MILTER_SERVER_CONTEXT_ERROR_NEWER_VERSION_REQUESTED ? "error version" : e->domain == MILTER_SERVER_CONTEXT_ERROR && e->code == MILTER_SERVER_CONTEXT_ERROR_CONNECTION_FAILURE ? "error connection" : "error"); }
void s_processed(MilterServerContext *, MilterMessageResult *r, gpointer p) { of(p)->check_result(r); }
void s_finished(MilterServerContext *, gpointer p) { of(p)->on_finished(); }
// whether the MTA leaves the milter out of a step: decided before the step is issued
bool stop_now; bool s_stop(CS *s) { bool r = stop_now; stop_now = false; if (r) trace("%s: stops the milter here", s->key.c_str()); return r; }
gboolean st_connect(MilterServerContext *, const gchar *, struct sockaddr *, guint, gpointer p) { return s_stop(of(p)); }
gboolean st_str(MilterServerContext *, const gchar *, gpointer p) { return s_stop(of(p)); }
gboolean st_none(MilterServerContext *, gpointer p) { return s_stop(of(p)); }
gboolean st_header(MilterServerContext *, const gchar *, const gchar *, gpointer p) { return s_stop(of(p)); }
gboolean st_body(MilterServerContext *, const gchar *, gsize, gpointer p) { return s_stop(of(p)); }

void CS::start() {
  started = true; ctx = milter_server_context_new(); milter_agent_set_event_loop(MILTER_AGENT(ctx), loop);
  milter_server_context_set_connection_timeout(ctx, tc); milter_server_context_set_writing_timeout(ctx, tw); milter_server_context_set_reading_timeout(ctx, tr); milter_server_context_set_end_of_message_timeout(ctx, te);
  milter_server_context_set_name(ctx, key.c_str());
  GError *e = NULL; if (!milter_server_context_set_connection_spec(ctx, spec.c_str(), &e)) { bad("open", string("spec refused: ") + e->message); g_error_free(e); done = true; return; }
#define ON(n, f) g_signal_connect(ctx, n, G_CALLBACK(f), this)
  ON("ready", s_ready); ON("stopped", s_stopped); ON("negotiate-reply", s_negotiate); ON("continue", s_continue); ON("reply-code", s_code); ON("temporary-failure", s_tempfail); ON("reject", s_reject); ON("accept", s_accept); ON("discard", s_discard); ON("skip", s_skip); ON("progress", s_progress); ON("connection-failure", s_connfail); ON("shutdown", s_shutdown);
  ON("add-header", s_addh); ON("insert-header", s_insh); ON("change-header", s_chgh); ON("delete-header", s_delh); ON("change-from", s_from); ON("add-recipient", s_addr); ON("delete-recipient", s_delr); ON("replace-body", s_body); ON("quarantine", s_quar);
  ON("connection-timeout", s_tconn); ON("writing-timeout", s_twrite); ON("reading-timeout", s_tread); ON("end-of-message-timeout", s_teom); ON("error", s_error); ON("message-processed", s_processed); ON("finished", s_finished);
  ON("stop-on-connect", st_connect); ON("stop-on-helo", st_str); ON("stop-on-envelope-from", st_str); ON("stop-on-envelope-recipient", st_str); ON("stop-on-data", st_none); ON("stop-on-header", st_header); ON("stop-on-end-of-header", st_none); ON("stop-on-body", st_body); ON("stop-on-end-of-message", st_body);
  t_issue = now(); trace("%s: connects to %s (%d, %lld ms), timeouts %g %g %g %g", key.c_str(), spec.c_str(), conn_how, (long long)(conn_delay / MS), tc, tw, tr, te);
  hist += "connect ";
  if (conn_how) count("fault.connect" + std::to_string(conn_how));
  if (conn_how == 0) expect_sig("ready"); else if (conn_how == 2 || conn_how == 4) expect_sig("error connection"); else if (conn_how == 3) expect_sig("connection-timeout");
  waiting = true; cur = 0;
  gboolean ok = milter_server_context_establish_connection(ctx, &e);
  if (!ok) { if (conn_how != 1 && conn_how != 4 && !(conn_how && spec[0] == 'u')) bad("open", string("not connected: ") + (e ? e->message : "no reason")); if (!e) bad("open", "a failure without a reason"); if (e) g_error_free(e); sigs.clear(); waiting = false; ended = true; in_loop(1 * MS, [this] { teardown(); }); return; }
  if (conn_how == 1) { bad("open", "a refused connection was taken for one"); }
  arm((T)(tc * SEC) + 30 * SEC, "event for the connection");
}
void CS::sig(const string &s) {
  trace("%s: signal %s", key.c_str(), show(s, 90).c_str()); count("signal." + s.substr(0, s.find(' ')));
  if (finished && dead && s == "error") return;
  if (finished) { bad("callback.unexpected", "signal " + show(s) + " after finished"); return; }
  bool tmo = s.size() > 8 && s.compare(s.size() - 8, 8, "-timeout") == 0;
  if (s == "connection-timeout") {
    if (sigs.empty() || sigs.front() != s) { bad("event.early", "unexpected connection-timeout"); return; }
    T d = now() - t_issue, lim = (T)(tc * SEC); if (d < lim - (use_libev ? slack() : 2 * MS)) bad("event.early", "connection-timeout after " + std::to_string(d / MS) + " ms of " + std::to_string(lim / MS)); if (d > lim + slack()) bad("event.late", "connection-timeout after " + std::to_string(d / MS) + " ms of " + std::to_string(lim / MS));
    count("check.timeout"); sigs.pop_front(); waiting = false; ended = true; disarm(); in_loop(0, [this] { teardown(); }); return;
  }
  if (tmo) {
    count("check.timeout"); T t = now(), lo = 0, hi = 0; bool all_out = c && (c->bytes_from_sut >= sent_bytes || (cur == 'B' && n_pieces > 1));
    if (s == "writing-timeout") { lo = t_last_write + (T)(tw * SEC); hi = lo; if (c && c->bytes_from_sut >= sent_bytes) bad("event.early", "writing-timeout though everything had been written"); }
    else if (s == "reading-timeout") { lo = t_issue + (T)(tr * SEC); hi = (t_recv >= t_issue ? t_recv : t_issue + (T)(tw * SEC)) + (T)(tr * SEC); if (!all_out) bad("event.early", "reading-timeout though the step was not written"); if (cur == 'E') bad("event.early", "reading-timeout at end of message"); }
    else { T from = std::max(t_issue, t_prog); lo = from + (T)(te * SEC); hi = std::max(t_recv >= t_issue ? t_recv : t_issue + (T)(tw * SEC), t_prog + 5 * SEC) + (T)(te * SEC); if (cur != 'E') bad("event.early", "end-of-message-timeout at another step"); if (!all_out) bad("event.early", "end-of-message-timeout though the step was not written"); }
    if (!waiting && s != "writing-timeout") bad("event.early", s + " though no answer is awaited");
    if (t < lo - (use_libev ? slack() : 2 * MS)) bad("event.early", s + " " + std::to_string((lo - t) / MS) + " ms too early");
    if (t > hi + slack()) bad("event.late", s + " " + std::to_string((t - hi) / MS) + " ms too late");
    if (dead && die_how != 'S' && die_how != 'P' && die_how != 'X') bad("event.early", s + " of a milter that is gone");
    timed = true; ended = true; waiting = false; sigs.clear(); disarm(); expect_finish(10 * SEC); return;
  }
  if (dead || ended) {               // whatever was on its way may still come, then the end
    if (!strncmp(s.c_str(), "error", 5)) { count("obs.error_at_end"); if (!ended && die_how == 'G') { waiting = false; sigs.clear(); disarm(); ended = true; in_loop(0, [this] { if (!finished) issue('Q'); }); } return; }
    if (!sigs.empty() && sigs.front() == s) { sigs.pop_front(); if (!ended) after_signal(s); return; }
    bad("callback.unexpected", "signal " + show(s) + " that nothing explains"); return;
  }
  if (err_ok && s == "error") return;
  if (sigs.empty()) { bad("callback.unexpected", "signal " + show(s) + " that nothing explains"); return; }
  if (sigs.front() != s) { bad("callback.order", "signal " + show(s, 160) + " instead of " + show(sigs.front(), 160)); return; }
  sigs.pop_front(); count("check.signal"); after_signal(s);
}
// the MTA reacts to what it was told
void CS::after_signal(const string &s) {
  string n = s.substr(0, s.find(' '));
  static const char *mods[] = {"add-header", "insert-header", "change-header", "delete-header", "change-from", "add-recipient", "delete-recipient", "replace-body", "quarantine", "progress"};
  for (auto *m : mods) if (n == m) { if (n == "progress") t_prog = now(); return; }
  if (s == "error busy" || s == "error state") return;
  if (n == "ready") { waiting = false; disarm(); st = NEG; go(think()); return; }
  if (n == "error") { waiting = false; ended = true; disarm(); if (s == "error connection") in_loop(0, [this] { teardown(); }); else { issue('Q'); } return; }
  char a = n == "continue" ? 'c' : n == "reject" ? 'r' : n == "temporary-failure" ? 't' : n == "accept" ? 'a' : n == "discard" ? 'd' : n == "skip" ? 's' : n == "reply-code" ? (s[11] == '4' ? 't' : 'r') : n == "connection-failure" ? 'f' : n == "shutdown" ? '4' : n == "stopped" ? 'S' : n == "negotiate-reply" ? 'O' : '?';
  waiting = false; disarm(); note(a); h = h * 131 + (unsigned char)cur * 7 + a; cover(h); count(string("answer.") + cur + a);
  advance(a);
  if (ended) return;
  if (dead && !stalled) return;
  if (in_call) { sync_done = true; go(think()); return; }
  if (pause) { pause = false; go(30 * SEC); return; }
  if (chain) { trace("%s: goes on at once", key.c_str()); chain = false; next(); return; }
  go(think());
}
void CS::advance(char a) {
  char cmd = cur; bool fin = a == 'a' || a == 'd' || ((a == 'r' || a == 't') && cmd != 'R' && cmd != 'U');
  if (a == 'f' || a == '4') { ended = true; issue('Q'); return; }
  switch (cmd) {
    case 'O': st = CONNECT; return;
    case 'C': st = fin || a == 'S' ? QUIT : HELO; return;
    case 'H': if (fin || a == 'S') st = QUIT; else st = helos == 1 && pm(key + ".cfg", mix.p_multi_helo) ? HELO : MSG; return;
    case 'U': if (a == 'a' || a == 'd') { if (in_msg) { st = MSG; end_message(); } else st = QUIT; } return;
    case 'M': st = fin || a == 'S' ? MSG : RCPT; if (st == MSG) over_msg(); return;
    case 'R': if (a == 'a' || a == 'd' || a == 'S') { st = MSG; over_msg(); } else if (a == 'c') good++; return;
    case 'E': in_msg = false; st = MSG; if (pm(key + ".cfg", 100)) issue('A'); return;
    default: if (cmd == 'B' && a == 's') { skip = true; return; } if (fin || a == 'S') { st = MSG; over_msg(); return; } if (cmd == 'T') st = HDR; else if (cmd == 'N') st = BODY; return;
  }
}
void CS::set_macros(char cmd) {
  if (!strchr("CHMRTLNBEU", cmd)) return; string mk = key + ".mac";
  if (pm(mk, strchr("LB", cmd) ? 100 : mix.p_macros)) {
    GHashTable *t = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free); map<string, string> m;
    for (int j = 0; j < 5; j++) if (pm(mk, 500)) { string v = pm(mk, 60) ? "" : "v" + std::to_string(n_cmds) + "_" + std::to_string(j); m[mac(j)] = v; g_hash_table_insert(t, g_strdup(mac(j).c_str()), g_strdup(v.c_str())); }
    milter_protocol_agent_set_macros_hash_table(MILTER_PROTOCOL_AGENT(ctx), (MilterCommand)cmd, t); g_hash_table_unref(t); macros[cmd] = m;
  }
  else if (pm(mk, 60)) { int j = (int)choose(mk, 5); string v = "w" + std::to_string(n_cmds); milter_protocol_agent_set_macro(MILTER_PROTOCOL_AGENT(ctx), (MilterCommand)cmd, mac(j).c_str(), v.c_str()); macros[cmd][mac(j)] = v; }
}
string canon_macros(char cmd, const map<string, string> &m) { string o(1, cmd); for (auto &x : m) o += z(x.first) + z(x.second); return packet('D', o); }
string canon_packet(const string &p) {
  if (p[4] != 'D' || p.size() < 6) return p;
  string s = p.substr(6); vector<string> w; size_t q = 0; while (q < s.size()) { size_t e = s.find('\0', q); if (e == string::npos) e = s.size(); w.push_back(s.substr(q, e - q)); q = e + 1; }
  map<string, string> m; for (size_t j = 0; j + 1 < w.size(); j += 2) m[w[j]] = w[j + 1];
  return w.size() % 2 ? p : canon_macros(p[5], m);
}
// one step of the protocol; returns whether the milter's answer is awaited
bool CS::issue(char cmd, const string &a, const string &b) {
  if (finished || !ctx) return false;
  n_cmds++; hist += string(1, cmd) + " "; count(string("cmd.") + cmd);
  bool stop = stop_at >= 0 && n_cmds >= stop_at && strchr("CHMRTLNBE", cmd); bool nego = cmd == 'O'; char prev = cur; (void)prev;
  if (stop) stop_at = -1;
  bool skip_it = !stop && !nego && !strchr("AQE", cmd) && skipped(cmd), nr = !nego && no_reply(cmd);
  if (!nego && !strchr("AQ", cmd)) set_macros(cmd);
  stop_now = stop;
  // what follows from it
  if (cmd == 'M') { res = Result(); res.on = true; res.from = a; status = 0; rcpt_failed = false; rcpt_status = 0; }
  if (cmd == 'R' && res.on) { res.rcpts.push_back(a); cur_rcpt = a; }
  if (cmd == 'L' && res.on) res.headers += a + "|" + b + ";";
  if ((cmd == 'B' || cmd == 'E') && res.on) res.body += a.size();
  string pkt; vector<string> pieces;
  struct sockaddr_storage ss; socklen_t sl = 0; memset(&ss, 0, sizeof ss);
  switch (cmd) {
    case 'O': pkt = packet('O', u32(ver) + u32(actions) + u32(steps)); break;
    case 'C': {
      int f = (int)choose(key + ".cfg", 4); string d = z(a);
      if (f == 0) { auto *i = (sockaddr_in *)&ss; i->sin_family = AF_INET; i->sin_port = htons(2525); inet_pton(AF_INET, "192.0.2.7", &i->sin_addr); sl = sizeof *i; d += "4" + string("\x09\xdd", 2) + z("192.0.2.7"); }
      else if (f == 1) { auto *i = (sockaddr_in6 *)&ss; i->sin6_family = AF_INET6; i->sin6_port = htons(50443); inet_pton(AF_INET6, "2001:db8::7", &i->sin6_addr); sl = sizeof *i; d += "6" + string("\xc5\x0b", 2) + z("2001:db8::7"); }
      else if (f == 2) { auto *i = (sockaddr_un *)&ss; i->sun_family = AF_UNIX; strcpy(i->sun_path, "/run/mta"); sl = sizeof *i; d += "L" + string("\0\0", 2) + z("/run/mta"); }
      else { ss.ss_family = AF_UNSPEC; sl = sizeof(struct sockaddr); d += "U"; }
      pkt = packet('C', d); break;
    }
    case 'H': case 'M': case 'R': case 'U': pkt = packet(cmd, z(a)); break;
    case 'L': pkt = packet('L', z(a) + z(b)); break;
    case 'E': pkt = packet('E', a); break;
    default: pkt = packet(cmd); break;
  }
  if (cmd == 'B') { for (size_t o = 0; o < a.size(); o += 65535) pieces.push_back(packet('B', a.substr(o, 65535))); if (a.empty()) pieces.push_back(packet('B')); } else pieces.push_back(pkt);
  if (cmd != 'A' && cmd != 'Q') cur = cmd;
  if (stop) { sigs.push_front("stopped"); waiting = true; }
  else if (skip_it) { sigs.push_front(cmd == 'B' ? "skip" : "continue"); waiting = true; }
  else {
    if (die_at >= 0 && n_cmds >= die_at && die_how == 'X' && !dead) { count("fault.milter_stall"); trace("%s: the milter stops reading", key.c_str()); c->stall(true); stalled = dead = true; }
    int sg = stage_of(cmd); map<string, string> m = macros[cmd];
    if (gver && sg >= 0 && reqs.count(sg)) { map<string, string> f; string l = " " + reqs[sg] + " "; for (auto &x : m) if (l.find(" " + x.first + " ") != string::npos) f[x.first] = x.second; m = f; }
    for (size_t i = 0; i < pieces.size(); i++) {
      if (!m.empty() && !strchr("OAQ", cmd)) { Want w; w.pkt = canon_macros(cmd, m); want.push_back(w); sent_bytes += w.pkt.size(); }
      Want w; w.pkt = pieces[i]; w.step = true; w.cmd = cmd; w.reply = !nr; w.last = i + 1 == pieces.size(); w.n = n_cmds; want.push_back(w); sent_bytes += w.pkt.size();
    }
    if (!strchr("AQ", cmd)) { waiting = !nr; t_issue = t_last_write = now(); t_prog = 0; n_pieces = pieces.size(); }
  }
  trace("%s: issues %s %s%s", key.c_str(), step_name(cmd), show(a, 50).c_str(), stop ? " (stopped)" : skip_it ? " (negotiated away)" : nr ? " (no reply)" : "");
  if (cmd == 'A' && res.on) { bool r = last_step == 'R' && rcpt_failed; expect_result(r ? rcpt_status : 'A', r && (good || !nr_clean || cur == 'U') ? 'A' : 0); }
  if (!strchr("AQU", cmd)) last_step = cmd;
  if (cmd == 'M' || cmd == 'A') for (const char *p = "MRTLNBE"; cmd == 'A' && *p; p++) macros.erase(*p);
  if (nr && !strchr("AQ", cmd)) nr_clean = false; else if (!strchr("AQ", cmd)) nr_clean = true;
  bool sync = in_call; in_call = true; gboolean ok = TRUE;
  switch (cmd) {
    case 'O': { MilterOption *o = milter_option_new(ver, (MilterActionFlags)actions, (MilterStepFlags)steps); ok = milter_server_context_negotiate(ctx, o); g_object_unref(o); break; }
    case 'C': ok = milter_server_context_connect(ctx, a.c_str(), (struct sockaddr *)&ss, sl); break;
    case 'H': ok = milter_server_context_helo(ctx, a.c_str()); break;
    case 'M': ok = milter_server_context_envelope_from(ctx, a.c_str()); break;
    case 'R': ok = milter_server_context_envelope_recipient(ctx, a.c_str()); break;
    case 'U': ok = milter_server_context_unknown(ctx, a.c_str()); break;
    case 'T': ok = milter_server_context_data(ctx); break;
    case 'L': ok = milter_server_context_header(ctx, a.c_str(), b.c_str()); break;
    case 'N': ok = milter_server_context_end_of_header(ctx); break;
    case 'B': ok = milter_server_context_body(ctx, a.data(), a.size()); break;
    case 'E': ok = milter_server_context_end_of_message(ctx, a.empty() ? NULL : a.data(), a.size()); break;
    case 'A': ok = milter_server_context_abort(ctx); break;
    case 'Q': quit_sent = true; ok = milter_server_context_quit(ctx); break;
  }
  in_call = sync;
  if (!ok && !dead && !ended) bad("input.missing", string("the step ") + step_name(cmd) + " was refused");
  if ((stop || skip_it) && waiting && !ended) bad("callback.missing", string("no signal for ") + step_name(cmd) + (stop ? " where the milter was stopped" : " that was negotiated away"));
  if (cmd == 'Q') { ended = true; waiting = false; disarm(); expect_finish((T)((tw + 20) * SEC)); return false; }
  if (stop || skip_it || cmd == 'A') return false;
  if (waiting) { arm((T)((tw + (cmd == 'E' ? te * 5 : tr * (double)pieces.size())) * SEC) + 60 * SEC, "answer or timeout"); 
    if (busy_left && !nego && !dead) { busy_left = 0; in_loop((T)choose(key + ".busy", 40) * MS, [this] { busy(); }); } }
  return waiting;
}
// a step issued although the last one is not answered is refused, and nothing else comes of it
void CS::busy() {
  if (!waiting || ended || dead || finished || skipped('U') || !milter_server_context_is_processing(ctx)) return;
  count("check.busy"); sigs.push_front("error busy"); in_call = true; gboolean ok = milter_server_context_unknown(ctx, "TOO SOON"); in_call = false;
  if (ok || (!sigs.empty() && sigs.front() == "error busy")) bad("callback.missing", "a step was taken although the last one was not answered");
}
void CS::expect_result(char st_, char alt) { Result r = res; r.on = true; results.push_back({r, {st_, alt}}); res.on = false; }
const char *status_name(MilterStatus s) { switch (s) { case MILTER_STATUS_REJECT: return "r"; case MILTER_STATUS_TEMPORARY_FAILURE: return "t"; case MILTER_STATUS_ACCEPT: return "a"; case MILTER_STATUS_DISCARD: return "d"; case MILTER_STATUS_ABORT: return "A"; case MILTER_STATUS_STOP: return "S"; case MILTER_STATUS_QUARANTINE: return "q"; case MILTER_STATUS_NOT_CHANGE: case MILTER_STATUS_DEFAULT: case MILTER_STATUS_CONTINUE: return "c"; default: return "?"; } }
string header_list(MilterHeaders *h) { string o; if (h) for (const GList *n = milter_headers_get_list(h); n; n = n->next) { MilterHeader *x = (MilterHeader *)n->data; o += string(x->name ? x->name : "") + "|" + (x->value ? x->value : "(null)") + ";"; } return o; }
// (no order is promised for the changes)
string sorted(const string &s) { vector<string> v; string w; for (char ch : s) { w += ch; if (ch == ';') v.push_back(w), w.clear(); } std::sort(v.begin(), v.end()); string o; for (auto &x : v) o += x; return o; }
string name_list(GList *l) { string o; for (; l; l = l->next) o += string((char *)l->data) + ";"; return o; }
string name_list(const vector<string> &v) { string o; for (auto &x : v) o += x + ";"; return o; }
void CS::check_result(MilterMessageResult *r) {
  trace("%s: message processed, status %d", key.c_str(), milter_message_result_get_status(r)); count("check.message_processed");
  if (dead && results.empty()) return;
  if (results.empty()) { bad("callback.unexpected", "a message was reported as processed that is not over"); return; }
  auto e = results.front(); results.pop_front(); Result &x = e.first; char s = *status_name(milter_message_result_get_status(r));
  auto cmp = [&](const char *what, const string &got, const string &w) { if (got != w) bad("callback.data", string("the processed message's ") + what + " is " + show(got) + ", in fact it is " + show(w)); };
  if (s != e.second.first && !(e.second.second && s == e.second.second)) bad("callback.data", string("the processed message's status is ") + s + ", in fact it is " + e.second.first);
  cmp("sender", milter_message_result_get_from(r) ? milter_message_result_get_from(r) : "", x.from); cmp("recipients", name_list(milter_message_result_get_recipients(r)), name_list(x.rcpts));
  cmp("rejected recipients", name_list(milter_message_result_get_rejected_recipients(r)), name_list(x.rejected)); cmp("temporarily failed recipients", name_list(milter_message_result_get_temporary_failed_recipients(r)), name_list(x.temp));
  cmp("headers", header_list(milter_message_result_get_headers(r)), x.headers); cmp("added headers", sorted(header_list(milter_message_result_get_added_headers(r))), sorted(x.added)); cmp("removed headers", sorted(header_list(milter_message_result_get_removed_headers(r))), sorted(x.removed));
  cmp("body size", std::to_string(milter_message_result_get_body_size(r)), std::to_string(x.body)); cmp("quarantine", milter_message_result_is_quarantine(r) ? "yes" : "no", x.quarantine ? "yes" : "no");
}
// what the MTA was told decides the message or the recipient
void CS::note(char a) {
  if (!res.on || !strchr("MRTLNBE", cur)) { if (cur == 'U' && res.on && (a == 'a' || a == 'd')) { expect_result(a, 0); } return; }
  if (cur == 'R' && (a == 'r' || a == 't')) { rcpt_failed = true; rcpt_status = a; (a == 'r' ? res.rejected : res.temp).push_back(cur_rcpt); for (size_t i = 0; i < res.rcpts.size(); i++) if (res.rcpts[i] == cur_rcpt) { res.rcpts.erase(res.rcpts.begin() + (long)i); break; } return; }
  if (a == 'a' || a == 'd' || a == 'r' || a == 't' || a == 'S') { expect_result(a, 0); return; }
  if (cur == 'E' && a == 'c') expect_result(res.quarantine ? 'q' : 'c', 0);
}
void CS::next() {
  if (ended || waiting || finished || !ctx) return;
  if (dead && (die_how == 'I' || quit_seen)) return;
  string ck = key + ".cfg", nn = std::to_string(n_cmds); bool w = false;
  chain = pm(key + ".chain", 300);
  if (st != NEG && st != QUIT && pm(ck, mix.p_unknown)) { if (issue('U', "VRFY x" + nn)) return; go(think()); return; }
  if (in_msg && st != EOM && pm(ck, mix.p_abort / 2) && nr_clean) { st = MSG; end_message(); go(think()); return; }
  switch (st) {
    case NEG: w = issue('O'); break;
    case CONNECT: st = HELO; w = issue('C', "host" + nn + ".example.com"); break;
    case HELO: helos++; st = MSG; w = issue('H', "helo" + nn + ".example.com"); break;
    case MSG: if (msgs >= n_msgs) { st = QUIT; issue('Q'); return; }
      if (in_msg) end_message();
      if (ended) return;
      msgs++; in_msg = true; rcpts = good = hdrs = chunks = 0; skip = false; n_rcpts = 1 + choose(ck, 3); n_hdrs = choose(ck, 4); n_chunks = choose(ck, 4); st = RCPT; w = issue('M', "<from" + nn + "@x> SIZE=3"); break;
    case RCPT: if (rcpts >= n_rcpts) { if (!good && !gnr('R')) { st = MSG; end_message(); go(think()); return; } st = HDR; w = issue('T'); break; } rcpts++; if (gnr('R')) good++; w = issue('R', "<rcpt" + nn + "@x>"); break;
    case DATA: case HDR: if (hdrs < n_hdrs) { hdrs++; w = issue('L', pm(ck, 300) ? "Subject" : "X-H" + nn, pm(ck, 60) ? "" : pm(ck, 200) ? "a\n\tb " + nn : "value " + nn); } else { st = BODY; w = issue('N'); } break;
    case EOH: case BODY: if (chunks < n_chunks && !skip) { chunks++; w = issue('B', gen_body()); break; }
      st = EOM; /* fallthrough */
    case EOM: w = issue('E', pm(ck, 250) ? "last piece " + nn : ""); break;
    case QUIT: issue('Q'); return;
  }
  if (!w && !ended && !waiting && !sync_done) go(chain ? 0 : think());
  sync_done = false;
}
string CS::gen_body() {
  string ck = key + ".cfg"; size_t n = 1 + choose(ck, 200); if (pm(ck, mix.p_bigbody * 2)) n = 1000 + choose(ck, 64000); if (die_how == 'X') n = 200 + choose(ck, 60000); if (pm(ck, mix.p_bigbody)) n = 65500 + choose(ck, 200000);
  string s(n, 'x'); for (size_t j = 0; j < n; j += 1 + j % 53) s[j] = (char)(j * 11 + n_cmds); return s;
}
void CS::got(const string &p) {
  string q = canon_packet(p); trace("%s: milter < %s", key.c_str(), show(p.substr(4), 60).c_str());
  if (want.empty()) { bad("input.order", "the milter got " + show(p.substr(4)) + " that nobody sent"); return; }
  Want w = want.front();
  if (w.step && w.cmd == 'C' && q[4] == 'C') { size_t i = q.find("IPv6:"); if (i != string::npos) { string d = q.substr(5); d.erase(i - 5, 5); q = packet('C', d); } }
  if (q != w.pkt) { bad(q[4] != w.pkt[4] ? "input.order" : q[4] == 'D' ? "input.macros" : "input.data", "the milter got " + show(p.substr(4)) + " (" + std::to_string(p.size()) + ") instead of " + show(w.pkt.substr(4)) + " (" + std::to_string(w.pkt.size()) + ")"); want.clear(); return; }
  want.pop_front(); count("check.packet");
  if (!w.step) return;
  if (w.cmd == 'Q') { if (c->open()) { dead = quit_seen = true; c->close(); } return; }
  if (!w.reply) return;
  t_recv = now(); answer(w);
}
Plan CS::make_plan(char cmd) {
  Plan p; string pk = key + ".plan"; double lim = cmd == 'E' ? te : tr;
  if (pm(pk, mix.p_delay)) { static const T dd[] = {0, 1 * MS, 30 * MS, 400 * MS, 3 * SEC, 0}; uint32_t i = choose(pk, 6); p.delay = i == 5 ? (T)(lim * 0.6 * SEC) : dd[i]; }
  if (cmd == 'O') return p;
  if (pm(pk, cmd == 'E' ? 500 : mix.p_verdict / (strchr("CHTU", cmd) ? 6 : 1))) {
    const char *opt = cmd == 'B' ? "rtads" : cmd == 'U' ? "rt" : "rtad"; p.ans = opt[choose(pk, (uint32_t)strlen(opt))];
    if (pm(pk, 60)) p.ans = "f4"[choose(pk, 2)];
    if ((p.ans == 'r' || p.ans == 't') && pm(pk, mix.p_code)) { static const char *x[] = {"", "7.1", "0.0"}; string e = x[choose(pk, 3)], cl = p.ans == 'r' ? "5" : "4"; p.code = cl + std::to_string(50 + choose(pk, 5)) + "|" + (e.empty() ? "" : cl + "." + e) + "|text " + std::to_string(n_cmds); }
  }
  if (cmd == 'E') { p.progress = pm(pk, 250) ? 1 + choose(pk, 3) : 0; p.gap = (T)(lim * 0.55 * SEC); if (pm(pk, 500)) p.gap = 10 * MS; if (pm(pk, mix.p_mods)) { int n = 1 + choose(pk, 6); for (int i = 0; i < n; i++) p.mods.push_back(""); } }
  p.twice = cmd != 'B' && pm(pk, 25);
  return p;
}
void CS::die(char how) {
  if (dead) return; trace("%s: the milter fails (%c)", key.c_str(), how); count(string("fault.milter_") + how); dead = true; dead_at = now();
  switch (how) {
    case 'C': case 'I': c->close(); break;
    case 'R': c->reset(); break;
    case 'P': c->send(packet('y', z("550 5.0.0 x")).substr(0, 3 + choose(key + ".plan", 8))); break;
    case 'G': { static const string g[] = {packet('?', "junk"), string("\0\0\0\0", 4) + "xxxx", packet('y', "9"), packet('h', "noterm"), packet('m', "ab"), packet('i', "zz"), packet('O', "short")}; c->send(g[choose(key + ".plan", 7)]); break; }
  }
  if (how == 'C' || how == 'R' || how == 'I') expect_finish(15 * SEC);
  if (how == 'G') after(15 * SEC, [this] { if (!ended && !finished) { bad("callback.missing", "nothing was told about an answer that makes no sense"); finish_run(); } });
}
void CS::answer(const Want &w) {
  if (die_at >= 0 && w.n >= die_at && strchr("CRSPG", die_how)) { die(die_how); return; }
  Plan p = make_plan(w.cmd); int n = w.n; char cmd = w.cmd; bool last = w.last; T t = p.delay;
  for (int i = 0; i < p.progress; i++) { t += p.gap; after(t, [this] { if (!dead && !ended) { count("answer.progress"); reply(packet('p'), "progress"); } }); }
  if (p.progress) t += p.gap;
  auto f = [this, p, n, cmd, last] {
    if (dead || closed) return;
    if (cmd == 'O') { string r = u32(mver) + u32(mactions) + u32(msteps); for (auto &x : reqs) r += u32((uint32_t)x.first) + z(x.second); map<int, string> rq; for (auto &x : reqs) { string l, wd; for (char ch : x.second + " ") if (ch == ' ') { if (wd.size() > 1 && wd[0] != '{') wd = "{" + wd + "}"; l += string(l.empty() ? "" : " ") + wd; wd.clear(); } else wd += ch; rq[x.first] = l; } gver = mver; gsteps = msteps & steps; reply(packet('O', r), show_option(mver, mactions, msteps, rq)); return; }
    string out; vector<string> ex; string pk = key + ".plan";
    for (size_t i = 0; i < p.mods.size(); i++) {
      static const char *names[] = {"Subject", "X-A", "Received"}; string v = "v" + std::to_string(n) + "." + std::to_string(i), a = names[choose(pk, 3)]; uint32_t idx = choose(pk, 4); string par = pm(pk, 300) ? "P=" + v : "";
      switch ("hhimmb+-eq"[choose(pk, 10)]) {
        case 'h': if (pm(pk, 100)) v = " " + v; out += packet('h', z(a) + z(v)); ex.push_back("add-header " + a + "|" + v); res.added += a + "|" + v + ";"; break;
        case 'i': out += packet('i', u32(idx) + z(a) + z(v)); ex.push_back("insert-header " + std::to_string(idx) + "|" + a + "|" + v); res.added += a + "|" + v + ";"; break;
        case 'm': idx++; if (pm(pk, 300)) { out += packet('m', u32(idx) + z(a) + z("")); ex.push_back("delete-header " + a + "|" + std::to_string(idx)); res.removed += a + "|(null);"; } else { out += packet('m', u32(idx) + z(a) + z(v)); ex.push_back("change-header " + a + "|" + std::to_string(idx) + "|" + v); res.added += a + "|" + v + ";"; } break;
        case 'b': { size_t m = 1 + choose(pk, 100); if (pm(pk, 150)) m = 1000 + choose(pk, 64000); string b(m, 'y'); for (size_t j = 0; j < m; j += 1 + j % 31) b[j] = (char)(j * 3 + n); out += packet('b', b); ex.push_back(body_sig(b)); break; }
        case '+': out += par.empty() ? packet('+', z("<" + v + "@x>")) : packet('2', z("<" + v + "@x>") + z(par)); ex.push_back("add-recipient <" + v + "@x>|" + par); break;
        case '-': out += packet('-', z("<" + v + "@x>")); ex.push_back("delete-recipient <" + v + "@x>"); break;
        case 'e': out += packet('e', z("<" + v + "@x>") + (par.empty() ? "" : z(par))); ex.push_back("change-from <" + v + "@x>|" + par); break;
        case 'q': out += packet('q', z("held " + v)); ex.push_back("quarantine held " + v); res.quarantine = true; break;
      }
    }
    for (auto &x : ex) expect_sig(x);
    string s, one; char a = p.ans;
    if (!p.code.empty()) { size_t i = p.code.find('|'), j = p.code.find('|', i + 1); string e = p.code.substr(i + 1, j - i - 1); one = packet('y', z(p.code.substr(0, i) + " " + e + (e.empty() ? "" : " ") + p.code.substr(j + 1))); s = "reply-code " + p.code; }
    else { one = packet(a); s = a == 'c' ? "continue" : a == 'r' ? "reject" : a == 't' ? "temporary-failure" : a == 'a' ? "accept" : a == 'd' ? "discard" : a == 's' ? "skip" : a == 'f' ? "connection-failure" : "shutdown"; }
    if (a == 'c' && cmd == 'B' && !last) s = "";       // the rest of the chunk is to come
    else if (cmd == 'B' && !last) { while (!want.empty() && (want.front().cmd == 'B' || !want.front().step)) { sent_bytes -= want.front().pkt.size(); want.pop_front(); } }
    trace("%s: milter > %s", key.c_str(), show(one.substr(4), 60).c_str());
    bool tw_ = p.twice && a != 'f' && a != '4'; if (tw_) { pause = true; count("fault.answered_twice"); }
    if (!s.empty()) expect_sig(s); if (tw_) expect_sig("error state");
    if (!dead && c->open()) c->send(out + one + (tw_ ? one : ""));
    if (die_at >= 0 && n >= die_at && die_how == 'I') die('I');
  };
  if (t) after(t, f); else f();
}
void CS::expect_finish(T d) {
  after(d, [this, d] { if (!finished) { bad("progress", "not finished " + std::to_string(d / SEC) + " s after its end"); finish_run(); } });
}
void CS::on_finished() {
  trace("%s: finished", key.c_str()); count("callback.finished");
  if (finished) { bad("callback.unexpected", "the end was told twice"); return; }
  finished = true; disarm();
  if (!ended && !dead) bad("answer.closed", "the connection was ended though neither side did");
  if (waiting && !dead && !ended) bad("answer.missing", "ended while an answer was awaited");
  if (waiting && stalled && !ended && !timed) bad("callback.missing", "ended without a timeout though the milter did not take the step");
  ended = true; waiting = false; in_loop(0, [this] { teardown(); });
}
void CS::teardown() {
  if (!ctx) return;
  if (quit_sent && !dead_early() && !timed) { if (!want.empty() && c && !c->rst) after(5 * SEC, [this] { if (!want.empty()) bad("input.missing", "the milter did not get " + show(want.front().pkt.substr(4))); }); }
  if (!dead_early() && !timed && !results.empty()) bad("callback.missing", "a message was not reported as processed");
  g_object_unref(ctx); ctx = nullptr;
  after(10 * SEC, [this] { if (c && !c->sut_closed) bad("cleanup.milter", "the connection is still open 10 s after the end"); done = true; });
}
// ---- the run ----------------------------------------------------------------------------
void left(const char *when) {
  for (auto &f : fd_open_list()) if (f.find("conn") != string::npos || f.find("new") != string::npos || f.find("failed") != string::npos) violate("cleanup.fd", "%s: descriptor left open: %s", when, f.c_str());
  T t = poll_timeout(); count("check.timers"); if (use_libev ? t >= 0 && t < 50 * SEC : t >= 0) violate("cleanup.timer", "%s: the event loop still has a timer to run (%lld ms)", when, (long long)(t / MS));
}
int ctl_fd;
gboolean on_ctl(GIOChannel *, GIOCondition, gpointer) { over = true; milter_event_loop_quit(loop); return FALSE; }
void finish_all() {
  for (auto *s : all) if (!s->done) { after(5 * SEC, finish_all); return; }
  after(20 * SEC, [] { left("after all sessions"); control_signal(ctl_fd); after(20 * SEC, [] { violate("stuck", "the event loop did not end"); finish_run(); }); });
}
vector<long> heap_at;
void repeat_next(int k) {
  if (k && !all[k - 1]->done) { after(2 * SEC, [k] { repeat_next(k); }); return; }
  if (k && !all[k - 1]->settled) { all[k - 1]->settled = true; after(30 * SEC, [k] { repeat_next(k); }); return; }
  heap_at.push_back(heap_live); if (getenv("SIM_LEAK")) heap_trace = k + 1;
  if (k) left("after a session");
  if (k == (int)all.size()) {
    long a = heap_at[k] - heap_at[k - 1], b = heap_at[k - 1] - heap_at[k - 2], c = heap_at[k - 2] - heap_at[k - 3];
    count("check.heap"); if (a > 0 && b > 0 && c > 0) { violate("cleanup.memory", "every repetition of the session leaves %ld blocks of memory allocated", std::min(a, std::min(b, c))); if (getenv("SIM_LEAK")) heap_report(k - 1, k - 1); }
    finish_all(); return;
  }
  if (k == 0) choices_mark(); else choices_rewind();
  all[k]->config(); in_loop([k] { all[k]->start(); }); after(2 * SEC, [k] { repeat_next(k + 1); });
}
}
void run_server(const string &) {
  use_libev = pm("cfg.libev", 500); gen_knobs(); active = true;
  loop = use_libev ? milter_libev_event_loop_new() : milter_glib_event_loop_new(NULL);
  ctl_fd = control_fd(); GIOChannel *ch = g_io_channel_unix_new(ctl_fd); g_io_channel_set_encoding(ch, NULL, NULL); g_io_channel_set_close_on_unref(ch, FALSE); milter_event_loop_watch_io(loop, ch, G_IO_IN, on_ctl, NULL);
  job_fd = control_fd(); GIOChannel *jc = g_io_channel_unix_new(job_fd); g_io_channel_set_encoding(jc, NULL, NULL); g_io_channel_set_close_on_unref(jc, FALSE); milter_event_loop_watch_io(loop, jc, G_IO_IN, on_job, NULL);
  int ns = mix.repeat ? 6 : 1 + (int)choose("cfg.sessions", mix.sessions_max); T t = 0;
  for (int k = 0; k < ns; k++) all.push_back(new CS(k));
  if (mix.repeat) after(1 * MS, [] { repeat_next(0); });
  else { for (auto *s : all) { s->config(); t = mix.concurrency ? (T)choose("cfg.start", 5000) * MS : t + 3000 * SEC; in_loop(t, [s] { s->start(); }); } after(100 * MS, finish_all); }
  trace("start: %d sessions, %s", ns, use_libev ? "libev" : "glib");
  milter_event_loop_run(loop); trace("run returned");
  if (!over) violate("stuck", "the event loop ended by itself");
  g_io_channel_unref(ch); g_io_channel_unref(jc); g_object_unref(loop);
  finish_run();
}
}
