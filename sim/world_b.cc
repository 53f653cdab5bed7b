// World B: a milter written with the client library (MilterClient, MilterClientContext), driven by
// scripted MTAs over simulated connections.  Every callback is compared with what the MTA sent,
// every packet the MTA gets with what the callbacks answered.
#include "world.h"
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include "repo.h"
using namespace sim; using namespace wire; using model::Mix; using model::mix;
namespace world {
namespace {
bool pm(const string &key, int p) { return p > 0 && chance(key, (uint32_t)p, 1000); }
void gen_knobs() {
  knobs = Knobs(); string k = "knobs"; knobs.lat_class = (int)choose(k, 4); if (pm(k, 500)) knobs.seg = 1 + choose(k, 600);
  if (!mix.faults_net) return;
  if (pm(k, 400)) knobs.short_read = choose(k, 500);
  if (pm(k, 400)) knobs.short_write = choose(k, 500);
  if (pm(k, 200)) knobs.eintr = choose(k, 60);
  if (pm(k, 500)) knobs.subset = choose(k, 900);
  if (pm(k, 200)) knobs.sndbuf = 300 + choose(k, 70000);
  if (pm(k, 150)) knobs.sched_jitter = choose(k, 100);
}
MilterClient *client; MilterEventLoop *loop; bool use_libev, run_over, shutting; int timeout_s = 7210; string addr = "inet:10026"; unsigned pbuf;
std::set<char> compat_handlers;   // compat: the filter is written with the libmilter-compatible library
struct Mod { char c; uint32_t idx; string a, b; };
struct Exp { char cmd; string arg; map<string, string> macros; bool has_macros; int n; int msg = 0; bool tail = false; };
struct Plan { char st = 'c'; string code; T delay = -1; vector<Mod> mods; size_t late_from = 0; int progress = 0; int bad_code = -1; bool def = false; };
string mod_packet(const Mod &m) {
  switch (m.c) {
    case 'h': return packet('h', z(m.a) + z(m.b));
    case 'i': return packet('i', u32(m.idx) + z(m.a) + z(m.b));
    case 'm': return packet('m', u32(m.idx) + z(m.a) + z(m.b));
    case '+': return m.b.empty() ? packet('+', z(m.a)) : packet('2', z(m.a) + z(m.b));
    case '-': return packet('-', z(m.a));
    case 'e': return packet('e', z(m.a) + (m.b.empty() ? "" : z(m.b)));
    case 'q': return packet('q', z(m.a));
  }
  return "";
}
uint32_t action_of(const Mod &m) { switch (m.c) { case 'h': case 'i': return A_ADDHDRS; case 'm': return A_CHGHDRS; case 'b': return A_CHGBODY; case '+': return m.b.empty() ? A_ADDRCPT : A_ADDRCPT_PAR; case '-': return A_DELRCPT; case 'e': return A_CHGFROM; case 'q': return A_QUARANTINE; } return 0; }
struct BS; vector<BS *> all;
int stage_of(char c) { const char *s = strchr("CHMRTEN", c); return s && c ? (int)(s - "CHMRTEN") : -1; }

struct BS : Peer {
  int k, dk; string key; Conn *c = nullptr; Reader rd; bool started = false, done = false, broken = false, opened = false, waiting = false, silent = false, got_finished = false, got_timeout = false, quit_sent = false, closed = false, hostile = false, settled = false;
  // offered and granted
  uint32_t ver = 6, actions = A_ALL, steps = P_ALL, gver = 0, gactions = 0, gsteps = 0; map<int, string> want_macros; Plan neg; bool neg_seen = false, granted = false; uint32_t plan_actions = 0, plan_steps = 0; char neg_st = 'c';
  std::set<char> handlers; bool bytes = false;
  std::deque<Exp> exp; vector<string> out; size_t out_pos = 0; int progress_left = 0; int n_cmds = 0, break_at = -1, break_how = 0, silent_at = -1, silent_how = 0; char cur = 0; int cur_n = 0; uint64_t guard = 0; T last = 0; T answer_by = 0;
  SMFICTX *sctx = nullptr; MilterClientContext *ctx = nullptr; guint timer = 0; char pend_cmd = 0; Plan pend; MilterOption *pend_opt = nullptr; MilterMacrosRequests *pend_req = nullptr; bool in_eom = false; bool quarantine_set = false; string quarantine;
  enum St { NEG, CONNECT, HELO, MSG, RCPT, DATA, HDR, EOH, BODY, EOM, QUIT, OVER } st = NEG;
  int helos = 0, msgs = 0, n_msgs = 1, rcpts = 0, n_rcpts = 1, hdrs = 0, n_hdrs = 0, chunks = 0, n_chunks = 0, good = 0; bool in_msg = false, skip = false; string hist; uint64_t h = 0;
  BS(int k) : k(k), dk(mix.repeat ? 0 : k) { key = "s" + std::to_string(dk); }
  void bad(const char *tag, const string &t) { if (hostile) return; violate(tag, "session %d: %s [%s]", k, t.c_str(), hist.size() > 400 ? ("..." + hist.substr(hist.size() - 400)).c_str() : hist.c_str()); }
  void config() {
    string ck = key + ".cfg";
    ver = pm(ck, mix.p_old_version) ? 2 + choose(ck, 5) : 6; actions = pm(ck, 600) ? A_ALL : choose(ck, A_ALL + 1); steps = pm(ck, 700) ? P_ALL : choose(ck, P_ALL + 1);
    if (ver < 6) { actions &= 0x3f; steps &= ver < 3 ? 0x7f : 0x3ff; }
    n_msgs = 1 + choose(ck, mix.messages_max); bytes = pm(ck, 400);
    for (const char *p = "OCHMRTLNBEUAD"; *p; p++) if (pm(ck, 920)) handlers.insert(*p);
    if (pm(ck, 700)) handlers.insert('O');
    uint32_t m = choose(ck, 10); neg_st = m == 0 ? 'o' : m == 1 && pm(ck, 300) ? 'r' : m == 2 ? '0' : 'c';
    plan_actions = (pm(ck, 600) ? A_ALL : choose(ck, A_ALL + 1)) & actions;
    plan_steps = 0; for (uint32_t b = 1; b <= P_HDR_LEADSPC; b <<= 1) if (steps & b) { if ((b & P_NO_EVENT) ? pm(ck, mix.p_no_event) : (b & P_NR) ? pm(ck, mix.p_nr) : pm(ck, 500)) plan_steps |= b; }
    if (pm(ck, 250) && ver >= 6 && (actions & A_SETSYMLIST)) for (int i = 0; i < 7; i++) if (pm(ck, 300)) { string l; for (int j = 0; j < 5; j++) if (pm(ck, 500)) l += string(l.empty() ? "" : " ") + model::macro_name(j); if (!l.empty()) want_macros[i] = l; }
    if (mix.compat) { handlers = compat_handlers; bytes = false; if (neg_st == '0') neg_st = 'o'; }
    if (!want_macros.empty()) plan_actions |= A_SETSYMLIST; else plan_actions &= ~(uint32_t)A_SETSYMLIST;
    if (!handlers.count('O') || (neg_st != 'c' && neg_st != 'o')) want_macros.clear();
    neg.delay = delay();
    if (pm(key + ".brk", mix.p_mta_break)) { break_at = 1 + choose(key + ".brk", 18); break_how = choose(key + ".brk", 4); }
    if (pm(key + ".silent", mix.p_silent)) { silent_at = choose(key + ".silent", 18); silent_how = choose(key + ".silent", 4); }
  }
  T delay() { if (mix.compat) return -1; string dk = key + ".delay"; if (!pm(dk, 300)) return -1; static const T dd[] = {0, 1 * MS, 30 * MS, 400 * MS, 3 * SEC, 20 * SEC, 150 * SEC}; return dd[choose(dk, 7)] + (T)choose(dk, 1000) * US; }
  T think() { if (!pm(key + ".think", mix.p_delay)) return 0; static const T dd[] = {50 * US, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 500 * MS, 2 * SEC, 5 * SEC}; return dd[choose(key + ".think", 8)]; }
  void start() { started = true; c = dial(addr, this, key); if (!c) { bad("admission", "connection refused"); done = true; } }
  void on_open(Conn *cc) override { c = cc; opened = true; last = now(); later(think()); guard = after(300 * SEC, [this] { guard = 0; if (!mix.compat && !ctx && !broken && !done) { bad("admission", "not served 300 s after it was connected"); finish_run(); } }); }
  void on_data(Conn *, const string &b) override { rd.feed(b); char cmd; string d; while (rd.next(cmd, d)) got(packet(cmd, d)); }
  void later(T d) { after(d, [this] { next(); }); }
  void got(const string &p) {
    trace("%s < %s", key.c_str(), show(p.substr(4), 60).c_str()); last = now();
    if (hostile) { waiting = false; return; }
    if (p == packet('p')) { if (progress_left-- <= 0) bad("answer.unexpected", "a progress report nobody made"); count("check.progress"); return; }
    if (out_pos >= out.size()) { bad("answer.unexpected", "unexpected packet " + show(p.substr(4))); return; }
    if (out[out_pos] == "O") {
      if (p[4] != 'O' || p.size() < 17) bad("answer.wrong", "got " + show(p.substr(4)) + " as the answer to the negotiation");
      else {
        map<int, string> r; size_t i = 17; while (i + 4 < p.size()) { size_t e = p.find('\0', i + 4); if (e == string::npos) break; r[(int)g32(p, i)] = p.substr(i + 4, e - i - 4); i = e + 1; }
        if (g32(p, 5) != ver || g32(p, 9) != want_actions || g32(p, 13) != want_steps || r != want_macros) bad("negotiate.grant", "negotiated " + show(p.substr(5)) + ", the milter asked for actions " + std::to_string(want_actions) + " steps " + std::to_string(want_steps) + " and the macros of " + std::to_string(want_macros.size()) + " steps");
      }
    }
    else if (out[out_pos] != p) { bad("answer.wrong", "got " + show(p.substr(4)) + ", the milter's was " + show(out[out_pos].substr(4))); }
    out_pos++; count("check.packet");
    if (st == NEG) { if (p[4] == 'O') { gver = g32(p, 5); gactions = g32(p, 9); gsteps = g32(p, 13); granted = true; on_answer(p); } else if (p[4] == 'r') on_answer(p); return; }
    if (strchr("carstdy", p[4])) on_answer(p);
  }
  void on_answer(const string &p) {
    if (!waiting) { bad("answer.unexpected", "an answer to nothing: " + show(p.substr(4))); return; }
    waiting = false; if (guard) cancel(guard), guard = 0; char a = p[4]; if (a == 'y') a = p.size() > 5 && p[5] == '4' ? 't' : 'r';
    count(string("answer.") + cur + a); h = h * 131 + cur * 7 + a; cover(h);
    advance(cur, a);
    if (!done && !broken) later(think());
  }
  // what the MTA does after an answer (or, for a command without an answer, after 'c')
  void advance(char cmd, char a) {
    bool over = a == 'a' || a == 'd' || ((a == 'r' || a == 't') && cmd != 'R' && cmd != 'U');
    switch (cmd) {
      case 'O': st = a == 'r' ? QUIT : CONNECT; return;
      case 'C': st = over ? QUIT : HELO; return;
      case 'H': if (over) st = QUIT; else st = helos == 1 && pm(key + ".cfg", mix.p_multi_helo) ? HELO : MSG; return;
      case 'U': if (a == 'a' || a == 'd' ) st = in_msg ? MSG : QUIT; if (a == 'r' || a == 't') {} if (st == MSG && in_msg) over_msg(); return;
      case 'M': if (over) over_msg(); else st = RCPT; return;
      case 'R': if (a == 'a' || a == 'd') over_msg(); else if (a == 'c') good++; return;
      case 'T': if (over) over_msg(); else st = HDR; return;
      case 'L': if (over) over_msg(); return;
      case 'N': if (over) over_msg(); else st = BODY; return;
      case 'B': if (a == 's') skip = true; else if (over) over_msg(); return;
      case 'E': in_msg = false; st = MSG; return;
    }
  }
  void over_msg() { st = MSG; if (pm(key + ".cfg", 400)) { send_abort(); } in_msg = false; }
  bool started_msg = false;   // the filter saw a part of the message
  void send_abort() { if (broken || done || (mix.compat && !started_msg)) return; started_msg = false; send('A', ""); }
  bool skipped(char cmd) { return (gsteps & no_flag(cmd)) || (cmd == 'T' && gver < 4) || (cmd == 'U' && gver < 3); }
  bool no_reply(char cmd) { return cmd == 'A' || cmd == 'Q' || (gsteps & nr_flag(cmd)); }
  // send a command with its macros; what the milter will be called with, and - if it does not handle it - answer
  void send(char cmd, const string &data, const string *arg = nullptr) {
    if (done || broken) return;
    string o; Exp e; e.cmd = cmd; e.arg = arg ? *arg : data; e.n = ++n_cmds; e.has_macros = false; e.msg = msgs;
    if (cmd == 'A') { Exp a = e; a.cmd = 'a'; exp.push_back(a); }
    if (strchr("CHMRTNEULB", cmd) && pm(key + ".mac", strchr("LBU", cmd) ? 150 : mix.p_macros)) {
      int sg = stage_of(cmd); bool lim = sg >= 0 && want_macros.count(sg) && granted; string l = lim ? " " + want_macros[sg] + " " : "";
      map<string, string> m; for (int j = 0; j < 5; j++) { string n = model::macro_name(j); if (lim ? l.find(" " + n + " ") != string::npos : pm(key + ".mac", 500)) m[n] = "v" + std::to_string(n_cmds) + "_" + std::to_string(j); }
      if (!m.empty()) { string p(1, cmd); for (auto &x : m) p += z(x.first) + z(x.second); o += packet('D', p); e.has_macros = true; e.macros = m; Exp d0 = e; d0.arg = string(1, cmd); d0.cmd = 'd'; exp.push_back(d0);
        if (handlers.count('D')) { Exp d; d.cmd = 'D'; d.arg = string(1, cmd); d.macros = m; d.has_macros = true; d.n = n_cmds; exp.push_back(d); } }
    }
    hist += string(1, cmd) + " "; trace("%s > %c %s", key.c_str(), cmd, show(data, 60).c_str());
    if (strchr("MRTLNB", cmd)) started_msg = true; if (cmd == 'E') started_msg = false;
    bool tail = mix.compat && cmd == 'E' && !data.empty() && handlers.count('B');
    bool nr = no_reply(cmd); waiting = !nr; cur = cmd; cur_n = n_cmds; count(string("cmd.") + cmd);
    if (tail) {
      Exp b = e; b.cmd = 'B'; b.tail = true; b.has_macros = false; exp.push_back(b); plan_for('B');
      if (!strchr("rtad", plans.back().st) && handlers.count('E')) { e.arg = ""; exp.push_back(e); plan_for('E'); }
    }
    else if (handlers.count(cmd) && cmd != 'Q') { if (mix.compat && cmd == 'E') e.arg = ""; exp.push_back(e); plan_for(cmd); } else if (!nr) messages += cmd == 'E', out.push_back(cmd == 'O' ? (want_actions = actions, want_steps = steps, string("O")) : packet('c'));
    o += packet(cmd, data); T before = last; last = now();
    if (silent_at >= 0 && n_cmds >= silent_at && cmd != 'Q') {
      silent_at = -1;
      if (silent_how == 1 && o.size() > 1) { size_t n = 1 + choose(key + ".silent", (uint32_t)o.size() - 1); cut(o, n, e); o = o.substr(0, n); waiting = false; slack = now() - before; fall_silent(); }
      else if (silent_how == 0 || !waiting) fall_silent(); // after this command or its answer
      else silent_soon = true;
    }
    if (break_at >= 0 && n_cmds >= break_at) {
      break_at = -1; if (break_how == 2) { size_t n = choose(key + ".brk", (uint32_t)o.size()); o = o.substr(0, n); }
      if (!o.empty()) c->send(o); T d = break_how == 3 ? (T)choose(key + ".brk", 3000) * MS : 0; if (d) after(d, [this] { brk(); }); else brk(); return;
    }
    c->send(o);
    if (waiting && !silent) { answer_by = now() + 200 * SEC; T b = 400 * SEC; if (guard) cancel(guard); guard = after(b, [this] { guard = 0; bad("answer.missing", string("no answer to ") + cur + " within 400 s"); finish_run(); }); }
  }
  // the macros of each step as the milter has seen them so far: markers in the queue of expected callbacks
  map<char, std::pair<int, map<string, string>>> tables;
  void settle() { while (!exp.empty() && (exp.front().cmd == 'd' || exp.front().cmd == 'a')) { Exp &e = exp.front(); if (e.cmd == 'd') tables[e.arg[0]] = {e.msg, e.macros}; else for (const char *p = "MRTLNBE"; *p; p++) tables.erase(*p); exp.pop_front(); } }
  void check_visible(char cmd, int msg) {
    if (cmd == 'A' || cmd == 'U') return;
    for (int j = 0; j < 5; j++) {
      string n = model::macro_name(j), want; bool unsure = false;
      for (const char *p = "CHMRTLNBE"; *p; p++) { auto it = tables.find(*p); if (it != tables.end() && it->second.second.count(n)) { want = it->second.second[n]; unsure = it->second.first != msg && !strchr("CH", *p); } if (*p == cmd) break; }
      if (unsure) continue;      // left over from an earlier message of the session: not said by the property
      const char *v = mix.compat ? smfi_getsymval(sctx, (char *)n.c_str()) : milter_protocol_agent_get_macro(MILTER_PROTOCOL_AGENT(ctx), n.c_str()); count("check.macro_visible");
      if (want != (v ? v : "")) bad("callback.macros", "macro " + n + " is seen as '" + (v ? v : "") + "' at " + cmd + ", the MTA's is '" + want + "'");
    }
  }
  int messages = 0; MilterStatus eom_status = MILTER_STATUS_CONTINUE;
  bool silent_soon = false; T slack = 0;   // an incomplete command is no activity
  void cut(const string &o, size_t n, const Exp &e) {   // only n bytes go out: which callbacks are still due?
    size_t mlen = e.has_macros ? 4 + g32(o, 0) : 0; (void)mlen;
    if (n >= o.size()) return;
    bool popped = false; while (!exp.empty() && (exp.back().cmd == e.cmd || exp.back().tail) && exp.back().n == e.n) exp.pop_back(), popped = true;
    if (popped); else if (!out.empty() && !no_reply(e.cmd) && !handlers.count(e.cmd)) out.pop_back();
    if (e.has_macros && n < mlen && !exp.empty() && exp.back().cmd == 'D' && exp.back().n == e.n) exp.pop_back();
  }
  void fall_silent() { if (silent) return; silent = true; count("fault.mta_silent"); trace("%s: falls silent", key.c_str()); if (guard) cancel(guard), guard = 0; watch_silent(); }
  void watch_silent() {                      // the milter must give up after its timeout, not earlier
    after(1 * SEC, [this] {
      if (closed || done) return;
      if (pend_cmd || (waiting && handlers.count(cur))) { T lim = last + 200 * SEC; if (now() > lim + timeout_s * SEC + 60 * SEC) { bad("progress", "a silent MTA's session goes on"); finish_run(); } watch_silent(); return; }
      if (now() > last + timeout_s * SEC + 160 * SEC) { bad("progress", "the session of a silent MTA was not ended in time"); finish_run(); }
      watch_silent();
    });
  }
  void brk() {
    if (done || broken) return; broken = true; waiting = false; if (guard) cancel(guard), guard = 0; count("fault.mta_break");
    trace("%s: breaks", key.c_str()); if (break_how == 1) c->reset(); else c->close();
    after(20 * SEC, [this] { if (!c->sut_closed) bad("cleanup.mta", "20 s after the MTA left its connection is still open"); if (ctx_seen && !got_finished) bad("callback.missing", "the milter was not told that the session is over"); done = true; });
  }
  bool ctx_seen = false;
  void on_close(Conn *, bool) override {
    closed = true; trace("%s: closed by the milter", key.c_str());
    if (broken) return;
    if (guard) cancel(guard), guard = 0;
    if (silent) {
      count("check.silent"); if (now() < last - slack + timeout_s * SEC - 3 * SEC) bad("progress", "closed " + std::to_string((now() - last) / SEC) + " s after the last activity, timeout is " + std::to_string(timeout_s));
      if (now() > last + timeout_s * SEC + 160 * SEC) bad("progress", "late end of a silent session");
      if (!got_timeout && !mix.compat) bad("callback.missing", "a session ended for silence without telling the milter so"); 
    }
    else if (!quit_sent && !hostile) bad("answer.closed", "connection closed by the milter");
    if (c->open()) c->close();
    if (quit_sent) { if (out_pos != out.size()) bad("answer.missing", "closed without " + show(out[out_pos].substr(4))); }
    after(5 * SEC, [this] { settle(); if (!silent && !exp.empty()) bad("callback.missing", string("no callback for ") + exp.front().cmd); if (!silent && messages && !mix.compat) bad("callback.missing", "a message was not reported as processed"); if (ctx_seen && !got_finished) bad("callback.missing", "the milter was not told that the session is over"); done = true; });
  }
  void finish_ok() { done = true; }
  // the scripted milter's decision for the command just sent
  uint32_t want_actions = 0, want_steps = 0;
  std::deque<Plan> plans; std::map<char, int> nth;
  void plan_for(char cmd) {
    Plan p; string pk = key + ".plan"; int n = nth[cmd]++; (void)n;
    if (cmd == 'A') { plans.push_back(p); return; }
    if (cmd == 'O') { p = neg; p.st = neg_st; plans.push_back(p); return; }
    bool nr = no_reply(cmd);
    if (!nr) p.delay = delay(); if (cmd == 'E' && p.delay > timeout_s * SEC / 2) p.delay = timeout_s * SEC / 2; // what it sends while it works (progress, early modifications) starts its timeout
    uint32_t early = strchr("CHTU", cmd) ? 6 : 1;
    if (pm(pk, cmd == 'E' ? 500 : mix.p_verdict / (int)early)) {
      const char *opt = cmd == 'B' && (gsteps & P_SKIP) ? "rtads" : cmd == 'U' ? "rt" : "rtad"; p.st = opt[choose(pk, (uint32_t)strlen(opt))];
      if ((p.st == 'r' || p.st == 't') && pm(pk, mix.p_code)) { static const char *x[] = {"", "7.1", "0.0", "1.999"}; string e = x[choose(pk, 4)], cl = pm(pk, 150) ? (p.st == 'r' ? "4" : "5") : (p.st == 'r' ? "5" : "4"); p.code = cl + std::to_string(50 + choose(pk, 5)) + "|" + (e.empty() ? "" : cl + "." + e) + "|text " + std::to_string(n_cmds); if (pm(pk, 150)) p.code += "\nsecond line"; }
    }
    else if (pm(pk, 150)) p.def = !mix.compat;
    if (pm(pk, mix.p_code / 8)) p.bad_code = choose(pk, 10);
    if (cmd == 'E') {
      if (pm(pk, mix.p_mods)) { int nm = 1 + choose(pk, 6); for (int i = 0; i < nm; i++) p.mods.push_back(gen_mod(pk, i)); }
      p.progress = pm(pk, 250) ? 1 + choose(pk, 3) : 0; p.late_from = p.delay >= 0 && pm(pk, 600) ? choose(pk, (uint32_t)p.mods.size() + 1) : p.mods.size();
    }
    plans.push_back(p);
  }
  Mod gen_mod(const string &pk, int i) {
    Mod m; m.idx = 0; m.c = "hhimmb+-eq"[choose(pk, 10)]; static const char *names[] = {"Subject", "X-A", "Received", "X-B"}; string v = "v" + std::to_string(msgs) + "." + std::to_string(i);
    switch (m.c) {
      case 'h': m.a = names[choose(pk, 4)]; m.b = pm(pk, 100) ? "" : pm(pk, 200) ? " " + v : v; break;
      case 'i': m.idx = choose(pk, 5); m.a = names[choose(pk, 4)]; m.b = v; break;
      case 'm': m.idx = 1 + choose(pk, 3); m.a = names[choose(pk, 4)]; m.b = pm(pk, 300) ? "" : v; break;
      case 'b': { size_t n = 1 + choose(pk, 100); if (pm(pk, 150)) n = 65530 + choose(pk, 70000); m.a.assign(n, 'x'); for (size_t j = 0; j < n; j += 1 + j % 97) m.a[j] = (char)(j * 7 + msgs); break; }
      case '+': m.a = "<add" + v + "@x>"; if (pm(pk, 300)) m.b = "NOTIFY=NEVER"; break;
      case '-': m.a = "<rcpt" + std::to_string(choose(pk, 3)) + "@x>"; break;
      case 'e': m.a = "<new" + v + "@x>"; if (pm(pk, 300)) m.b = "SIZE=7"; break;
      case 'q': m.a = "held " + v; break;
    }
    return m;
  }
  void next();
  // ---- the milter's side
  MilterStatus called(char cmd, const string &arg);
  bool make(const Mod &m);
  void push_reply(char cmd, const Plan &p);
  MilterStatus status(const Plan &p) { if (p.def) return MILTER_STATUS_DEFAULT; switch (p.st) { case 'r': return MILTER_STATUS_REJECT; case 't': return MILTER_STATUS_TEMPORARY_FAILURE; case 'a': return MILTER_STATUS_ACCEPT; case 'd': return MILTER_STATUS_DISCARD; case 's': return MILTER_STATUS_SKIP; case 'o': return MILTER_STATUS_ALL_OPTIONS; case '0': return MILTER_STATUS_DEFAULT; } return MILTER_STATUS_CONTINUE; }
  void before_answer(char cmd, const Plan &p, size_t from, size_t to);
  void drop_timer() { if (timer) { milter_event_loop_remove(loop, timer); timer = 0; } pend_cmd = 0; if (pend_opt) { g_object_unref(pend_opt); pend_opt = nullptr; } if (pend_req) { g_object_unref(pend_req); pend_req = nullptr; } }
  MilterStatus negotiate(MilterOption *opt, MilterMacrosRequests *req);
};
void BS::next() {
  if (done || broken || waiting || silent || closed) return;
  if (silent_soon) { fall_silent(); return; }
  string ck = key + ".cfg";
  if (in_msg && st != MSG && pm(key + ".abort", mix.p_abort / 3)) { count("mta.abort"); send_abort(); in_msg = false; st = MSG; later(think()); return; }
  if ((st == MSG || st == RCPT) && !skipped('U') && pm(key + ".unk", mix.p_unknown)) { string t = "HOGE " + std::to_string(n_cmds); send('U', z(t), &t); if (!waiting) { advance('U', 'c'); later(think()); } return; }
  auto step = [&](char cmd, const string &d, const string &arg) { if (skipped(cmd)) { advance(cmd, 'c'); later(0); return; } send(cmd, d, &arg); if (!waiting && !done && !broken) { advance(cmd, 'c'); later(think()); } };
  switch (st) {
    case NEG: { if (pm(ck, 40)) { hostile = true; count("fault.hostile_mta"); static const string g[] = {packet('?', "junk"), string("\0\0\0\0", 4) + "xxxx", "\x7f\xff\xff\xff" "zzzz", packet('O', "short"), packet('H', string(1, 0)), packet('M', "<noterm"), packet('C', z("h") + "4"), packet('L', z("a")), packet('E', "body"), packet('D', "")}; int n = 1 + choose(ck, 4); string s; for (int i = 0; i < n; i++) s += g[choose(ck, 10)]; handlers.clear(); c->send(s); after(2 * SEC, [this] { brk(); }); return; }
      send('O', u32(ver) + u32(actions) + u32(steps)); return; }
    case CONNECT: {
      string d, a, ip = "192.0.2." + std::to_string(dk + 1); 
      switch (choose(ck, 5)) {
        case 0: case 1: d = z("host.example") + '4' + string("\x30\x39", 2) + z(ip); a = "host.example|4|12345|" + ip; break;
        case 2: d = z("[v6]") + '6' + string("\x1f\x90", 2) + z((choose(ck, 2) ? "IPv6:" : "") + string("2001:db8::") + std::to_string(dk + 1)); a = "[v6]|6|8080|2001:db8::" + std::to_string(dk + 1); break;
        case 3: d = z("localhost") + 'L' + string(2, '\0') + z("/tmp/sock" + std::to_string(dk)); a = "localhost|L|/tmp/sock" + std::to_string(dk); break;
        default: d = z("unk") + 'U'; a = "unk|U"; }
      step('C', d, a); return; }
    case HELO: { helos++; string t = "helo" + std::to_string(helos); step('H', z(t), t); return; }
    case MSG: {
      if (msgs >= n_msgs) { st = QUIT; later(0); return; }
      msgs++; in_msg = true; rcpts = hdrs = chunks = good = 0; skip = false; n_rcpts = 1 + choose(ck, 3); n_hdrs = choose(ck, 5); n_chunks = choose(ck, 4);
      string t = "<from" + std::to_string(msgs) + "@x>"; step('M', z(t) + (pm(ck, 300) ? z("SIZE=100") : ""), t); return; }
    case RCPT:
      if (rcpts < n_rcpts) { string t = "<rcpt" + std::to_string(rcpts) + "@x>"; rcpts++; step('R', z(t) + (pm(ck, 200) ? z("NOTIFY=NEVER") : ""), t); }
      else if (!good) { over_msg(); later(think()); }
      else { st = DATA; later(0); }
      return;
    case DATA: step('T', "", ""); return;
    case HDR:
      if (hdrs < n_hdrs) { static const char *names[] = {"Subject", "X-A", "Received", "To"}; string n = names[choose(ck, 4)], v; switch (choose(ck, 5)) { case 0: v = ""; break; case 1: v = "folded\n\tvalue"; break; case 2: v = " lead"; break; default: v = "v" + std::to_string(msgs) + "." + std::to_string(hdrs); } hdrs++; step('L', z(n) + z(v), n + "|" + v); }
      else { st = EOH; later(0); }
      return;
    case EOH: step('N', "", ""); return;
    case BODY:
      if (chunks < n_chunks && !skip) { size_t len = pm(ck, 100) ? 20000 + choose(ck, 45000) : 1 + choose(ck, 200); string b; uint32_t r = choose(ck, 1000); for (size_t j = 0; j < len; j++) { r = r * 1103515245 + 12345; b += (char)(r >> 16); } chunks++; step('B', b, b); }
      else { st = EOM; later(0); }
      return;
    case EOM: { string t = pm(ck, 250) ? "tail of the body" : ""; step('E', t, t); return; }
    case QUIT:
      st = OVER; hist += "Q "; quit_sent = true; send('Q', ""); if (broken) return;
      if (silent) return;
      if (guard) cancel(guard); guard = after(60 * SEC, [this] { guard = 0; if (!closed) { bad("cleanup.mta", "connection not closed 60 s after quit"); done = true; } });
      return;
    case OVER: return;
  }
}
bool BS::make(const Mod &m) {
  GError *e = NULL; gboolean ok = FALSE;
  if (mix.compat) {
    char *a = (char *)m.a.c_str(), *b = (char *)m.b.c_str(); int rc = MI_FAILURE;
    switch (m.c) {
      case 'h': rc = smfi_addheader(sctx, a, b); break;
      case 'i': rc = smfi_insheader(sctx, (int)m.idx, a, b); break;
      case 'm': rc = smfi_chgheader(sctx, a, (int)m.idx, m.b.empty() ? NULL : b); break;
      case 'b': rc = smfi_replacebody(sctx, (unsigned char *)m.a.data(), (int)m.a.size()); break;
      case '+': rc = m.b.empty() ? smfi_addrcpt(sctx, a) : smfi_addrcpt_par(sctx, a, b); break;
      case '-': rc = smfi_delrcpt(sctx, a); break;
      case 'e': rc = smfi_chgfrom(sctx, a, m.b.empty() ? NULL : b); break;
      case 'q': rc = smfi_quarantine(sctx, a); break;
    }
    return rc == MI_SUCCESS;
  }
  switch (m.c) {
    case 'h': ok = milter_client_context_add_header(ctx, m.a.c_str(), m.b.c_str(), &e); break;
    case 'i': ok = milter_client_context_insert_header(ctx, m.idx, m.a.c_str(), m.b.c_str(), &e); break;
    case 'm': ok = m.b.empty() ? milter_client_context_delete_header(ctx, m.a.c_str(), m.idx, &e) : milter_client_context_change_header(ctx, m.a.c_str(), m.idx, m.b.c_str(), &e); break;
    case 'b': ok = milter_client_context_replace_body(ctx, m.a.data(), m.a.size(), &e); break;
    case '+': ok = milter_client_context_add_recipient(ctx, m.a.c_str(), m.b.empty() ? NULL : m.b.c_str(), &e); break;
    case '-': ok = milter_client_context_delete_recipient(ctx, m.a.c_str(), &e); break;
    case 'e': ok = milter_client_context_change_from(ctx, m.a.c_str(), m.b.empty() ? NULL : m.b.c_str(), &e); break;
    case 'q': ok = milter_client_context_quarantine(ctx, m.a.c_str()); break;
  }
  if (e) g_error_free(e);
  return ok;
}
void BS::before_answer(char cmd, const Plan &p, size_t from, size_t to) {
  for (size_t i = from; i < to && i < p.mods.size(); i++) {
    const Mod &m = p.mods[i]; bool allowed = !(action_of(m) & ~gactions), was_broken = broken || closed;
    if (allowed) {
      if (m.c == 'q') { quarantine_set = true; quarantine = m.a; }
      else if (m.c == 'b') for (size_t o = 0; o < m.a.size(); o += 65535) out.push_back(packet('b', m.a.substr(o, 65535)));
      else out.push_back(mod_packet(m));
    }
    bool ok = make(m); count("check.mod"); trace("%s: mod %c %s", key.c_str(), m.c, ok ? "made" : "refused");
    if (ok != allowed && !was_broken && !broken) bad(allowed ? "mods.refused" : "mods.ungranted", string("modification ") + m.c + (allowed ? " was refused" : " was taken though it was not negotiated"));
    if (!ctx) return;
  }
  if (to >= p.mods.size() && p.bad_code >= 0) {
    static const struct { unsigned c; const char *e; } x[] = {{300, NULL}, {250, "2.0.0"}, {600, NULL}, {550, "4.7.1"}, {451, "5.7.1"}, {550, "5.7"}, {550, "5.1000.1"}, {450, "4.1.1000"}, {550, "5.7.x"}, {550, ""}};
    GError *er = NULL; count("check.bad_code"); if (mix.compat ? smfi_setreply(sctx, (char *)std::to_string(x[p.bad_code].c).c_str(), (char *)x[p.bad_code].e, (char *)"no") == MI_SUCCESS : milter_client_context_set_reply(ctx, x[p.bad_code].c, x[p.bad_code].e, "no", &er)) bad("answer.wrong", "the invalid reply code " + std::to_string(x[p.bad_code].c) + " " + (x[p.bad_code].e ? x[p.bad_code].e : "") + " was taken"); if (er) g_error_free(er);
  }
  if (!p.code.empty() && to >= p.mods.size()) {
    size_t a = p.code.find('|'), b = p.code.find('|', a + 1); string c = p.code.substr(0, a), e = p.code.substr(a + 1, b - a - 1), t = p.code.substr(b + 1);
    size_t nl = t.find('\n'); const char *ex = e.empty() ? NULL : e.c_str();
    if (mix.compat) { if ((nl == string::npos ? smfi_setreply(sctx, (char *)c.c_str(), (char *)ex, (char *)t.c_str()) : smfi_setmlreply(sctx, c.c_str(), ex, t.substr(0, nl).c_str(), t.substr(nl + 1).c_str(), NULL)) != MI_SUCCESS) bad("answer.wrong", "reply code " + p.code + " refused"); }
    else { GError *er = NULL; if (!milter_client_context_set_reply(ctx, atoi(c.c_str()), e.empty() ? NULL : e.c_str(), t.c_str(), &er)) { bad("answer.wrong", "reply code " + p.code + " refused: " + (er ? er->message : "")); if (er) g_error_free(er); } }
  }
  for (int i = 0; i < p.progress && to >= p.mods.size() && ctx; i++) { progress_left++; if (mix.compat) smfi_progress(sctx); else milter_client_context_progress(ctx); }
}
void BS::push_reply(char cmd, const Plan &p) {
  if (no_reply(cmd)) return;
  if (cmd == 'E') { messages++; eom_status = status(p); if (eom_status == MILTER_STATUS_DEFAULT) eom_status = MILTER_STATUS_CONTINUE; }
  if (cmd == 'E' && quarantine_set) { out.push_back(packet('q', z(quarantine))); quarantine_set = false; }
  string a(1, p.def || p.st == '0' ? 'c' : p.st);
  if (!p.code.empty() && (p.code[0] == '4') == (p.st == 't')) { size_t x = p.code.find('|'), y = p.code.find('|', x + 1); string e = p.code.substr(x + 1, y - x - 1); string pre = p.code.substr(0, x) + (e.empty() ? "" : " " + e) + " ", t = p.code.substr(y + 1); size_t nl = t.find('\n'); if (nl != string::npos) t = t.substr(0, nl) + "\r\n" + pre + t.substr(nl + 1); out.push_back(packet('y', z(pre + t))); return; }
  out.push_back(packet(a[0]));
}
const char *resp_name(char c) { switch (c) { case 'C': return "connect-response"; case 'H': return "helo-response"; case 'M': return "envelope-from-response"; case 'R': return "envelope-recipient-response"; case 'T': return "data-response"; case 'U': return "unknown-response"; case 'L': return "header-response"; case 'N': return "end-of-header-response"; case 'B': return "body-response"; case 'E': return "end-of-message-response"; case 'A': return "abort-response"; } return ""; }
gboolean on_delayed(gpointer p) {
  BS *s = (BS *)p; s->timer = 0; char cmd = s->pend_cmd; Plan pl = s->pend; s->pend_cmd = 0;
  trace("%s: delayed answer to %c", s->key.c_str(), cmd); count("check.delayed");
  if (!s->ctx) return FALSE;
  if (cmd == 'O') {
    MilterOption *o = s->pend_opt; MilterMacrosRequests *r = s->pend_req; s->pend_opt = nullptr; s->pend_req = nullptr;
    g_signal_emit_by_name(s->ctx, "negotiate-response", o, r, s->status(pl)); g_object_unref(o); g_object_unref(r); return FALSE;
  }
  s->before_answer(cmd, pl, pl.late_from, pl.mods.size());
  if (!s->ctx) return FALSE;
  s->push_reply(cmd, pl);
  g_signal_emit_by_name(s->ctx, resp_name(cmd), s->status(pl));
  return FALSE;
}
MilterStatus BS::called(char cmd, const string &arg) {
  trace("%s: callback %c %s", key.c_str(), cmd, show(arg, 60).c_str()); count(string("callback.") + cmd);
  if (hostile) return MILTER_STATUS_CONTINUE;
  settle();
  if (exp.empty()) { bad("callback.unexpected", string("callback ") + cmd + " for nothing the MTA sent"); return MILTER_STATUS_CONTINUE; }
  Exp e = exp.front(); exp.pop_front();
  if (e.cmd != cmd) { bad("callback.order", string("callback ") + cmd + " instead of " + e.cmd); return MILTER_STATUS_CONTINUE; }
  if (e.arg != arg) bad("callback.data", string("callback ") + cmd + " with " + show(arg, 60) + " (" + std::to_string(arg.size()) + "), sent was " + show(e.arg, 60) + " (" + std::to_string(e.arg.size()) + ")");
  if (e.has_macros && cmd != 'D') {
    map<string, string> m; GHashTable *t = milter_protocol_agent_get_macros(MILTER_PROTOCOL_AGENT(ctx)); if (t) { GHashTableIter it; gpointer a, b; g_hash_table_iter_init(&it, t); while (g_hash_table_iter_next(&it, &a, &b)) { string n = (char *)a; m[n[0] == '{' ? n : "{" + n + "}"] = (char *)b; } }
    count("check.macros"); if (m != e.macros) { string w; for (auto &x : m) w += x.first + "=" + x.second + " "; bad("callback.macros", string("macros at ") + cmd + " are " + w + "(" + std::to_string(e.macros.size()) + " were sent)"); }
    for (auto &x : e.macros) { const char *v = milter_protocol_agent_get_macro(MILTER_PROTOCOL_AGENT(ctx), x.first.c_str()); if (!v || x.second != v) bad("callback.macros", string("macro ") + x.first + " at " + cmd + " is " + (v ? v : "(none)")); }
  }
  if (cmd == 'D') return MILTER_STATUS_CONTINUE;
  if (!e.tail) check_visible(cmd, e.msg);
  if (plans.empty()) return MILTER_STATUS_CONTINUE;
  Plan p = plans.front(); plans.pop_front();
  if (cmd == 'A') { quarantine_set = false; return MILTER_STATUS_DEFAULT; }
  if (cmd == 'E') quarantine_set = false;
  if (e.tail) {
    if (strchr("rtad", p.st)) { quarantine_set = false; before_answer('B', p, 0, p.mods.size()); push_reply('E', p); }
    else if (!handlers.count('E')) push_reply('E', Plan());
    return status(p);
  }
  if (p.delay >= 0) {
    before_answer(cmd, p, 0, p.late_from < p.mods.size() ? p.late_from : (p.late_from = p.mods.size()));
    pend = p; pend_cmd = cmd; timer = milter_event_loop_add_timeout(loop, (gdouble)p.delay / SEC, on_delayed, this);
    return MILTER_STATUS_PROGRESS;
  }
  before_answer(cmd, p, 0, p.mods.size());
  push_reply(cmd, p);
  return status(p);
}
MilterStatus BS::negotiate(MilterOption *opt, MilterMacrosRequests *req) {
  neg_seen = true; count("callback.O"); if (hostile) return MILTER_STATUS_ALL_OPTIONS;
  if (exp.empty() || exp.front().cmd != 'O') bad("callback.unexpected", "callback for a negotiation nobody sent"); else exp.pop_front();
  if (milter_option_get_version(opt) != ver || (uint32_t)milter_option_get_action(opt) != actions || (uint32_t)milter_option_get_step(opt) != steps) bad("callback.data", "the milter was offered something else than the MTA sent");
  Plan p = plans.empty() ? Plan() : plans.front(); if (!plans.empty()) plans.pop_front();
  if (p.st == 'c') { milter_option_set_action(opt, (MilterActionFlags)plan_actions); milter_option_set_step(opt, (MilterStepFlags)plan_steps); }
  static const MilterCommand mc[] = {MILTER_COMMAND_CONNECT, MILTER_COMMAND_HELO, MILTER_COMMAND_ENVELOPE_FROM, MILTER_COMMAND_ENVELOPE_RECIPIENT, MILTER_COMMAND_DATA, MILTER_COMMAND_END_OF_MESSAGE, MILTER_COMMAND_END_OF_HEADER};
  for (auto &w : want_macros) { gchar **a = g_strsplit(w.second.c_str(), " ", -1); milter_macros_requests_set_symbols_string_array(req, mc[w.first], (const gchar **)a); g_strfreev(a); }
  if (p.st == 'r') out.push_back(packet('r'));
  else { want_actions = p.st == 'c' ? plan_actions : actions; want_steps = p.st == 'c' ? plan_steps : steps; out.push_back("O"); }
  if (p.delay >= 0) { pend = p; pend_cmd = 'O'; pend_opt = (MilterOption *)g_object_ref(opt); pend_req = (MilterMacrosRequests *)g_object_ref(req); timer = milter_event_loop_add_timeout(loop, (gdouble)p.delay / SEC, on_delayed, this); return MILTER_STATUS_PROGRESS; }
  return status(p);
}
// ---- callbacks of the client library -------------------------------------------------
BS *of(gpointer p) { return (BS *)p; }
MilterStatus c_negotiate(MilterClientContext *, MilterOption *o, MilterMacrosRequests *r, gpointer p) { return of(p)->negotiate(o, r); }
void c_macro(MilterClientContext *, MilterCommand cmd, GHashTable *t, gpointer p) {
  BS *s = of(p); if (s->hostile) return;
  map<string, string> m; GHashTableIter it; gpointer a, b; g_hash_table_iter_init(&it, t); while (g_hash_table_iter_next(&it, &a, &b)) { string n = (char *)a; m[n[0] == '{' ? n : "{" + n + "}"] = (char *)b; }
  s->settle(); if (!s->exp.empty() && s->exp.front().cmd == 'D' && m != s->exp.front().macros) s->bad("callback.macros", "define-macro got other macros than were sent");
  s->called('D', string(1, (char)cmd));
}
MilterStatus c_connect(MilterClientContext *, const gchar *h, struct sockaddr *a, socklen_t, gpointer p) {
  string s = h; char b[INET6_ADDRSTRLEN] = "";
  if (a->sa_family == AF_INET) { sockaddr_in *i = (sockaddr_in *)a; s += "|4|" + std::to_string(ntohs(i->sin_port)) + "|" + inet_ntop(AF_INET, &i->sin_addr, b, sizeof b); }
  else if (a->sa_family == AF_INET6) { sockaddr_in6 *i = (sockaddr_in6 *)a; s += "|6|" + std::to_string(ntohs(i->sin6_port)) + "|" + inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b); }
  else if (a->sa_family == AF_UNIX) s += string("|L|") + ((struct sockaddr_un *)a)->sun_path;
  else s += "|U";
  return of(p)->called('C', s);
}
MilterStatus c_helo(MilterClientContext *, const gchar *a, gpointer p) { return of(p)->called('H', a ? a : "(null)"); }
MilterStatus c_from(MilterClientContext *, const gchar *a, gpointer p) { return of(p)->called('M', a ? a : "(null)"); }
MilterStatus c_rcpt(MilterClientContext *, const gchar *a, gpointer p) { return of(p)->called('R', a ? a : "(null)"); }
MilterStatus c_unknown(MilterClientContext *, const gchar *a, gpointer p) { return of(p)->called('U', a ? a : "(null)"); }
MilterStatus c_data(MilterClientContext *, gpointer p) { return of(p)->called('T', ""); }
MilterStatus c_header(MilterClientContext *, const gchar *a, const gchar *b, gpointer p) { return of(p)->called('L', string(a) + "|" + b); }
MilterStatus c_eoh(MilterClientContext *, gpointer p) { return of(p)->called('N', ""); }
MilterStatus c_body(MilterClientContext *, const gchar *b, gsize n, gpointer p) { return of(p)->called('B', string(b, n)); }
MilterStatus c_eom(MilterClientContext *, const gchar *b, gsize n, gpointer p) { return of(p)->called('E', b ? string(b, n) : ""); }
string of_bytes(GBytes *b) { if (!b) return ""; gsize n; const char *d = (const char *)g_bytes_get_data(b, &n); return string(d, n); }
MilterStatus c_body_bytes(MilterClientContext *, GBytes *b, gpointer p) { return of(p)->called('B', of_bytes(b)); }
MilterStatus c_eom_bytes(MilterClientContext *, GBytes *b, gpointer p) { return of(p)->called('E', of_bytes(b)); }
MilterStatus c_abort(MilterClientContext *, MilterClientContextState, gpointer p) { return of(p)->called('A', ""); }
void c_processed(MilterClientContext *, MilterMessageResult *r, gpointer p) {
  BS *s = of(p); if (s->hostile) return; count("check.message_processed");
  if (s->messages-- <= 0) s->bad("callback.unexpected", "a message was reported as processed that no end of message was answered for");
  else if (s->handlers.count('E') && milter_message_result_get_status(r) != s->eom_status) s->bad("callback.data", "a message was reported as processed with status " + std::to_string(milter_message_result_get_status(r)) + ", the answer was " + std::to_string(s->eom_status));
}
void c_timeout(MilterClientContext *, gpointer p) { BS *s = of(p); trace("%s: timeout", s->key.c_str()); s->got_timeout = true; if (!s->silent && !s->hostile && !s->broken) s->bad("progress", "the session timed out though the MTA was not silent"); }
void c_finished(MilterClientContext *, gpointer p) {
  BS *s = of(p); trace("%s: finished", s->key.c_str()); count("callback.finished");
  if (s->got_finished) s->bad("callback.unexpected", "the end of the session was told twice");
  if (!s->broken && !s->quit_sent && !s->silent && !s->hostile) s->bad("answer.closed", "the milter was told the session is over, the MTA is still there");
  s->got_finished = true; s->drop_timer(); s->ctx = nullptr;
}
void on_established(MilterClient *, MilterClientContext *ctx, gpointer) {
  MilterReader *r = NULL; GIOChannel *ch = NULL; g_object_get(ctx, "reader", &r, NULL); if (r) { g_object_get(r, "io-channel", &ch, NULL); g_object_unref(r); }
  int fd = ch ? g_io_channel_unix_get_fd(ch) : -1; BS *s = nullptr;
  for (auto *x : all) if (x->c && x->c->fd == fd && !x->c->sut_closed) s = x;
  if (!s) { violate("admission", "a connection nobody made (descriptor %d)", fd); return; }
  trace("%s: established", s->key.c_str()); s->ctx = ctx; s->ctx_seen = true; count("check.established"); if (s->guard && !s->waiting) { cancel(s->guard); s->guard = 0; }
  milter_client_context_set_use_bytes(ctx, s->bytes);
  auto on = [&](char c, const char *name, GCallback f) { if (s->handlers.count(c)) g_signal_connect(ctx, name, f, s); };
  on('O', "negotiate", G_CALLBACK(c_negotiate)); on('D', "define-macro", G_CALLBACK(c_macro)); on('C', "connect", G_CALLBACK(c_connect)); on('H', "helo", G_CALLBACK(c_helo)); on('M', "envelope-from", G_CALLBACK(c_from)); on('R', "envelope-recipient", G_CALLBACK(c_rcpt));
  on('T', "data", G_CALLBACK(c_data)); on('U', "unknown", G_CALLBACK(c_unknown)); on('L', "header", G_CALLBACK(c_header)); on('N', "end-of-header", G_CALLBACK(c_eoh)); on('A', "abort", G_CALLBACK(c_abort));
  if (s->bytes) on('B', "body-bytes", G_CALLBACK(c_body_bytes)), on('E', "end-of-message-bytes", G_CALLBACK(c_eom_bytes)); else on('B', "body", G_CALLBACK(c_body)), on('E', "end-of-message", G_CALLBACK(c_eom));
  g_signal_connect(ctx, "message-processed", G_CALLBACK(c_processed), s); g_signal_connect(ctx, "timeout", G_CALLBACK(c_timeout), s); g_signal_connect(ctx, "finished", G_CALLBACK(c_finished), s);
}
// ---- the same program written with the libmilter-compatible library -----------------------
int ctl_fd; gboolean on_ctl(GIOChannel *, GIOCondition, gpointer);
BS *from(SMFICTX *c) {
  BS *s = (BS *)smfi_getpriv(c); if (s) { if (s->sctx != c) violate("callback.unexpected", "the private data of another session"); return s; }
  MilterClientContext *ctx = NULL; g_object_get(c, "client-context", &ctx, NULL); if (!ctx) { violate("callback.unexpected", "a callback without a session"); return nullptr; }
  MilterReader *r = NULL; GIOChannel *ch = NULL; g_object_get(ctx, "reader", &r, NULL); if (r) { g_object_get(r, "io-channel", &ch, NULL); g_object_unref(r); }
  int fd = ch ? g_io_channel_unix_get_fd(ch) : -1; for (auto *x : all) if (x->c && x->c->fd == fd && !x->c->sut_closed) s = x;
  if (s && s->ctx_seen) { s->bad("callback.unexpected", "the session's private data is gone"); s = nullptr; }
  if (s) {
    trace("%s: served", s->key.c_str()); s->ctx = ctx; s->sctx = c; s->ctx_seen = true; smfi_setpriv(c, s); count("check.established");
    if (!loop) { loop = milter_agent_get_event_loop(MILTER_AGENT(ctx)); GIOChannel *cc = g_io_channel_unix_new(ctl_fd); g_io_channel_set_encoding(cc, NULL, NULL); g_io_channel_set_close_on_unref(cc, FALSE); milter_event_loop_watch_io(loop, cc, G_IO_IN, on_ctl, NULL); g_io_channel_unref(cc); }
  }
  g_object_unref(ctx); return s;
}
sfsistat sf(MilterStatus s) { switch (s) { case MILTER_STATUS_REJECT: return SMFIS_REJECT; case MILTER_STATUS_TEMPORARY_FAILURE: return SMFIS_TEMPFAIL; case MILTER_STATUS_ACCEPT: return SMFIS_ACCEPT; case MILTER_STATUS_DISCARD: return SMFIS_DISCARD; case MILTER_STATUS_SKIP: return SMFIS_SKIP; case MILTER_STATUS_ALL_OPTIONS: return SMFIS_ALL_OPTS; default: return SMFIS_CONTINUE; } }
#define WITH(c, e) { BS *s = from(c); return s ? sf(e) : SMFIS_CONTINUE; }
sfsistat x_connect(SMFICTX *c, char *h, struct sockaddr *a) WITH(c, c_connect(NULL, h, a, 0, s))
sfsistat x_helo(SMFICTX *c, char *a) WITH(c, c_helo(NULL, a, s))
sfsistat x_from(SMFICTX *c, char **a) WITH(c, (a[1] ? s->bad("callback.data", "arguments of MAIL") : (void)0, c_from(NULL, a[0], s)))
sfsistat x_rcpt(SMFICTX *c, char **a) WITH(c, (a[1] ? s->bad("callback.data", "arguments of RCPT") : (void)0, c_rcpt(NULL, a[0], s)))
sfsistat x_data(SMFICTX *c) WITH(c, c_data(NULL, s))
sfsistat x_unknown(SMFICTX *c, const char *a) WITH(c, c_unknown(NULL, a, s))
sfsistat x_header(SMFICTX *c, char *a, char *b) WITH(c, c_header(NULL, a, b, s))
sfsistat x_eoh(SMFICTX *c) WITH(c, c_eoh(NULL, s))
sfsistat x_body(SMFICTX *c, unsigned char *b, size_t n) WITH(c, c_body(NULL, (gchar *)b, n, s))
sfsistat x_eom(SMFICTX *c) WITH(c, c_eom(NULL, NULL, 0, s))
sfsistat x_abort(SMFICTX *c) WITH(c, c_abort(NULL, MILTER_CLIENT_CONTEXT_STATE_INVALID, s))
sfsistat x_close(SMFICTX *c) { BS *s = (BS *)smfi_getpriv(c); if (s) { from(c); c_finished(NULL, s); smfi_setpriv(c, NULL); } return SMFIS_CONTINUE; }
sfsistat x_negotiate(SMFICTX *c, unsigned long a, unsigned long b, unsigned long, unsigned long, unsigned long *oa, unsigned long *ob, unsigned long *, unsigned long *) {
  BS *s = from(c); if (!s) return SMFIS_ALL_OPTS;
  s->neg_seen = true; count("callback.O"); if (s->hostile) return SMFIS_ALL_OPTS;
  if (s->exp.empty() || s->exp.front().cmd != 'O') s->bad("callback.unexpected", "callback for a negotiation nobody sent"); else s->exp.pop_front();
  if (a != s->actions || b != s->steps) s->bad("callback.data", "the filter was offered something else than the MTA sent");
  Plan p = s->plans.empty() ? Plan() : s->plans.front(); if (!s->plans.empty()) s->plans.pop_front();
  *oa = s->plan_actions; *ob = s->plan_steps;      // only meant if the answer is SMFIS_CONTINUE
  for (auto &w : s->want_macros) if (smfi_setsymlist(c, w.first, (char *)w.second.c_str()) != MI_SUCCESS) s->bad("negotiate.grant", "smfi_setsymlist failed");
  if (p.st == 'r') s->out.push_back(packet('r'));
  else { s->want_actions = p.st == 'c' ? s->plan_actions : s->actions; s->want_steps = p.st == 'c' ? s->plan_steps : s->steps; s->out.push_back("O"); }
  return sf(s->status(p));
}
// ---- the run ----------------------------------------------------------------------------
gboolean on_ctl(GIOChannel *, GIOCondition, gpointer) { trace("shutdown requested"); shutting = true; if (mix.compat) smfi_stop(); else milter_client_shutdown(client); return FALSE; }
void left(const char *when) {
  for (auto &f : fd_open_list()) if (f.find("conn") != string::npos || f.find("new") != string::npos || f.find("failed") != string::npos) violate("cleanup.fd", "%s: descriptor left open: %s", when, f.c_str());
  T t = poll_timeout(); count("check.timers"); if (use_libev ? t >= 0 && t < 50 * SEC : t >= 0) violate("cleanup.timer", "%s: the event loop still has a timer to run (%lld ms)", when, (long long)(t / MS));
}
void finish_all() {
  for (auto *s : all) if (!s->done) { after(5 * SEC, finish_all); return; }
  after(20 * SEC, [] {
    if (run_over) return;
    if (mix.compat && !loop) { finish_run(); return; }   // no callback was ever called: nothing to stop it from
    guint n = client ? milter_client_get_n_processing_sessions(client) : 0; if (n) violate("count.processing", "%u sessions still counted as being processed after all ended", n);
    left("after all sessions"); control_signal(ctl_fd);
    after(20 * SEC, [] { violate("shutdown", "no session is in progress and the milter did not stop within 20 s"); finish_run(); });
  });
}
vector<long> heap_at;
void repeat_next(int k) {
  if (k && !all[k - 1]->done) { after(2 * SEC, [k] { repeat_next(k); }); return; }
  if (k && !all[k - 1]->settled) { all[k - 1]->settled = true; after(30 * SEC, [k] { repeat_next(k); }); return; }
  heap_at.push_back(heap_live); if (getenv("SIM_LEAK")) heap_trace = k + 1;
  if (k) left("after a session");
  if (k == (int)all.size()) {
    long a = heap_at[k] - heap_at[k - 1], b = heap_at[k - 1] - heap_at[k - 2], c = heap_at[k - 2] - heap_at[k - 3];
    count("check.heap"); if (a > 0 && b > 0 && c > 0) { violate("cleanup.memory", "every repetition of the session leaves %ld blocks of memory allocated", std::min(a, std::min(b, c))); if (getenv("SIM_LEAK")) heap_report(k - 1, k - 1); }
    finish_all(); return;
  }
  if (k == 0) choices_mark(); else choices_rewind();
  all[k]->config(); all[k]->start(); after(2 * SEC, [k] { repeat_next(k + 1); });
}
}
void run_client(const string &) {
  string ck = "cfg"; use_libev = pm(ck + ".libev", 500); bool un = pm(ck + ".unix", 200); static const unsigned pb[] = {0, 0, 1, 100, 4096, 1 << 20}; pbuf = pb[choose(ck + ".pbuf", 6)];
  static const int ts[] = {7210, 25, 40, 300}; timeout_s = ts[choose(ck + ".timeout", 4)]; gen_knobs(); 
  string spec = un ? "unix:mm.sock" : "inet:10026@127.0.0.1"; addr = un ? spec : "inet:10026";
  GError *e = NULL; ctl_fd = control_fd();
  auto sessions = [&] {
    int ns = mix.repeat ? 6 : 1 + choose("cfg.sessions", mix.sessions_max); T t = 0;
    for (int k = 0; k < ns; k++) all.push_back(new BS(k));
    if (mix.repeat) after(1 * MS, [] { repeat_next(0); });
    else { for (auto *s : all) { s->config(); t = mix.concurrency ? (T)choose("cfg.start", 5000) * MS : t + 3000 * SEC; after(t, [s] { s->start(); }); } after(100 * MS, finish_all); }
    trace("start: %d sessions, %s, timeout %d", ns, use_libev ? "libev" : "glib", timeout_s);
  };
  if (mix.compat) {
    for (const char *p = "OCHMRTLNBEUA"; *p; p++) if (pm(ck + ".cb", 900)) compat_handlers.insert(*p);
    auto has = [](char c) { return compat_handlers.count(c) > 0; }; struct smfiDesc d; memset(&d, 0, sizeof d); d.xxfi_name = (char *)"sim"; d.xxfi_version = SMFI_VERSION; d.xxfi_flags = A_ALL; d.xxfi_close = x_close;
    if (has('O')) d.xxfi_negotiate = x_negotiate; if (has('C')) d.xxfi_connect = x_connect; if (has('H')) d.xxfi_helo = x_helo; if (has('M')) d.xxfi_envfrom = x_from; if (has('R')) d.xxfi_envrcpt = x_rcpt; if (has('T')) d.xxfi_data = x_data;
    if (has('L')) d.xxfi_header = x_header; if (has('N')) d.xxfi_eoh = x_eoh; if (has('B')) d.xxfi_body = x_body; if (has('E')) d.xxfi_eom = x_eom; if (has('U')) d.xxfi_unknown = x_unknown; if (has('A')) d.xxfi_abort = x_abort;
    if (use_libev) g_setenv("MILTER_EVENT_LOOP_BACKEND", "libev", TRUE);
    bool opens = pm(ck + ".open", 300), backlog = pm(ck + ".backlog", 300), bare = un && pm(ck + ".bare", 500);
    active = true;
    if (smfi_setconn((char *)(bare ? "mm.sock" : spec.c_str())) != MI_SUCCESS || (timeout_s != 7210 && smfi_settimeout(timeout_s) != MI_SUCCESS) || (backlog && smfi_setbacklog(20) != MI_SUCCESS) || smfi_register(d) != MI_SUCCESS) violate("open", "the filter could not be set up");
    if (opens && smfi_opensocket(true) != MI_SUCCESS) violate("open", "smfi_opensocket failed");
    pbuf = 0; sessions();
    int rc = smfi_main(); run_over = true; trace("smfi_main returned %d", rc);
    if (!shutting) violate("shutdown", "the filter stopped by itself"); else if (rc != MI_SUCCESS) violate("shutdown", "smfi_main failed");
    if (un && !opens && access("mm.sock", F_OK) == 0) violate("shutdown", "the socket file was not removed");
    finish_run(); return;
  }
  client = milter_client_new(); milter_client_set_event_loop_backend(client, use_libev ? MILTER_CLIENT_EVENT_LOOP_BACKEND_LIBEV : MILTER_CLIENT_EVENT_LOOP_BACKEND_GLIB);
  milter_client_set_timeout(client, timeout_s); milter_client_set_default_packet_buffer_size(client, pbuf); milter_client_set_max_pending_finished_sessions(client, choose(ck + ".pend", 4)); milter_client_set_maintenance_interval(client, choose(ck + ".maint", 4));
  active = true;
  if (!milter_client_set_connection_spec(client, spec.c_str(), &e) || !milter_client_listen(client, &e)) { fprintf(stderr, "listen: %s\n", e->message); _exit(3); }
  loop = milter_client_create_event_loop(client, TRUE); milter_client_set_event_loop(client, loop);
  g_signal_connect(client, "connection-established", G_CALLBACK(on_established), NULL);
  GIOChannel *ch = g_io_channel_unix_new(ctl_fd); g_io_channel_set_encoding(ch, NULL, NULL); g_io_channel_set_close_on_unref(ch, FALSE); milter_event_loop_watch_io(loop, ch, G_IO_IN, on_ctl, NULL);
  sessions();
  gboolean ok = milter_client_run(client, &e); run_over = true; trace("run returned %d", ok);
  if (!shutting) violate("shutdown", "the milter stopped by itself: %s", e ? e->message : "");
  guint n = milter_client_get_n_processing_sessions(client); if (n) violate("count.processing", "%u sessions still counted as being processed when the milter stopped", n);
  if (un && access("mm.sock", F_OK) == 0) violate("shutdown", "the socket file was not removed");
  g_io_channel_unref(ch);
  finish_run();
}
}
