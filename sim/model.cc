#include "model.h"
#include <algorithm>
#include <cstring>
#include <strings.h>
using namespace sim; using namespace wire;
namespace model {
Mix mix; Config cfg;
static std::map<string, NegPlan> plans; static std::map<string, Script> scripts;
void reset() { plans.clear(); scripts.clear(); }
static bool pm(const string &key, int p) { return p > 0 && chance(key, (uint32_t)p, 1000); }
int rank(char c) { switch (c) { case 'd': return 6; case 'r': return 5; case 't': return 4; case 'c': return 3; case 's': return 2; case 'a': return 1; } return 0; }

// two of them differ only in upper and lower case
string macro_name(int j) { static const char *n[] = {"{mac0}", "{mac1}", "{mac2}", "{Mac1}", "{mac4}"}; return n[j]; }
static T think(const string &key) {
  if (!pm(key, mix.p_delay)) return 0;
  static const T d[] = {100 * US, 1 * MS, 10 * MS, 50 * MS, 200 * MS, 700 * MS, 1500 * MS, 2500 * MS};
  return d[choose(key, 8)] + (T)choose(key, 1000) * US;
}
// nearly as long as the timeout allows
static T slow(const string &key, double limit) {
  if (!pm(key + ".slow", mix.p_slow)) return -1;
  count("fault.milter_slow");
  return (T)((limit - 5) * (double)(200 + choose(key + ".slow", 801)) * (double)MS); // the network may take up to about four seconds
}
// is there a second attempt to connect to a milter that could not be reached?
bool retried(int i, const NegPlan &p) {
  const MilterCfg &c = cfg.milters[i]; if (!p.conn) return false;
  if (p.conn == 1 || c.is_unix()) return true;               // connect() fails at once: once more after 5 s
  return p.conn != 3 && launches(i);                             // refused later: only if it can be started
}
bool launches(int i) { return mix.launch && !cfg.milters[i].command.empty(); }
NegPlan &neg_plan(int i, int k) {
  if (mix.repeat) k = 0;
  string key = "m" + std::to_string(i) + ".s" + std::to_string(k) + ".neg";
  auto it = plans.find(key); if (it != plans.end()) return it->second;
  NegPlan p;
  if (pm(key + ".fail", mix.p_fail_conn)) { p.conn = 1 + choose(key + ".fail", 4); p.fail = F_CLOSE; if (pm(key + ".up", mix.launch ? 650 : 300)) p.up = true; if (p.up && retried(i, p)) p.fail = F_NONE; }
  else if (pm(key + ".fail", mix.p_fail_neg)) p.fail = (Fail)(1 + choose(key + ".fail", 5));
  p.conn_delay = think(key + ".t"); p.delay = think(key + ".t");
  if (mix.p_slow) { T t = slow(key + ".c", cfg.milters[i].t_conn); if (t >= 0) p.conn_delay = t; t = slow(key + ".n", cfg.milters[i].t_read); if (t >= 0) p.delay = t; }
  p.ver = pm(key, mix.p_old_version) ? 2 + choose(key, 5) : 6;
  // what this milter would like; intersected with the offer later
  p.actions = pm(key, 700) ? A_ALL : choose(key, A_ALL + 1);
  p.actions &= ~A_SETSYMLIST; if (p.actions & A_CHGHDRS) p.actions |= A_ADDHDRS;
  uint32_t s = 0;
  if (pm(key, 600)) for (int b = 0; b < 21; b++) {
    uint32_t f = 1u << b;
    if ((f & P_NO_EVENT) && pm(key, mix.p_no_event)) s |= f;
    if ((f & P_NR) && pm(key, mix.p_nr)) s |= f;
  }
  // milters often agree, say, in not wanting headers: what all of them leave out the MTA need not send
  string com = "neg.s" + std::to_string(k); static std::map<string, uint32_t> commons; auto ci = commons.find(com);
  if (ci == commons.end()) {
    uint32_t v = 0;
    if (mix.p_no_event && pm(com, 300)) for (int b = 0; b < 21; b++) if ((1u << b) & P_NO_EVENT && pm(com, 400)) v |= 1u << b;
    if (mix.p_nr && pm(com, 300)) for (int b = 0; b < 21; b++) if ((1u << b) & P_NR && pm(com, 500)) v |= 1u << b;
    ci = commons.insert({com, v}).first;
  }
  s |= ci->second;
  if (pm(key, 400)) s |= P_SKIP;
  if (pm(key, mix.p_leadspc)) s |= P_HDR_LEADSPC;
  if (pm(key, 100)) s |= P_RCPT_REJ;
  p.steps = s;
  if (pm(key, 300)) { p.macros_sent = true; for (int st = 0; st < 7; st++) if (pm(key, 400)) { string l; int n = 1 + choose(key, 3); for (int j = 0; j < n; j++) { if (j) l += ' '; l += macro_name(choose(key, 5)); } p.macros[st] = l; } if (p.macros.empty()) p.macros_sent = false; }
  return plans[key] = p;
}
bool stops(int i, int k, char cmd, int nth) {
  if (mix.repeat) k = 0; const MilterCfg &m = cfg.milters[i]; (void)k; return m.stop_at == cmd && m.stop_nth == nth; }

const Script &script(int i, int k, int msg, char cmd, int idx) {
  if (mix.repeat) k = 0;
  string key = "m" + std::to_string(i) + ".s" + std::to_string(k) + ".g" + std::to_string(msg) + "." + cmd + std::to_string(idx);
  auto it = scripts.find(key); if (it != scripts.end()) return it->second;
  Script s; int pv = mix.p_verdict;
  if (strchr("LCHU", cmd)) pv /= 3;
  if (cmd == 'B') pv = std::max(pv, mix.p_body);
  s.delay = think(key + ".t");
  if (mix.p_slow) { T t = slow(key, cmd == 'E' ? cfg.milters[i].t_eom : cfg.milters[i].t_read); if (t >= 0) s.delay = t; }
  if (pm(key + ".f", cmd == 'B' && mix.p_stall ? 4 * mix.p_fail_cmd : mix.p_fail_cmd)) { s.fail = (Fail)(1 + choose(key + ".f", 5)); if (pm(key + ".f", mix.p_stall)) s.fail = F_STALL; }
  if (mix.p_idle_close && !mix.p_nr && pm(key + ".i", mix.p_idle_close) && s.fail == F_NONE && strchr(i ? "CHMRTLNE" : "CHMRTLNBE", cmd) && ((strchr("LN", cmd) && !mix.p_no_event) || cfg.milters[i].fallback == 'a')) { s.idle = true; if (!(cmd == 'B' && idx > 0)) return scripts[key] = s; s.idle = false; }
  if (cmd == 'B' && idx > 0) { s.ans = 'c'; s.fail = F_NONE; return scripts[key] = s; }
  if (pm(key, pv)) {
    const char *opts = "artd";
    if (cmd == 'C' || cmd == 'H') opts = "artr";
    if (cmd == 'B') opts = "artds";
    if (cmd == 'U') opts = "rt";
    if (cmd == 'R' && cfg.milters[i].stop_at == 'R') opts = "a"; // whether a milter exempt for the accepted recipients sees the message is left open
    s.ans = opts[choose(key, (uint32_t)strlen(opts))];
    if ((s.ans == 'r' || s.ans == 't') && pm(key, mix.p_code)) {
      static const char *r5[] = {"550 5.7.1 no %d", "554 no such thing %d", "551 5.1.1 %d"};
      static const char *r4[] = {"450 4.2.0 later %d", "421 4.3.2 busy %d", "452 %d"};
      char b[100]; snprintf(b, sizeof b, (s.ans == 'r' ? r5 : r4)[choose(key, 3)], i * 100 + k * 10 + msg); s.code = b;
    }
  } else if (cmd == 'E' && pm(key, 200)) s.ans = 'a';
  if (cmd == 'E') {
    if (pm(key + ".p", 150)) { s.progress = 1 + choose(key + ".p", 3); if (mix.p_slow && pm(key + ".pg", 400)) { T t = (T)((cfg.milters[i].t_eom - 5) * (double)(200 + choose(key + ".pg", 801)) * (double)MS); s.gap = t; count("fault.milter_slow_progress"); } }
    string mk = key + ".mods";
    if (pm(mk, mix.p_mods)) {
      int n = 1 + choose(mk, 4);
      static const char *names[] = {"Subject", "X-A", "X-B", "Received", "x-a", "X-New"};
      for (int j = 0; j < n; j++) {
        Mod m; m.idx = 0; string uniq = std::to_string(i) + "_" + std::to_string(k) + "_" + std::to_string(msg) + "_" + std::to_string(j);
        switch (choose(mk, 10)) {
          case 0: m.c = 'h'; m.a = names[choose(mk, 6)]; m.b = "added" + uniq; break;
          case 1: m.c = 'i'; m.idx = choose(mk, 5); m.a = names[choose(mk, 6)]; m.b = "ins" + uniq; break;
          case 2: m.c = 'm'; m.idx = 1 + choose(mk, 3); m.a = names[choose(mk, 6)]; m.b = "chg" + uniq; break;
          case 3: m.c = 'm'; m.idx = 1 + choose(mk, 2); m.a = names[choose(mk, 6)]; m.b = ""; break;
          case 4: case 5: m.c = 'b'; { int len = 1 + choose(mk, 60); if (pm(mk, mix.p_bigbody)) len = 60000 + choose(mk, 90000); for (int x = 0; x < len; x++) m.a += (char)('a' + (x * 7 + i + j) % 26); if (pm(mk, mix.p_nul)) m.a[choose(mk, (uint32_t)m.a.size())] = '\0'; m.a += "<" + uniq + ">"; } break;
          case 6: m.c = '+'; m.a = "<added" + uniq + "@x>"; if (pm(mk, 300)) m.b = "NOTIFY=NEVER"; break;
          case 7: m.c = '-'; m.a = "<rcpt" + std::to_string(choose(mk, 3)) + "@x>"; break;
          case 8: m.c = 'e'; m.a = "<from" + uniq + "@x>"; if (pm(mk, 200)) m.b = "SIZE=1"; break;
          default: m.c = 'q'; m.a = "quarantine " + uniq; break;
        }
        if ((m.c == 'h' || m.c == 'i' || m.c == 'm') && !m.b.empty() && pm(mk, mix.p_lead_mod)) m.b = " " + m.b;
        s.mods.push_back(m);
      }
    }
  }
  return scripts[key] = s;
}
// what of a command the API carries: addresses without ESMTP parameters, IPv6 addresses without the optional prefix
string canon(char c, const string &d) {
  if (c == 'M' || c == 'R') { auto v = split0(d); return v.empty() ? d : z(v[0]); }
  if (c == 'C') { size_t p = d.find('\0'); if (p != string::npos && p + 4 < d.size() && d[p + 1] == '6' && !strncasecmp(d.c_str() + p + 4, "IPv6:", 5)) return d.substr(0, p + 4) + d.substr(p + 9); }
  return d;
}

// ---- negotiation ----------------------------------------------------------------
void Session::negotiate() {
  ms.assign(cfg.milters.size(), MilterSess());
  for (size_t i = 0; i < ms.size(); i++) {
    MilterSess &m = ms[i]; const MilterCfg &c = cfg.milters[i];
    if (!c.enabled) continue;
    NegPlan &p = neg_plan((int)i, k);
    m.present = true;
    if (p.conn && !(p.up && retried((int)i, p))) { m.dead = m.failed = true; count("model.fail_connect"); if (!c.eval && rank(c.fallback) > rank('c')) neg_fallback = true; continue; }
    uint32_t ov = std::min<uint32_t>(ver, 6);
    m.exp.push_back({'O', u32(ov) + u32(actions) + u32(steps)});
    if (p.fail != F_NONE) { m.dead = m.failed = true; count("model.fail_negotiate"); if (!c.eval && rank(c.fallback) > rank('c')) neg_fallback = true; continue; }
    m.ver = std::min(p.ver, ov); m.actions = p.actions & actions; m.steps = p.steps & steps;
    if (c.stop_at) m.steps &= ~(no_flag(c.stop_at) | nr_flag(c.stop_at));
    if (m.ver < 3) m.steps &= 0x7f;
    if (m.ver < 6) m.steps &= 0x3ff;
    if (p.macros_sent && m.ver >= 6 && (actions & A_SETSYMLIST)) { m.actions |= A_SETSYMLIST; m.has_req = true; m.macro_req = p.macros; }
  }
}
T Session::bound(char c) {
  double par = 0, sum = 0; double think = 3;
  double ncmd = (double)cmds.size() + 3; size_t bytes = 0;
  for (auto &x : cmds) bytes += x.data.size();
  ncmd += (double)(bytes + 300000) / std::max(100u, cfg.chunk_size) * 1.2; // pieces of a replayed body
  for (size_t i = 0; i < ms.size(); i++) {
    const MilterCfg &m = cfg.milters[i]; if (!ms[i].present) continue;
    double step = mix.p_slow ? std::max(think, m.t_read) : think;
    if (c == 'O') par = std::max(par, 2 * m.t_conn + 5 + m.t_write + m.t_read);
    else par = std::max(par, m.t_write + m.t_read);
    sum += ncmd * step + m.t_write + m.t_read + m.t_eom * (mix.p_slow ? 5 : 1) + 2;
  }
  double t = 60 + (strchr("LNBE", c) ? sum + (emulated ? par : 0) : par);
  if (knobs.sndbuf < 20000) t += 300;
  return (T)(t * (double)SEC);
}
void Session::granted(uint32_t v, uint32_t a, uint32_t s) { r_ver = v; r_actions = a; r_steps = s; }
string Session::check_grant(uint32_t v, uint32_t a, uint32_t s, const std::map<int, string> &req) {
  char b[300];
  if (v > ver || v < 2) { snprintf(b, sizeof b, "version %u answered to an offer of %u", v, ver); return b; }
  if (a & ~actions) { snprintf(b, sizeof b, "actions 0x%x granted, only 0x%x offered", a, actions); return b; }
  if (s & ~steps) { snprintf(b, sizeof b, "steps 0x%x answered, only 0x%x offered", s, steps); return b; }
  bool any = false; uint32_t need_a = 0, yes = 0, all_no = ~0u, all_nr = ~0u;
  std::map<int, std::set<string>> want; bool everyone_req = true;
  for (auto &m : ms) if (m.present && !m.dead) {
    any = true; need_a |= m.actions & ~A_SETSYMLIST; yes |= m.steps & P_YES; all_no &= m.steps;
    uint32_t nr = m.steps & P_NR;
    for (const char *c = "CHMRTLNBU"; *c; c++) if (m.steps & no_flag(*c)) nr |= nr_flag(*c);
    all_nr &= nr;
    if (!m.has_req) everyone_req = false;
    for (auto &e : m.macro_req) { size_t i = 0; string l = e.second; while (i < l.size()) { size_t j = l.find(' ', i); if (j == string::npos) j = l.size(); if (j > i) want[e.first].insert(l.substr(i, j - i)); i = j + 1; } }
  }
  (void)everyone_req;
  if ((a & need_a) != need_a) { snprintf(b, sizeof b, "actions 0x%x granted, milters need 0x%x", a, need_a); return b; }
  if (any) {
    if (s & P_NO_EVENT & ~all_no) { snprintf(b, sizeof b, "steps 0x%x skip an event some milter needs (common 0x%x)", s, all_no); return b; }
    if (s & P_NR & ~all_nr) { snprintf(b, sizeof b, "steps 0x%x skip an answer some milter needs to give (common 0x%x)", s, all_nr); return b; }
    if ((s & P_YES) != yes) { snprintf(b, sizeof b, "steps 0x%x: milters asked for 0x%x", s, yes); return b; }
  } else if (s & P_YES) { snprintf(b, sizeof b, "steps 0x%x ask for something no milter needs", s); return b; }
  for (auto &e : want) {
    auto it = req.find(e.first); string l = it == req.end() ? "" : " " + it->second + " ";
    for (auto &w : e.second) if (l.find(" " + w + " ") == string::npos) { snprintf(b, sizeof b, "macro %s at stage %d is needed by a milter but not requested (%s)", w.c_str(), e.first, l.c_str()); return b; }
  }
  return "";
}

// ---- commands -------------------------------------------------------------------
static int stage_of(char c) { switch (c) { case 'C': return 0; case 'H': return 1; case 'M': return 2; case 'R': return 3; case 'T': return 4; case 'E': return 5; case 'N': return 6; } return -1; }
static std::map<string, string> filter_macros(const MilterSess &m, char c, const std::map<string, string> &in) {
  int st = stage_of(c); if (st < 0) return in;
  auto it = m.macro_req.find(st);
  if (it == m.macro_req.end()) return in;
  std::map<string, string> r; string l = " " + it->second + " ";
  for (auto &e : in) if (l.find(" " + e.first + " ") != string::npos) r.insert(e);
  return r;
}
string Session::strip(int i, const string &v) {
  if ((r_steps & P_HDR_LEADSPC) && !(ms[i].steps & P_HDR_LEADSPC) && !v.empty() && v[0] == ' ') return v.substr(1);
  return v;
}
void Session::expect(int i, char c, const string &d, const Cmd *m, int sidx) {
  auto &v = ms[i].exp;
  if (!strchr("CHU", c)) ms[i].msg_seen = true;
  if (c == 'B' && !v.empty() && v.back().cmd == 'B') { v.back().data += d; return; }
  Exp e; e.cmd = c; e.data = d; e.msg = msg; e.idx = sidx; e.reply = c == 'E' || !(ms[i].steps & nr_flag(c));
  if (c == 'B' && e.reply) { const Script &s = script(i, k, msg, 'B', 0); if (s.ans != 'c' || s.fail != F_NONE || s.idle) e.prefix_ok = true; }
  if (m && m->has_macros) { e.check_macros = true; e.macros = filter_macros(ms[i], c, m->macros); }
  ms[i].exp.push_back(e);
}
void Session::note(Answer &a, const std::map<int, std::set<string>> &byrank) {
  if (byrank.empty()) { a.allowed = {"c", "a"}; return; }
  auto &top = *byrank.rbegin(); a.allowed = top.second;
  if (top.first == rank('a')) a.allowed.insert("a");
}
static string ans_text(char ans, const string &code) { return (!code.empty() && (ans == 'r' || ans == 't')) ? "y" + code : string(1, ans); }

void Session::abort_all(bool required) {
  for (size_t i = 0; i < ms.size(); i++) {
    MilterSess &m = ms[i];
    if (!m.present || m.dead) continue;
    if (m.in_message) {
      Exp e; e.cmd = 'A'; e.optional = !(required && m.processing && m.msg_seen);
      m.exp.push_back(e);
      m.processing = false;
    }
  }
}
Answer Session::parallel(char c, const string &d, const Cmd *m) {
  Answer a; std::map<int, std::set<string>> by; bool any = false; bool stopper = false;
  int nth = idx[c];
  bool msg_stage = c == 'R' || c == 'T';
  vector<int> parts;
  for (size_t i = 0; i < ms.size(); i++) {
    MilterSess &x = ms[i];
    if (!x.present || x.dead) continue;
    if (msg_stage && !x.processing) continue;
    if (c == 'T' && !x.rcpt_ok) { if (x.processing && x.in_message) { x.processing = false; x.exp.push_back({'A', "", true}); } continue; }
    parts.push_back((int)i);
  }
  for (int i : parts) {
    MilterSess &x = ms[i]; const MilterCfg &mc = cfg.milters[i];
    any = true;
    if (c == 'M') { x.in_message = true; x.msg_seen = false; x.processing = true; x.rcpt_ok = false; x.skip = false; }
    if (stops(i, k, c, x.seen[c]++)) {
      stopper = true; count("model.stop");
      by[rank('a')].insert("a");
      if (c == 'C' || c == 'H') { x.dead = true; x.exp.push_back({'A', "", true}); }
      else if (c == 'R') { by[rank('c')].insert("c"); x.rcpt_ok = true; }
      else { x.processing = false; x.exp.push_back({'A', "", true}); }
      continue;
    }
    char ans = 'c'; string code; Fail f = F_NONE;
    bool sent = !(x.steps & no_flag(c)) && !(c == 'T' && x.ver < 4);
    if (sent) {
      expect(i, c, d, m, nth);
      if (!(x.steps & nr_flag(c))) {
        const Script &s = script(i, k, msg, c, nth);
        ans = s.ans; code = s.code; f = s.fail;
        if (s.idle) { x.dead = x.failed = true; x.processing = false; count("model.fail_idle"); }
        if (f != F_NONE) { ans = mc.fallback; code = ""; x.dead = x.failed = true; x.processing = false; count("model.fail_command"); }
      }
    }
    if (f == F_NONE) {
      if (c == 'C' || c == 'H') { if (strchr("artd", ans)) { x.dead = true; } }
      else if (c == 'M' || c == 'T') { if (strchr("artd", ans)) { x.processing = false; x.exp.push_back({'A', "", true}); } }
      else if (c == 'R') {
        if (ans == 'a') { x.processing = false; x.exp.push_back({'A', "", true}); }
        else if (ans == 'c') x.rcpt_ok = true;
        else if (ans == 'd') x.processing = false;
      }
    }
    if (mc.eval && strchr("artd", ans)) { ans = 'a'; code = ""; }
    if (ans == 'a' && mc.eval) { by[rank('a')].insert("a"); continue; }
    by[rank(ans)].insert(ans_text(ans, code));
    if (ans == 'c') by[rank('c')].insert("c");
  }
  (void)stopper;
  note(a, by);
  if (!any) { a.allowed = {"c", "a"}; a.allowed.insert(string(1, cfg.fallback)); a.why = "no milter"; }
  int top = by.empty() ? 0 : by.rbegin()->first;
  if (c != 'U' && c != 'C' && c != 'H' && (top == rank('d') || (top >= rank('t') && c != 'R'))) abort_all(true);
  return a;
}
void Session::start_message() {
  cmds.clear(); order.clear(); cur = pos = 0; cur_mid = false; body_seen = false; hidx = 0;
  view.clear(); view_body.clear(); view_changed = false; body_replaced = false; eom_top = -1;
}
static vector<Header>::iterator nth_header(vector<Header> &h, const string &name, uint32_t n) {
  uint32_t c = 0; for (auto it = h.begin(); it != h.end(); ++it) if (!strcasecmp(it->name.c_str(), name.c_str()) && ++c == n) return it;
  return h.end();
}
static void apply_mod(Content &c, const Mod &m) {
  switch (m.c) {
    case 'h': { auto it = nth_header(c.headers, m.a, 1); c.headers.insert(it, {m.a, m.b}); break; }
    case 'i': c.headers.insert(c.headers.begin() + std::min<size_t>(m.idx, c.headers.size()), {m.a, m.b}); break;
    case 'm': { auto it = nth_header(c.headers, m.a, m.idx);
      if (m.b.empty()) { if (it != c.headers.end()) c.headers.erase(it); }
      else if (it != c.headers.end()) it->value = m.b;
      else c.headers.insert(nth_header(c.headers, m.a, 1), {m.a, m.b});
      break; }
    case '+': c.rcpts.push_back(m.a + (m.b.empty() ? "" : " " + m.b)); break;
    case '-': { auto it = std::find(c.rcpts.begin(), c.rcpts.end(), m.a); if (it != c.rcpts.end()) c.rcpts.erase(it); break; }
    case 'e': c.from = m.a + (m.b.empty() ? "" : " " + m.b); c.from_changed = true; break;
    case 'q': c.quarantined = true; c.reasons.insert(m.a); break;
  }
}
static uint32_t action_of(const Mod &m) { switch (m.c) { case 'h': case 'i': return A_ADDHDRS; case 'm': return A_CHGHDRS; case 'b': return A_CHGBODY; case '+': return m.b.empty() ? A_ADDRCPT : A_ADDRCPT_PAR; case '-': return A_DELRCPT; case 'e': return A_CHGFROM; case 'q': return A_QUARANTINE; } return 0; }

// Runs the message-content commands received so far through the milters in order.
Answer Session::stream() {
  Answer a; std::map<int, std::set<string>> none;
  if (cmds.size() == 1 && order.empty() && cur == 0) {
    for (size_t i = 0; i < ms.size(); i++) {
      MilterSess &x = ms[i];
      if (!x.present || x.dead || !x.processing) continue;
      if (!x.rcpt_ok) { x.processing = false; x.exp.push_back({'A', "", true}); continue; }
      order.push_back((int)i);
    }
    if (order.empty()) cur = 1;
  }
  bool eom = cmds.back().c == 'E';
  while (cur < order.size()) {
    int i = order[cur]; MilterSess &x = ms[i]; const MilterCfg &mc = cfg.milters[i];
    bool finished = false;
    if (pos == 0) { x.skip = false; hidx = 0; body_seen = false; }
    // the first milter sees the original content as it streams by; a later one may see changed content
    vector<Cmd> todo;
    if (view_changed) {   // only once the whole message is known
      for (auto &h : result.headers) todo.push_back({'L', h.name + '\0' + h.value + '\0', {}, false});
      for (auto &c : cmds) if (c.c == 'N') todo.push_back(c);
      if (body_replaced) { if (!result.body.empty()) todo.push_back({'B', result.body, {}, false}); }
      else for (auto &c : cmds) if (c.c == 'B') todo.push_back(c);
      for (auto &c : cmds) if (c.c == 'E') { Cmd e = c; if (body_replaced) e.data = ""; todo.push_back(e); }
    } else todo = cmds;
    while (pos < todo.size() && !finished) {
      if (x.idle_dead) {
        x.idle_dead = false;
        if (mc.eval || mc.fallback == 'a') { finished = true; break; }
        a.allowed = {string(1, mc.fallback)}; a.why = mc.name + " failed before"; abort_all(true); cur = order.size();
        return a;
      }
      const Cmd &c = todo[pos++];
      string d = c.data; char cc = c.c; int nth = 0;
      if (cc == 'L') { auto v = split0(d); string val = d.substr(v.empty() ? 0 : v[0].size() + 1); if (!val.empty() && val.back() == '\0') val.pop_back(); d = z(v.empty() ? "" : v[0]) + z(strip(i, val)); nth = (int)hidx++; }
      if (cc == 'B') { nth = body_seen ? 1 : 0; if (d.empty()) continue; body_seen = true; }
      if (!(cc == 'B' && (x.skip || nth)) && stops(i, k, cc, x.seen[cc]++)) { count("model.stop"); x.processing = false; x.exp.push_back({'A', "", true}); finished = true; break; }
      // the end of the message may carry the last piece of body
      if (cc == 'E' && !d.empty()) {
        if (!(x.steps & P_NOBODY) && !x.skip) { if (!x.exp.empty() && x.exp.back().cmd == 'B') x.exp.back().data += d; else { Exp e; e.cmd = 'B'; e.data = d; e.msg = msg; e.reply = false; x.exp.push_back(e); } }
        d = "";
      }
      if (cc == 'B' && x.skip) continue;
      if (cc != 'E' && (x.steps & no_flag(cc))) continue;
      expect(i, cc, d, &c, cc == 'L' ? nth : 0);
      if (cc != 'E' && (x.steps & nr_flag(cc))) continue;
      int sidx = cc == 'B' || cc == 'L' ? nth : 0;
      const Script &s = script(i, k, msg, cc, sidx);
      char ans = s.ans; string code = s.code;
      // a replayed body may be cut anew: a milter deciding at its first piece may have seen more of it
      if (cc == 'B' && x.exp.back().prefix_ok) for (size_t q = pos; q < todo.size(); q++) if (todo[q].c == 'B' || todo[q].c == 'E') x.exp.back().data += todo[q].data;
      if (s.ans == 's' && s.fail == F_NONE) { if (x.steps & P_SKIP) { x.skip = true; continue; } ans = 'c'; }
      if (s.idle) { count("model.fail_idle"); x.dead = x.failed = true; x.processing = false; if (cc != 'E') { x.idle_dead = true; continue; } }
      if (s.fail != F_NONE) { ans = mc.fallback; code = ""; x.dead = x.failed = true; x.processing = false; count("model.fail_command"); if (ans == 'c') ans = 'a'; if (ans == 'a') { finished = true; break; } }
      if (cc == 'E' && s.fail == F_NONE && (ans == 'c' || ans == 'a') ) {
        if (!mc.eval) {
          bool changed = false; string rb; bool rep = false;
          for (auto m : s.mods) {
            if (!(x.actions & action_of(m))) continue;
            if (m.c == 'b') { rb += m.a; rep = true; continue; }
            if ((r_steps & P_HDR_LEADSPC) && !(x.steps & P_HDR_LEADSPC) && !m.b.empty() && m.b[0] != ' ' && (m.c == 'h' || m.c == 'i' || m.c == 'm')) m.b = " " + m.b;
            apply_mod(result, m); if (m.c == 'h' || m.c == 'i' || m.c == 'm') changed = true;
          }
          if (rep) { result.body = rb; changed = true; body_replaced = true; }
          if (changed) view_changed = true;
        }
        x.processing = false; x.in_message = false; finished = true; break;
      }
      if (ans == 'c') continue;
      x.processing = false; if (cc == 'E') x.in_message = false; else x.exp.push_back({'A', "", true});
      if (ans == 'a' || mc.eval) { finished = true; break; }
      // reject, temporary failure, discard: the message is decided
      a.allowed = {ans_text(ans, code)}; a.why = mc.name;
      abort_all(true); cur = order.size();
      return a;
    }
    if (finished) { cur++; pos = 0; continue; }
    break; // waits for more
  }
  if (cur < order.size()) { a.allowed = {"c"}; if (cmds.back().c == 'B') a.allowed.insert("s"); if (cmds.back().c == 'B') { bool can = cur + 1 == order.size() && ms[order[cur]].skip; if (!can) a.allowed.erase("s"); } return a; }
  if (eom || order.empty()) a.allowed = {"c", "a"}; else a.allowed = {"a"};
  if (order.empty()) a.allowed.insert(string(1, cfg.fallback));
  a.accepted = true;
  return a;
}
Answer Session::command(char c, const string &d, const std::map<string, string> *macros) {
  Cmd m{c, d, macros ? *macros : std::map<string, string>(), macros != nullptr};
  Answer a;
  if (c == 'A') {
    for (auto &x : ms) for (size_t j = x.mark; j < x.exp.size(); j++) x.exp[j].truncatable = true;
    abort_all(true); for (auto &x : ms) { x.in_message = false; x.processing = false; } a.needed = false; return a; }
  if (c == 'Q') { a.needed = false; return a; }
  if (neg_fallback) { // a milter that failed before the session began decides it, the others are let go
    char f = 'c';
    for (size_t i = 0; i < ms.size(); i++) { if (ms[i].failed && !cfg.milters[i].eval && rank(cfg.milters[i].fallback) > rank(f)) f = cfg.milters[i].fallback; if (!ms[i].failed) ms[i].dead = ms[i].loose = true; }
    a.allowed = {string(1, f)}; a.needed = !(r_steps & nr_flag(c)); return a;
  }
  emulated = false; if (c == 'T') data_seen = true;
  if (c == 'M') {
    data_seen = false; msg++; start_message(); orig = Content(); orig.from = split0(d).empty() ? "" : split0(d)[0];
    idx['R'] = 0;
    for (auto &x : ms) { x.in_message = false; x.processing = false; x.rcpt_ok = false; }
  }
  if (c == 'L' || c == 'N' || c == 'B' || c == 'E') {
    if (r_ver >= 4 && !data_seen) { // an MTA that leaves DATA out: the manager makes it up for the milters
      data_seen = true; emulated = true; count("model.data_emulated"); Answer t = parallel('T', "", nullptr); idx['T']++;
      if (!(t.allowed.size() == 1 && t.allowed.count("c"))) { if (c == 'E') for (auto &x : ms) x.in_message = false; t.eom = c == 'E'; idx[c]++; return t; }
    }
    if (c == 'L') { auto v = split0(d); string val = d.substr(v[0].size() + 1); if (!val.empty() && val.back() == '\0') val.pop_back(); orig.headers.push_back({v[0], val}); result.headers = orig.headers; }
    if (c == 'B' || c == 'E') orig.body += d;
    if (cmds.empty()) { result = orig; }
    if (!view_changed) { result.headers = orig.headers; result.body = orig.body; }
    result.from = orig.from; result.rcpts = orig.rcpts;
    cmds.push_back(m);
    a = stream();
    a.eom = c == 'E';
    if (c == 'E' && a.accepted) {}
    if (c == 'E') for (auto &x : ms) x.in_message = false;
  } else a = parallel(c, d, &m);
  if (c == 'L' || c == 'N' || c == 'B' || c == 'E') idx[c]++;
  else if (c == 'M') { idx['M']++; }
  else idx[c]++;
  a.needed = !(r_steps & nr_flag(c));
  return a;
}
}
