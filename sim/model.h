// Scenario description and sequential reference model of the manager.
#pragma once
#include "sim.h"
#include "wire.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>

namespace model {
using std::string; using std::vector;

// ---- scenario ---------------------------------------------------------------
struct Mix {                 // what a run may contain, per mille unless noted
  int milters_min = 1, milters_max = 3;
  int sessions_max = 2;
  int messages_max = 2;
  int concurrency = 1;       // sessions may overlap
  int p_eval = 150;
  int p_fail_conn = 0, p_fail_neg = 0, p_fail_cmd = 0; // failing milters
  int p_idle_close = 0;
  int p_stall = 0;           // a failing milter may just stop reading
  int p_slow = 0;            // a milter may take nearly as long as it is allowed to
  int p_check = 0;           // connection checking is configured
  bool max_conn = false, accept_err = false; // admission
  bool counts = false;       // counters, statistics and maintenance are checked
  int p_spool = 0;           // the size from which a body is spooled is small
  bool spool_fault = false;  // spooled bodies meet disk errors
  bool shut = false;         // shutdown is requested at an arbitrary point
  bool ctl = false, compat = false, launch = false;          // the control connection is used
  bool repeat = false;       // the same session again and again
  int p_silent = 0;          // the MTA may fall silent for good
  int p_verdict = 250;       // a milter answers something else than continue
  int p_mods = 500;
  int p_no_event = 250, p_nr = 250;
  int p_stop = 0, p_disabled = 0;
  int p_abort = 60, p_unknown = 60;
  int p_mta_break = 0;       // MTA disconnects at an arbitrary point
  int p_delay = 300;         // milters/MTA take time
  int p_bigbody = 60;        // larger bodies
  int p_body = 0;            // a milter decides at the body
  int p_hugebody = 0;        // above the in-memory limit
  int p_leadspc = 300;
  int p_old_version = 150;
  int p_code = 300;
  int p_nul = 150;           // bytes in bodies
  int p_multi_helo = 80;
  int p_macros = 600;
  bool hostile_mta = false, hostile_mil = false, hostile_nr = false;
  int p_fallback = 500;      // failing milter has a fallback other than accept
  int p_garbage_mta = 0;
  int p_data_omitted = 0;
  int faults_net = 0;        // swarm: partial io, eintr...
  int p_lead_mod = 300;
  int p_extra_action = 0;
};
extern Mix mix;

enum Fail { F_NONE, F_CLOSE, F_RST, F_GARBAGE, F_SILENT, F_PARTIAL, F_STALL };
struct MilterCfg {
  string name, spec; bool enabled = true, eval = false; char fallback = 'a';
  double t_conn = 300, t_write = 10, t_read = 10, t_eom = 300;
  string command, options, user;   // how to start it
  bool is_unix() const { return spec.compare(0, 5, "unix:") == 0; }
  char stop_at = 0;          // 'C','H','M','R','T','L','N','B','E': applicable condition stops there
  int stop_nth = 0;          // the nth such command of the session (0-based)
};
struct Header { string name, value; bool operator==(const Header &o) const { return name == o.name && value == o.value; } };
struct Mod { char c; uint32_t idx = 0; string a, b; };
std::string macro_name(int j);
struct Script {              // what one milter does at one command
  char ans = 'c'; string code; Fail fail = F_NONE; sim::T delay = 0; int progress = 0; sim::T gap = 0; // time between progress reports
  bool idle = false;         // closes its connection right behind the answer
  vector<Mod> mods;
};
struct NegPlan { int conn = 0; bool up = false; // up: a second attempt to connect, if one is made, finds it running
  sim::T conn_delay = 0; Fail fail = F_NONE; sim::T delay = 0; uint32_t ver = 6, actions = 0, steps = 0; std::map<int, string> macros; bool macros_sent = false; };

struct Config {
  vector<MilterCfg> milters;
  char fallback = 'a';
  int check_interval = 0;
  unsigned chunk_size = 65535; unsigned packet_buffer = 0;
  bool ctl_unix = false; bool libev = false; bool unix_listen = false, pid_file = false, no_launcher = false;
  size_t spool_at = 5242880;
  int max_conn = 0, suspend = 5; int maint = 0; int max_pending = 0;
};
extern Config cfg;

// ---- expectations -----------------------------------------------------------
struct Exp { char cmd; string data; bool optional = false, truncatable = false, prefix_ok = false; int msg = -1, idx = 0; bool reply = true; std::map<string, string> macros; bool check_macros = false; };
struct MilterSess {          // model state of one milter in one session
  bool present = false, dead = false, quit_ok = false;
  uint32_t ver = 0, steps = 0, actions = 0; std::map<int, string> macro_req; bool has_req = false;
  bool in_message = false;   // saw (or could see) MAIL of the current message
  bool msg_seen = false;    // was sent some part of the current message
  bool processing = false, rcpt_ok = false, skip = false;
  bool failed = false, idle_dead = false;
  vector<Exp> exp;
  bool loose = false;        // from here on only a prefix can be demanded
  size_t loose_from = 0;
  std::map<char, int> seen;
  size_t mark = 0;           // expectations up to here were settled by an answer
};
struct Answer {
  bool needed = true;
  std::set<string> allowed;
  string why;
  bool eom = false;
  bool accepted = false;     // message goes through (mods apply)
  bool anything = false;
};
struct Content { vector<Header> headers; string body; string from; bool from_changed = false; vector<string> rcpts; bool quarantined = false; std::set<string> reasons; };

class Session {
public:
  explicit Session(int k) : k(k) {}
  int k;
  uint32_t ver = 6, actions = 0, steps = 0;            // offered by the MTA
  uint32_t r_ver = 6, r_actions = 0, r_steps = 0;      // granted by the manager (as received)
  vector<MilterSess> ms;
  sim::T bound(char cmd);    // by when the command must be answered
  void negotiate();          // fills ms from plans
  Answer command(char cmd, const string &data, const std::map<string, string> *macros);
  void granted(uint32_t v, uint32_t a, uint32_t s);
  string check_grant(uint32_t v, uint32_t a, uint32_t s, const std::map<int, string> &req);
  int msg = -1;
  Content orig;              // what the MTA has
  Content result;            // after the milters
  bool loose_answers = false;
  int idx_of(char c) { return idx[c]; }
private:
  std::map<char, int> idx;
  struct Cmd { char c; string data; std::map<string, string> macros; bool has_macros; };
  vector<Cmd> cmds; vector<int> order; size_t cur = 0, pos = 0; bool cur_mid = false;
  size_t hidx = 0; bool body_seen = false;
  int eom_top = -1;
  vector<Header> view; string view_body; bool view_changed = false; bool body_replaced = false;
  bool neg_fallback = false; bool data_seen = false, emulated = false;
public:
  bool idle_pending() { for (auto &m : ms) if (m.idle_dead) return true; return false; } // when its end is noticed is open
  void answered() { for (auto &m : ms) m.mark = m.exp.size(); }
private:
  string strip(int i, const string &v);
  void expect(int i, char c, const string &d, const Cmd *m, int sidx);
  Answer parallel(char c, const string &d, const Cmd *m);
  Answer stream();
  void start_message();
  void abort_all(bool required);
  void note(Answer &a, const std::map<int, std::set<string>> &byrank);
};
int rank(char c);            // severity
NegPlan &neg_plan(int i, int k); bool retried(int i, const NegPlan &p); bool launches(int i);
const Script &script(int i, int k, int msg, char cmd, int idx);
bool stops(int i, int k, char cmd, int nth);
void reset();
string canon(char cmd, const string &data);
}
