#include "world.h"
#include <cstring>
#include <unistd.h>
#include "repo.h"
using namespace sim; using namespace model;
namespace world {
static void glog(const gchar *domain, GLogLevelFlags lv, const gchar *msg, gpointer) {
  trace("GLOG %s: %s", domain ? domain : "", msg);
  if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR | G_LOG_LEVEL_WARNING)) violate("critical", "%s: %s", domain ? domain : "", msg);
}
static void on_log(MilterLogger *, const gchar *, MilterLogLevelFlags, const gchar *, guint, const gchar *, GTimeVal *, const gchar *msg, gpointer) { trace("LOG %s", msg); }
static void log_drop(MilterLogger *, const gchar *, MilterLogLevelFlags, const gchar *, guint, const gchar *, GTimeVal *, const gchar *msg, gpointer) { if (!msg) violate("critical", "a log message without a text"); }
void warm() {
  g_setenv("MILTER_LOG_LEVEL", getenv("SIM_LOG") ? getenv("SIM_LOG") : "none", TRUE);
  milter_init(); milter_client_init(); milter_server_init();
  g_log_set_default_handler(glog, NULL);
  if (getenv("SIM_LOG")) { milter_logger_disconnect_default_handler(milter_logger()); g_signal_connect(milter_logger(), "log", G_CALLBACK(on_log), NULL); }
}
// a profile is a '+'-separated list of features laid over a quiet base
static void feature(const string &f) {
  Mix &m = mix;
  if (f == "m2") m.milters_min = 2, m.milters_max = 2;
  else if (f == "m3") m.milters_max = 3;
  else if (f == "m4") m.milters_min = 2, m.milters_max = 4;
  else if (f == "m0") m.milters_min = 0;
  else if (f == "s2") m.sessions_max = 2, m.concurrency = 0;
  else if (f == "conc") m.sessions_max = 4, m.concurrency = 1;
  else if (f == "g4") m.messages_max = 4;
  else if (f == "verdict") m.p_verdict = 500;
  else if (f == "noverdict") m.p_verdict = 0;
  else if (f == "bod") m.p_verdict = 40, m.p_body = 500, m.p_no_event = 250, m.p_bigbody = 500;
  else if (f == "nomods") m.p_mods = 0;
  else if (f == "mods") m.p_mods = 900;
  else if (f == "ne") m.p_no_event = 250;
  else if (f == "nr") m.p_nr = 250;
  else if (f == "eval") m.p_eval = 350;
  else if (f == "failconn") m.p_fail_conn = 250;
  else if (f == "failneg") m.p_fail_neg = 200;
  else if (f == "failcmd") m.p_fail_cmd = 60;
  else if (f == "idle") m.p_idle_close = 60;
  else if (f == "stall") m.p_stall = 400;
  else if (f == "slow") m.p_slow = 120;
  else if (f == "silent") m.p_silent = 500;
  else if (f == "stop") m.p_stop = 500;
  else if (f == "disabled") m.p_disabled = 200;
  else if (f == "brk") m.p_mta_break = 400;
  else if (f == "chk") m.p_check = 1;
  else if (f == "maxconn") m.max_conn = true, m.sessions_max = 7, m.concurrency = 1;
  else if (f == "accerr") m.accept_err = true;
  else if (f == "shut") m.shut = true;
  else if (f == "count") m.counts = true, m.sessions_max = 6, m.concurrency = 1;
  else if (f == "spool") m.p_spool = 900;
  else if (f == "diskerr") m.spool_fault = true, m.p_spool = 1000;
  else if (f == "hmta") m.hostile_mta = true;
  else if (f == "hmil") m.hostile_mil = true;
  else if (f == "hnr") m.hostile_nr = true;
  else if (f == "ctl") m.ctl = true;
  else if (f == "launch") m.launch = true, m.p_fail_conn = 400;
  else if (f == "compat") m.compat = true;
  else if (f == "repeat") m.repeat = true;
  else if (f == "net") m.faults_net = 1;
  else if (f == "nodata") m.p_data_omitted = 150;
  else if (f == "huge") m.p_hugebody = 200;
  else if (f == "noabort") m.p_abort = 0;
  else if (f == "nounk") m.p_unknown = 0;
  else if (!f.empty()) { fprintf(stderr, "unknown feature %s\n", f.c_str()); _exit(6); }
}
void set_mix(const string &p) {
  mix = Mix();
  mix.milters_max = 1; mix.sessions_max = 1; mix.concurrency = 0; mix.p_eval = 0; mix.p_no_event = mix.p_nr = 0;
  size_t i = 0; while (i <= p.size()) { size_t j = p.find('+', i); if (j == string::npos) j = p.size(); string f = p.substr(i, j - i); if (f.size() > 1 && f[0] == '?') { if (chance("swarm", 1, 2)) { feature(f.substr(1)); count("swarm." + f.substr(1)); } } else if (f != "base") feature(f); i = j + 1; }
  // how often milters decide early differs from run to run, so that most messages get far
  static const int div[] = {1, 4, 15, 4};
  mix.p_verdict /= div[choose("swarm.v", 4)];
}
}
void run_world(const std::string &w, const std::string &profile) {
  world::set_mix(profile);
  if (!getenv("SIM_LOG") && !mix.counts) { // what is logged must not change what is done
    static const MilterLogLevelFlags lv[] = {MILTER_LOG_LEVEL_DEFAULT, MilterLogLevelFlags(MILTER_LOG_LEVEL_ALL), MILTER_LOG_LEVEL_ERROR};
    int k = choose("loglevel", 8);
    if (k < 3) { milter_logger_disconnect_default_handler(milter_logger()); g_signal_connect(milter_logger(), "log", G_CALLBACK(world::log_drop), NULL); milter_logger_set_target_level(milter_logger(), lv[k]); count(k == 1 ? "log.all" : "log.some"); }
  }
  if (w == "A") world::run_manager(profile);
  if (w == "B") world::run_client(profile);
  if (w == "C") world::run_server(profile);
  if (w == "D") world::run_launcher(profile);
  if (w == "E") world::run_events(profile);
}
