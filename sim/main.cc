#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <dirent.h>
#include <execinfo.h>
#include <csignal>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "repo.h"
using namespace sim; using std::string;
static string esc(const string &s) {
  string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static int out_fd = 1; static bool want_choices = false;
static void write_all(const string &s) { size_t i = 0; while (i < s.size()) { ssize_t n = ::write(out_fd, s.data() + i, s.size() - i); if (n <= 0) _exit(4); i += n; } }
static void report() {
  std::ostringstream o;
  o << "{\"hash\":\"" << std::hex << trace_hash << std::dec << "\",\"vt\":" << virtual_total << ",\"viol\":[";
  for (size_t i = 0; i < violations.size(); i++) o << (i ? "," : "") << "[\"" << esc(violations[i].tag) << "\",\"" << esc(violations[i].text) << "\"]";
  o << "],\"cnt\":{"; bool f = true;
  for (auto &c : counters) { o << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
  o << "},\"cov\":["; f = true;
  for (auto c : coverage) { o << (f ? "" : ",") << "\"" << std::hex << c << std::dec << "\""; f = false; }
  o << "]";
  if (want_choices || violated()) {
    o << ",\"choices\":{"; f = true;
    for (auto &m : choices_made()) { o << (f ? "" : ",") << "\"" << esc(m.first) << "\":["; f = false; for (size_t i = 0; i < m.second.size(); i++) o << (i ? "," : "") << m.second[i]; o << "]"; }
    o << "}";
  }
  if (trace_on) o << ",\"trace\":\"" << esc(trace_text) << "\"";
  o << "}\n";
  write_all(o.str());
}
// a crash of the code under test is a finding like any other: report it with the choices that led to it
static void on_crash(int sig) {
  static volatile int again = 0; if (again++) _exit(7);
  void *bt[40]; int n = backtrace(bt, 40); string w; char b[32];
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, " %lx", (long)bt[i] - 0x555555554000L); w += b; }
  active = false; if (trace_on) trace_text += "backtrace (offsets):" + w + "\n";
  violations.push_back({sig == SIGXCPU ? "stuck" : "crash", sig == SIGXCPU ? string("endless loop") : string("the process died: ") + strsignal(sig)});
  report(); _exit(0);
}
static void catch_crashes() {
  static char stack[262144]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
  void *bt[4]; backtrace(bt, 4);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGSYS, SIGXCPU}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_crash; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, nullptr); }
}
static void sweep_scratch() { // only plain files directly inside the current (scratch) directory
  DIR *d = opendir("."); if (!d) return;
  while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink(e->d_name);
  closedir(d);
}
extern void run_world(const string &world, const string &profile);
// one run per line on stdin:  <world> <profile> seed <n> [trace] | <world> <profile> replay <file> [trace]
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_NO_REEXEC", "1", 1);
    setenv("G_SLICE", "always-malloc", 1);
    setenv("LIBEV_FLAGS", "0", 1);
    execv("/proc/self/exe", argv);
  }
  g_setenv("TZ", "UTC", TRUE);
  // every file the code under test makes stays in a private scratch directory, addressed relative to it
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 5;
  string scratch = string(getenv("SIM_SCRATCH") ? getenv("SIM_SCRATCH") : "/tmp") + "/mmsim-XXXXXX";
  if (!mkdtemp(&scratch[0]) || chdir(scratch.c_str())) return 5;
  setenv("TMPDIR", ".", 1); setenv("SIM_SPOOL", "./", 1);
  world::warm();
  finish_cb = report;
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); string w, p, mode, arg, opt; is >> w >> p >> mode >> arg; bool tr = false;
    while (is >> opt) { if (opt == "trace") tr = true; if (opt == "choices") want_choices = true; }
    if (!arg.empty() && arg[0] != '/' && mode == "replay") arg = string(cwd) + "/" + arg;
    sweep_scratch();
    int pf[2]; if (pipe(pf)) return 5;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pf[0]); out_fd = pf[1];
      catch_crashes(); struct rlimit rl = {20, 30}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
      trace_on = tr;
      if (mode == "seed") choices_seed(strtoull(arg.c_str(), nullptr, 10));
      else {
        std::map<string, std::vector<uint32_t>> m; std::ifstream in(arg); string l;
        while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream ls(l); string k; ls >> k; std::vector<uint32_t> v; uint32_t x; while (ls >> x) v.push_back(x); m[k] = v; }
        choices_replay(m);
      }
      run_world(w, p);
      finish_run();
    }
    close(pf[1]);
    string r; char buf[65536]; ssize_t n;
    while ((n = read(pf[0], buf, sizeof buf)) > 0) r.append(buf, n);
    close(pf[0]);
    int stt = 0; waitpid(pid, &stt, 0);
    if (r.empty() || r.back() != '\n') {
      std::ostringstream o; o << "{\"crash\":\"" << (WIFSIGNALED(stt) ? "signal " : "exit ") << (WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt)) << "\"}\n"; r = o.str();
    }
    fputs(r.c_str(), stdout); fflush(stdout);
  }
  sweep_scratch(); if (chdir("/") == 0) rmdir(scratch.c_str());
  return 0;
}
