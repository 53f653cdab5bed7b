// The control connection: clients asking for, changing and reloading the
// configuration while sessions run.  (included by world_a.cc)
static const char *CUSTOM = "milter-manager.custom.conf";
static string ctl_addr; static MilterManagerController *controller; static bool loaded_once = false;
static vector<std::pair<T, vector<bool>>> versions;      // which milters were enabled, since when
struct CtlSet { string content; T sent, done; };
static vector<CtlSet *> ctl_sets; static vector<bool> loads; static int reload_ok = 0, reload_err = 0, reload_unknown = 0;
static string slurp(const char *p, bool *there) { string r; FILE *f = fopen(p, "r"); *there = f != NULL; if (f) { char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
static void note_version() { vector<bool> v; for (auto &m : cfg.milters) v.push_back(m.enabled); versions.push_back({now(), v}); }
static void note_load() { if (!controller) return; loads.push_back(true); note_version(); count("ctl.load"); }
static void check_custom_file() {
  bool there; string c = slurp(CUSTOM, &there); count("check.custom_file"); if (!there || c.empty()) return;
  for (auto *s : ctl_sets) if (s->content == c) return;
  violate("ctl.save", "the custom configuration file holds %zu bytes %s that nobody asked to save", c.size(), show(c, 60).c_str());
}
// the stand-in for the Ruby loader: what a custom configuration file means
static bool load_custom_file(MilterManagerConfiguration *conf) {
  check_custom_file(); bool there; string c = slurp(CUSTOM, &there);
  bool ok = !there || c.empty() || c[0] != 'E'; if (!loads.empty()) loads.back() = ok;
  trace("loader: %zu bytes, %s", c.size(), ok ? "ok" : "error");
  if (ok && neg_lock < 0) {                              // not while a session is picking its milters
    for (size_t i = 0; i < cfg.milters.size(); i++) cfg.milters[i].enabled = c.find("disable " + std::to_string(i) + "\n") == string::npos;
    count("ctl.reload_applied");
  }
  size_t i = 0; for (const GList *n = milter_manager_configuration_get_eggs(conf); n; n = n->next, i++) if (i < cfg.milters.size()) milter_manager_egg_set_enabled((MilterManagerEgg *)n->data, cfg.milters[i].enabled);
  note_version();
  return ok;
}
static string xml_of(const string &x, const char *tag) { string a = string("<") + tag + ">", b = string("</") + tag + ">"; size_t i = x.find(a), j = x.find(b); return i == string::npos || j == string::npos ? string() : x.substr(i + a.size(), j - i - a.size()); }
struct CtlClient : Peer {
  int k, n_req = 1, sent = 0, break_at = -1, break_how = 0; string key; Conn *c = nullptr; string in; T stall_end = 0; bool done = false, mute = false, gone = false, pipelining = false, stalled = false, malformed = false, closing = false, started = false;
  struct Req { char kind; T at; size_t ver, load; CtlSet *set = nullptr; };
  std::deque<Req> out;
  CtlClient(int k) : k(k), key("ctl" + std::to_string(mix.repeat ? 0 : k)) {}
  void bad(const char *tag, const string &t) { violate(tag, "control client %d: %s", k, t.c_str()); }
  void start() {
    started = true; n_req = 1 + choose(key, 6); pipelining = pm(key, 300);
    if (pm(key, 250)) break_at = choose(key, 8), break_how = choose(key, 3);
    c = dial(ctl_addr, this, key); if (!c) { bad("ctl.missing", "nobody listens on the control socket"); done = true; return; }
    if (pm(key, 250)) { c->sndbuf = 300 + choose(key, 3000); }
    if (pm(key, 120)) { flood(); return; }
    step();
  }
  void flood() {                                         // asks for a lot and does not read the answers for a while
    count("fault.ctl_flood"); pipelining = true; n_req = sent = 20 + choose(key, 400); break_at = -1;
    stalled = true; c->stall(true); T d = (T)(1 + choose(key, 90)) * SEC; stall_end = now() + d; bool quits = pm(key, 300);
    for (int i = 0; i < n_req; i++) { out.push_back({'g', now(), versions.size() - 1, loads.size(), nullptr}); c->send(u32(18) + z("get-configuration")); }
    after(d, [this, quits] { stalled = false; if (quits) { leave(); return; } if (!done && c->open()) c->stall(false); watch(); });
  }
  void step() {                                          // the next request
    if (done || gone) return;
    if (sent == break_at) { leave(); return; }
    if (malformed || sent == n_req) { if (out.empty() && !malformed) leave(); return; }
    sent++; T at = now(); string p; Req r{0, at, versions.size() - 1, loads.size(), nullptr};
    uint32_t what = choose(key, 100); bool odd = false;
    if (what < 30) { r.kind = 'g'; p = z("get-configuration"); }
    else if (what < 55) {
      r.kind = 's'; string content = pm(key, 200) ? "E" : "C"; content += key + "." + std::to_string(sent) + "\n";
      for (size_t i = 0; i < cfg.milters.size(); i++) if (pm(key, 400)) content += "disable " + std::to_string(i) + "\n";
      if (pm(key, 200)) content += string(1 + choose(key, 100000), 'x') + "\n"; if (pm(key, 200)) content += string(3, '\0') + "\xff\xfe\n"; if (pm(key, 40)) content.clear();
      r.set = new CtlSet{content, at, -1}; ctl_sets.push_back(r.set); p = z("set-configuration") + content;
    } else if (what < 80) { r.kind = 'r'; p = z("reload"); }
    else if (what < 90) { r.kind = 't'; p = z("get-status"); }
    else {
      odd = true; r.kind = 'x';
      switch (choose(key, 12)) {
        case 0: p = z("stop-child") + z("milter0"); break;
        case 1: p = "reload"; break;                     // not terminated
        case 2: p = z(""); break;
        case 3: p = z("reload") + "now"; break;
        case 4: p = z("get-configuration") + string(1 + choose(key, 3000), 'q'); break;
        case 5: p = z("get-status") + "\x01"; break;
        case 6: p = z("Reload"); break;
        case 7: p = rnd_bytes(key, 100); break;
        case 8: p = z("reloa"); break;
        case 9: p = ""; break;
        case 10: p = string(1 + choose(key, 300000), 'a'); break;
        case 11: p = z("set-configuratio") + "Cx\n"; break;
      }
    }
    trace("%s > %c (%zu bytes)", key.c_str(), r.kind, p.size()); count(string("ctl.request_") + r.kind);
    p = u32((uint32_t)p.size()) + p; out.push_back(r);
    if (odd) { malformed = true; count("fault.ctl_malformed"); expect_closed(); }
    size_t cut = 0; if (pm(key, 250)) { cut = choose(key, (uint32_t)p.size()); }
    if (cut) {                                           // the rest comes later, or never
      c->send(p.substr(0, cut));
      if (pm(key, 150)) { count("fault.ctl_partial_request"); mute = true; out.pop_back(); if (r.set) ctl_sets.erase(std::find(ctl_sets.begin(), ctl_sets.end(), r.set)); after((T)choose(key, 5000) * MS, [this] { leave(); }); return; }
      after((T)choose(key, 3000) * MS, [this, p, cut] { if (!done && !gone) { c->send(p.substr(cut)); sent_one(); } });
    } else { c->send(p); sent_one(); }
  }
  void sent_one() {
    if (!stalled && pm(key, 60)) { stalled = true; count("fault.ctl_stall"); c->stall(true); T d = (T)(1 + choose(key, 90)) * SEC; stall_end = now() + d; after(d, [this] { stalled = false; if (!done && c->open()) c->stall(false); watch(); }); }
    watch();
    if (pipelining || sent == break_at) after(pm(key, 500) ? 0 : (T)choose(key, 2000) * MS, [this] { step(); });
  }
  void expect_closed() { after(std::max(now(), stall_end) - now() + 60 * SEC, [this] { if (gone || done) return; if (now() < stall_end + 60 * SEC) { expect_closed(); return; } bad("ctl.open", "the connection is still open 60 s after a malformed request"); finish(); }); }
  void watch() { size_t n = n_ans; after(60 * SEC, [this, n] { if (!done && !gone && !stalled && now() >= stall_end + 60 * SEC && !mute && n_ans == n && !out.empty() && out.front().kind != 'x') { bad("ctl.missing", string("no answer to request ") + out.front().kind + " within 60 s"); finish(); } }); }
  size_t n_ans = 0;
  void on_data(Conn *, const string &b) override {
    if (done) return;
    in += b;
    for (;;) {
      if (in.size() < 4) return; uint32_t n = g32(in, 0); if (n > 10000000) { bad("ctl.wrong", "an answer of " + std::to_string(n) + " bytes"); finish(); return; }
      if (in.size() - 4 < n) return;
      string p = in.substr(4, n); in.erase(0, 4 + n); answer(p); if (done) return;
    }
  }
  void answer(const string &p) {
    size_t e = p.find('\0'); string name = e == string::npos ? p : p.substr(0, e), content = e == string::npos ? "" : p.substr(e + 1);
    trace("%s < %s (%zu bytes)", key.c_str(), name.c_str(), content.size()); count("check.ctl_answer"); n_ans++;
    if (out.empty()) { bad("ctl.unexpected", "answer " + show(name) + " to no request"); finish(); return; }
    Req r = out.front(); out.pop_front();
    switch (r.kind) {
      case 'g': if (name != "configuration") bad("ctl.wrong", "get-configuration answered with " + show(name + ": " + content)); else check_config(content, r); break;
      case 't': if (name != "status") bad("ctl.wrong", "get-status answered with " + show(name + ": " + content)); break;
      case 'x': if (name != "error" && name != "failure") bad("ctl.wrong", "a malformed request answered with " + show(name + ": " + content)); count("check.ctl_malformed"); break;
      case 's': {
        r.set->done = now(); bool there; string f = slurp(CUSTOM, &there); check_custom_file();
        if (name == "success") {
          count("check.ctl_saved"); bool ok = f == r.set->content; for (auto *s : ctl_sets) if (s != r.set && s->content == f && (s->done < 0 || s->done >= r.set->sent)) ok = true;
          if (!ok || !there) bad("ctl.save", "a configuration of " + std::to_string(r.set->content.size()) + " bytes was reported as saved, the file holds " + std::to_string(f.size()) + " bytes " + show(f, 40));
        } else if (name == "error" || name == "failure") {
          count("check.ctl_save_failed"); if (!conf_failed) bad("ctl.wrong", "saving was refused without reason: " + show(content));
          if (there && f == r.set->content && !f.empty() && !mix.repeat) bad("ctl.save", "the file holds the configuration that was reported as not saved");
        } else bad("ctl.wrong", "set-configuration answered with " + show(name + ": " + content));
        break;
      }
      case 'r': {
        bool ok = false, err = false; for (size_t i = r.load; i < loads.size(); i++) (loads[i] ? ok : err) = true;
        count("check.ctl_reload"); if (name == "success") reload_ok++; else reload_err++;
        if (name == "success" ? !ok : !err) bad("ctl.reload", "reload answered with " + show(name + ": " + content) + (loads.size() == r.load ? ", but nothing was loaded since it was asked for" : ", which is not how it went"));
        if (name != "success" && name != "error" && name != "failure") bad("ctl.wrong", "reload answered with " + show(name + ": " + content));
        break;
      }
    }
    if (!pipelining) { T d = pm(key, 400) ? (T)choose(key, 3000) * MS : 0; after(d, [this] { step(); }); }
    else if (out.empty() && sent >= n_req) after(0, [this] { step(); });
  }
  void check_config(const string &x, const Req &r) {
    vector<string> got; size_t i = 0;
    while ((i = x.find("<milter>", i)) != string::npos) { size_t j = x.find("</milter>", i); if (j == string::npos) break; string m = x.substr(i, j - i); got.push_back(xml_of(m, "name") + "," + xml_of(m, "connection-spec") + "," + xml_of(m, "enabled") + "," + xml_of(m, "evaluation-mode") + "," + xml_of(m, "fallback-status")); i = j; }
    if (x.find("<configuration>") == string::npos || x.find("</configuration>") == string::npos) { bad("ctl.config", "not a configuration: " + show(x)); return; }
    string want;
    for (size_t v = r.ver; v < versions.size(); v++) {
      vector<string> w; for (size_t j = 0; j < cfg.milters.size(); j++) { auto &m = cfg.milters[j]; w.push_back(m.name + "," + m.spec + "," + (versions[v].second[j] ? "true" : "false") + "," + (m.eval ? "true" : "false") + "," + (m.fallback == 'r' ? "reject" : m.fallback == 't' ? "temporary-failure" : "accept")); }
      if (w == got) { count("check.ctl_config"); return; }
      if (v + 1 == versions.size()) for (auto &s : w) want += s + "; ";
    }
    string g; for (auto &s : got) g += s + "; ";
    bad("ctl.config", "the configuration shown is " + g + "but it is " + want);
  }
  void leave() {
    if (done || gone) return;
    for (auto &q : out) if (q.kind == 'r') reload_unknown++;
    if (!out.empty()) count("fault.ctl_leaves_unanswered");
    if (break_how == 1) { count("fault.ctl_reset"); c->reset(); } else c->close();
    trace("%s: leaves", key.c_str()); finish();
  }
  void finish() { done = true; if (c && c->open()) c->close(); }
  void on_close(Conn *, bool rst) override {
    gone = true; trace("%s: closed by the manager", key.c_str()); if (c->open()) c->close();
    if (done) return;
    for (auto &q : out) if (q.kind == 'r') reload_unknown++;
    if (!malformed) bad("ctl.missing", string("the connection was closed by the manager") + (out.empty() ? "" : " with a request unanswered"));
    else { if (!rst && !stall_end && c->sndbuf >= 20000 && !knobs.short_write) for (auto &q : out) if (q.kind != 'x') { bad("ctl.missing", string("the connection was closed with request ") + q.kind + " before the malformed one unanswered"); break; } count("check.ctl_closed"); }
    done = true;
  }
};
static vector<CtlClient *> ctls;
static void gen_conf_faults() {
  if (!pm("cfg.ctl", 350)) return;
  static const int pr[] = {300, 60, 1000}; int p = pr[choose("cfg.ctl", 3)]; bool shorts = pm("cfg.ctl", 500);
  conf_fault = [=](const char *op, size_t n) -> int {
    if (chance("F/conf", p, 1000)) { static const int es[] = {ENOSPC, EIO, EDQUOT, EACCES}; int e = es[choose("F/conf", 4)]; conf_failed = true; count(string("fault.conf_") + op); trace("saving the configuration: %s fails with %d", op, e); return e; }
    if (shorts && *op == 'w' && n > 1 && pm("F/conf", 300)) { count("fault.conf_short_write"); return -(int)(1 + choose("F/conf", (uint32_t)std::min<size_t>(n - 1, 5000))); }
    return 0;
  };
}
