// Hostile MTAs and hostile milters: parties that send anything.  What happens to
// their own session is open; everything else must go on as if they were not there.
// (included by world_a.cc)
static const int HOSTILE = 1000;             // neg_lock of hostile session h is HOSTILE + h
struct HSession;
static vector<HSession *> hostiles;
static string rnd_bytes(const string &k, uint32_t max) { string s; uint32_t n = choose(k, max + 1), r = choose(k, 65536) * 2654435761u + n; for (uint32_t i = 0; i < n; i++) { r = r * 1103515245 + 12345; s += (char)(r >> 16); } return s; }
// a packet of some kind with plausible, odd or missing contents
static string odd_packet(const string &k, const char *kinds) {
  char c = pm(k, 60) ? (char)choose(k, 256) : kinds[choose(k, (uint32_t)strlen(kinds))]; string d;
  switch (choose(k, 8)) {
    case 0: break;
    case 1: d = rnd_bytes(k, 40); break;
    case 2: d = z("X-A") + z("odd"); break;
    case 3: d = u32(choose(k, 6)) + z("Subject") + z("odd"); break;
    case 4: d = z("<odd@x>"); break;
    case 5: d = u32(choose(k, 2) ? 0xffffffff : 0x7fffffff) + z("X-A") + z(""); break;
    case 6: d = "no terminator"; break;
    case 7: d = string(choose(k, 4), '\0') + rnd_bytes(k, 3); break;
  }
  return packet(c, d);
}
static string odd_bytes(const string &k) {
  switch (choose(k, 8)) {
    case 0: return rnd_bytes(k, 60);
    case 1: return u32(0);
    case 2: return u32(0xffffffff) + "x";
    case 3: return u32(0x7fffffff) + rnd_bytes(k, 200);
    case 4: return u32(1 + choose(k, 2000)) + rnd_bytes(k, 300);
    case 5: return string(1 + choose(k, 8), '\0');
    case 6: return u32(0x80000000u + choose(k, 3)) + "a";
    default: return packet('?', rnd_bytes(k, 20));
  }
}
static string mangle(const string &k, string p) {
  switch (choose(k, 7)) {
    case 0: if (!p.empty()) p[choose(k, (uint32_t)p.size())] ^= (char)(1 + choose(k, 255)); break;
    case 1: p = p.substr(0, choose(k, (uint32_t)p.size() + 1)); break;
    case 2: p += rnd_bytes(k, 8); break;
    case 3: p += p; break;
    case 4: if (p.size() > 5) { p = packet(p[4], p.substr(5, choose(k, (uint32_t)p.size() - 4))); } break;
    case 5: if (p.size() > 4) p[4] = (char)choose(k, 256); break;
    case 6: p = odd_bytes(k); break;
  }
  return p;
}
static const char *MILTER_KINDS = "cartdsyphim+-b2eqf4CO", *MTA_KINDS = "OCHMRTLNBEAQKDU";
struct HMilter : Peer {                      // a milter of a hostile session, itself hostile or not
  int i, h, n = 0, odd = 0; bool bad = false, gone = false; Conn *c = nullptr; Reader rd; string key; uint32_t steps = 0; char last = 0; string rest;
  void on_open(Conn *cc) override { c = cc; if (bad && pm(key, 60)) act(); }
  void on_data(Conn *, const string &b) override { if (gone) return; rd.feed(b); char cmd; string d; while (!gone && rd.next(cmd, d)) handle(cmd, d); }
  void on_close(Conn *, bool) override { gone = true; if (c->open()) c->close(); }
  void put(const string &s) { if (!gone && c->open()) c->send(s); }
  void act() {                               // something no milter should do here
    if (gone || odd++ > 12) return;
    count("fault.hostile_milter"); string s;
    switch (choose(key, 8)) {
      case 0: s = odd_bytes(key); break;
      case 1: case 2: case 3: s = odd_packet(key, MILTER_KINDS); break;
      case 4: s = packet('c'); break;
      case 5: s = mangle(key, packet("cartd"[choose(key, 5)])); break;
      case 6: s = packet('y', z(choose(key, 2) ? "550 5.7.1 odd" : "45")); break;
      case 7: gone = true; trace("%s: hostile close", key.c_str()); if (choose(key, 2)) c->reset(); else c->close(); return;
    }
    trace("%s > odd %s", key.c_str(), show(s, 60).c_str()); put(s);
  }
  void handle(char cmd, const string &d) {
    n++; trace("%s < %c %s", key.c_str(), cmd, show(d, 40).c_str()); last = cmd;
    if (cmd == 'Q' || cmd == 'K') { if (bad && pm(key, 200)) act(); gone = true; if (c->open()) c->close(); return; }
    if (cmd == 'D') return;
    T delay = pm(key, 300) ? (T)(choose(key, 300)) * MS : 0;
    bool early = bad && pm(key, 120), late = bad && pm(key, 120), later_ = bad && pm(key, 120), none = bad && pm(key, 60);
    if (early) act();
    string a;
    if (cmd == 'O') { uint32_t act_ = g32(d, 4) & (pm(key, 500) ? A_ALL : choose(key, A_ALL + 1)); steps = g32(d, 8) & (pm(key, 500) ? 0 : choose(key, P_ALL + 1)); a = packet('O', u32(std::min<uint32_t>(6, g32(d, 0))) + u32(act_) + u32(steps)); if (bad && pm(key, 200)) { a = packet('O', u32(choose(key, 9)) + u32(choose(key, 1 << 16)) + u32(choose(key, 1 << 24)) + rnd_bytes(key, 20)); } }
    else if (cmd == 'A') a = "";
    else if (nr_flag(cmd) & steps) a = "";
    else if (cmd == 'E') {
      if (pm(key, 400)) { int m = 1 + choose(key, 3); for (int j = 0; j < m; j++) switch (choose(key, 6)) { case 0: a += packet('h', z("X-H") + z("v")); break; case 1: a += packet('b', "new body"); break; case 2: a += packet('+', z("<r@x>")); break; case 3: a += packet('m', u32(1) + z("Subject") + z(choose(key, 2) ? "" : "v")); break; case 4: a += packet('p'); break; case 5: a += packet('q', z("why")); break; } }
      a += packet("cccar"[choose(key, 5)]);
    } else a = packet(pm(key, 100) ? "artd"[choose(key, 4)] : 'c');
    if (!a.empty() && bad && pm(key, 100)) a = mangle(key, a);
    if (none) a = "";
    if (delay) after(delay, [this, a] { put(a); }); else put(a);
    if (late) act();
    if (later_) after((T)choose(key, 2000) * MS, [this] { act(); });
  }
};
struct HSession : Peer {
  int h; bool mta_bad; Conn *c = nullptr; Reader rd; string key, hist; bool done = false, closed = false, negotiated = false, waiting = false; int n_bad = 0; char cur = 0; uint64_t guard = 0; vector<HMilter *> mil; vector<string> plan; size_t at_ = 0; uint32_t ver = 6; int mods_seen = 0; T closing = 0;
  HSession(int h) : h(h) { key = "h" + std::to_string(h); mta_bad = mix.hostile_mta && (!mix.hostile_mil || pm(key, 500)); }
  void bad(const char *tag, const string &t) { violate(tag, "hostile session %d: %s [history: %s]", h, t.c_str(), hist.c_str()); }
  void start() { if (neg_lock >= 0) neg_wait.push_back(HOSTILE + h); else begin(); }
  void release() { if (neg_lock == HOSTILE + h) { neg_lock = -1; wake_next(); } }
  void begin() {
    neg_lock = HOSTILE + h; live_sessions++; c = dial(listen_addr, this, key);
    if (!c) { bad("admission", "nobody listens"); done = true; live_sessions--; release(); }
  }
  void on_open(Conn *) override { build(); step(); }
  void build() {
    ver = 2 + choose(key, 5); uint32_t a = pm(key, 600) ? A_ALL : choose(key, A_ALL + 1), s = pm(key, 600) ? P_ALL : choose(key, P_ALL + 1); if (!(a & A_ADDHDRS)) a &= ~A_CHGHDRS;
    if (mix.hostile_mil && !mix.hostile_nr) s &= ~(P_NR_HDR | P_NR_EOH | P_NR_BODY); // see known-findings.txt
    plan.push_back(packet('O', u32(ver) + u32(a) + u32(s)));
    plan.push_back(packet('C', z("host.example") + '4' + string("\x30\x39", 2) + z("192.0.2.9")));
    plan.push_back(packet('H', z("helo")));
    int nm = 1 + choose(key, 3);
    for (int m = 0; m < nm; m++) {
      string mac = pm(key, 300) ? packet('D', "M" + z("{mac0}") + z("v")) : "";
      plan.push_back(mac + packet('M', z("<f@x>")));
      for (int r = 1 + choose(key, 2); r; r--) plan.push_back(packet('R', z("<r" + std::to_string(r) + "@x>")));
      if (ver >= 4) plan.push_back(packet('T'));
      for (int r = choose(key, 4); r; r--) plan.push_back(packet('L', z("Subject") + z("v" + std::to_string(r))));
      plan.push_back(packet('N'));
      for (int r = choose(key, 3); r; r--) plan.push_back(packet('B', "body" + string(choose(key, 200), 'b')));
      if (pm(key, 100)) plan.push_back(packet('A')); else plan.push_back(packet('E'));
    }
    plan.push_back(packet('Q'));
    if (!mta_bad) return;
    int muts = 1 + choose(key, 6);
    for (int j = 0; j < muts; j++) {
      size_t p = choose(key, (uint32_t)plan.size());
      switch (choose(key, 7)) {
        case 0: plan.erase(plan.begin() + p); if (plan.empty()) plan.push_back(odd_bytes(key)); break;
        case 1: plan.insert(plan.begin() + p, plan[p]); break;
        case 2: std::swap(plan[p], plan[choose(key, (uint32_t)plan.size())]); break;
        case 3: plan[p] = mangle(key, plan[p]); break;
        case 4: plan.insert(plan.begin() + p, odd_packet(key, MTA_KINDS)); break;
        case 5: plan.insert(plan.begin() + p, odd_bytes(key)); break;
        case 6: plan.insert(plan.begin() + p, plan[choose(key, (uint32_t)plan.size())]); break;
      }
    }
  }
  void on_data(Conn *, const string &b) override { rd.feed(b); char cmd; string d; while (rd.next(cmd, d)) handle(cmd, d); }
  void handle(char p, const string &d) {
    if (mta_bad) { trace("%s < %c", key.c_str(), p); return; }
    trace("%s < %c %s", key.c_str(), p, show(d, 40).c_str()); hist += string("=") + p + " ";
    if (!waiting) { bad("answer.unexpected", string("packet ") + p + " with nothing to answer"); return; }
    if (cur == 'O') { if (p != 'O') { bad("answer.wrong", string("negotiation answered by ") + p); return; } negotiated = true; release(); steps = g32(d, 8); ver = g32(d, 0); answered('c'); return; }
    if (p == 'p' && cur == 'E') { arm(); return; }
    if (cur == 'E' && strchr("him+-b2eq", p)) { mods_seen++; return; }
    if (!strchr(cur == 'B' ? "cartdys" : "cartdy", p)) { bad("answer.wrong", string("answer ") + p + " to " + cur); return; }
    answered(p);
  }
  uint32_t steps = 0;
  void answered(char p) {
    if (guard) { cancel(guard); guard = 0; } waiting = false;
    // a decided message or session is over
    if (cur != 'O' && cur != 'E' && strchr("artdy", p) && !(cur == 'R' && p != 'd')) {
      if (strchr("CH", cur)) { if (p != 'a') at_ = plan.size() - 1; else at_ = plan.size() - 1; }
      else while (at_ < plan.size() && !strchr("MQ", kind(at_))) at_++;
    }
    after(pm(key, 300) ? (T)choose(key, 500) * MS : 0, [this] { step(); });
  }
  char kind(size_t j) { const string &p = plan[j]; size_t o = 0; while (o + 5 <= p.size() && p[o + 4] == 'D') o += 4 + g32(p, o); return o + 4 < p.size() ? p[o + 4] : 0; }
  T bound() { T b = 120 * SEC; for (auto &m : cfg.milters) b += (T)((m.t_conn + m.t_read + m.t_write + m.t_eom) * 2 * 1e9); return b; }
  void arm() { if (guard) cancel(guard); guard = after(bound(), [this] { guard = 0; bad("progress", string("no answer to ") + cur + " in time"); finish_run(); }); }
  void step() {
    if (done || closed || closing) return;
    if (mta_bad) {
      if (at_ >= plan.size() || pm(key, 10)) { T d = (T)choose(key, 4) * 5 * SEC; after(d, [this] { hang_up(); }); return; }
      const string &s = plan[at_++]; hist += show(s.substr(0, 5), 5) + " "; trace("%s > hostile %s", key.c_str(), show(s, 60).c_str()); count("fault.hostile_mta");
      c->send(s); after(pm(key, 600) ? (T)choose(key, 400) * MS : 0, [this] { step(); }); return;
    }
    if (at_ >= plan.size()) return;
    cur = kind(at_); const string &s = plan[at_++]; hist += string(1, cur); trace("%s > %c", key.c_str(), cur);
    waiting = cur != 'A' && cur != 'Q' && !(cur != 'E' && cur != 'O' && (nr_flag(cur) & steps));
    if (cur == 'T' && ver < 4) { waiting = false; after(0, [this] { step(); }); return; }
    c->send(s);
    if (cur == 'Q') { closing = now(); arm_close(); return; }
    if (waiting) arm(); else after(0, [this] { step(); });
  }
  void hang_up() { if (closed || closing) return; closing = now(); trace("%s: hangs up", key.c_str()); if (choose(key, 2)) c->reset(); else c->close(); arm_close(); }
  void arm_close() { watch_close(now() + bound()); }
  void watch_close(T lim) {
    if (closed) return;
    if (c->sut_closed) { on_close(c, false); return; }
    if (now() > lim) { bad("cleanup.mta", "connection not closed after the MTA left"); finish_run(); }
    after(1 * SEC, [this, lim] { watch_close(lim); });
  }
  void on_close(Conn *, bool) override {
    if (closed) return;
    closed = true; trace("%s: closed by the manager", key.c_str());
    if (!mta_bad && !closing) bad("answer.closed", waiting ? "connection closed while waiting for an answer" : "connection closed in mid-session");
    if (guard) { cancel(guard); guard = 0; }
    if (c->open()) c->close();
    after(1 * MS, [this] { done = true; live_sessions--; release(); });
  }
};
static Peer *hostile_accept(int i, Conn *cc) {
  HSession *s = hostiles[neg_lock - HOSTILE]; HMilter *m = new HMilter; m->i = i; m->h = s->h; m->c = cc;
  m->key = "m" + std::to_string(i) + "." + s->key + "." + std::to_string(s->mil.size()); cc->name = m->key;
  m->bad = mix.hostile_mil && (!s->mta_bad || pm(m->key, 300)) && (s->mil.empty() || pm(m->key, 500));
  s->mil.push_back(m); return m;
}
