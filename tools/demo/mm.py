"""Drives the manager built in the current directory's tree with scripted milters and a scripted MTA."""
import os, sys, socket, struct, subprocess, tempfile, threading, time, shutil, atexit, queue
REPO = os.getcwd(); HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="mmdemo-"); atexit.register(shutil.rmtree, TMP, True)
B = os.path.join(REPO, "_build")
def compile_c(src, out):
    fl = subprocess.check_output(["pkg-config", "--cflags", "--libs", "glib-2.0", "gobject-2.0", "gmodule-2.0", "gthread-2.0"], text=True).split()
    inc = ["-I" + REPO, "-I" + B] + ["-I%s/milter/%s" % (B, d) for d in ("core", "client", "server", "manager")]
    lib = []
    for d in ("manager", "server", "client", "core"):
        p = "%s/milter/%s/.libs" % (B, d); lib += ["-L" + p, "-Wl,-rpath," + p, "-lmilter-" + d]
    subprocess.check_call(["gcc", "-w", "-g", "-O1", "-DHAVE_CONFIG_H", src, "-o", out] + inc + lib + fl)
def pkt(cmd, data=b""): return struct.pack(">I", len(data) + 1) + cmd.encode() + data
def z(s): return (s if isinstance(s, bytes) else s.encode()) + b"\0"
def y(text): return pkt("y", z(text))
class Rd:
    def __init__(self, s): self.s = s; self.b = b""
    def next(self, timeout=20):
        self.s.settimeout(timeout)
        while True:
            if len(self.b) >= 4:
                n = struct.unpack(">I", self.b[:4])[0]
                if len(self.b) >= 4 + n: p = self.b[4:4 + n]; self.b = self.b[4 + n:]; return chr(p[0]), p[1:]
            d = self.s.recv(65536)
            if not d: return None, b""
            self.b += d
class Milter:
    """answer(cmd, data, milter) -> bytes to send, None for silence, or "close"; log holds (cmd, data) without macros"""
    def __init__(self, name, answer=None, ver=6, actions=0x1ff, steps=0, macros=None, raw_negotiate=None):
        self.name = name; self.path = os.path.join(TMP, name + ".sock"); self.answer = answer or (lambda c, d, m: pkt("c")); self.log = []; self.macros_seen = []; self.closed = threading.Event(); self.n_conn = 0
        self.neg = (ver, actions, steps); self.macros = macros or {}; self.raw = raw_negotiate
        self.l = socket.socket(socket.AF_UNIX); self.l.bind(self.path); self.l.listen(20)
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            c, _ = self.l.accept(); self.n_conn += 1
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()
    def serve(self, c):
        r = Rd(c)
        try:
            while True:
                cmd, d = r.next(None)
                if cmd is None: break
                if cmd == "D": self.macros_seen.append(d); continue
                self.log.append((cmd, d))
                if cmd == "O":
                    self.offer = struct.unpack(">III", d[:12])
                    if self.raw: a = self.raw(self)
                    else:
                        v, a_, s = self.neg; v = min(v, self.offer[0]); a_ &= self.offer[1]; s &= self.offer[2]
                        a = pkt("O", struct.pack(">III", v, a_, s) + b"".join(struct.pack(">I", k) + z(x) for k, x in self.macros.items()))
                    if a is None: continue
                    if a == "close": break
                    c.sendall(a); continue
                if cmd in "A": continue
                if cmd == "Q": break
                a = self.answer(cmd, d, self)
                if a == "close": break
                if a: c.sendall(a)
        except OSError: pass
        c.close(); self.closed.set()
    def cmds(self): return "".join(c for c, _ in self.log)
    def data(self, cmd): return [d for c, d in self.log if c == cmd]
    def body(self): return b"".join(d for c, d in self.log if c == "B" or (c == "E"))
class Manager:
    def __init__(self, milters, *opts, **kw):
        self.exe = os.path.join(TMP, "mgr")
        if not os.path.exists(self.exe): compile_c(os.path.join(HERE, "mgr.c"), self.exe)
        self.sock = os.path.join(TMP, "mgr%d.sock" % int(time.time() * 1e6))
        a = [self.exe, "unix:" + self.sock] + list(opts)
        for m in milters:
            if not isinstance(m, tuple): m = (m,)
            a += ["milter", "unix:" + m[0].path] + list(m[1:])
        env = dict(os.environ); env["MILTER_LOG_LEVEL"] = kw.get("log", "none"); env["TMPDIR"] = TMP; env.update(kw.get("env", {}))
        self.p = subprocess.Popen(a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=TMP)
        atexit.register(self.stop); self.q = queue.Queue()
        threading.Thread(target=lambda: [self.q.put(l.decode().strip()) for l in self.p.stdout], daemon=True).start()
        assert self.line() == "READY"
    def line(self, timeout=20): return self.q.get(timeout=timeout)
    def ask(self, c):
        self.p.stdin.write(c.encode()); self.p.stdin.flush()
        if c == "s": return None
        while True:
            l = self.line()
            if l[0] == c.upper() and l[1] == " ": return int(l[2:])
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
    def alive(self): return self.p.poll() is None
class MTA:
    def __init__(self, mgr, ver=6, actions=0x1ff, steps=0x1fffff, negotiate=True):
        self.s = socket.socket(socket.AF_UNIX); self.s.connect(mgr.sock); self.r = Rd(self.s); self.mods = []
        if negotiate:
            self.s.sendall(pkt("O", struct.pack(">III", ver, actions, steps))); c, d = self.r.next(); assert c == "O", (c, d)
            self.granted = struct.unpack(">III", d[:12]); self.neg = d
    def send(self, cmd, data=b"", macros=None):
        if macros: self.s.sendall(pkt("D", cmd.encode() + b"".join(z(k) + z(v) for k, v in macros.items())))
        self.s.sendall(pkt(cmd, data))
    def answer(self, timeout=20):
        """final answer as text; modifications before it are kept in mods"""
        self.mods = []
        while True:
            c, d = self.r.next(timeout)
            if c is None: return "closed"
            if c in "hmi+-2ebq": self.mods.append((c, d)); continue
            if c == "p": continue
            return c + d.rstrip(b"\0").decode(errors="replace")
    def do(self, cmd, data=b"", macros=None, timeout=20): self.send(cmd, data, macros); return self.answer(timeout)
    def connect(self): return self.do("C", z("host") + b"4" + struct.pack(">H", 1234) + z("192.0.2.1"))
    def helo(self): return self.do("H", z("helo"))
    def hello(self): return self.connect(), self.helo()
    def mail(self, a="<from@x>"): return self.do("M", z(a))
    def rcpt(self, a="<to@x>"): return self.do("R", z(a))
    def data(self): return self.do("T")
    def header(self, n, v): return self.do("L", z(n) + z(v))
    def eoh(self): return self.do("N")
    def body(self, b): return self.do("B", b)
    def eom(self, b=b"", timeout=20): return self.do("E", b, timeout=timeout)
    def message(self, headers=(("Subject", "s"),), bodies=(b"body\r\n",), frm="<from@x>", rcpts=("<to@x>",)):
        """the answers of all steps, stopping at the first final one"""
        out = []
        def step(a): out.append(a); return a[0] == "c"
        if not step(self.mail(frm)): return out
        ok = False
        for r in rcpts: ok = step(self.rcpt(r)) or ok
        if not ok: return out
        if not step(self.data()): return out
        for n, v in headers:
            if not step(self.header(n, v)): return out
        if not step(self.eoh()): return out
        for b in bodies:
            if not step(self.body(b)): return out
        out.append(self.eom()); return out
    def quit(self): self.send("Q"); self.s.close()
def check(ok, what):
    if not ok: print("FAIL: " + what); sys.stdout.flush(); os._exit(1)
    print("ok: " + what)
def done(): print("PASS"); sys.stdout.flush(); [f for f in ()]; sys.exit(0)
