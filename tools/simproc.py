"""Running simulator processes, replay files, minimisation, known findings."""
import os, subprocess, json, time, re, threading, tempfile, shutil, select
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)

class Sim:
    """A simulator process; every run is a forked child of it."""
    def __init__(self, exe): self.exe = exe; self.p = None; self.start()
    def start(self):
        env = dict(os.environ); env.pop("SIM_LOG", None); env["LC_ALL"] = "C"
        self.dir = tempfile.mkdtemp(prefix="mmchk-"); env["SIM_SCRATCH"] = self.dir
        self.err = open(os.path.join(self.dir, "stderr"), "w+")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.dir)
    def run(self, lines):
        out = []
        def feed():
            try: self.p.stdin.write(("".join(l + "\n" for l in lines)).encode()); self.p.stdin.flush()
            except Exception: pass
        t = threading.Thread(target=feed); t.start()
        for l in lines:
            b = self.p.stdout.readline()
            if not b: out.append({"error": "simulator process ended: " + self.tail()}); continue
            try: out.append(json.loads(b.decode(errors="replace")))
            except Exception as e: out.append({"error": "bad output: " + repr(b[:200])})
        t.join(); return out
    def tail(self):
        try: self.err.seek(0); return self.err.read()[-500:]
        except Exception: return ""
    def close(self):
        try: self.p.stdin.close()
        except Exception: pass
        try: self.p.wait(timeout=20)
        except Exception: self.p.kill(); self.p.wait()
        self.err.close(); shutil.rmtree(self.dir, ignore_errors=True)

def run_one(exe, line):
    s = Sim(exe)
    try: return s.run([line])[0]
    finally: s.close()

def viols(r):
    v = [tuple(x) for x in r.get("viol", [])]
    if "crash" in r: v.append(("crash", "the process died: %s" % r["crash"]))
    return v

def read_replay(path):
    head, streams = {}, {}
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("#"):
            m = re.match(r"#\s*(\w+):\s*(.*)$", l)
            if m: head[m.group(1)] = m.group(2)
        elif l.strip():
            w = l.split(); streams[w[0]] = [int(x) for x in w[1:]]
    return head, streams

def write_replay(path, head, streams):
    with open(path, "w") as f:
        for k, v in head.items(): f.write("# %s: %s\n" % (k, str(v).replace("\n", " ")))
        for k in sorted(streams): f.write(k + "".join(" %d" % x for x in streams[k]) + "\n")

def replay_line(path, opt=""):
    h, _ = read_replay(path)
    if h.get("mode") == "seed": return "%s %s seed %s %s" % (h["world"], h["profile"], h["seed"], opt)
    return "%s %s replay %s %s" % (h["world"], h["profile"], os.path.abspath(path), opt)

def gate_and_minimise(prop, exe, case, tag, budget):
    """Confirms a violation (same seed twice; replay of the recorded choices in fresh processes), shrinks it
    and writes the replay file.  Returns (path, None) or (None, reason)."""
    line = "%s %s seed %d" % (case["world"], case["profile"], case["seed"])
    a = run_one(exe, line + " choices"); b = run_one(exe, line + " choices")
    ha, hb = a.get("hash"), b.get("hash")
    if tag not in [t for t, _ in viols(a)] or tag not in [t for t, _ in viols(b)]: return None, "not reproduced by its seed"
    if ha != hb: return None, "two runs of one seed differ"
    d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.replay" % (prop, re.sub(r"[^a-z]+", "_", tag), case["seed"]))
    head = {"property": prop, "world": case["world"], "profile": case["profile"], "tag": tag, "seed": case["seed"], "variant": case["variant"], "text": case["text"], "mode": "streams"}
    if "choices" not in a:      # died without a report: the seed itself is the replay file
        head["mode"] = "seed"; write_replay(path, head, {}); return path, None
    tmp = tempfile.mkdtemp(prefix="mmmin-"); sims = [Sim(exe) for _ in range(os.cpu_count() or 8)]
    try:
        def test(cands):
            """index of the first candidate that still violates, or None"""
            names = []
            for i, s in enumerate(cands): f = os.path.join(tmp, "c%d" % i); write_replay(f, {}, s); names.append(f)
            res = [None] * len(cands)
            def go(w):
                ix = range(w, len(cands), len(sims))
                for i, r in zip(ix, sims[w].run(["%s %s replay %s" % (case["world"], case["profile"], names[i]) for i in ix])): res[i] = r
            th = [threading.Thread(target=go, args=(w,)) for w in range(len(sims))]
            for t in th: t.start()
            for t in th: t.join()
            for i, r in enumerate(res):
                v = viols(r)
                if v and v[0][0] == tag: return i
            return None
        cur = {k: list(v) for k, v in a["choices"].items()}
        if test([cur]) is None: return None, "the recorded choices do not reproduce it"
        t_end = time.time() + budget
        trim(cur)
        changed = True
        while changed and time.time() < t_end:
            changed = False
            for gen in (drop_groups, drop_streams, truncate, zero_chunks, lower):
                while time.time() < t_end:
                    cands = gen(cur)
                    hit = None
                    for i in range(0, len(cands), 64):
                        if time.time() > t_end: break
                        h = test(cands[i:i + 64])
                        if h is not None: hit = cands[i + h]; break
                    if hit is None: break
                    cur = hit; trim(cur); changed = True
        write_replay(path, head, cur)
        r1 = run_one(exe, replay_line(path)); r2 = run_one(exe, replay_line(path))
        if not any(t == tag for t, _ in viols(r1)) or r1.get("hash") != r2.get("hash"): return None, "the minimised file does not reproduce it"
        head["text"] = [x for t, x in viols(r1) if t == tag][0]; head["choices"] = sum(len(v) for v in cur.values()); head["choices_before"] = sum(len(v) for v in a["choices"].values())
        write_replay(path, head, cur); return path, None
    finally:
        for s in sims: s.close()
        shutil.rmtree(tmp, ignore_errors=True)

def trim(s):
    for k in list(s):
        while s[k] and s[k][-1] == 0: s[k].pop()
        if not s[k]: del s[k]
def without(s, keys): return {k: v for k, v in s.items() if k not in keys}
def drop_groups(s):
    g = {}
    for k in s: g.setdefault(re.split(r"[./]", k)[0], []).append(k); g.setdefault(".".join(k.split(".")[:2]), []).append(k)
    return [without(s, set(v)) for v in g.values() if len(v) > 1]
def drop_streams(s): return [without(s, {k}) for k in sorted(s, key=lambda k: -len(s[k]))]
def truncate(s):
    out = []
    for k in s:
        n = len(s[k])
        for m in {n // 2, n - 1}:
            if 0 <= m < n: out.append({**s, k: s[k][:m]})
    return out
def zero_chunks(s):
    out = []
    for k in s:
        n = len(s[k]); w = max(1, n // 4)
        for i in range(0, n, w):
            if any(s[k][i:i + w]): out.append({**s, k: s[k][:i] + [0] * len(s[k][i:i + w]) + s[k][i + w:]})
        if n <= 40 and w > 1:
            for i in range(n):
                if s[k][i]: out.append({**s, k: s[k][:i] + [0] + s[k][i + 1:]})
    return out
def lower(s):
    out = []
    for k in s:
        if len(s[k]) > 12: continue
        for i, x in enumerate(s[k]):
            if x > 1: out.append({**s, k: s[k][:i] + [x // 2] + s[k][i + 1:]})
    return out

def known_findings(prop=None):
    """Lines of known-findings.txt:  KNOWN property=<id> tag=<tag> replay=<path under /verif> [variant=<v>] <what fails>
    and, suppressing nothing,        fixed: property=<id> <commit> <what failed>"""
    out = []
    try: lines = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r"KNOWN property=(\S+) tag=(\S+) replay=(\S+)(?: variant=(\S+))? (.*)$", l)
        if m and (prop is None or m.group(1) == prop): out.append(dict(property=m.group(1), tag=m.group(2), replay=m.group(3), variant=m.group(4) or "plain", what=m.group(5)))
    return out
