"""What each property's check simulates."""
BUDGET = {"quick": {"runs": 60000, "time": 25}, "thorough": {"runs": 10**9, "time": 420}}
MIN_TIME = {"quick": 25, "thorough": 90}
REAL = ["milter/core, milter/client, milter/server, milter/manager compiled unchanged from /repo", "GLib main loop / libev with GObject signals", "temporary files on a scratch directory"]
STUB = ["kernel sockets, poll/epoll, clocks, sleeps (interposed libc calls under the simulator)", "MTA and milters (scripted, independent wire codec)", "Ruby configuration (a C configuration class fills the same settings)"]
ASSUME = ["TCP/UNIX stream sockets behave as modelled: ordered reliable byte streams, partial reads and writes, FIN, RST", "seeded sampling: a clean batch is evidence, not proof"]
def A(profile, share=1, **k): return dict(world="A", profile=profile, share=share, **k)
NA = {}
def E(profile, share=1, **k): return dict(world="E", profile=profile, share=share, **k)
def B(profile, share=1, **k): return dict(world="B", profile=profile, share=share, **k)
def C(profile, share=1, **k): return dict(world="C", profile=profile, share=share, **k)
def D(profile, share=1, **k): return dict(world="D", profile=profile, share=share, **k)
PLAN = {
 "C01": dict(runs=[A("m4+?verdict+?g4+?s2+?nr", 3), A("base+?verdict+?conc+?net")]),
 "C02": dict(runs=[A("m4+?conc+?g4+?net+?ne+?nr+?nodata", 2), A("base+?ne+?g4+?net+?nr"), A("m4+nr+?ne+noverdict")]),
 "C03": dict(runs=[A("m4+noverdict+?ne+?g4+?mods+?nr+?spool", 3), A("m4+?ne+?g4+?s2+?nr+?nodata"), A("m2+noverdict+huge+?mods"), A("m4+bod+?spool+?eval+?nr+?mods", 2)]),
 "C04": dict(runs=[A("m4+noverdict+mods+?g4+?spool", 3), A("m4+bod+mods+?spool+?eval+?g4"), A("m4+mods+?conc+?ne")]),
 "C05": dict(runs=[A("m4+eval+?mods+?g4+?verdict", 3), A("m4+eval+?conc+?ne+?nr+?net+?mods"), A("m3+eval")]),
 "C06": dict(runs=[A("m4+failcmd+?mods+?g4+?eval+?nodata", 3), A("m4+failconn+failneg+?failcmd+?g4+?nr"), A("m4+idle+?failcmd+?g4+?conc"), A("m4+failcmd+?failconn+?conc+?net+?failneg")]),
 "C07": dict(runs=[A("m4+failcmd+stall+?mods+?g4+?net", 2), A("m4+slow+?mods+?conc+?ne+?g4+?net", 2), A("m4+failconn+failcmd+failneg+stall+slow+?conc"), A("m3+silent+?conc+?nr+?net"), A("m4+silent+noverdict+mods+?net+?g4")]),
 "C08": dict(runs=[A("conc+?m4+?ne+?net+?g4", 3), A("conc+m4+noverdict+mods")]),
 "C09": dict(runs=[A("m4+g4+?mods+?ne+?nr", 2), A("g4+s2+?verdict"), A("m4+g4+noverdict+mods+?spool")]),
 "C10": dict(runs=[A("m3+repeat+?mods+?nr+?ne+?g4+?verdict+?eval+?spool"), A("m4+repeat+failconn+failneg+failcmd+?idle+?mods+?stall", 2), A("m3+repeat+brk+?slow+?mods+?chk+?failcmd", 2), A("m4+repeat+silent+?mods+?stop+?net"), A("m2+repeat+huge+noverdict+?failcmd"), A("m4+conc+failcmd+?failconn+?stall+brk+?mods")]),
 "C11": dict(runs=[A("m4+noverdict+net+?mods+?spool"), A("conc+net+?ne+?m4+?nr"), A("base+net+?g4")]),
 "C12": dict(runs=[A("m4+ne+?nr", 2), A("ne+?s2+?nr"), A("m4+noverdict+ne+?mods")]),
 "C13": dict(runs=[A("m3+conc+hmta", 2), A("m3+conc+hmil", 2), A("m3+conc+hmta+hmil+?net+?eval+?nr+?nodata", 2), A("m3+conc+hmta+hmil+?net+?eval+?nr+?nodata", 2, variant="asan"), A("m4+hmil+?conc+?failcmd+?mods", variant="asan")]),
 "C17": dict(runs=[A("m4+stop+?g4+?noverdict+?nr+?nodata", 3), A("m4+stop+disabled+mods+?nr+?ne+?g4", 2), A("m4+stop+?eval+?conc+?ne+?net"), A("m4+stop+failcmd+?failconn+?conc")]),
 "C16": dict(runs=[A("m3+brk+?g4"), A("m3+brk+?conc+mods+?nr+?net"), A("m3+brk+chk+slow+?conc+?ne+?mods", 2), A("m3+brk+chk+slow+s2+?net+?nr", 2), A("m4+brk+?slow+?failcmd+noverdict+mods")]),
 "C19": dict(runs=[A("m3+diskerr+noverdict+mods+?ne+?nr+?g4", 2), A("m4+diskerr+mods+?failcmd+?eval+?g4+?nr+?ne+?s2", 2), A("m2+diskerr+repeat+mods+noverdict+g4"), A("m4+diskerr+mods+?net+?conc+?verdict")]),
 "C14": dict(runs=[A("m3+maxconn", 2), A("conc+accerr+?ne"), A("m3+maxconn+accerr+?mods+?net+?nr+?ne", 2), A("m3+maxconn+?failcmd+?failconn+?brk+?slow")]),
 "C15": dict(runs=[A("m3+shut+conc+?mods", 2), A("m4+shut+conc+?net+?nr+?ne"), A("m3+shut+conc+?maxconn+?accerr"), A("m3+shut+conc+failcmd+?failconn+?brk+?slow+?stop")]),
 "C18": dict(runs=[A("m3+count", 2), A("m3+count+failcmd+brk+failneg+?failconn"), A("m2+count+maxconn+?brk"), A("m2+count+silent+?brk"), A("m2+count+?shut+?accerr+?net+?nr+?verdict")]),
 "C20": dict(runs=[B("base+conc+mods+verdict+?ne+?nr+?g4+?s2", 2), B("base+conc+?net+?mods+?verdict+?ne+?nr+?brk+?silent", 2), B("base+conc+?s2+?g4+?nounk+?nr+?ne"), B("base+repeat+mods+?verdict+?net+?nr+?brk"), B("base+conc+net+mods+verdict+ne+nr+brk+silent", variant="asan")], budget={"quick": {"runs": 400000, "time": 25}, "thorough": {"runs": 10**9, "time": 420}},
   real=["milter/client (MilterClient, MilterClientContext) and milter/core compiled unchanged from /repo", "GLib main loop and libev backends"],
   stub=["kernel sockets, poll/epoll and clocks (interposed libc calls under the simulator)", "MTAs (generated, independent wire codec)", "the milter program: generated callbacks, answering at once or later"],
   assumptions=["a milter that takes longer than its own I/O timeout after it sent something at end of message is not generated: the code counts that as silence of the MTA"]),
 "C24": dict(runs=[B("base+conc+compat+mods+verdict+?ne+?nr+?g4+?s2", 2), B("base+conc+compat+?net+?mods+?verdict+?ne+?nr+?brk+?silent", 2), B("base+compat+repeat+mods+?verdict+?net+?nr+?brk"), B("base+conc+compat+?net+?mods+verdict+?brk+?silent", variant="asan")], budget={"quick": {"runs": 400000, "time": 25}, "thorough": {"runs": 10**9, "time": 420}},
   real=["libmilter/libmilter-compatible.c, milter/client and milter/core compiled unchanged from /repo", "GLib main loop and libev backends"],
   stub=["kernel sockets, poll/epoll and clocks (interposed libc calls under the simulator)", "MTAs (generated, independent wire codec)", "the filter: a generated set of xxfi_* callbacks"],
   assumptions=["callbacks answer at once (the API has no other way)", "that smfi_main removes a socket made by smfi_opensocket is not promised", "SMFIS_NOREPLY and invalid statuses are not generated"]),
 "C21": dict(runs=[C("base+conc+?s2+?g4+?verdict+?mods+?ne+?nr", 2), C("base+conc+failcmd+failconn+?stall+?net+?nr+?ne", 2), C("base+conc+stop+?failcmd+?ne+?nr+?noabort"), C("base+repeat+?failcmd+?failconn+?stall+?mods+?stop+?net"), C("base+?s2+?g4+net+verdict+mods"), C("base+conc+failcmd+failconn+?stall+net+mods", variant="asan")], budget={"quick": {"runs": 400000, "time": 25}, "thorough": {"runs": 10**9, "time": 420}},
   real=["milter/server (MilterServerContext, milter_message_result) and milter/core compiled unchanged from /repo", "GLib main loop and libev backends"],
   stub=["kernel sockets, connect, poll/epoll and clocks (interposed libc calls under the simulator)", "milters (generated, independent wire codec; they may refuse, reset, go silent, answer partly or with garbage)", "the program that drives the server contexts (generated mail sessions)"],
   assumptions=["steps before the option negotiation ended are not generated: they are misuse of the library", "reply codes of several lines are not generated", "the order of added and removed headers in a processed message's report is not promised"]),
 "C22": dict(runs=[E("base", 4), E("base", variant="asan")], budget={"quick": {"runs": 400000, "time": 25}, "thorough": {"runs": 10**9, "time": 420}},
   real=["milter-event-loop.c, milter-glib-event-loop.c, milter-libev-event-loop.c compiled unchanged from /repo", "GLib main contexts, libev"],
   stub=["kernel sockets, poll/epoll and clocks (interposed libc calls under the simulator)", "the program that adds, removes and serves sources, and the peers of its connections (generated)"],
   assumptions=["child watches (watch_child) are not simulated: a child process runs outside the simulator's control"]),
 "C23": dict(runs=[A("base+m3+conc+ctl", 2), A("base+m3+conc+?net+ctl", 2), A("base+m3+conc+hmta+hmil+ctl", 2), A("base+m2+conc+failcmd+stop+ctl"), A("base+repeat+ctl"), A("base+m3+conc+?net+ctl", variant="asan")],
   real=["the whole manager incl. its controller, controller context, control command decoder, control reply encoder and configuration (save, reload, to_xml) compiled unchanged from /repo", "GLib main loop and libev backends"],
   stub=["kernel sockets, files, poll/epoll and clocks (interposed libc calls under the simulator)", "MTAs, milters and control clients (generated)", "the Ruby configuration loader (a stub that re-adds the generated milters, applies what the custom file says, or fails)"],
   assumptions=["the content of a status answer is not checked: the code answers a placeholder", "a reload that fails does so after the milters were added again: a broken main configuration file is not simulated"]),
 "C25": dict(runs=[A("m4+launch+conc+?failcmd+?mods+?net+?ne+?nr", 3), A("m4+launch+failneg+?slow+?g4+conc", 2), A("m3+launch+repeat+?failneg+?failcmd+?mods"), A("m3+launch+shut+conc"), A("m3+launch+brk+conc+?eval+?stop"), A("m3+launch+maxconn+?accerr")],
   assumptions=["a milter that is being tried for the second time either runs or fails as before", "the launcher here is a stub that reads requests and sends replies (the real one: C26)", "seeded sampling: a clean batch is evidence, not proof"]),
 "C26": dict(runs=[D("base", 3), D("base+net", 2), D("base+repeat"), D("base+net", variant="asan")], budget={"quick": {"runs": 200000, "time": 25}, "thorough": {"runs": 10**9, "time": 300}},
   real=["milter-manager-process-launcher.c, milter-manager-launch-command-decoder.c, milter-manager-reply-encoder.c, milter/core agent, reader and writer compiled unchanged from /repo", "GLib main loop and g_shell_parse_argv"],
   stub=["g_spawn_async_with_pipes, child watches, setgid/initgroups/setuid/_exit of the new process, getpwnam_r: stand-ins that record what is asked; no process is started and no identity changed", "pipes, poll and clocks (interposed libc calls under the simulator)", "the manager (generated requests)"],
   assumptions=["malformed requests are not generated: only the manager writes to this pipe", "the GLib event loop only, as milter-manager-main.c runs it", "seeded sampling: a clean batch is evidence, not proof"]),
}
