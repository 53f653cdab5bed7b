#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand when a statement changes).
import json, sys, os
M="milter/manager/milter-manager-"
LEADER=M+"leader.c"; CHILDREN=M+"children.c"; CHILD=M+"child.c"; MGR=M+"manager.c" if False else "milter/manager/milter-manager.c"
CONF=M+"configuration.c"; CC="milter/client/milter-client-context.c"; CL="milter/client/milter-client.c"; SC="milter/server/milter-server-context.c"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
T_RUBY="The 505 stable tests are single-process Ruby binding tests; none runs the manager with several milters, so "
prop("C01","The MTA gets the most severe verdict of the child milters",
 "For every step of an SMTP session the manager answers the MTA with the most severe answer its child milters gave for that step (discard over reject over temporary failure over continue over accept), and a custom reply code and text given by the milter that decided the step is what the MTA receives. A rejection of one recipient affects only that recipient; a final rejection, temporary failure or discard of the message by any (non-evaluation) milter is never turned into an acceptance. A milter that accepted is not consulted again for what it accepted, and the others go on deciding.",
 ["inputs","histories","schedules","configurations"],"all numbers of milters, all combinations of answers at all steps, all message sequences and all delivery orders of the answers",
 T_RUBY+"no combination of concurrent answers and no arrival order is exercised.",
 [CHILDREN,LEADER],[("compile_reply_status",CHILDREN),("remove_child_from_queue",CHILDREN),("emit_reply_for_message_oriented_command",CHILDREN),("reply",LEADER)],
 [("reply_statuses","worst status per step",CHILDREN)],["bytes on the MTA connection"])
prop("C02","Exactly one answer per command, in command order",
 "Every command of the MTA that calls for an answer gets exactly one final answer, in the order of the commands, and a command negotiated as needing no answer gets none. No answer, modification or progress packet reaches the MTA outside the step it belongs to (modifications only between the end of a message and its final answer).",
 ["inputs","histories","schedules","fault_sequences"],"all command sequences, answer timings, milter failures at any moment",
 T_RUBY+"double or missing answers under concurrent timeouts, errors and answers are out of reach.",
 [LEADER,CHILDREN,CC],[("leader state machine",LEADER),("reply_queue",CHILDREN),("reply_on_end_of_message and *_response",CC)],
 [("state","leader state",LEADER)],["bytes on the MTA connection"])
prop("C03","Every consulted milter sees the session faithfully",
 "Every child milter that takes part receives connection information, HELO, sender, recipients, macros, headers and body exactly as the MTA sent them, in protocol order, each once, for exactly the steps it negotiated; headers and body it sees include the changes made by the milters placed before it. It sees data-phase commands only for messages it still takes part in, and the body it gets, put together, is byte-for-byte the message body.",
 ["inputs","histories","schedules","configurations"],"all messages (headers, binary bodies of any size and chunking, large bodies spooled to disk), all milter sets, all negotiation outcomes",
 T_RUBY+"replaying a stored message to later milters is never run end to end.",
 [CHILDREN,"milter/core/milter-headers.c","milter/core/milter-command-encoder.c","milter/core/milter-command-decoder.c",SC],
 [("command_queue replay",CHILDREN),("write_body / body_file spool",CHILDREN),("send_first_command_to_next_child",CHILDREN)],
 [("headers, body, body_file, command_queue","the stored message",CHILDREN)],["bytes on each milter connection"])
prop("C04","Modifications reach the MTA completely and with the intended effect",
 "When a message is not rejected, applying to the original message the modifications the manager sends to the MTA gives the same headers, body, sender, recipients and quarantine state as applying the modifications of the non-evaluation milters one after another in milter order. Nothing is sent that no milter asked for, and nothing leaks from an earlier message.",
 ["inputs","histories","schedules"],"all sequences of add, insert, change and delete header, replace body, change sender, add and delete recipient, quarantine, spread over any number of milters",
 T_RUBY+"composition of modifications over several milters is never compared with applying them.",
 [CHILDREN,LEADER,CC,"milter/core/milter-headers.c"],[("emit_header_signals",CHILDREN),("emit_replace_body_signal",CHILDREN),("packet buffering",CC)],
 (),["bytes on the MTA connection"])
prop("C05","A milter in evaluation mode never changes the outcome",
 "Whatever a milter in evaluation mode answers, at any step - rejection, temporary failure, discard, acceptance, modifications, reply codes - the MTA gets the same answers and modifications, and the other milters the same commands, as if it had not been configured.",
 ["inputs","histories","schedules","configurations"],"all answers of evaluation-mode milters at all steps and all positions among the milters",
 T_RUBY+"no test runs an evaluation-mode milter next to a real one.",
 [CHILDREN,CHILD],[("evaluation-mode handling in reply callbacks",CHILDREN),("milter_manager_child_is_evaluation_mode",CHILD)],(),["bytes on the MTA and milter connections"])
prop("C06","A failing milter costs only its own fallback",
 "When a child milter cannot be reached, fails negotiation, breaks its connection, sends garbage or does not answer in time, at whatever point, the step is decided as if that milter had answered with its configured fallback status, and every other milter is consulted and heard exactly as it would have been. The session goes on without the failed milter, and the next session tries it again.",
 ["fault_sequences","schedules","configurations","histories"],"all failure kinds (refused or silent connect, end of stream, reset, garbage, silence) of any milters at any point, all fallback statuses",
 T_RUBY+"no fault is injected by any stable test.",
 [CHILDREN,CHILD,SC],[("cb_error, cb_*_timeout, expire_child",CHILDREN),("get_fallback_status",CHILD)],(),["bytes on the MTA and milter connections"])
prop("C07","Every session makes progress within its configured timeouts",
 "As long as the MTA keeps its side of the protocol, every command is answered within the sum of the configured child timeouts, whatever the milters do; a session whose MTA falls silent longer than the configured time is closed. A milter that does answer within its timeouts is never treated as failed, and the whole program never stalls because of one peer.",
 ["schedules","fault_sequences","configurations"],"all delays, stalls and silences of MTA and milters, all timeout settings",
 "Real-time tests cannot wait for timeouts of minutes to hours nor cover the orders in which they fire.",
 [SC,CC,CHILDREN,"milter/core/milter-libev-event-loop.c","milter/core/milter-glib-event-loop.c"],[("connection/reading/writing/end-of-message timeouts",SC),("timeout",CC)],(),["virtual time of answers"])
prop("C08","Concurrent sessions do not influence each other",
 "Any number of SMTP sessions served at the same time behave exactly as each would alone: what one session's MTA and milters see depends only on that session, even when other sessions fail, stall or disconnect.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent sessions, with faults in some of them",
 T_RUBY+"no two sessions ever overlap.",
 [MGR,LEADER,CHILDREN,CL],[("one leader, children and context per connection",MGR)],(),["bytes on all connections"])
prop("C09","Messages on one connection do not influence each other",
 "On a connection carrying several messages, each message is judged, modified and forwarded exactly as if it were the first after the greeting: an earlier message's answers, modifications, body, headers or an abort at any point leave no trace in a later one, except that a milter that ended its participation in the connection stays out.",
 ["histories","inputs","schedules"],"all sequences of messages, each accepted, rejected, temporarily failed, discarded, modified or aborted at any step",
 T_RUBY+"multi-message histories are not run.",
 [CHILDREN,LEADER,CC],[("dispose_message_related_data, abort handling",CHILDREN),("reset_message_related_data",CC)],(),["bytes on the MTA and milter connections"])
prop("C10","Finished sessions leave nothing behind",
 "After a session ends - normally, by error, by timeout or by disconnection of any party at any point - all of its connections are closed and its sockets, temporary files, timers and memory are released, and each participating milter has been told the session is over (quit) or its connection closed.",
 ["histories","fault_sequences","schedules"],"all ways and moments a session can end",
 T_RUBY+"leaks after faults are never looked at.",
 [LEADER,CHILDREN,CC,SC,CL,"milter/core/milter-agent.c"],[("dispose chains, shutdown",CC),("finished session disposal",CL)],(),["descriptor table, temporary directory, heap after the last session"])
prop("C11","Results do not depend on how bytes are split or delayed",
 "For the same contents exchanged, the manager behaves identically however the streams of the MTA and the milters are cut into segments, partially written, delayed or coalesced, on either event loop backend.",
 ["schedules","inputs"],"all segmentations and partial reads and writes of all streams; libev (epoll, poll) and GLib backends",
 "Tests feed decoders whole strings or byte by byte, never the running system.",
 ["milter/core/milter-decoder.c","milter/core/milter-reader.c","milter/core/milter-writer.c","milter/core/milter-agent.c"],[("incremental decoder",  "milter/core/milter-decoder.c"),("write buffer","milter/core/milter-writer.c")],(),["bytes on all connections"])
prop("C12","Negotiation grants only what all parties agreed to",
 "The manager's negotiation answer never grants an action or claims a step or version the MTA did not offer, asks the MTA for every step, action and macro some child milter needs, and lets the MTA skip a step or its answer only if no child milter needs it. Each child milter gets the MTA's offer, and afterwards only the steps and macros it asked for.",
 ["inputs","configurations","schedules"],"all offers and all combinations of child requests",
 T_RUBY+"combinations of negotiation options of several milters are not run.",
 [CHILDREN,LEADER,"milter/core/milter-option.c","milter/core/milter-macros-requests.c"],[("milter_option_combine/merge",  "milter/core/milter-option.c"),("cb_negotiate_reply",CHILDREN)],(),["negotiation packets"])
prop("C13","Malformed input never brings the service down",
 "Arbitrary bytes from an MTA, a milter or a control client never crash, hang or corrupt the process: at most the affected session (for an MTA) or milter (as a failed milter) is lost, and the other sessions and later connections are served as usual.",
 ["inputs","schedules"],"all byte streams, at all points of a session",
 "Tests try a few malformed packets against single decoders.",
 ["milter/core/milter-decoder.c","milter/core/milter-command-decoder.c","milter/core/milter-reply-decoder.c",CC,SC],[("decode errors emitted as error signals","milter/core/milter-decoder.c")],(),["process state, other sessions"])
prop("C14","Connections are admitted up to the limit and always again afterwards",
 "No more sessions than the configured maximum are served at once, waiting connections are served within the configured suspend time once earlier sessions have ended, and a temporary failure to accept a connection (aborted connection, interrupted call, too many open files) never stops the service from accepting later ones.",
 ["schedules","fault_sequences","configurations"],"all arrival patterns, limits and accept failures",
 T_RUBY+"connection limits and accept failures are not reachable.",
 [CL],[("accept_connection_fd, max_connections",CL)],(),["accepted connections"])
prop("C15","Shutdown lets running sessions finish",
 "After a shutdown request no new connection is accepted, sessions in progress are served to their normal end with unchanged results, and then the service stops by itself, removing its socket; with no session in progress it stops at once.",
 ["schedules","crash_points","histories"],"shutdown requested at any moment of any set of running sessions",
 T_RUBY+"shutdown amid sessions is not run.",
 [CL,MGR],[("milter_client_shutdown, finish_processing",CL)],(),["main loop end, bytes on the connections"])
prop("C16","A vanished MTA is noticed and the session ended",
 "When the MTA's connection breaks at any point, the session ends: its milters are told to abort or quit and nothing more is processed for it. With connection checking configured, a break while milters are still working is noticed within the check interval, for every session of the process's lifetime.",
 ["crash_points","schedules","configurations"],"the connection lost at any point, by close or reset, with any check interval",
 T_RUBY+"MTA loss is not tested with live milters.",
 [LEADER,MGR,CC],[("connection checker",MGR),("check_connection",LEADER)],(),["bytes on milter connections, virtual time"])
prop("C17","Disabled and stopped milters are left out consistently",
 "A milter whose conditions say to stop at a step (connect, HELO, sender, recipient, data, headers, body, end of message) takes no part from that step on (connect, HELO: in the session; sender, data or content: in the message; recipient: for that recipient), a disabled milter takes no part at all, and everything else is as if that milter had accepted at that point.",
 ["configurations","inputs","histories"],"all stop points for any milters, any messages and answers of the others",
 T_RUBY+"conditions are tested on configuration objects, not on sessions.",
 [CHILDREN,SC,M+"applicable-condition.c",M+"egg.c"],[("stop-on-* signals",SC),("hatch",M+"egg.c")],(),["bytes on milter connections"])
prop("C18","Session counts and maintenance are exact",
 "The number of sessions reported as being processed always equals the number of connections accepted and not yet finished, every finished session is counted exactly once, and maintenance runs once per configured number of finished sessions and whenever the service becomes idle.",
 ["schedules","histories","fault_sequences"],"all interleavings and all ways a session can end",
 T_RUBY+"counting under concurrency and faults is not tested.",
 [CL],[("n_processing_sessions, process_data",CL)],(),["API counters"])
prop("C19","Spooling failures never corrupt a message",
 "When a large message body is kept in a temporary file, disk errors, short writes and a full disk never lead to a milter or the MTA receiving a wrong or truncated body as if it were complete: either the result is the same as without the fault or the message is answered with the configured fallback (or temporarily failed). The service goes on with later messages.",
 ["fault_sequences","inputs"],"all positions of open, write, seek and read failures",
 "No test injects disk faults.",
 [CHILDREN],[("write_body, body_file",CHILDREN)],(),["bytes on milter and MTA connections"])
prop("C20","A milter written with the client library sees exact callbacks",
 "A milter built on the client library gets one callback per command sent by the MTA, with the arguments and macros sent, in order; the answer it returns - at once or later - reaches the MTA as the answer of that command, with the modifications it made before it and only where they were negotiated.",
 ["inputs","histories","schedules"],"all command sequences, macros, immediate and deferred answers, and modification sequences, in any number of sessions",
 "Binding tests call a context with fixed packets and never interleave deferred answers with time and input.",
 [CC,CL,"milter/core/milter-command-decoder.c","milter/core/milter-reply-encoder.c"],[("signal handlers and *_response",CC)],(),["callbacks and bytes on the connection"])
prop("C21","The server-side library drives a milter faithfully",
 "An MTA built on the server library that issues the protocol's steps gets, for each, exactly the milter's answer or the matching timeout or error event within the configured time, and the milter gets exactly the steps issued, with macros, in order, leaving out the steps it negotiated away.",
 ["inputs","histories","schedules","fault_sequences"],"all step sequences, answers, modifications, delays, and disconnects",
 "Binding tests use fixed packets and real time.",
 [SC,"milter/core/milter-reply-decoder.c","milter/core/milter-command-encoder.c"],[("write_packet, need_reply, timeouts",SC)],(),["signals and bytes on the connection"])
prop("C22","The event loops deliver every event as registered",
 "On each event loop backend, a timeout fires never early and as soon as the loop is free once it has expired, and repeats exactly while its callback returns TRUE; I/O callbacks are called whenever and only when the watched descriptor is readable or writable as asked; idle callbacks run when nothing else is ready, and the loop does not sleep meanwhile; callbacks may add and remove any source, including themselves, at any time: a removed source is never called again, its removal is reported truthfully, and its destroy function is called exactly once; a run ends after quit, and only then; an iteration that may not block does not.",
 ["schedules","programs"],"all programs of adding, removing and firing sources from inside and outside of callbacks, with clock jumps",
 "Tests use few sources and real time.",
 ["milter/core/milter-libev-event-loop.c","milter/core/milter-glib-event-loop.c","milter/core/milter-event-loop.c"],[("ev watchers and destroy handling","milter/core/milter-libev-event-loop.c")],(),["callback order and virtual times"])
prop("C23","The control connection answers each request once and correctly",
 "Each control request (get configuration, save custom configuration, reload, get status) gets exactly one answer, in order: the configuration as it is at that time, success exactly when the custom configuration was stored whole or the reload was done, an error otherwise. A malformed or unknown request is answered with an error and closes its connection. Control clients, whether well-behaved, malformed, slow or disconnecting, never disturb SMTP sessions or other control clients and leave nothing behind.",
 ["inputs","histories","schedules"],"all request sequences and bytes from any number of control clients, while sessions run",
 T_RUBY+"the controller is never run with connections.",
 [M+"controller.c",M+"controller-context.c",M+"control-command-decoder.c",M+"control-reply-encoder.c"],[("controller context",M+"controller-context.c")],(),["bytes on control connections"])
prop("C24","A filter written with the libmilter-compatible API works unchanged",
 "A filter registered through smfi_register/smfi_main gets, per session and in the order the MTA sent them, exactly the xxfi_* callbacks it registered with the MTA's arguments and macros (smfi_getsymval); a chunk sent with the end of message reaches xxfi_body first; xxfi_abort comes only for a message it saw a part of; xxfi_close once per session. What it returns (SMFIS_*), its reply codes (smfi_setreply, smfi_setmlreply), negotiated options and macro lists (smfi_setsymlist) and its modifications reach the MTA exactly and only if negotiated; private data stays with its session; smfi_stop ends smfi_main.",
 ["inputs","histories","schedules","crash-fault"],"all MTA command sequences, negotiations, callback sets, answers, byte arrivals, breaks and silences, concurrent sessions, both event loops",
 "only C tests that need cutter (not run here) touch a few smfi_* calls on one context without connections.",
 ["libmilter/libmilter-compatible.c","milter/client/milter-client-context.c","milter/client/milter-client.c"],[("callbacks and smfi_* calls","libmilter/libmilter-compatible.c")],(),["MTA bytes and connection ends","socket readiness and timeouts"])
prop("C25","A milter that is not running is started on demand and joins the session",
 "When a connection to a milter cannot be opened at once, the manager tries exactly once more, five seconds later; when it is run with a launcher and the milter has a start command, it first asks the launcher to start it (once per failed attempt, with exactly the configured command line and user), also when the connection is refused later; a connection that times out is not tried again. A milter reached at the second attempt takes full part in the session from its negotiation on; one that is not is left out with its configured fallback. Other milters and sessions are not affected, nor by a launcher that is gone, and nothing is left behind.",
 ["inputs","histories","schedules","crash-fault"],"all patterns of refused, unreachable, timed-out and later recovering milters, with and without commands, users, options and launcher, concurrent sessions",
 "no stable test covers the launcher or the retry.",
 [M+"children.c",M+"launch-command-encoder.c","milter/server/milter-server-context.c"],[("retry and launch",M+"children.c")],(),["connection attempts","requests to the launcher"])
prop("C26","The launcher starts each milter once, as its user, and answers each request",
 "The launcher process answers every launch request exactly once and in order: success exactly when it started the command, an error otherwise. A command that is running is not started a second time; once its end was noticed it can be started again. The command gets exactly the requested arguments and runs with the user, group and supplementary groups asked for, or not at all. What the milters print is drained, their ends are noticed, and neither leaves descriptors or memory behind; the launcher ends when, and only when, the manager goes away.",
 ["inputs","histories","schedules","crash-fault"],"all request sequences (pipelined, split), users, command lines, start failures, identity-change failures, process lifetimes, outputs and exit statuses",
 "no stable test runs the launcher.",
 [M+"process-launcher.c",M+"launch-command-decoder.c",M+"reply-encoder.c"],[("launch",M+"process-launcher.c")],(),["requests and replies","process starts, identities and ends"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
ids=[p["id"] for p in P]; assert len(set(ids))==len(ids)
for p in P: assert len(p["title"])<=80,p["id"]
