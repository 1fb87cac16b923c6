#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

SRV = "src/server/server.c"; TLS = "src/common/tls.c"; FIFO = "src/server/fifo.c"; AUTH = "src/server/auth.c"
prop("C01", "Only commands a client is authorized for reach Nagios",
 "A command is written to the command file (directly or via a temporary file) only if a client that authenticated as some identity submitted exactly these bytes and the authorize section which applies to this identity permits the command. "
 "This includes commands with embedded newlines or NUL bytes, without a leading bracketed timestamp or without trailing newline, which are refused. "
 "A client whose identity or password doesn't match the configuration isn't served at all.",
 ["inputs", "histories", "schedules"],
 "all submissions built from heads, bodies and tails which probe the parser, all identities/passwords of a set, all interleavings of two clients with different rights up to the deviation bound",
 "the tests submit a handful of well-formed commands from one client at a time; injection needs unusual bytes or a particular interleaving of differently privileged sessions",
 [AUTH, SRV, FIFO, "src/server/conf.c"],
 [("check of a submitted command", "src/server/auth.c:is_authorized"), ("PSK lookup", "src/server/auth.c:check_psk"), ("handling of submitted data", "src/server/server.c:handle_push")])
prop("C02", "Authorization patterns mean what the manual says",
 "A `commands' pattern authorizes exactly the commands it matches as a whole; a `hosts' or `services' pattern (the latter with optional host part after the last @) authorizes exactly the check results for hosts/services it matches as a whole. "
 "Settings outside of authorize sections apply to exactly those sections which don't set them, and the `*' section to exactly the identities without a section of their own.",
 ["configurations", "inputs"],
 "every combination of pattern, kind of setting and candidate command from the sets, and all 2^8 placements of global and per-section settings",
 "the tests use a few anchored-by-luck patterns; alternatives, partial matches and the interplay of fallbacks need the cross product",
 ["src/server/conf.c", AUTH, "src/server/hash.c"],
 [("pattern compilation", "src/server/conf.c"), ("section lookup", "src/server/hash.c")])
prop("C03", "Every acknowledged command is delivered exactly once and unmodified",
 "Once the server answered OKAY to the data of a PUSH request, these bytes reach the command file (directly, or in a temporary file whose processing is requested there) exactly once and contiguously, provided that Nagios eventually reads its command file, no I/O error and no queue overflow occurs and the server isn't stopped. "
 "This holds whatever other clients do, whenever Nagios stops, starts or lets its pipe fill up, and if the submitter disconnects.",
 ["schedules", "histories", "inputs"],
 "all interleavings of client steps, pipe states, Nagios stops/starts and disk write completions up to the deviation bound, for command sizes around every threshold",
 "the tests submit single small commands while Nagios reads the pipe; loss or duplication needs a full pipe, a reader that vanishes, or a disk write in flight while more data arrives",
 [FIFO, SRV, "src/common/buffer.c"],
 [("output state machine", "src/server/fifo.c:dispatch_data,write_cb,async_cb,idle_cb,open_cb"), ("output buffer", "src/common/buffer.c")])
prop("C04", "Command file writes are atomic, temporary files complete before use",
 "Every write to the command file is at most PIPE_BUF bytes and consists of complete commands only, so that commands of different writers cannot be torn or mixed. "
 "Larger data is stored in a new temporary file (not writable by others, in the configured directory), and Nagios is told to process it, exactly once, only after it has been written completely and closed.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of submissions around PIPE_BUF, pipe fill levels, disk write completions and failures up to the deviation bound",
 "the tests never exceed PIPE_BUF nor fill the pipe",
 [FIFO], [("choice between pipe and file", "src/server/fifo.c:buffers_exceed_pipe_size,dispatch_data"), ("temporary files", "src/server/fifo.c:open_dump_file,close_dump_file,make_process_file_command")])
prop("C05", "The command queue is bounded by max_queue_size and drops only on overflow",
 "While Nagios doesn't read its command file, the server queues submitted commands; it drops queued commands only if the configured max_queue_size would be exceeded, and then the queue never holds more than that. "
 "With a max_queue_size of 0, nothing is ever dropped; commands which are submitted after an overflow, and all commands after recovery, are delivered as usual.",
 ["histories", "configurations"],
 "all sequences of command sizes hitting the limit exactly, one byte below and above, and far beyond, for several limits",
 "the tests never queue a megabyte of commands",
 [FIFO, "src/common/buffer.c"], [("queue limit", "src/server/fifo.c:fifo_write")])
prop("C06", "The server follows the documented protocol for every request sequence",
 "For every sequence of request lines, the server sends exactly the responses the PROTOCOL document prescribes, in order and once each: MOIN, PING, PUSH, NOOP, QUIT, BAIL in any state, unknown and malformed requests are answered with FAIL without ending the session, and request names are case-insensitive with LF or CRLF line endings. "
 "The session ends (with a TLS close_notify) after QUIT, PING and BAIL, and only then.",
 ["inputs", "histories"],
 "all request sequences up to length 4 (5) over a 14 letter alphabet per state, and variants of arguments, numbers, case and line endings",
 "the tests speak one fixed well-formed dialogue through the client",
 [SRV, "PROTOCOL"], [("request handlers", "src/server/server.c:handle_handshake,handle_connection,handle_push")])
prop("C07", "The way data is split or delayed on the network makes no difference",
 "The server's responses and the delivered commands depend only on the bytes a client sends, not on how they are cut into TLS records or network segments, how they're coalesced with earlier requests, when they arrive, or how often the server's own output is delayed.",
 ["inputs", "schedules"],
 "all cuts of request streams at 1 to 3 positions, all uniform segment sizes, pipelining, all short/blocked-write patterns, key updates and partial records up to the deviation bound",
 "the tests always send one request per record on an idle loopback",
 [TLS, "src/common/buffer.c"], [("line and byte reader", "src/common/tls.c:read_line,read_bytes"), ("writer", "src/common/tls.c:write_cb")])
prop("C08", "A misbehaving client doesn't affect other clients",
 "Whatever a client does (stalls in the TLS handshake, a request or a command, stops reading, sends garbage, breaks the connection, runs into limits), other clients' sessions are neither delayed nor broken and receive their complete, correct responses.",
 ["schedules", "inputs", "fault_sequences"],
 "twelve kinds of misbehaviour with all interleavings with one or two well-behaved clients, accept and TLS set-up errors included, up to the deviation bound",
 "the tests run one client at a time",
 [TLS, SRV], [("event handlers", "src/common/tls.c:accept_tcp_cb,accept_ssl_cb,read_cb,write_cb,shutdown_cb,check_tls_error")])
prop("C09", "Inactivity, line length and command size limits are enforced, exactly",
 "A connection which is silent for the configured timeout is told so (BAIL) and released, while connections showing any activity are never cut off; a timeout of 0 disables this. "
 "Request lines of 1024 bytes are accepted, but overlong lines are refused with BAIL, and PUSH requests beyond max_command_size with FAIL, without buffering them.",
 ["inputs", "configurations", "schedules"],
 "every protocol state a client can fall silent in, for several timeouts; all line lengths/terminators/segmentations and sizes around the limits",
 "the tests don't wait for timeouts and never send long lines or commands",
 [TLS, SRV], [("timeouts", "src/common/tls.c:timeout_cb"), ("line limit", "src/common/tls.c:read_line"), ("size limit", "src/server/server.c:handle_connection")])
prop("C10", "No client can crash, hang or bloat the server",
 "Whatever bytes clients send and whenever they disconnect, the server doesn't terminate, access memory illegally, spin or block, and it keeps serving others. "
 "Memory, descriptors and TLS objects of a connection are released when it is gone.",
 ["inputs", "schedules", "fault_sequences"],
 "eleven behaviours broken off after every step in five ways, with all blocked writes, accept and set-up errors up to the deviation bound, under an address sanitizer and heap/descriptor accounting",
 "the tests neither break connections nor look for leaks",
 [TLS, SRV, FIFO, AUTH], [("release of connections", "src/common/tls.c:tls_free,check_tls_error,shutdown_cb"), ("fifo", "src/server/fifo.c:async_cb")])
prop("C11", "Only clients knowing the configured password get a session",
 "A TLS session is established only if client and server hold the same pre-shared key for the identity the client presents (for its own section, else the `*' section), for TLS 1.2 and 1.3; the authorizations of a session are those of this very identity. "
 "Unknown identities, wrong, empty, truncated or extended passwords, missing or certificate-based key exchange and resumed sessions never yield a session with other rights.",
 ["inputs", "configurations", "histories"],
 "all combinations of identities, passwords, TLS versions, cipher settings and session resumption from the sets, on the real OpenSSL library",
 "the tests try a right and a wrong password once",
 [AUTH, TLS], [("PSK callback", "src/server/auth.c:check_psk"), ("accepting", "src/common/tls.c:accept_ssl_cb")])
prop("C12", "Command file and disk trouble is contained and recovered from",
 "If the command file is missing, isn't a named pipe, has no reader, is full or fails, the server keeps running and answering, queues commands without losing any, and resumes delivery within its retry interval once the problem is gone. "
 "If the disk fails, at most the commands being stored are lost, an incomplete file is never announced to Nagios, and later commands are delivered as usual.",
 ["fault_sequences", "schedules"],
 "all placements of up to 2 (3) faults at any open, write, create, close, asynchronous write or completion, combined with Nagios going up and down",
 "the tests have a working command file and disk",
 [FIFO], [("opening", "src/server/fifo.c:open_cb"), ("write errors", "src/server/fifo.c:write_cb"), ("disk errors", "src/server/fifo.c:async_cb,sync_dump_data")])
prop("C13", "Termination signals and SIGHUP work at any moment",
 "SIGTERM and SIGINT end the server with status 0, and SIGHUP makes it execute itself again with the same arguments, at whatever moment they arrive: clients, queued data or disk writes in flight notwithstanding. "
 "The PID file is removed, sockets and descriptors are closed, nothing is accessed after it was released, and a failing restart is reported with a non-zero status.",
 ["schedules", "fault_sequences"],
 "every position of the signal in the execution of several workloads, with disk writes completing at every later system call, and failing restarts",
 "the tests stop an idle server",
 ["src/server/nsca-ng.c", FIFO, SRV], [("signal handling", "src/server/nsca-ng.c:signal_cb,main"), ("stopping the writer", "src/server/fifo.c:fifo_stop")])
exec(open(os.path.join(V, "mkprops2.py")).read()) if os.path.exists(os.path.join(V, "mkprops2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    assert len(p["title"]) <= 80, p["title"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=s.get("technique", "stateless model checking of the real code under a controlled scheduler/fault injector"),
                           level=s.get("level", "model_checking"),
                           level_note=s.get("note", "exhaustive within the bounds listed in the evidence file (deviations from the default schedule, data sets); the operating system and libssl are simulated")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet") if "NA" in globals() else "no check yet"))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py vbuild.py props.py && gcc --version >/dev/null",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
