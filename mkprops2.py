MAIN = "src/server/nsca-ng.c"; SCONF = "src/server/conf.c"
prop("C14", "The PID file keeps a second server from running, and tells the truth",
 "With a PID file configured (pid_file or -P), at most one server runs at any time, however many are started, restarted, stopped or killed simultaneously: one that cannot lock the file gives up with a message (naming the other's PID if it's known) and a non-zero status before it touches any other resource or the other's file. "
 "While a server runs, the file exists and contains exactly its own PID (that of the background process); it's gone after the server ended or restarted itself. A stale file of a killed server never prevents a start, and a server is refused only if another one was running.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings of the system calls of two or three servers with up to 3-5 (4-6) preemptions, kills and restarts at any point; all initial states of the file, and every failing system call of the start",
 "the tests start one server at a time; the races between locking, unlinking, truncating and writing the file need preemptions at particular system calls",
 ["lib/pidfile/pidfile.c", "lib/pidfile/flopen.c", MAIN],
 [("locking", "lib/pidfile/flopen.c:flopen"), ("PID file", "lib/pidfile/pidfile.c"), ("use", "src/server/nsca-ng.c:main,remove_pidfile")])
prop("C15", "Privileges are given up completely before anything is opened",
 "If `user' or `chroot' is configured, the server opens its sockets, PID file, command file and temporary files, and goes into operation, only after all of its user IDs, group IDs and supplementary groups are those of the configured user and it's confined to the configured directory. "
 "If any step of that fails, or the server wasn't started by a user who may do this, it exits with a message and a non-zero status without having opened anything. Without these settings the IDs remain unchanged.",
 ["fault_sequences", "configurations"],
 "all combinations of user, chroot, starting user and mode of operation, with up to two (three) failures at any of the system calls and lookups involved",
 "the tests don't run as root, and the order of the calls matters only if one fails",
 [MAIN, "man/nsca-ng.cfg.in"], [("giving up privileges", "src/server/nsca-ng.c:drop_privileges,main")])
prop("C16", "The server obeys its options and configuration files as documented",
 "The listen address and port, command file, temporary directory, PID file, size limit and included files (recursively, *.cfg and *.conf files of directories, whatever the files' names look like) take effect as the manuals say; command line options take precedence over settings, later ones over earlier ones, and unset ones have the documented defaults. "
 "Wrong options, syntax errors, unknown or invalid settings, duplicate authorizations, invalid patterns, unusable addresses or directories, and any failing system call during the start make the server exit with a message on standard error and a non-zero status, before it serves anybody; a configuration error does so before anything is opened. It closes the descriptors it inherited, and goes into the background (detached from its directory and standard descriptors) only after it's able to serve.",
 ["configurations", "inputs", "fault_sequences"],
 "all combinations of each group of options and settings, a tree of 21 files with nesting, links and broken files in four ways to include it, 23 unusual file names, 55 kinds of mistakes, all placements of up to two (three) failures",
 "the tests use a single, valid configuration file",
 [SCONF, MAIN, "src/common/tls.c", "man/nsca-ng.cfg.in", "man/nsca-ng.in"],
 [("include", "src/server/conf.c:parse_include"), ("options", "src/server/nsca-ng.c:get_options,main"), ("validation", "src/server/conf.c:validate_unsigned_int")])
prop("C17", "Socket activation and the watchdog work as systemd expects",
 "When systemd passes a socket (blocking or not), the server uses it instead of binding to one, ignores -b and `listen', stays in the foreground, doesn't close it, and hands it on to itself on SIGHUP; more than one socket or an error is refused. "
 "READY=1 is sent exactly once, when the server is listening, in the background and its PID file is written. If (and only if) WATCHDOG_USEC is set to a positive number, keep-alive messages follow at intervals never exceeding it, whatever clients, Nagios and the disk do, as long as the server runs.",
 ["configurations", "schedules"],
 "all combinations of passed sockets, their mode, options and signals, and of nine watchdog intervals with five kinds of traffic, with up to 1 (2) deviations from the default schedule",
 "the tests don't use systemd",
 [MAIN, "src/common/tls.c"], [("activation", "src/server/nsca-ng.c:main"), ("notifications", "src/server/nsca-ng.c:notify_systemd,keep_alive_cb"), ("socket", "src/common/tls.c:tls_server_start")])
prop("C18", "Log messages are complete, go where they should, and leak no secrets",
 "The configured log level (-l or log_level) decides exactly which messages are logged: fatal ones always, errors from 1, warnings (such as refused commands) from 2, every accepted command and start and end of the server from 3, every line of the protocol from 4, debug output at 5. "
 "They go exactly to syslog, standard error or both, in the documented format with matching priorities, as -F, -s, -S and socket activation ask for. Text sent by clients is shown verbatim (never interpreted), and truncated only if long, with a mark. Passwords are never logged.",
 ["configurations", "inputs"],
 "all combinations of 11 ways to start the server, 7 configured levels, 7 levels on the command line and 3 signals; 12 texts with conversion specifications and control characters at 59 lengths around the buffers' limits",
 "the tests don't look at the log",
 ["src/common/log.c", MAIN, SRV], [("formatting", "src/common/log.c:vlog"), ("targets", "src/server/nsca-ng.c:main"), ("contents", "src/server/server.c")])

CLI = "src/client/client.c"; INP = "src/client/input.c"; PAR = "src/client/parse.c"; CONF = "src/client/conf.c"; SEND = "src/client/send_nsca.c"
prop("C20", "send_nsca's exit status tells the truth",
 "send_nsca exits 0 only if the server confirmed every command that results from the input; whatever else happens (the server refuses or misbehaves, the network or standard input fails, the input or the configuration is invalid) it prints a message and exits with a non-zero status. "
 "If nothing goes wrong, it exits 0, prints nothing, submits everything, finishes the session with QUIT and shuts the TLS connection down. It never crashes, never hangs beyond its timeout, and never reports success by accident, regardless of how the input arrives.",
 ["inputs", "schedules", "fault_sequences"],
 "all inputs over small alphabets, all ways to cut the input in up to three pieces, and every placement of up to 2 (3) misbehaviours of the server, the network or standard input",
 "the tests talk to the real, well-behaved server only and feed the input at once",
 [CLI, INP, SEND, TLS],
 [("reactions to responses", "src/client/client.c:handle_tls_*_response,server_is_grumpy,bail"), ("end of input", "src/client/client.c:handle_input_eof"), ("connection errors", "src/common/tls.c:TLS_AUTO_DIE")])
prop("C21", "Check results and commands are transmitted exactly as documented",
 "send_nsca splits its input at the separator, and submits, in order, for each non-empty chunk one PROCESS_SERVICE_CHECK_RESULT or PROCESS_HOST_CHECK_RESULT command with the current timestamp, the fields of the chunk, and newlines and backslashes in the output escaped; or, with -C, each non-empty line as a command, prepending the timestamp only if it's missing. "
 "Each submitted command ends with exactly one newline character. Chunks with too few fields are refused. The result doesn't depend on the size of the chunks, or how standard input delivers them.",
 ["inputs", "schedules"],
 "all inputs up to 6 (7) characters over alphabets of separators, line ends, escapes and letters, all sizes around the buffers' limits, all ways to cut inputs into pieces",
 "the tests translate a few well-formed check results; corner cases of the input syntax and of its delivery are innumerable",
 [PAR, INP, CLI, "src/common/buffer.c", "src/common/util.c"],
 [("parsing and escaping", "src/client/parse.c:parse_check_result,parse_command,escape"), ("chunking", "src/client/input.c:read_cb"), ("line ends", "src/client/client.c:handle_input_chunk")])
prop("C22", "send_nsca follows the protocol and keeps its time limit with any server",
 "Whatever the server sends or doesn't send, and however the network delays or splits it, send_nsca's requests follow the PROTOCOL document: MOIN with a session ID, PUSH with the exact length, then (only after OKAY) exactly the announced data, QUIT at the end, BAIL when it doesn't understand the server; one request at a time, CRLF-terminated, at most 1024 octets. "
 "A server which remains silent is given up after the configured timeout, a slow one isn't. Nothing the server sends makes the client access invalid memory.",
 ["fault_sequences", "schedules", "inputs"],
 "every placement of up to 2 (3) of 16 server/network misbehaviours and of blocked writes in dialogues with up to three commands; command sizes around all buffer limits; response times around the timeout",
 "the tests talk to the real, well-behaved server only",
 [CLI, TLS, "PROTOCOL"],
 [("dialogue", "src/client/client.c"), ("timeouts and partial I/O", "src/common/tls.c")])
prop("C23", "send_nsca obeys its configuration file as documented",
 "send_nsca.cfg is understood as its manual says: assignments with quoted or unquoted values, escapes, comments, surrounding whitespace, continuation lines, LF or CRLF line ends, with or without newline at the end of the file, lines of any length. Files that violate the syntax, unclosed quotation marks, unknown variables and overlong values, and values that should be numbers but aren't, or are negative or huge, are refused with a message before the server is contacted. "
 "Identity, password, server, port, timeout and delay take effect as configured, command line options take precedence, unset variables have the documented defaults.",
 ["configurations", "inputs"],
 "all texts of up to 5 (6) tokens of an alphabet of quotes, escapes, comments, line ends and letters in several contexts, all lengths around the buffers' limits, all 256 subsets of variables combined with all options",
 "the tests use one fixed configuration; a parser's corner cases are innumerable",
 [CONF, SEND, "src/client/auth.c", "man/send_nsca.cfg.in"],
 [("line reading", "src/client/conf.c:read_conf_line"), ("value parsing", "src/client/conf.c:parse_conf_file"), ("delay", "src/client/send_nsca.c:delay_execution")])
prop("C24", "send_nsca's options are understood as documented",
 "The arguments of -d and -e may be a single ASCII character, a C-style escape sequence, or an octal or hexadecimal number, and denote that character; anything else, the delimiters the manual forbids, and a delimiter equal to the separator are refused before the server is contacted. With -C, lines are separated by newlines whatever -e says. "
 "Unknown options, missing or stray arguments and negative numbers are errors; -h and -V print to standard output and exit with 0.",
 ["inputs", "configurations"],
 "all arguments up to 4 (5) characters over a 16 letter alphabet, each of the 128 characters in six notations, and combinations of both options",
 "the tests use the default characters",
 [SEND, "man/send_nsca.in"],
 [("option parsing", "src/client/send_nsca.c:get_options,parse_backslash_escape")])

LIBSTMT = (
 "Each call of %s either returns normally, after the server acknowledged exactly the described check result or command (complete whatever its length, with a bracketed timestamp, newline-terminated), or %s with a message that says why, including the server's own reason if it refused; it never reports success otherwise, and the object remains usable afterwards. "
 "The requests follow the PROTOCOL document; the call returns within the timeout, without busy-waiting, whatever the server and the network do; objects with different IDs don't mix up; discarding an object ends its session with QUIT and an orderly TLS shutdown. "
 "Nothing the server or the caller passes in crashes or kills the interpreter, or makes it access invalid memory or leak.")
prop("C30", "The Perl module reports results truthfully and survives any server",
 LIBSTMT % ("host_result(), svc_result() and command()", "dies"),
 ["inputs", "schedules", "fault_sequences", "histories"],
 "sequences of calls on one or two objects with every placement of up to 2-3 (3-4) misbehaviours of server and network; all lengths around the buffers' limits, all short commands over an alphabet",
 "the Perl module has no tests against a misbehaving server; the order of failures and the lengths involved are innumerable",
 ["perl/client.c", "perl/Client.xs", "perl/lib/Net/NSCAng/Client.pm", "PROTOCOL"],
 [("dialogue and TLS", "perl/client.c"), ("arguments, commands and errors", "perl/Client.xs")])
prop("C31", "The Python module reports results truthfully and survives any server",
 LIBSTMT % ("host_result() and svc_result()", "raises an exception"),
 ["inputs", "schedules", "fault_sequences", "histories"],
 "sequences of calls on one or two objects with every placement of up to 2-3 (3-4) misbehaviours of server and network; all lengths around the buffers' limits",
 "the Python module has no tests against a misbehaving server; the order of failures and the lengths involved are innumerable",
 ["python/client.c", "python/nscang.c", "PROTOCOL"],
 [("dialogue and TLS", "python/client.c"), ("arguments, commands and errors", "python/nscang.c")])

prop("C32", "The contributed scripts do what they say",
 "invoke_check runs the given plugin once, with exactly the given arguments, and submits its output verbatim and its exit status as a result for the given host and service (or the documented defaults); an invalid exit status or usage isn't submitted, but reported. "
 "acknowledge, downtime, enable_notifications and disable_notifications submit exactly the external command they are named after, with the given host, service, times and comment taken literally. The scripts pass -c and SEND_NSCA_ARGS on to send_nsca, call it once, and fail if it fails, or if anything else is wrong. "
 "debug_server connects with the address, identity and password of the configuration file, or of its options. The init script starts the server only if it isn't running, sends signals only to the server whose PID the PID file holds, survives stale and damaged PID files, and reports the server's state truthfully.",
 ["configurations", "inputs", "histories"],
 "all combinations of options, environment and answers of the programs called; all plugin outputs and comments up to 3 characters over an alphabet of 15 special characters; all sequences of up to 2 (3) actions of the init script in up to 9 initial states; two shells",
 "no test covers the scripts; quoting and escaping bugs show only with particular characters",
 ["contrib/invoke_check", "contrib/acknowledge", "contrib/downtime", "contrib/nsca-ng.init", "contrib/debug_server", "contrib/README"],
 [("results", "contrib/invoke_check"), ("commands", "contrib/acknowledge"), ("times", "contrib/downtime"), ("actions", "contrib/nsca-ng.init")])
prop("C33", "The replacements for missing C library functions behave like the originals",
 "Where the C library lacks them, the package's own functions do what the standards and the systems that have them promise. snprintf, vsnprintf, asprintf and vasprintf produce exactly the C library's output and return value for every conversion, flag, width, precision and length modifier, never write beyond the given size, and always terminate the result. "
 "strcasecmp, strncasecmp compare as in the C locale, as unsigned characters, without reading beyond the limit or the end; strdup returns a copy. getprogname returns the last component of the name that was set. daemon returns success only in a process of a new session which it does not lead, with working directory and standard descriptors as requested and no other descriptor open, reports a failed fork or setsid, and ends its parents with status 0. "
 "flock locks, unlocks, blocks or fails as requested for the whole file, with EWOULDBLOCK for a conflicting lock and EINVAL for invalid requests.",
 ["inputs", "histories", "fault_sequences"],
 "the product of 15 conversions, 32 sets of flags, 6 widths, 8 precisions, 8 length modifiers and boundary arguments, each in 6 buffer sizes; all pairs of strings up to 3 letters over 15; all outcomes of the system calls of daemon; all sequences of up to 4 (5) operations of two processes on a lock. "
 "Excluded: combinations which the standard leaves undefined, `%c' with a width, a precision of 0 with the value 0, a precision with `%p', INTMAX_MIN, and values that lie inexactly between two decimal results",
 "the tests run on systems which have all of these functions, so that this code isn't even compiled in",
 ["lib/xprintf.c", "lib/strcasecmp.c", "lib/strncasecmp.c", "lib/strdup.c", "lib/progname.c", "lib/daemon.c", "lib/pidfile/flock.c"],
 [("formatting", "lib/xprintf.c"), ("detaching", "lib/daemon.c"), ("locking", "lib/pidfile/flock.c")])
