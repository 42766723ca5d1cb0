#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, sys, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

M = "pkg/monny/"
p("C01", "Wrapped command's output is relayed completely, in order, once",
  "Every line the wrapped command writes to its stdout (stderr) appears on monny's own stdout (stderr) exactly once, unmodified and in the order written, and nothing else is added to either stream. This holds for any line length (including lines far longer than 64 KiB and empty lines), any volume, any byte content, any chunking of the writes, any interleaving of the two streams and a final line without newline; only the line terminator itself may be normalised. Also when both of monny's streams lead to the same pipe or file, lines of up to 4095 bytes come out whole and unmixed. When monny kills the command, what is relayed is a prefix of what the command wrote.",
  ["inputs", "schedules"], "all byte streams, line lengths, write chunkings and stdout/stderr interleavings of a wrapped command",
  "The tests echo one or two short words; long lines, partial writes, binary bytes, and concurrent streams are never produced and monny's own stdout is discarded.",
  [M+"command.go"], [("stream scanner goroutines", M+"command.go Exec"), ("echo to c.out / c.err", M+"command.go Exec")],
  observe=["stdout and stderr of the monny process"])
p("C02", "The wrapped command runs transparently and monny ends when it ends",
  "The wrapped command receives exactly the argument vector given after monny's own flags, monny's environment and working directory, and - when monny's stdin is a pipe - every byte of it followed by end-of-file. Whatever else a process inherits - umask, resource limits, credentials, priority, process group, open files, ignored hangups and interrupts - the command finds as it would without monny. Monny itself terminates (never hangs, never crashes) once the command has ended, whatever the command does with its stdin, stdout and stderr: ignoring a large or never-ending stdin pipe, closing its streams early, dying from a signal, writing to a full or failing output. A missing or unstartable command is a reported error, not a crash.",
  ["inputs", "schedules", "fault_sequences"], "all argument vectors, environments, stdin contents and stdin lifetimes, child behaviours on its standard streams, and output write errors",
  "Tests run echo/sleep/touch with the test's own stdin; stdin forwarding, broken pipes and full disks are never exercised.",
  [M+"command.go", "cmd/monny/main.go"], [("process start, pipes, stdin copy, wait", M+"command.go Exec"), ("error reporting path", M+"error.go")],
  observe=["child-side record of argv/env/stdin", "exit of the monny process"])
p("C03", "Outcome reports reach the server before monny exits",
  "When the wrapped command ends, a report of its outcome (success or failure) that is not suppressed by the no-notify options is received and acknowledged by the report server before monny exits, even if the server rejects, drops or delays the first attempts; once acknowledged it is not sent again, and a suppressed outcome is never sent. If the server never answers, monny gives up after its sending deadline and still exits without crashing.",
  ["fault_sequences", "schedules", "configurations"], "all exit statuses and notify settings, and sequences of refused, failed, negative, lost and delayed acknowledgements",
  "Tests call the sender directly with a mock or one healthy server and never let the program exit while a report is pending; no test has a failing server.",
  [M+"report.go", M+"handlers.go", M+"command.go", "cmd/monny/main.go"],
  [("background send with retry", M+"report.go sendBackground"), ("wait before exit", M+"command.go Wait"), ("notify suppression", M+"report.go Send")],
  observe=["gRPC report server", "exit of the monny process"], hook="sending deadline shortened under build tag verif")
p("C04", "Report facts agree with what actually happened",
  "Every report carries the configured id, this host's name, the full command line, and - in the final report - the command's true exit code, success flag (true exactly when the exit status was 0), and start, finish and duration values that are non-negative, mutually consistent and no shorter than the command's real run time. A run that monny did not kill is never marked killed.",
  ["inputs", "histories"], "all exit codes 0..255, deaths by signal, run times, ids and command lines",
  "Tests check ReportReason on a mocked report for exit 0 and exit 1; the transmitted report is never inspected.",
  [M+"report.go", M+"handlers.go", "pkg/pb/report.pb.go", "pkg/proto/enum.go"],
  [("report construction", M+"report.go reportFromCommand"), ("Finished/Timeout/KillOnHighMemory handlers", M+"handlers.go")],
  observe=["gRPC report server"])
p("C05", "Reports carry exactly the last N lines of each stream",
  "The final report of a run contains, for stdout and stderr independently, exactly the last N lines the command wrote to that stream in order (all of them when fewer than N were written), where N is the configured history size of that stream, for every N >= 0. Bytes that are not valid UTF-8 may be replaced but never prevent the report from being delivered.",
  ["inputs", "configurations", "schedules"], "all history sizes including 0 and 1, all numbers of lines on both streams, all line contents",
  "Tests only print one line with the default history of 30, so the history never fills up.",
  [M+"command.go", M+"report.go", M+"config.go"], [("bounded history append", M+"command.go processStdout/processStderr")],
  state=[("Stdout/Stderr history", "most recent lines of each stream", M+"command.go Command")], observe=["gRPC report server"])
p("C06", "Every rule match is alerted on, and only rule matches are",
  "Each line on stdout or stderr that matches a configured rule appears, with its match positions, in at least one alert report acknowledged before monny exits, no matter how matches interleave with the sending and acknowledgement of earlier alerts. Lines that match no rule never appear as matches, and never cause an alert: a run sends no more alerts than it had matching lines, and none if it had no matching line.",
  ["inputs", "schedules", "fault_sequences"], "all sets of rules, line sequences on both streams, and timings of alert acknowledgements relative to later lines",
  "Tests use a mocked sender that acknowledges instantly and never look at the alerts sent; only single lines on one stream are tried.",
  [M+"command.go", M+"report.go"], [("rule check per line", M+"command.go checkRule"), ("alert send and match reset", M+"report.go Send")],
  state=[("RuleMatches", "matches not yet alerted on", M+"command.go Command")], observe=["gRPC report server"])
p("C07", "JSON rules match exactly the addressed field and never break monny",
  "A JSON rule matches a line exactly when the line is a JSON object and the regular expression matches the text of the addressed (possibly dot-nested) field, where strings are taken as is, numbers in fixed six-decimal notation, booleans as true/false, and arrays as their scalar elements one per line; any other line or a missing field is treated as empty text. No line, however malformed or oddly typed, crashes monny or stops its monitoring.",
  ["inputs"], "all JSON documents, malformed lines, field paths and regular expressions",
  "Tests use one fixed JSON document with six fields; arrays of non-strings and malformed documents are not tried.",
  [M+"command.go"], [("field extraction", M+"command.go extractTextFromJSON"), ("rule check", M+"command.go checkRule")],
  observe=["gRPC report server"])
p("C08", "Rate-limited rules alert only when the configured rate is reached",
  "With a rule quantity q (and optional period p), where a match is one rule matching one line, an alert-rate report is sent only when at least q matches have accumulated since the last such report (within the last p, if p is set), and one is sent whenever q matches accumulate (within p); below that no alert is sent. After an acknowledged alert counting starts again from zero, and no match is counted towards two alerts.",
  ["histories", "schedules", "configurations"], "all quantities, periods, and sequences of matching lines over time and across both streams",
  "Tests call the rate function on prefabricated slices; accumulation, reset and concurrency with real output are not tested.",
  [M+"report.go", M+"command.go", M+"config.go"], [("rate computation", M+"report.go calcAlertRate"), ("reset on acknowledgement", M+"report.go Send")],
  observe=["gRPC report server"])
p("C09", "Time limits warn once and kill exactly the commands that exceed them",
  "A command still running when the kill timeout elapses is killed and a report marked killed with reason timeout is delivered; a command running past the notify timeout gets exactly one time-warning report and is not killed by it - also while other reports are still unanswered. A command that ends before a limit, its output having been read, causes neither, and without a configured limit no limit applies.",
  ["histories", "configurations", "schedules"], "all combinations of warn and kill limits and command run times",
  "Tests replace the report sender by a mock, so it is never checked that a warning or kill report is transmitted, or how often.",
  [M+"command.go", M+"handlers.go", M+"report.go"], [("timers in the run loop", M+"command.go Exec"), ("Timeout/TimeWarning handlers", M+"handlers.go")],
  observe=["gRPC report server", "fate of the child process"])
p("C10", "Memory limits warn once and kill exactly the commands that exceed them",
  "A command whose memory is sampled at or above the warn limit gets exactly one memory-warning report however long it stays there; one sampled at or above the kill limit is killed and a report marked killed with reason memory is delivered. A command whose memory stays below a limit triggers neither, and the reported maximum memory is at least what the command held resident while sampled and never decreases from report to report.",
  ["histories", "configurations"], "all memory profiles over time and combinations of warn and kill limits",
  "Tests use a 1K limit against sleep with a mocked sender: no memory profile, no transmitted report, no negative case.",
  [M+"handlers.go", M+"memory.go", M+"report.go"], [("CheckMemory/KillOnHighMemory", M+"handlers.go"), ("smaps accounting", M+"memory.go calculateMemory")],
  observe=["gRPC report server", "fate of the child process"])
p("C11", "A missing expected file is always reported, and never as success",
  "If any file named with the creates option does not exist when the command ends, a file-not-created report naming it is delivered, the run's success flag is false, and no success report is sent, whatever the exit status. If all of them exist the outcome is reported normally and each is listed with its actual size and modification time.",
  ["inputs", "configurations", "schedules"], "all sets of expected files, present or missing in any combination, and exit statuses",
  "Tests try one present and one missing file with a mocked report sender, and do not look at the reports sent.",
  [M+"handlers.go"], [("file check on completion", M+"handlers.go handleFileCreation")], observe=["gRPC report server"])
p("C12", "Command-line and YAML settings take effect exactly as written",
  "Any combination of settings given by flags, by a YAML file, or both, yields exactly the configuration written: every repeated or listed rule, JSON rule and expected file occurs once per mention, every scalar takes the given value (the last one if it is given repeatedly), a boolean explicitly set to false stays off, and unspecified settings keep their defaults. Expressing the same settings as flags or as YAML gives the same configuration, and an unknown or malformed setting, or a missing id, is reported as an error before the command is started.",
  ["inputs", "configurations"], "all combinations and orders of settings and values over both notations",
  "Tests try each option once in isolation, only with true booleans and single-list files.",
  [M+"parse.go", M+"config.go", "cmd/monny/main.go"], [("flag and YAML parsing", M+"parse.go"), ("functional options", M+"config.go")],
  observe=["effective configuration of the constructed command", "configuration embedded in reports"])
p("C13", "Reports travel only over verified TLS to the configured host",
  "Unless the insecure option is on, every connection monny opens for reports starts a TLS handshake with the configured host and port, and no report is delivered to a server whose certificate does not verify; nothing is ever sent in clear text. The insecure option is off unless explicitly set to true.",
  ["configurations", "fault_sequences"], "all ways of writing the host and insecure settings, and server identities (valid, untrusted, wrong name, non-TLS)",
  "Tests only send to an insecure server.",
  [M+"report.go", M+"config.go", M+"parse.go"], [("transport credentials", M+"report.go create")], observe=["bytes received by the server socket"])
p("C14", "Crash reports to the vendor carry no private data and can be disabled",
  "Error reports sent to the vendor's crash-reporting service never contain any of the wrapped command's output, its command line, or any configuration data such as the id, rules or file names. A run in which nothing fails inside monny sends none, and with error reports disabled none is sent at all.",
  ["inputs", "fault_sequences"], "all internal error paths (output write errors, stdin errors, failed or timed-out report sends) and private data contents",
  "No test lets an error be reported.",
  [M+"error.go", M+"report.go", M+"command.go"], [("ReportError call sites", M+"report.go, command.go"), ("opt-out flag", M+"config.go NoErrorReports")],
  observe=["HTTP server standing in for the vendor endpoint"], hook="sending deadline shortened under build tag verif")
p("C15", "The monitor has no data races",
  "While monny supervises a command - relaying both streams, matching rules, sampling memory, firing limits, and sending, retrying and acknowledging reports concurrently - no two of its goroutines access the same memory without synchronisation when one of them writes.",
  ["schedules"], "all interleavings of stream handling, timers and report sending",
  "The suite for this package is not run with the race detector and mocks away concurrent sending.",
  [M+"command.go", M+"report.go", M+"handlers.go"], [("Command.mutex", M+"command.go")], observe=["Go race detector reports"])
B = "pkg/eventbus/"
p("C16", "Events reach every matching subscriber exactly once per topic, no other",
  "An event dispatched before shutdown is delivered to each draining default-topic subscriber exactly once and to each draining subscriber of a dispatched topic once per such topic, with type and payload intact, under any number of concurrent dispatchers and subscribers. No subscriber receives an event for a topic it did not subscribe to, and dispatching to a topic nobody subscribed to is harmless. Events still undelivered when shutdown starts may be dropped, but nothing is ever delivered twice.",
  ["schedules", "histories"], "all subscription patterns, topics, numbers of dispatchers and events, and delivery interleavings",
  "Tests dispatch one event to at most two subscribers.",
  [B+"bus.go", B+"event.go"], [("fan-out goroutines", B+"bus.go Dispatch"), ("topic map", B+"bus.go subscribe")], observe=["subscriber channels"])
p("C17", "A slow, stuck or misbehaving subscriber does not affect the others",
  "A subscriber that reads slowly, stops reading altogether, or closes its own event channel never delays or loses events for other subscribers, never makes dispatching, subscribing or unsubscribing (itself or others) block, and never crashes the bus. After a subscriber is removed its channel is closed and it receives nothing more, while all others are unaffected.",
  ["schedules", "histories", "fault_sequences"], "all placements of stuck, slow and prematurely closing subscribers among well-behaved ones, and interleavings of subscribe, unsubscribe and dispatch",
  "Tests have no stuck subscriber; the one that closes its channel does so after delivery has settled.",
  [B+"bus.go"], [("one goroutine per send", B+"bus.go Dispatch"), ("Unsubscribe", B+"bus.go Unsubscribe")], observe=["subscriber channels", "return of bus calls"])
p("C18", "Shutdown always signals everyone, waits for them, and honours its deadline",
  "Shutting down the bus closes every subscriber's channel exactly once, and returns without error only after every subscriber has reported that it is finished; if the context ends first it returns the timeout error at that moment. This holds whatever the bus and its subscribers are doing at the time - pending or blocked deliveries, subscribers on several topics, subscribers that dispatch events while stopping or report themselves finished repeatedly, a repeated shutdown - and afterwards no event is delivered and dispatching is a harmless no-op; once the subscribers have finished, no internal goroutine stays behind.",
  ["schedules", "histories", "fault_sequences"], "all bus states and concurrent activity at the time of shutdown, deadlines, and orders in which subscribers finish",
  "Tests shut down an idle bus with identical well-behaved single-topic subscribers.",
  [B+"bus.go"], [("Shutdown/shutdownNotify", B+"bus.go"), ("ShutdownFunc", B+"bus.go Subscribe")], observe=["channel closes", "return value and (virtual) time of Shutdown"])
p("C19", "Event payloads round-trip unchanged and independently",
  "Decoding an event yields a value equal to the one it was created from and the same type tag, any number of times and from any number of receivers concurrently, regardless of what happens to the original value afterwards. Creating an event from an unencodable value, or decoding into an incompatible type, returns an error and never panics, whatever other payload types were used before.",
  ["inputs", "histories"], "all encodable payload values and types, in any order of use within a process",
  "Tests encode one struct and one byte slice.",
  [B+"event.go"], [("gob encoding", B+"event.go NewEvent/Decode")], observe=["decoded values and errors"])
L = "pkg/monny/proc/"
p("C20", "Log processor publishes and echoes every source line exactly once",
  "For every configured source, each line read is published exactly once on the log topic with its exact content and the time it was read, and written once, in order, to the sink belonging to that source (stdout to stdout, stderr to stderr) unless that output is disabled; disabled inputs publish nothing, and options have the same effect in any order. Also when both sinks lead to the same file, lines of up to 4095 bytes are written whole. This holds for lines of any length and any history size, and waiting for the processor returns successfully only after all sources are exhausted. A sink that cannot be written to affects nothing else; each line lost to it is reported as an error on the bus's error topic.",
  ["inputs", "configurations", "schedules"], "all line contents and lengths, chunkings, option combinations and orders",
  "Tests only check the option filters; no log line is ever processed.",
  [L+"logs.go", L+"logopt.go"], [("startLogEmitter", L+"logs.go"), ("option priorities", L+"logopt.go")], observe=["events on the log topic", "bytes written to the sinks"])
p("C21", "The history queue keeps exactly the most recent lines",
  "A queue of capacity n holds the most recent min(n, added since last clear) strings in insertion order, for every n >= 0, and each operation takes effect atomically when used from many goroutines. A returned copy is never changed by later operations.",
  ["histories", "schedules", "inputs"], "all capacities and sequences or concurrent interleavings of add, copy and clear",
  "Tests use capacity 2 and at most three adds from one goroutine.",
  [L+"queue.go"], [("Add/Copy/Clear", L+"queue.go")], observe=["Copy results"])
p("C22", "A ticker emits one event per period until shutdown and then stops",
  "A ticker publishes one event of its type per elapsed period, none if the period is zero, for as long as the bus runs. When the bus shuts down the ticker acknowledges the shutdown, stops emitting, and leaves nothing running behind.",
  ["schedules", "histories"], "all periods, bus loads and moments of shutdown",
  "The test only checks that at least one tick was seen within a second.",
  [L+"ticker.go"], [("ticker goroutine", L+"ticker.go NewTicker")], observe=["events received", "goroutines left behind"])
T = "pkg/metric/"
p("C23", "Windowed counters never lose, double or misplace counts",
  "At any time the counts of all recorded windows plus the current one add up to everything added since the last reset, each addition is counted in the window that was open when it was made, and a window opens at the first addition after the previous one ended. The current value is the count of the open window, zero once it has ended, and a counter without window length behaves as a plain monotonic counter.",
  ["histories", "inputs"], "all sequences of additions, resets and reads at arbitrary times, and window lengths including zero",
  "Tests use four fixed sequences on real time with generous sleeps.",
  [T+"counter.go"], [("WindowedCounter Add/Value", T+"counter.go")], observe=["Value, History, HistoryInclusive"])
p("C24", "Counter history respects its limits and is a stable snapshot",
  "A window history returned at some moment lists the completed windows (plus the open one if requested) in time order, restricted to those started within the maximum history duration and to the most recent maximum-history entries when these limits are set, dropping nothing else. Later use of the counter never changes a history already returned.",
  ["histories", "configurations"], "all limits and sequences of additions, resets and history reads",
  "Tests check two limit cases once and never keep a returned history.",
  [T+"counter.go"], [("newHistory", T+"counter.go")], observe=["History, HistoryInclusive"])
p("C25", "Concurrent counters are linearizable and free of data races",
  "Concurrent adds, resets, value and history reads on the concurrent counters behave as if executed one at a time in an order consistent with real time, so no addition is ever lost or counted twice, and cause no data race.",
  ["schedules", "histories"], "all interleavings of operations from any number of goroutines",
  "The test only adds concurrently and reads after all goroutines have finished.",
  [T+"counter.go"], [("RWMutex wrappers", T+"counter.go")], observe=["recorded operation histories", "race detector reports"])
p("C26", "A series always holds the latest observations in temporal order",
  "A series of capacity n returns its most recent n observations from oldest to newest once n or more were recorded, and before that the recorded ones followed by zeros; the count equals the number of observations recorded since the last reset, including initial values. Returned values are copies that neither affect nor are affected by later recording.",
  ["histories", "inputs"], "all capacities >= 1, initial values and sequences of record, read and reset",
  "Tests use three short fixed sequences.",
  [T+"series.go"], [("ring index", T+"series.go nextIndex/Values")], observe=["Values, Count"])
p("C27", "Sampled series record exactly one aggregate per window",
  "Each elapsed sample window contributes exactly one value to the series: the configured aggregate (sum, average, minimum, maximum) of exactly the observations recorded during that window, or zero if there were none; without a window each observation is stored directly. Concurrent recording and reading lose nothing and do not race, and after the cleanup function returns no further samples are added.",
  ["histories", "schedules", "inputs"], "all observation times and values relative to window boundaries, aggregates, capacities and concurrent recorders",
  "Tests use one or two windows with two observations on real time.",
  [T+"sampled.go"], [("sampling goroutine", T+"sampled.go NewSampledSeries"), ("aggregates", T+"sampled.go")], observe=["Values, Count"])
p("C28", "Metric names render canonically, injectively and copy independently",
  "A metric name's text depends only on its name, key/value metadata and annotations - not on insertion order - lists sorted key/value pairs then sorted @annotations, separated by single blanks, and can be parsed back to the same contents (for identifier names and keys and any UTF-8 values), so different metadata never renders to the same text. A copied name renders identically to the original and changing either never affects the other, and metadata can be added to any name including one created without metadata.",
  ["inputs", "histories"], "all names, metadata maps (identifier keys, arbitrary valid UTF-8 values) and orders of additions and copies",
  "Tests check five fixed renderings.",
  [T+"name.go"], [("MarshalText", T+"name.go"), ("NewNameFrom", T+"name.go")], observe=["String()"])
S = "pkg/stat/"
p("C29", "Alarms follow the documented EWMA control-limit computation",
  "After its baseline of n observations a test statistic's limit is mean + k*sqrt(lambda/(2-lambda)*variance) of the (transformed) baseline for upward and mean - k*sqrt(...) for downward testing, its value is the exponentially weighted average of later observations started at the baseline mean, and it alarms exactly at the first observation whose value reaches the limit. Once alarmed it stays alarmed, ignoring further observations, until explicitly moved to another state.",
  ["inputs", "histories"], "all observation sequences, smoothing factors, baseline sizes, k values, distributions and legal state changes",
  "Tests feed one randomly shifted sequence and check only that it eventually trips.",
  [S+"estimator.go", S+"pdf.go", S+"state.go", S+"k.go"], [("Record/calculateCurrent/calculateLimit", S+"estimator.go")], observe=["State, Value, Limit, HasAlarmed"])
p("C30", "Invalid observations and refused transitions leave a statistic untouched",
  "An observation whose transformed value is undefined (zero, negative or non-finite for log-normal; non-finite for Poisson) is rejected with an error and has no effect on any later result, and every valid observation is accepted without error in every state. A state change that is not allowed is refused with an error and leaves baseline, value, limit and state as they were; after a reset the statistic gathers a fresh baseline exactly as a new one would.",
  ["inputs", "histories"], "all placements of invalid observations and transition requests in any history",
  "Tests never record an invalid observation nor request a transition.",
  [S+"estimator.go", S+"state.go"], [("Record validation", S+"estimator.go"), ("transition table", S+"state.go")], observe=["returned errors", "State, Value, Limit"])
p("C31", "Log-normal detection does not depend on the unit of measurement",
  "Multiplying all observations of a log-normal metric by the same positive constant (for example measuring in seconds instead of milliseconds) does not change when, or whether, its test leaves the baseline phase or alarms.",
  ["inputs", "histories"], "all positive observation sequences and positive scale factors",
  "Tests use one scale (mean log latency 5.3).",
  [S+"estimator.go", S+"pdf.go"], [("baseline acceptance condition", S+"estimator.go Record")], observe=["State sequence"])
p("C32", "Default tests keep their false-alarm rate and detect sustained shifts",
  "With the log-normal and Poisson EWMA statistics (baseline of 50, lambda 0.25) configured for an error rate of 5 or 1 percent, the fraction of stationary runs of 100,000 observations that raise an alarm is that rate within a factor of three. At 5 percent a sustained upward shift of the mean by one standard deviation is detected within 20,000 observations in nearly all runs, and one by 1.5, 2, 3 or 5 standard deviations always within 10,000, 1,000, 100 and 30 observations; the default Poisson test, which adds up events over 15 second windows, detects a sustained tenfold rate of events within an hour. A smaller configured error rate always gives a wider limit.",
  ["inputs", "histories"], "random stationary and shifted observation sequences drawn from the modelled distributions",
  "The tests do not measure error rates; only three k values are compared to a table.",
  [S+"k.go", S+"kconst_gen.go", S+"estimator.go"], [("calibrated k", S+"k.go calculate")], observe=["HasAlarmed over many simulated runs"])
p("C33", "A composite test alarms if any statistic does and moves them together",
  "A test feeds each valid observation to all of its statistics, reports an alarm exactly when at least one of them is alarmed, and reports for every statistic its own current value and limit under distinct metric names derived from the test's name without altering that name. Requesting a state change is attempted on every statistic, also if one refuses, and the first refusal is returned. Finishing the test stops the sampling of all of its statistics. Without options a test consists of the documented pair: an EWMA statistic with lambda 0.25 and a Shewart statistic with lambda 1.0, each with a baseline of 50 observations and an error rate of 5 percent (and 15 second windows for Poisson).",
  ["inputs", "histories"], "all sets of statistics, observation sequences and transition requests",
  "Tests use a single statistic.",
  [S+"stattest.go", S+"lognormal.go", S+"poisson.go"], [("Test.Record/Transition/HasAlarmed/Metric", S+"stattest.go")], observe=["Test API"])
F = "pkg/fsm/"
p("C34", "State machines make only declared transitions and stop when told to",
  "A machine changes state only along declared transitions: an undeclared one is refused with an error and leaves the state unchanged, a declared one succeeds. With the stop option any refused transition stops the machine so that every later transition fails without changing state until a reset, which restores the initial state and lifts the stop; without it refusals have no lasting effect.",
  ["histories", "configurations"], "all transition graphs, options and sequences of transition and reset requests",
  "Tests walk two fixed paths.",
  [F+"fsm.go", F+"options.go", F+"transition.go"], [("Machine.transition", F+"fsm.go"), ("stoppable guard", F+"options.go")], observe=["State, Allowable, errors"])
p("C35", "Nonce-protected transitions need the current nonce, usable once",
  "A nonce-protected machine changes state only when the transition is declared and the supplied nonce equals the current one; missing, stale, replayed or altered nonces are refused with an error and leave the state unchanged. Every attempt, successful or not, and every reset replaces the nonce by a fresh unpredictable value never used before.",
  ["histories", "inputs"], "all sequences of attempts with current, stale, altered, truncated and foreign nonces, with and without the stop option",
  "Tests make three attempts with the current or an empty nonce.",
  [F+"nonce.go"], [("nonce guard", F+"nonce.go ok"), ("renewal", F+"nonce.go Transition/reset")], observe=["State, Nonce, errors"])
p("C36", "Random generators follow their stated distribution",
  "The log-normal generator yields positive finite values whose logarithms have the requested mean and standard deviation, and the Poisson generator yields non-negative integers whose mean and variance equal the requested rate, for every parameter in the practical range (standard deviation from 0 to 10, rate from 0 to 500).",
  ["inputs"], "all generator parameters in range",
  "One test samples one log-normal parameter pair; the Poisson generator is untested.",
  ["pkg/rng/lognormal.go", "pkg/rng/poisson.go"], [("Rand", "pkg/rng/*.go")], observe=["Rand()"])
p("C37", "An interrupt is passed on and reported before monny exits",
  "When monny is interrupted (SIGINT) while it supervises a command, the command receives that signal, and exactly one report saying that the run was killed by a signal - with the duration up to then and never as success - is acknowledged by the report server before monny exits, whatever the no-notify options, and also if the first attempts to send it are refused, dropped, rejected or unanswered. Reports that were already being sent are still delivered. Monny neither dies from the signal nor hangs, whether the command ends on it, handles it or ignores it; a command that does not end on the signal is not ended by monny.",
  ["schedules", "fault_sequences"], "moments of the interrupt, reactions of the command, options and sequences of failed sends",
  "The signal handler is only called directly with mocks; no test sends a signal to a running monny.",
  [M+"command.go", M+"handlers.go", M+"report.go"], [("signal.Notify and the event loop", M+"command.go Exec"), ("handler.Signal", M+"handlers.go")],
  observe=["report server log", "child-side record of the signal", "exit of the monny process"])
p("C38", "Supervising uses a bounded amount of resources",
  "Monny's goroutines, open files and live memory do not grow with how long a command runs: not with the number or size of lines relayed, with lines kept as history, with matches alerted on, with reports sent and acknowledged, with send attempts that were refused, dropped, rejected or given up, nor with matches that stay below the configured rate within its period. After a burst of work its goroutines and open files return to what they were before.",
  ["histories", "fault_sequences"], "run lengths, output volumes, numbers of reports and failed attempts, and rule settings",
  "Tests end after a line or two; a leak of a connection, goroutine or line per report or line is invisible to them.",
  [M+"command.go", M+"report.go"], [("history and match lists", M+"command.go processStdout"), ("connection per attempt", M+"report.go sendBackground"), ("restoring unreported matches", M+"report.go Send")],
  observe=["runtime.NumGoroutine, live heap and open files of the supervising process"])
p("C39", "Streams pass through at once and independently",
  "As soon as the command has written a complete line it comes out of monny, without the command having to write more, close the stream or end; likewise every piece written to monny's stdin pipe reaches the command at once. Neither stream waits for the other, for unanswered, refused or undeliverable reports, or for limits being checked: while nobody reads one of monny's output streams the other one is still relayed and matched, input is still passed on, and time limits still end the command and are reported.",
  ["schedules", "inputs", "fault_sequences"], "conversations between the command and its readers and writers, unread streams, and report server behaviours",
  "Tests look at the output once the command has ended; buffering or coupling of the streams makes no difference to them.",
  [M+"command.go"], [("stream goroutines", M+"command.go Exec"), ("background sending", M+"command.go send")],
  observe=["both ends of the three streams", "report server log"])
p("C40", "Delivery of a report is attempted for an hour",
  "A report that cannot be delivered at first - because nobody listens or because the server refuses, rejects, drops or does not confirm it - is sent again, after pauses that grow from under a second and never exceed two minutes, for one hour: it is delivered, once, if the server becomes able to accept it within the first fifty minutes, and no later than a few minutes after that. The server is not flooded with attempts. Reports under way at the same time are retried independently of each other. After the hour monny gives up and ends.",
  ["fault_sequences", "histories"], "all lengths of outages up to the hour, ways of failing, and sets of reports under way",
  "Tests use a mocked sender or a healthy server, and no test can wait for an hour.",
  [M+"report.go", M+"command.go"], [("retry with exponential backoff", M+"report.go sendBackground"), ("deadline of a report", M+"report.go Send"), ("wait before exit", M+"command.go Wait")],
  observe=["gRPC report server with a virtual clock", "end of Exec and Wait"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
