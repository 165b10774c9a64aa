"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy
to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [],
                          "hook_needed": None}})

SP = "txstatsd/server/processor.py"
CP = "txstatsd/server/configurableprocessor.py"
RO = "txstatsd/server/router.py"
RE = "txstatsd/report.py"

prop("C01", "A message is recorded exactly once or rejected without any effect",
 "Whatever text a message consists of, processing it never raises, in either reporting mode. A well-formed message (name:number|type with an optional third field, of a known type) contributes exactly one sample to the metric of that name and type, and nothing else changes (the server's statistics about itself apart). A malformed one (no colon, no bar, wrong number of fields, unknown type, a value that is not a number, a counter's sample rate that is not a number or is zero in compliant mode, or for gauges and meters a colon inside the value) is reported to the log once and leaves everything later flushed as if it had never arrived.",
 ["inputs", "histories", "configurations"],
 "all short message texts character by character, all structured messages over symbolic names, values, types and rates, both reporting modes, before and after other messages",
 "The tests feed a dozen literal lines; acceptance and rejection must be right for every byte string and every field combination.",
 [SP, CP], [("message splitting and validation", SP + ":process"), ("per-type value parsing", SP + ":process_*_metric"), ("absolute counters", CP + ":process_counter_metric")],
 ["datapoints of a later flush", "bad-line log entries"])

prop("C02", "Names are normalised for graphite and values never bleed into them",
 "The reported name of a sample is the text before the first colon of the whitespace-trimmed message, with every run of whitespace replaced by one underscore, every run of slashes by one dash, and every other character outside letters, digits, underscore, dash and dot removed. Nothing else of the message reaches the name, normalising an already normal name changes nothing, and the routed and the direct path agree on it.",
 ["inputs"],
 "all names up to a bounded length over all 256 byte values",
 "Two or three literal names are tested; the mapping is a function on all byte strings.",
 [SP], [("normalize_key", SP + ":normalize_key"), ("key extraction", SP + ":process")], ["key given to the processing step"])

prop("C03", "Counters report the rate-corrected sum of each interval, then restart at zero",
 "In statsd-compliant mode each flush reports, for every counter name seen so far, a total equal to the sum over the messages received since the previous flush of value divided by sample rate (1 when absent), and a per-second value equal to that total divided by the interval in whole seconds. After being reported the total restarts at zero, the name stays reported (as zero when idle), and different names never affect each other.",
 ["histories", "inputs"],
 "all histories of bounded length of counter messages with arbitrary values and rates on up to a few names, interleaved with flushes at arbitrary intervals",
 "Tests use one or two samples and a single flush; the law ranges over all values, rates, names, and flush placements.",
 [SP], [("accumulation", SP + ":compose_counter_metric"), ("reset at flush", SP + ":flush_counter_metrics")], ["stats.<name>, stats_counts.<name> datapoints"])

prop("C04", "Timer summaries are the exact order statistics of the interval's durations",
 "In statsd-compliant mode a flush reports for every timer that received n>0 samples since the previous flush its count n, lowest and highest value, the highest value among the n - round(n*(100-percent)/100) smallest, and the mean of exactly those values (a single sample is its own mean). The samples are then forgotten: each sample is summarised in exactly one flush and a timer with none is not reported.",
 ["histories", "inputs"],
 "all sample lists up to a bounded length with arbitrary values in arbitrary order, every percentile threshold, across several flushes",
 "Order statistics over arbitrary values and thresholds; tests try three lists at the default threshold.",
 [SP], [("timer flush", SP + ":flush_timer_metrics"), ("sample collection", SP + ":compose_timer_metric")], ["stats.timers.<name>.* datapoints"])

prop("C05", "A gauge always reports the last value it was given",
 "In either mode, once a gauge name has received a value every later flush reports exactly one datapoint for that name, the most recently received value, unchanged (sign and fraction included), until another value arrives; gauges of different names never affect each other.",
 ["histories", "inputs"],
 "all histories of bounded length of gauge messages and flushes over a few names with arbitrary values, both modes",
 "Requires all update/flush orders and names, the tests mark one gauge once.",
 [SP, CP, "txstatsd/metrics/gaugemetric.py"], [("gauge store", SP + ":compose_gauge_metric"), ("configurable gauge", "txstatsd/metrics/gaugemetric.py:GaugeMetricReporter")], ["*.value datapoints"])

prop("C06", "Meters never lose or invent events: count is cumulative, rate is per second",
 "In either mode, a meter's reported count is the sum of all values received for that name up to that flush, and its rate is the sum received since its previous report (or creation) divided by the seconds elapsed since then, both rounded to six decimals. A flush at the same instant as the previous report, or at a clock reading before it, may report nothing but never loses the pending events, and non-negative events never yield a negative rate.",
 ["histories", "inputs"],
 "all histories of bounded length of meter messages and flushes at arbitrary clock readings (repeated and backward ones included), both modes",
 "Elapsed time and event sums are arbitrary; tests use integer clocks that always advance.",
 ["txstatsd/metrics/metermetric.py", SP, CP], [("meter report", "txstatsd/metrics/metermetric.py:MeterMetricReporter.report")], ["*.count, *.rate datapoints"])

prop("C07", "Non-compliant mode: absolute counters, prefixes and self-metric naming",
 "In non-compliant mode a counter reports, on every flush, the last received value truncated toward zero, ignoring sample rates and never resetting. Every datapoint name is the configured prefix (not itself ending with a dot) and a dot (nothing when the prefix is empty) followed by the metric name and its suffix, and self-metrics start with the configured internal prefix, or the message prefix followed by .statsd., or plain statsd. when neither is set.",
 ["histories", "inputs", "configurations"],
 "all bounded histories of counter, gauge, timer and meter messages with arbitrary values under every combination of prefixes",
 "Prefix combinations crossed with metric kinds and values; tests cover a few fixed pairs.",
 [CP, "txstatsd/metrics/countermetric.py"], [("prefix handling", CP + ":__init__"), ("truncation", "txstatsd/metrics/countermetric.py:CounterMetricReporter.report")], ["all datapoints of a flush"])

prop("C08", "Non-compliant timers report true statistics of the interval, then clear",
 "In non-compliant mode each flush reports for every timer the minimum, maximum, mean, sample standard deviation and interpolated 99 and 99.9 percentiles of the non-negative durations received since the previous flush (zeros when there were none), a count of all durations ever received, and a rate equal to the number of non-negative durations since the previous flush divided by the seconds elapsed since then (when some have), each rounded to six decimals. Negative durations are counted and otherwise ignored, rates are never negative, and nothing leaks from one interval into the next.",
 ["histories", "inputs"],
 "all bounded histories of timer messages (any sign) and flushes at arbitrary clock readings",
 "Statistics over arbitrary value lists and elapsed times; tests use one literal list.",
 ["txstatsd/metrics/timermetric.py", "txstatsd/metrics/histogrammetric.py", CP], [("timer reporter", "txstatsd/metrics/timermetric.py:TimerMetricReporter")], ["timer datapoints of a flush"])

prop("C09", "Samples arriving while a flush is being drained are neither lost nor doubled",
 "A flush is drained one datapoint at a time while messages keep arriving. Whatever messages arrive between any two of its datapoints, draining it to the end never fails, and over this flush and the next one every counter, timer and meter sample is accounted exactly once, every gauge ends at its latest value, and every received message is counted exactly once in the reported receive counts.",
 ["schedules", "histories"],
 "every position between two datapoints of a flush at which one or two further messages of any type, for known or new names, are processed; both modes",
 "No test processes a message while a flush generator is suspended; the interleavings are the quantifier.",
 [SP, CP], [("flush generators", SP + ":flush"), ("summary and its reset", SP + ":flush_metrics_summary")], ["datapoints of two consecutive flushes"])

prop("C10", "The server's statistics about itself are exact",
 "Each flush reports numStats equal to the number of metrics flushed, which is the sum of the per-kind flush counts, and each per-kind flush count equals the number of metrics of that kind handled in that flush (a meter with nothing to report yet included). For every message type received since the previous flush it reports the number of messages of that type that reached processing and the time spent on them in milliseconds, and forgets them afterwards; the last flush and processing durations equal the sums of what was reported.",
 ["histories", "inputs"],
 "all bounded histories over all types and names with a clock advancing by arbitrary amounts, in both modes",
 "Tests freeze the clock and use at most one metric per kind.",
 [SP], [("summary", SP + ":flush_metrics_summary"), ("accounting", SP + ":process_message")], ["self-metric datapoints", "last durations"])

prop("C11", "Once accepted, no sample can keep a flush from completing",
 "Any message the server accepts, including values written as infinity, nan, negative zero or huge numbers, leaves it in a state in which every later flush runs to completion without raising and reports every other metric as if that message had not been sent, in either mode and with dump mode on or off.",
 ["inputs", "histories", "configurations"],
 "every metric type with every class of number text including non-finite ones, followed by flushes at arbitrary later clock readings, both modes",
 "Non-finite and extreme values never occur in the tests, yet a single UDP datagram can carry them.",
 [SP, CP, "txstatsd/metrics/countermetric.py", "txstatsd/metrics/timermetric.py", "txstatsd/metrics/metermetric.py"], [("flush", SP + ":flush")], ["completion and datapoints of flush"])

prop("C12", "Routing applies the configured rules exactly, in order",
 "A message is passed through the rules in order; a rule whose condition (any, metric_type, path_like, or the negation of one) does not hold leaves it alone, drop removes it, rewrite replaces every match of the pattern in the name, and set_metric_type replaces the type. With dup the original continues as well (for rewrite only when the pattern occurs in the name), every resulting message goes through the remaining rules, and whatever survives all rules reaches the processor once, with value and rate fields untouched; with no rules every message reaches it unchanged.",
 ["configurations", "inputs"],
 "all rule lists of bounded length from a grammar of conditions and targets, over messages with symbolic names, types and values",
 "Tests check single rules on literal messages; composition, duplication and negation interact.",
 ["txstatsd/server/router.py"], [("rule construction", "txstatsd/server/router.py:build_rules"), ("rule application", "txstatsd/server/router.py:process_message")], ["messages reaching the processor"])

prop("C13", "Redirected messages arrive intact and survive back-pressure",
 "A message redirected over UDP or TCP is sent as one well-formed line name:value|type[|rate] (fields without line breaks) carrying the effective name and type at that point of the rules, while the message itself continues through the remaining rules, whether or not the redirect has a service to live in. TCP lines always end with exactly one CRLF; while the connection is paused messages are dropped and counted rather than queued, and after it resumes every message is sent again. When an attempt at a TCP connection fails or a connection is lost another attempt follows within an hour, within seconds after a successful one, and every message goes out over the connection of the moment, never over an earlier one and never twice.",
 ["inputs", "histories", "configurations"],
 "all messages (symbolic texts and line endings) and all bounded sequences of pause, resume and write events, with rules changing name and type before the redirect",
 "Tests send one literal line and never pause or resume.",
 ["txstatsd/server/router.py"], [("redirect targets", "txstatsd/server/router.py:build_target_redirect_*"), ("TCP producer", "txstatsd/server/router.py:TCPRedirectProtocol")], ["bytes written to transports"])

prop("C14", "Client calls emit exactly the documented line protocol",
 "Each client call writes exactly one line fully-qualified-name:value|type, where the name is namespace, dot, name (no dot when there is no namespace), gauge, meter, increment, decrement, timing, distinct and sli use their documented types, decrement negates, timings are converted from seconds to milliseconds, and extended clients send the running counter total. With a sample rate below 1 the line is sent only when the random draw does not exceed the rate and then carries |@rate; at rate 1 or above it is always sent without that suffix, and with no connection nothing is sent and nothing raises. (A name is used for one kind of metric and with one sample rate.)",
 ["inputs", "histories"],
 "all bounded call sequences with arbitrary values, rates, random draws, clock readings and namespaces",
 "Random draws, rates and values are arbitrary; tests use fixed draws and integers.",
 ["txstatsd/metrics/metrics.py", "txstatsd/metrics/extendedmetrics.py", "txstatsd/metrics/metric.py", "txstatsd/metrics/countermetric.py", "txstatsd/metrics/timermetric.py", "txstatsd/metrics/gaugemetric.py", "txstatsd/metrics/metermetric.py", "txstatsd/metrics/distinctmetric.py"],
 [("sending", "txstatsd/metrics/metric.py:send"), ("client API", "txstatsd/metrics/metrics.py:Metrics")], ["bytes handed to the connection"])

prop("C15", "What a client reports is what the server records",
 "A value reported through the client API and processed by this server is recorded under the same (normalised) fully qualified name with the value the client gave, to the precision of its printed form: gauges and meters as given, timings in milliseconds, counters scaled by the reciprocal of the sample rate in compliant mode and as the running total in non-compliant mode. No value or sample rate a client can send is rejected or misread by the server. (A name is used for one kind of metric and with one sample rate.)",
 ["inputs", "histories"],
 "all client calls with arbitrary finite values and sample rates in (0,1], whatever notation their text takes (exponent notation included), into both server modes",
 "No existing test connects the client to the server parser; number formatting and parsing must agree for all magnitudes.",
 ["txstatsd/metrics/metrics.py", "txstatsd/metrics/metric.py", SP, CP], [("formatting", "txstatsd/metrics/metric.py:send"), ("rate parsing", SP + ":RATE")], ["datapoints of a flush after client calls"])

prop("C16", "Consistent hashing is stable, balanced by the ring and minimally disruptive",
 "The node chosen for a key depends only on the key and the set of nodes, not on insertion order or earlier queries, and is the owner of the first ring position at or after the key's hash, wrapping around. With no two replicas at the same position, removing a node only moves the keys that node owned, adding one only moves keys to the new node, remove undoes add, and the preference list of a key starts with its node and names every node exactly once; the hashing client sends each line to the node of its metric name, unmodified.",
 ["inputs", "histories", "configurations"],
 "all hash values of keys and replicas (symbolic ring positions, collisions excluded), all insertion orders and add/remove histories on small rings",
 "Tests sample the ring with fixed md5 values; stability is a statement about all positions and orders.",
 ["txstatsd/hashing.py", "txstatsd/client.py"], [("ring lookup", "txstatsd/hashing.py:get_node"), ("membership", "txstatsd/hashing.py:add_node/remove_node")], ["node returned, client written to"])

prop("C17", "The async client delivers in order, exactly once, with bounded queueing",
 "Whatever order host resolution, connection and writes happen in, every message written is handed to the transport exactly once and in writing order as soon as both the address is resolved and a transport is connected, addressed to the resolved host and given port, except that while waiting at most 1000 messages are kept and later ones are discarded; messages written from the connect callback follow those queued before. Transport errors and failed resolution never raise into the caller, and each sent message's callback is told the outcome once. The host is resolved once.",
 ["schedules", "histories", "fault_sequences"],
 "all bounded interleavings of write, resolve, connect, disconnect and reconnect, with transport faults at any send, and queue limits around the boundary",
 "Tests try two fixed orders; ordering and exactly-once are over all interleavings.",
 ["txstatsd/protocol.py"], [("queue", "txstatsd/protocol.py:DataQueue"), ("gateway", "txstatsd/protocol.py:TransportGateway"), ("client", "txstatsd/protocol.py:TwistedStatsDClient")], ["transport writes, callbacks"])

prop("C18", "The uniform reservoir holds a faithful sample of the stream",
 "After any number of updates the uniform sample holds min(n, capacity) values, all of them among the values given, every value while the stream fits the capacity, and each update beyond that replaces at most one slot, chosen by the random draw so that the n-th value is kept for exactly a capacity-in-n share of any n consecutive draws. Clearing empties it completely.",
 ["inputs", "histories"],
 "all bounded update histories with arbitrary values, every random draw, small capacities",
 "Random draws are fixed or averaged in tests; membership must hold for every draw.",
 ["txstatsd/stats/uniformsample.py"], [("algorithm R", "txstatsd/stats/uniformsample.py:update")], ["get_values(), size()"])

prop("C19", "The decaying reservoir keeps the heaviest items at their right weights",
 "The exponentially decaying sample holds min(n, capacity) of the values given; a value beyond capacity displaces the entry of lowest priority exactly when its own priority exp(alpha*age)/u, with u one minus the random draw, is higher. Rescaling to a new landmark, at whatever time it happens, changes neither membership nor the relative order of priorities, and no random draw in [0,1) makes an update fail.",
 ["inputs", "histories"],
 "all bounded histories of updates with arbitrary values, timestamps (rescaling included) and every random draw in [0,1)",
 "Draws and times are arbitrary; tests only count values.",
 ["txstatsd/stats/exponentiallydecayingsample.py"], [("update", "txstatsd/stats/exponentiallydecayingsample.py:update"), ("rescale", "txstatsd/stats/exponentiallydecayingsample.py:rescale")], ["get_values(), size()"])

prop("C20", "Histogram statistics equal their textbook definitions",
 "For every list of recorded finite values the histogram reports the true minimum, maximum and mean, the sample standard deviation (zero for fewer than two values), percentiles that interpolate between the sorted sample values, stay between minimum and maximum and grow with the percentile, and a histogram of bins of equal width, as many as Sturges' rule gives for the number of recorded values, whose counts add up to the number of sampled values. An empty or cleared one reports zeros, and none of these can fail for any recorded values, all equal ones included.",
 ["inputs", "histories"],
 "all value lists up to a bounded length with arbitrary (negative, equal, unordered) values, and all percentiles",
 "Running variance and interpolation over arbitrary reals; the tests use one arithmetic progression.",
 ["txstatsd/metrics/histogrammetric.py"], [("Welford update", "txstatsd/metrics/histogrammetric.py:update_variance"), ("percentiles", "txstatsd/metrics/histogrammetric.py:percentiles"), ("bins", "txstatsd/metrics/histogrammetric.py:histogram")], ["statistics methods"])

prop("C21", "The moving average follows its recurrence for every update pattern",
 "A moving average's first tick sets the rate to the events counted since creation divided by the interval; each later tick moves it by alpha times the gap between the new interval's rate and the old one, so it always lies between them, decays towards zero when idle without changing sign, and counts every update in exactly one tick.",
 ["inputs", "histories"],
 "all bounded sequences of updates and ticks with arbitrary values, for every smoothing constant in (0,1] and the three standard ones",
 "The tests follow one literal decay sequence.",
 ["txstatsd/stats/ewma.py"], [("tick", "txstatsd/stats/ewma.py:tick")], ["rate"])

prop("C22", "Distinct counting is idempotent, monotone and window-consistent",
 "The distinct estimate does not change when an item already counted at that time is seen again, does not depend on the order of items seen at the same time, never decreases as items are added at non-decreasing times, and an estimate over a shorter window never exceeds one over a longer window. Each flush, on a clock of real time that never goes back, reports the estimates for all time, one day, one hour and one minute under the metric's name, and the estimate equals 2^(average run of buckets touched since the window start) / 0.77351, truncated. Items that differ in a single character, wherever in the item it stands, are told apart by a hash function whose entries for the two characters differ.",
 ["inputs", "histories"],
 "all bounded histories of items with arbitrary hash values and arbitrary non-decreasing times, every window start",
 "Hash functions are random tables; tests check statistical accuracy only.",
 ["txstatsd/metrics/distinctmetric.py"], [("bucket update", "txstatsd/metrics/distinctmetric.py:add"), ("estimate", "txstatsd/metrics/distinctmetric.py:distinct"), ("report", "txstatsd/metrics/distinctmetric.py:flush")], ["distinct(), flush()"])

prop("C23", "Service-level counts classify every sample and reset each flush",
 "For a service-level metric each flush reports the number of samples since the previous flush, the number of error samples, and for every configured condition the number of non-error samples satisfying it: above means value > v + slope*size, below means value < v + slope*size, between means low < value < hi, with size 1 when the message carries none. A message whose value is neither a number nor the word error, or whose size is not a number, is rejected without effect and without raising.",
 ["inputs", "histories"],
 "all bounded histories of messages with arbitrary values, sizes and error samples, for all threshold and slope values",
 "Thresholds and samples are arbitrary reals; tests use one configuration.",
 ["txstatsd/metrics/slimetric.py", SP, "twisted/plugins/sli_plugin.py"], [("classification", "txstatsd/metrics/slimetric.py:update"), ("conditions", "txstatsd/metrics/slimetric.py:*Condition"), ("plugin dispatch", SP + ":process_plugin_metric")], ["flush datapoints"])

prop("C24", "Service-level rules attach exactly the configured conditions to each metric",
 "A rules text with one 'pattern => label IF above|below|between numbers' rule per line yields, for a metric, precisely the conditions of the patterns matching its full prefixed name, under their labels (distinct ones among those patterns) and with their numbers; lines not of that form and unknown conditions are refused at configuration time. Metrics matching no pattern carry no conditions but are still counted.",
 ["configurations", "inputs"],
 "all rule texts of bounded size built from the grammar (and corrupted ones), over all short metric names",
 "Only three literal rules are tested.",
 ["twisted/plugins/sli_plugin.py", "txstatsd/metrics/slimetric.py"], [("rule parsing", "twisted/plugins/sli_plugin.py:configure"), ("matching", "twisted/plugins/sli_plugin.py:build_metric")], ["conditions of the built metric", "flush datapoints"])

prop("C25", "Options: command line beats configuration file beats default",
 "For every option the effective value is the one given on the command line, in long or short form, else the one in the configuration file's main section, else the documented default, with numbers converted to numbers. Unknown names in the file are ignored, carbon-cache sections of the file accumulate hosts, ports and names in section order, plugin sections are passed on whole, and the reserved config option cannot be redefined.",
 ["configurations"],
 "every subset of options given on the command line (long and short forms) crossed with every subset given in the file, with arbitrary values",
 "Combinations of three sources, two forms and all options; tests try a handful of long-form cases.",
 ["txstatsd/service.py"], [("precedence", "txstatsd/service.py:OptionsGlue._coerce_option"), ("command-line tracking", "txstatsd/service.py:OptionsGlue.parseOptions")], ["options mapping"])

prop("C26", "Listeners answer pings and hand every other message on exactly once",
 "A datagram or line equal to the configured monitoring message is answered with the configured response to its sender and is not processed as a metric; any other one is processed exactly once, unmodified, in order of arrival, and produces no reply. TCP lines are recognised however the stream is split into chunks, and no message or ping closes the connection.",
 ["inputs", "schedules"],
 "all short data strings and configured messages, all chunkings of short TCP streams",
 "Chunk boundaries and near-miss pings are not tested.",
 ["txstatsd/server/protocol.py"], [("UDP", "txstatsd/server/protocol.py:datagramReceived"), ("TCP", "txstatsd/server/protocol.py:lineReceived")], ["transport writes, processed messages"])

prop("C27", "The HTTP status and metric pages tell the truth",
 "The status page reports the latest flush and processing durations and the flush interval, with status OK and code 200 as long as their sum does not exceed 0.7 of the interval, and status ERROR with code 500 otherwise. The listing names every metric seen so far in either mode exactly once; a timer's page gives its minimum, maximum and histogram for any recorded finite values, and an unknown or page-less metric gives 404.",
 ["inputs", "histories", "configurations"],
 "all durations and intervals, all bounded histories of messages of all types in both modes",
 "The listing is tested with one timer, the status with two durations.",
 ["txstatsd/server/httpinfo.py", SP, CP], [("status", "txstatsd/server/httpinfo.py:Status"), ("names", SP + ":get_metric_names"), ("timer page", "txstatsd/server/httpinfo.py:TimerResource")], ["rendered JSON and response code"])

prop("C28", "System statistics are parsed exactly from /proc",
 "The memory parser reports for each of its known labels present the amount in bytes (kilobyte amounts multiplied by 1024) and nothing else; the load parser reports the three averages under their three names; the network parser reports for every interface bytes and packets received and sent taken from the columns so named in the header, wherever they stand and however the columns are spaced.",
 ["inputs"],
 "all amounts, all subsets and orders of lines and columns, arbitrary spacing, within bounded sizes",
 "One captured file each is tested, with fixed column order (and the test module cannot be imported here at all).",
 ["txstatsd/process.py"], [("meminfo", "txstatsd/process.py:parse_meminfo"), ("loadavg", "txstatsd/process.py:parse_loadavg"), ("netdev", "txstatsd/process.py:parse_netdev")], ["returned mappings"])

prop("C29", "Counter reports are exact differences that survive changing keys and faults",
 "A difference report returns nothing on its first reading and afterwards, for each key, the new reading minus the previous successful one, so that the differences reported add up to the overall change. A key missing from the previous successful reading is not reported, and neither a key that appears or disappears between readings nor a reading that fails disturbs any later report.",
 ["histories", "fault_sequences"],
 "all bounded sequences of readings with arbitrary values, keys appearing and disappearing, and a failing read at any step",
 "The one test has fixed keys and no faults (and cannot run here).",
 ["txstatsd/process.py"], [("difference reporter", "txstatsd/process.py:report_counters")], ["returned mappings"])

prop("C30", "Periodic reports keep running and stay isolated from failing reporters",
 "A scheduled reporter is called once per interval while the service runs, also when scheduled after start, and every metric it returns is reported once under its name, prefixed with the instance name and a dot when one is set. A reporter that raises, or whose deferred result fails, is logged and keeps being called, and affects neither other reporters nor stopping the service; after stopping nothing more is called.",
 ["schedules", "fault_sequences", "histories"],
 "all bounded sequences of clock advances, start and stop, reporters failing at any of their calls, intervals arbitrary",
 "Tests schedule one healthy reporter.",
 ["txstatsd/report.py"], [("scheduling", "txstatsd/report.py:ReportingService.schedule"), ("wrapping", "txstatsd/report.py:ReportingService.wrapped")], ["calls and reported metrics"])

prop("C31", "The reactor watchdog reports true delays and never dies",
 "In each round the watchdog submits one task, sleeps, and reports one delay: the time the first task answered since took to run when there is one, else the time since the last round that got an answer (or since the start). It logs critical when the task has not run, a warning after late answers and debug otherwise, drains stale answers so that later rounds judge only their own task, and keeps running until stopped.",
 ["schedules", "histories"],
 "all bounded sequences of rounds in which submitted tasks run at once, late or never, at arbitrary clock readings",
 "The tests fix three timings; the schedule space is the quantifier.",
 ["txstatsd/report.py"], [("watchdog loop", "txstatsd/report.py:ReactorInspector.run")], ["delay gauge, log levels"])

prop("C32", "Dump mode only adds logging",
 "With dump mode on, every processed message is logged as received exactly once and every flushed datapoint is logged exactly once, before it is passed on, and the datapoints of every flush are the same, in the same order, as those of a non-compliant server with the same prefix fed the same messages. A logger without an info method is refused at construction.",
 ["histories", "inputs", "configurations"],
 "all bounded histories of messages of every type with arbitrary values and flushes",
 "The test logs two literal metrics.",
 ["txstatsd/server/loggingprocessor.py", CP], [("logging wrapper", "txstatsd/server/loggingprocessor.py")], ["datapoints and log lines"])

prop("C33", "Every flushed datapoint reaches carbon once, in order, every interval",
 "While the service runs, each flush interval triggers one flush with the configured interval, and every datapoint it yields is sent to carbon exactly once, in order, as (name, (timestamp, value)); a carbon client that makes the flush wait only delays it. The first flush happens one interval after start, and none after stop; stopping a service twice or before start is harmless.",
 ["schedules", "histories"],
 "all bounded sequences of clock advances, carbon back-pressure (deferred sends) at any datapoint, start and stop",
 "The tests only check that the service can be started and stopped.",
 ["txstatsd/service.py"], [("flush task", "txstatsd/service.py:StatsDService.flushProcessor")], ["datapoints sent to the carbon client"])

prop("C34", "The blocking UDP client never lets the network break its caller",
 "A blocking UDP client sends each message as one datagram to the resolved address while connected, sends nothing before connecting, after disconnecting or without an address, and no socket error while sending ever reaches the caller. An address that cannot be resolved is refused at construction with a value error, and connecting, disconnecting and reconnecting can be repeated in any order.",
 ["histories", "fault_sequences"],
 "all bounded sequences of connect, write and disconnect with a socket fault of any kind at any send, and every resolution outcome",
 "Tests mock one failing resolution and no failing send.",
 ["txstatsd/client.py"], [("blocking client", "txstatsd/client.py:UdpStatsDClient")], ["socket calls"])

prop("C35", "The assembled service follows its options",
 "The service built from the options listens on the configured UDP port and, only when one is given, TCP and HTTP ports, has one carbon destination per configured host, in order, with the port and name configured at the same position or else the default ones (a local default when no host is configured), passes carbon's client the configured limits, uses compliant or non-compliant processing, prefix, instance name, routing rules, monitoring texts and flush interval as configured, and hands the listeners, the router and the flusher one and the same processor, so that what is received is what is flushed. The statistics of carbon's client are reported as gauges of the instance every flush interval.",
 ["configurations"],
 "all combinations of the boolean choices and numbers of carbon destinations with symbolic ports, intervals and names",
 "Tests build two configurations and check single attributes.",
 ["txstatsd/service.py"], [("createService", "txstatsd/service.py:createService")], ["services, carbon destinations, end-to-end datapoint"])

prop("C36", "Carbon client statistics are reported once and cleared",
 "Each report of the carbon client manager's statistics returns exactly the statistics of the carbon destinations gathered since the previous report, with colons in their names replaced by underscores and their values unchanged, and resets every statistic to zero; nothing else is reported and nothing gathered is lost.",
 ["histories", "inputs"],
 "all bounded sets of statistics (destination and other names) with arbitrary values, over several reports",
 "One literal dictionary is tested.",
 ["txstatsd/service.py"], [("client manager stats", "txstatsd/service.py:report_client_manager_stats")], ["returned mapping and remaining statistics"])

prop("C37", "Process and runtime reports count what they name",
 "The process report gives processor and memory use, resident and virtual size (and threads, when known) of this process under their own names; the counter, io and network reports give processor times, reads and writes, and the number of TCP connections in each state; the system report gives the times of each mode, of all processors together or of each; the pool and reactor reports give the numbers of threads, waiting and working ones, queued calls, readers and writers at that moment. Every report named in the report option, and no other, arrives as gauges of the instance once a minute, spaces and unknown names notwithstanding.",
 ["inputs", "configurations", "histories"],
 "all readings, all bounded sets of connections by type and state, all processor counts within bounds, report options out of every known and unknown name",
 "The test module needs psutil and cannot be imported here; it checks literal readings, and none checks which reports an option schedules.",
 ["txstatsd/process.py", "txstatsd/service.py"], [("process report", "txstatsd/process.py:ProcessReport"), ("pool and reactor", "txstatsd/process.py:report_threadpool_stats"), ("scheduling", "txstatsd/service.py:createService")], ["returned mappings", "datapoints sent to carbon"])

prop("C38", "What a flush reports is bounded by the names in use, not by the history",
 "However many messages and flushes came before, a flush reports every datapoint name at most once, and the same names, all stamped with the whole second at which the flush began, as a fresh server given one message for each of the metrics seen (in compliant mode: for each timer of the interval); once seen, a counter, gauge, meter or plugin metric stays in every later flush, and no message makes another metric's datapoints disappear.",
 ["histories", "configurations"],
 "all bounded histories of messages of every type, accepted or rejected, and flushes, over several names, in both modes",
 "Tests flush after a handful of messages of one type; duplicates and leaks show only over histories.",
 [SP, CP], [("flush", SP + ":MessageProcessor.flush"), ("gauge store", SP + ":flush_gauge_metrics")], ["names of all datapoints of a flush"])

prop("C39", "A plugin's messages reach its own metrics, whole and only once",
 "A message whose type is a plugin's is handed, whole and once, to the metric that this plugin built for its name; the metric is built at the first such message, with the reporting prefix of the mode, the name and the server's clock, and every flush asks it once for its datapoints, with the interval in whole seconds and the time of the flush, and passes them on unchanged. Plugins never share a metric: messages of two plugins, or of a plugin and the server's own types, may use one name. A message its plugin refuses is logged and rejected without creating a metric, a type without a plugin is unknown, and the service configures each plugin found once with its options before any message.",
 ["histories", "configurations", "inputs"],
 "all bounded histories of messages of one or two plugins over two names, with any fields, taken or refused, and flushes, in both modes; the bundled plugins with any values",
 "Tests use one plugin, one name and one message; sharing and loss show only with several of each over histories.",
 [SP, CP, "txstatsd/service.py"], [("dispatch and building", SP + ":process_plugin_metric"), ("flush", SP + ":flush_plugin_metrics")], ["datapoints of the plugins"])

prop("C40", "Stopping the service stops everything",
 "At whatever moment the assembled service is stopped, the stop completes without an error in any part: every port it listened on is closed, every redirect connection is closed and every attempt to establish one is given up for good, the carbon client is stopped, and from then on nothing is flushed, reported or redirected, no call stays scheduled, and the watchdog thread ends at its next look; reporters are stopped whether they were scheduled before or after the start. The watchdog is started once, with the service.",
 ["schedules", "configurations", "faults"],
 "all combinations of ports, reports and redirects; every state of a redirect's connection; any instant of an interval, with samples waiting or not; up to three reporters scheduled before or while running",
 "The tests never stop an assembled service; an attempt under way or a task scheduled late is missed only at particular moments.",
 ["txstatsd/service.py", RO, RE], [("flush loop", "txstatsd/service.py:StatsDService.stopService"), ("reports", RE + ":ReportingService.stopService"), ("redirect", RO + ":TCPRedirectService.stopService"), ("watchdog", RE + ":ReactorInspectorService")], ["ports, connections, scheduled calls, datapoints after the stop"])

prop("C41", "Routing rules are taken as documented or refused at startup",
 "Building a router takes every list of rules of the documented form (condition => target, with any spacing between words, empty lines ignored) and refuses, before anything is served, every other: a line without one arrow, an unknown or missing condition or target, words missing or left over (what follows a rewriting apart), a negation of something that is no condition, a regular expression or glob that cannot be compiled, a port that is not a number. Rules that were taken never make a message raise, be reported as bad, or disturb another: a replacement that cannot be applied to a name leaves it as it is.",
 ["configurations", "inputs"],
 "all documented forms with any spacing; arbitrary characters between the words of a rule or in place of one; sound and unsound expressions, replacements and globs in every combination; any short name",
 "Tests use well-formed rules; a rule misread or failing only when a message matches shows over all texts.",
 [RO], [("rule parsing", RO + ":Router.build_rules"), ("conditions", RO + ":Router.build_condition"), ("rewriting", RO + ":Router.build_target_rewrite")], ["errors of the router", "messages that go on"])

prop("C42", "The order of messages within an interval does not matter",
 "What a flush reports depends only on which messages arrived since the previous one, not on their order, except that a gauge (and in non-compliant mode a counter) reports the last value it was given: two servers with the same past, given the same messages in two orders that agree on the last value of each of these, report the same datapoints with the same values in this flush and in the later ones.",
 ["histories", "schedules", "inputs"],
 "all lists of up to four messages of any types, values and rates over two names, in every order, with and without an earlier interval, in both modes",
 "UDP delivers in any order; tests only send messages in one.",
 [SP, CP], [("accumulation", SP + ":compose_counter_metric"), ("timers", SP + ":compose_timer_metric")], ["datapoints of a flush"])

prop("C43", "A relay is transparent",
 "A server that receives everything through another one's redirect, over UDP or TCP and over one or two relays, reports exactly what a server would that had received the original messages (rules before the redirect applied) itself, and, in the same mode, what the relay itself reports: each message, whatever its name, type, value and rate, arrives once and is read as it was read by the relay, and what the relay rejects is rejected all along.",
 ["inputs", "configurations"],
 "all names of up to three bytes and characteristic longer ones, any values and rates, texts that are no numbers, either transport, stream pieces, pairings of modes, rules before the redirect and one or two relays",
 "Needs two servers and a wire between them for every message; tests look at a literal line on either side.",
 [RO, "txstatsd/server/protocol.py", SP], [("rebuilding messages", SP + ":rebuild_message"), ("redirect", RO + ":Router.build_target_redirect_udp")], ["datapoints of the last server and of the relay"])

prop("C44", "What is used side by side stays apart",
 "However another server, plugin, client, router, redirect connection, reporter, reporting service, hash ring, reservoir, histogram, moving average, distinct counter or set of options of the same process is used, before, in turns or in between, one of them gives what it would give alone. Two servers may share a plugin; their metrics stay apart. (What a process has once by design, carbon's settings and statistics and the log, is left out.)",
 ["inputs", "histories", "configurations"],
 "any values, two objects of every kind used in three interleavings, every metric type in either mode, own and shared plugins",
 "Tests make one object at a time and throw it away; state shared by accident shows only in a second one.",
 [SP, CP, "txstatsd/metrics/metrics.py", "txstatsd/protocol.py", "txstatsd/hashing.py", "txstatsd/report.py", "txstatsd/process.py", RO], [("state of a server", SP + ":MessageProcessor.__init__"), ("state of a client", "txstatsd/metrics/metrics.py:Metrics.__init__")], ["flushed datapoints, lines sent, values read"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
