import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","UDP listener forwards every datagram exactly once, in order, newline-ended",
"Every datagram the UDP listener reads is published to its configured NATS subject exactly once and in arrival order: the published messages, joined together, are exactly the datagrams received, each with a newline added if (and only if) it did not already end with one. No published message is larger than the 1 MB that NATS accepts, whatever the datagram sizes and batch settings, and messages are cut only after a newline unless a single line is itself longer than that. The received counter equals the number of non-empty datagrams read and nothing is counted as a read or publish failure.",
["inputs","histories","configurations"],"All sequences of datagrams (empty to maximum size, arbitrary bytes, with and without newlines), interleaved with pauses, under all valid batch_max_count / batch_max_size / batch_max_age settings.",
"The tests send one fixed poem or zero-filled packets under a handful of settings; order, exactly-once and the size bound are statements about every datagram sequence and batch configuration.",
["listener/listener.go","batch/batch.go","batchsplitter/batch_splitter.go"],
[("read one datagram straight into the batch and terminate it","listener/listener.go listenUDP"),("split before publishing","listener/listener.go sendBatch")],
["NATS subject configured for the listener","listener metrics on the monitor subject"])

p("C02","HTTP listener forwards every posted line once, intact, never merging requests",
"Every line in the body of a completed POST to /write is published to the configured NATS subject exactly once, byte for byte and in order within its request, for any number of concurrent clients. Lines of different requests are never merged, interleaved within a line or lost, also when a body does not end with a newline. No published message is larger than 1 MB.",
["inputs","schedules","configurations"],"All sets of request bodies (sizes from empty to several MB, with or without trailing newline), issued sequentially or concurrently by several clients, under all valid batch settings.",
"Existing tests post one line at a time, or the same newline-terminated line from ten goroutines, so merging, reordering and loss across differing bodies cannot show.",
["listener/listener.go","batch/batch.go","batchsplitter/batch_splitter.go"],
[("mutex around the shared batch","listener/listener.go readHTTPBody"),("split before publishing","listener/listener.go sendBatch")],
["NATS subject configured for the listener","HTTP response status"])

p("C03","Aborted or stalled HTTP writes neither corrupt nor block the others",
"A write request whose body is not received completely (client disconnect, short body, broken chunking) contributes no partial line to the published stream and is counted as a read error, while every completely received request is still published intact. A client that stalls in the middle of its body does not stop other clients' writes from being accepted and published, nor a waiting batch from being sent when it reaches its maximum age.",
["fault_sequences","schedules","inputs"],"All sequences mixing complete requests with requests that are cut off or stalled after any number of body bytes, with and without a precision parameter.",
"No test ever aborts or stalls a request; the property ranges over every cut point and every interleaving with healthy requests.",
["listener/listener.go","batch/batch.go"],
[("body is read completely before it reaches the shared batch","listener/listener.go readHTTPBody")],
["NATS subject configured for the listener","read_errors metric"])

p("C04","HTTP precision parameter converts each timestamp exactly, touching nothing else",
"For a write with precision u, ms, s, m or h, every line ending in an integer timestamp T is published with T multiplied exactly by the unit's number of nanoseconds, and everything before the timestamp is unchanged. Lines without a timestamp, and lines whose converted timestamp would fall outside the representable nanosecond range, are published unchanged; with no precision, or ns, every line is. No line is dropped or added, however long or short the lines are (blank lines excepted).",
["inputs","configurations"],"All line-protocol bodies x all precision values x all 64-bit timestamps including negative and overflowing ones, and lines of any length from six bytes up to the NATS limit.",
"Tests check one precision (seconds) and fourteen timestamps near 1.5e9; overflow, negative values, long lines and lines without trailing newline are not reached.",
["listener/listener.go","influx/timestamps.go","convert/convert.go"],
[("per-line conversion","listener/listener.go applyBodyPrecision"),("overflow-checked multiplication","influx/timestamps.go SafeCalcTime")],
["NATS subject configured for the listener"])

p("C05","Listener batches are sent when, and only when, a limit is reached",
"A listener (UDP or HTTP) publishes its accumulated batch as soon as batch_max_count writes have been received, or the batch has come within one maximum-size UDP datagram (64 KiB) of batch_max_size, or batch_max_age has passed since the first write of the batch. It does not publish earlier, so consecutive writes below all limits are delivered as one message, and after a publish the count, size and age all start again from zero. The sent counter increases by one for each batch published.",
["histories","configurations","inputs"],"All histories of writes and waits under all combinations of the three batch limits.",
"Tests exercise each limit once, in isolation, with one value; interaction of the limits and behaviour over several consecutive batches is not covered.",
["listener/listener.go","batch/batch.go"],
[("trigger predicate","listener/listener.go shouldSend"),("age-based sender for HTTP","listener/listener.go oldBatchSender"),("write counting and age","batch/batch.go")],
["NATS subject configured for the listener","sent metric"])

p("C06","Batch splitting is lossless, bounded and breaks only at newlines",
"Splitting a buffer with any positive size limit yields non-empty chunks, none larger than the limit, whose concatenation is exactly the buffer, and always terminates. Every chunk except the last ends with a newline unless the next limit-sized stretch contains no newline at all, in which case the chunk is exactly limit-sized; each chunk is as long as these rules permit. The buffer itself is not modified.",
["inputs"],"All byte buffers x all limits >= 1.",
"Eight fixed examples; the off-by-one positions of a newline relative to the limit are exactly what examples miss.",
["batchsplitter/batch_splitter.go"],
[("backwards newline search","batchsplitter/batch_splitter.go Next")],
["sequence of returned chunks"])

p("C07","The batch buffer keeps exactly what was written, with correct counts and age",
"After any sequence of appends, reads from arbitrary readers, newline insertions and resets, the batch holds exactly the bytes written since the last reset, in order; its size, copy, write count (one per append or per non-empty read, none for newline insertion) and age (time since the first write since the last reset, zero when nothing was written) agree with that history. Growth never loses or alters data, a single read never consumes more than one read's worth from its source, and a copy taken earlier is unaffected by later operations.",
["histories","inputs"],"All operation sequences x initial capacities x reader behaviours (short reads, empty reads, data together with EOF or with an error).",
"Unit tests run each operation once on tiny inputs; growth boundaries and operation interleavings are unbounded.",
["batch/batch.go"],
[("buffer growth","batch/batch.go grow/growIfLow"),("first write resets age","batch/batch.go countWrite")],
["Size/Bytes/CopyBytes/Writes/Age of the batch"],
state=[("buf","bytes since last reset","batch/batch.go Batch"),("writes","number of writes since last reset","batch/batch.go Batch")])

p("C08","Filter routes each line to the first matching rule's subject or the junkyard",
"Every well-formed, in-window line of every message the filter receives is published exactly once: on the subject of the first rule, in configuration order, that matches it, or on the junkyard subject if none does. Lines that go to the same rule out of one message keep their relative order, no line is duplicated, invented or sent to two places (also when rules share a subject), and no line of one message leaks into another message's output.",
["inputs","configurations","histories"],"All rule lists (any types, order, shared subjects) x all sequences of messages of well-formed lines.",
"Tests use one or two rules and at most five lines; first-match priority, ordering and state carried between messages range over all rule lists and histories.",
["filter/worker.go","filter/rules.go","filter/filter.go"],
[("linear first-match lookup","filter/rules.go LookupParsed"),("per-rule output buffers reset after sending","filter/worker.go sendOff")],
["rule subjects and junkyard subject on NATS"])

p("C09","Filter rules match exactly as documented",
"A basic rule matches a line if and only if the line's unescaped measurement name equals the rule's name; a tags rule if and only if every listed key/value pair is among the line's unescaped tags, independently of tag order and of other tags; a regex rule if and only if the expression matches the unescaped line without its line terminator (in the filter: with its tags in the sorted order in which it is published); a negregex rule in exactly the opposite cases of the same regex rule. This holds equally in the filter and in the writer, and however the line is escaped, however its tags are ordered and however many rules were tried before.",
["inputs","configurations"],"All lines (escapes, repeated keys, unsorted tags, no tags, no fields, near-miss names) x all rules of all four types.",
"About thirty fixed line/rule pairs; equality of names (as opposed to similar or hash-equal names), tag order independence and anchoring are universal claims.",
["filter/rules.go","influx/tags.go","influx/token.go","influx/unescape.go"],
[("measurement comparison","filter/rules.go CreateBasicRule"),("subset test","influx/tags.go SubsetOf"),("regex on the unescaped line","filter/rules.go CreateRegexRule")],
["which subject a line is published on"])

p("C10","Filter output differs from input only by tag order; tags come out sorted",
"Every line the filter publishes has its tags sorted by (unescaped) key and is otherwise the same line: same measurement, same multiset of tags, the same bytes for every tag, for the fields and for the timestamp, and the same line terminator. A line whose tags are already sorted is published byte for byte unchanged, so filtering twice gives the same result as filtering once.",
["inputs"],"All well-formed lines: any escapes in measurement, tag keys and tag values, any number and order of tags, repeated keys, with or without fields, timestamp and trailing newline.",
"Ten fixed lines; the reordering code rebuilds lines in place, where result length, aliasing and escaping depend on the input.",
["filter/rules.go","influx/tags.go","influx/escape.go"],
[("tag sorting","filter/rules.go SortTags")],
["rule subjects and junkyard subject on NATS"])

p("C11","Only lines timestamped within max_time_delta of now pass the filter",
"A line carrying an integer timestamp is forwarded only if that timestamp differs from the current time by less than max_time_delta; otherwise it is dropped and counted under invalid_time. A line without a timestamp is treated as current and is not dropped for its time. This holds for every timestamp value (any number of digits, negative, extreme), every line length and every positive max_time_delta.",
["inputs","configurations"],"All lines x all 64-bit timestamps x all current times and all positive deltas.",
"One test sends four lines with 9-character offsets from a 10 s window; boundaries, short, negative and extreme timestamps and extreme deltas are not reached.",
["filter/worker.go","influx/timestamps.go","convert/convert.go"],
[("window test","filter/worker.go processBatch"),("timestamp extraction","filter/worker.go extractTimestamp")],
["lines published by the filter","invalid_time metric"])

p("C12","A malformed line never crashes the filter nor affects any other line",
"The output the filter produces for a message is, per subject, exactly the concatenation of the outputs it produces for each of the message's lines on its own: arbitrary bytes in one line never change, lose, duplicate, reroute or merge into another line. No input makes the filter (or a rule-using writer) crash or stop processing later messages, and lines whose tags are malformed (missing key, value or equals sign) are dropped rather than forwarded.",
["inputs","histories"],"All byte strings as messages, in particular valid lines mixed with arbitrarily mutated ones.",
"No test sends garbage through the filter; robustness is a statement about all byte strings.",
["filter/worker.go","filter/rules.go","influx/tags.go","influx/token.go"],
[("per-line parsing with rejection","filter/worker.go processLine"),("tokeniser","influx/token.go")],
["rule subjects and junkyard subject on NATS"])

p("C13","Filter metrics account for every line",
"At any quiescent point the filter's published counters equal the true numbers of input lines, of lines that matched a rule, of lines that matched none and of lines rejected for their time; every line is in exactly one of the last three categories unless it was unparseable. For each rule the triggered counter equals the number of lines routed by that rule, the triggered counters sum to passed, and failed publishes are counted once each.",
["histories","inputs","fault_sequences"],"All sequences of messages, including invalid-time and malformed lines and failing publishes, on any number of workers.",
"Tests compare the counters after a single 3-4 line message with one rule and one worker.",
["filter/worker.go","filter/filter.go","stats/stats.go","stats/anonstats.go"],
[("counter updates","filter/worker.go"),("statistician","filter/filter.go startStatistician")],
["metrics on the monitor subject"])

p("C14","Parallel filter workers and filters process each message exactly once",
"With any number of workers, and with several filter instances on the same input subject, every published message is processed by exactly one worker of one instance: over all outputs each input line appears exactly once, intact, on the right subject. Lines of one message that match the same rule stay together and in order in one output message.",
["schedules","configurations","inputs"],"All schedules of workers and instances over all message sequences.",
"Tests run one filter with one worker; sharing and buffer reuse between concurrent workers is never exercised.",
["filter/filter.go","filter/worker.go"],
[("fixed queue group","filter/filter.go StartFilter"),("per-worker buffers","filter/worker.go")],
["rule subjects and junkyard subject on NATS"])

p("C15","Writer delivers every received line to InfluxDB exactly once, within size limits",
"While InfluxDB accepts writes, every message the writer receives on any of its subjects is posted exactly once to the configured InfluxDB: the request bodies, joined, contain exactly the messages' bytes (in arrival order when there is one worker). Each request is a POST to /write on the configured host and port with exactly the configured database name and, if set, the configured credentials; no body exceeds batch_max_size or is empty, and bodies are cut only at newlines unless one line is itself too long. Each request is counted once in write_requests, each message once in received.",
["inputs","histories","configurations","schedules"],"All sequences of newline-terminated messages over several subjects, all batch limits, worker counts, database names and credentials.",
"Tests send at most five short messages or one repeated chunk; loss, duplication and the body size limit are claims over all message sizes and batch settings.",
["writer/writer.go","writer/influxclient.go","batch/batch.go","batchsplitter/batch_splitter.go"],
[("batch, split, post, reset","writer/writer.go worker"),("URL and authentication","writer/influxclient.go")],
["requests received by InfluxDB","metrics on the monitor subject"])

p("C16","Writer batches are posted when, and only when, a limit is reached",
"A writer worker posts its batch as soon as it holds batch_max_count messages or at least batch_max_size bytes, and no later than about a second after batch_max_age has passed since the batch's first message. It does not post earlier, so messages below all limits are combined, and each batch starts counting afresh.",
["histories","configurations","inputs"],"All histories of messages and waits under all combinations of the three limits.",
"Each limit is tested once in isolation with one value.",
["writer/writer.go","batch/batch.go"],
[("trigger predicate","writer/writer.go shouldSend"),("periodic wake-up","writer/writer.go worker")],
["requests received by InfluxDB"])

p("C17","A writer with rules writes exactly the matching lines",
"When rules are configured, the writer posts exactly those lines of the received messages that match at least one rule, unchanged and in order, and no others; without rules it posts every line. All four rule types documented for the filter, tags rules included, can be used in the writer's configuration (without a subject).",
["inputs","configurations"],"All rule lists loaded from configuration x all sequences of messages.",
"Three tests send one dropped and one kept line; tags rules in writers are not tested at all.",
["writer/writer.go","filter/rules.go","config/config.go"],
[("line filter","writer/writer.go filterLine"),("rule validation","config/config.go validateWriter")],
["requests received by InfluxDB"])

p("C18","Failed batches are retried in order, bounded in number, rate and time",
"A batch handed over for retry is offered to the database again at most once per retry interval overall, round-robin among the waiting batches, until it is accepted, fails permanently or its retry timeout has passed since it was handed over; after any of these it is never offered again. At most writer_retry_batches batches are held: on overflow the one handed over longest ago is discarded, and no other batch is ever lost or altered. While batches wait, attempts continue at the retry interval, whatever sequence of failures occurs.",
["fault_sequences","histories","schedules"],"All histories of hand-overs, clock advances and database outcomes (success, temporary failure, permanent failure, slow response).",
"Six scripted scenarios with at most three batches, in real time; the queue's behaviour is a property of all interleavings of arrivals, timeouts and failures.",
["writer/retryworker.go"],
[("retry loop","writer/retryworker.go loop"),("bounded queue with TTL","writer/retryworker.go retryQueue")],
["sequence and times of database writes","reported writes and errors"],
state=[("queue","batches awaiting retry, oldest discarded on overflow","writer/retryworker.go retryQueue")])

p("C19","A writer loses no retryable batch and corrupts none while InfluxDB misbehaves",
"Whatever sequence of error responses, redirects, dropped connections and timeouts InfluxDB produces, every request body the writer sends is one of its batches byte for byte, a batch that was accepted is never sent again, and a batch refused with a temporary error is retried until accepted as long as the retry limits are not exceeded. Newly received data keeps being written meanwhile, with retries disabled every batch is attempted exactly once, and failed_writes and write_requests count the failures and attempts.",
["fault_sequences","inputs","histories"],"All sequences of per-request outcomes x all message sequences.",
"One test scripts two failures for one message; data corruption of a batch kept for retry while its buffer is reused, or a failure in the middle of a split batch, is never provoked.",
["writer/writer.go","writer/retryworker.go","writer/influxclient.go"],
[("copy for retry","writer/writer.go worker"),("error classification","writer/influxclient.go Write")],
["requests received by InfluxDB","metrics on the monitor subject"])

p("C20","Downsampled values are true averages, or the latest value",
"For each series (measurement and tag set) and period the downsampler emits exactly one line, with the series key and field names unchanged, whose float fields are the arithmetic mean of the period's values (to rounding), whose integer fields differ from the exact mean by less than one, and whose string and boolean fields are the latest value, byte for byte. This holds for any number of points and any values, including int64 extremes and strings containing quotes, escapes, commas, equals signs and spaces. A value whose type conflicts with the field's values so far never corrupts the emitted field, and different series and fields never influence one another.",
["inputs","histories"],"All sequences of lines over any number of series and fields of all types within a period.",
"Tests average at most three nice numbers; accumulated rounding, overflow and escaping depend on the number and values of points.",
["downsampler/avgbucket.go","influx/token.go","influx/escape.go"],
[("running averages","downsampler/avgbucket.go fieldValue types"),("series key","downsampler/avgbucket.go AddLine")],
["lines emitted for a period"])

p("C21","Downsampling periods partition time; each line lands in exactly one period",
"A line is aggregated into the period [end-p, end) that contains its timestamp (or the arrival time if it has none) and is emitted once, stamped with that period's end, where period ends are whole multiples of the sampling period (as Go truncates times) whatever the start time. Lines are accepted exactly for the previous, the current and the next period; older and newer ones are rejected with an error and have no effect. Each period is emitted exactly once, in order, only after the clock has reached the end of the following period, also when the clock jumps ahead by several periods.",
["histories","inputs","configurations"],"All interleavings of line arrivals (any timestamps) and clock advances for all sampling periods and start times.",
"Unit tests step a clock starting exactly on a boundary by whole minutes through one bucket at a time.",
["downsampler/assigner.go"],
[("bucket selection","downsampler/assigner.go findBucket"),("rotation","downsampler/assigner.go Bytes")],
["emitted periods and reported errors"],
state=[("buckets","previous, current and next period","downsampler/assigner.go assigner")])

p("C22","Downsampler publishes per-subject output, sized for NATS, on suffixed subjects",
"Lines received on an input subject influence only the output on that subject's name plus the configured suffix; for each period all series of that subject appear there once, and never elsewhere. However many series there are, every published message is at most 1 MB and consists of complete lines. The received, sent, invalid_lines and invalid_timestamps metrics match what happened.",
["inputs","configurations","histories"],"All sets of input subjects, suffixes and message sequences, up to outputs of several MB per period.",
"Tests use one or two subjects with one series each, far below the message size limit.",
["downsampler/downsampler.go","batchsplitter/batch_splitter.go"],
[("one worker and assigner per subject","downsampler/downsampler.go worker")],
["output subjects on NATS","metrics on the monitor subject"])

p("C23","A malformed line is rejected by the downsampler without any side effect",
"A line that cannot be parsed (unterminated string, missing equals sign, field name or value) produces an error and leaves every aggregate of every series as if it had not been received, and processing continues with the next line. No byte sequence makes the downsampler crash, and everything it emits for well-formed input is parseable again.",
["inputs","histories"],"All byte strings as lines, mixed with well-formed lines for the same and other series.",
"Five malformed examples, each on an empty bucket; partial application of a line that fails half-way needs earlier state.",
["downsampler/avgbucket.go","downsampler/assigner.go","influx/token.go"],
[("field parser","downsampler/avgbucket.go update")],
["lines emitted for a period","reported errors"])

p("C24","Integer parsing accepts exactly the 64-bit decimal integers",
"Parsing a byte string as an integer succeeds if and only if it is an optional minus sign followed by one or more decimal digits whose value fits in a signed 64-bit integer, and then returns exactly that value; all other inputs, including ones that overflow by any amount, give an error.",
["inputs"],"All byte strings.",
"About fifteen examples; wrap-around overflow only shows for particular 20+ digit values.",
["convert/convert.go"],
[("digit loop with overflow test","convert/convert.go ToInt")],
["returned value and error"])

p("C25","Timestamps are recognised and scaled exactly",
"A trailing timestamp is recognised if and only if the line, without an optional final newline, ends in a space followed by an optionally signed decimal integer of at most 19 digits that fits in 64 bits (for lines of at least six bytes); its value and position are reported exactly, and the nanosecond fast path agrees for all timestamps of 19 digits. Scaling a timestamp by a precision gives the exact product whenever it lies in the representable range and an error otherwise.",
["inputs"],"All lines and all (timestamp, precision) pairs.",
"Fixed examples around one date; extremes, negative values and overflow boundaries are not covered.",
["influx/timestamps.go","convert/convert.go"],
[("backward search","influx/timestamps.go ExtractTimestamp"),("overflow check","influx/timestamps.go safeSignedMult")],
["returned timestamp and offset"])

p("C26","Line-protocol tokenising, escaping and tag parsing are mutually inverse",
"For every measurement name and tag set, escaping them into a line and parsing the line back yields the same measurement, the same tags in the same order and the untouched remainder; escaped tokens re-joined with their delimiters give back the input bytes. Unescaping removes the backslash exactly before comma, space, equals sign and double quote and nothing else; a quoted string value survives a quote/unquote round trip. Tags lacking a key, a value or the equals sign are errors, and no input panics or is modified.",
["inputs"],"All byte strings as names, keys and values (except, as the format cannot express them: newlines, a trailing backslash, and a backslash directly before a double quote or equals sign), and all byte strings as lines.",
"Fixed examples with at most two escapes; delimiters in first position, multi-byte text and backslash runs are not systematically covered.",
["influx/token.go","influx/tags.go","influx/escape.go","influx/unescape.go"],
[("tokeniser","influx/token.go token"),("escape/unescape","influx/escape.go, influx/unescape.go"),("tag parser","influx/tags.go ParseTags")],
["returned tokens, tags and bytes"])

p("C27","Prometheus metrics survive format and parse, and bad input is an error",
"Any metric set formatted to text and parsed back is the same set (names, labels irrespective of order, values, timestamps), and formatting is deterministic with labels and metrics sorted. Updating a set keeps exactly the latest metric for every name-and-labels combination, regardless of label order. No input text makes parsing crash: it yields an error or a set, without modifying the input; rendering or extending labels does not alter other metrics or label sets.",
["inputs","histories"],"All metric sets within the supported format (integer values, label values without quotes or backslashes, timestamps above zero or absent), all byte strings as input, all update sequences.",
"Fixed well-formed examples plus six malformed ones; truncation at every position and unsorted labels are not covered.",
["prometheus/parse.go","prometheus/metric.go","prometheus/labels.go","prometheus/metricset.go"],
[("parser","prometheus/parse.go"),("keyed set","prometheus/metricset.go metricKey")],
["formatted bytes, parsed metrics, errors"])

p("C28","The monitor serves exactly the latest value of every reported metric",
"After any sequence of messages on the monitor subject, GET /metrics returns exactly one line for each name-and-labels combination received in valid messages, carrying the value and timestamp of the last such message, in sorted order. A message containing an invalid line is ignored entirely, and neither it nor concurrent requests ever crash the monitor or corrupt what it serves. A client which is slow to read its response delays neither updates nor other clients.",
["histories","inputs","schedules"],"All sequences of valid, overlapping and arbitrarily malformed metric messages interleaved with HTTP requests.",
"One test sends two messages with two metrics; malformed messages are never sent to a running monitor.",
["monitor/monitor.go","prometheus/metricset.go","prometheus/parse.go"],
[("receive, parse, merge","monitor/monitor.go receiveMetrics"),("locked rendering","monitor/monitor.go serveHTTP")],
["GET /metrics response"])

p("C29","Counters never lose updates and are reported faithfully",
"Under any number of concurrent goroutines, a counter's value equals the number of increments made to it, a maximum-tracking counter equals the largest value ever supplied and never decreases, and every increment returns a distinct value. A snapshot lists every counter once with a value between its values at the start and end of the call, and the published text has exactly one metric per counter with that value, the given labels and the time in milliseconds.",
["schedules","histories"],"All concurrent schedules of increments, maxima and snapshots over any set of counters.",
"Tests are sequential except one with a fixed pattern; lost updates need particular interleavings.",
["stats/stats.go","stats/anonstats.go","stats/prometheus.go"],
[("atomic add and compare-and-swap loop","stats/anonstats.go")],
["counter values, snapshots, published metric lines"])

p("C30","Effective config is defaults, overlaid by the common file, then the given file",
"Each option's effective value is the one in the given file if it is set there, else the one in the common file, else the documented default for the mode (including the mode-dependent port, batch size, sampling period and name); a file that defines rules replaces the common file's rules as a whole. The configuration is accepted if and only if it satisfies the documented constraints for its mode, and every documented option, unit and rule form is accepted.",
["configurations","inputs"],"All pairs of common and specific configuration files over all options and modes, with all unit spellings, valid and invalid values.",
"Around forty fixed files, nearly all without a common file; interactions between the two files and between options and modes are combinatorial.",
["config/config.go","config/duration.go"],
[("two-stage decoding over defaults","config/config.go NewConfigFromFile"),("validation","config/config.go Validate")],
["returned configuration or error"])

p("C31","A bad configuration is always a clean start-up failure",
"No configuration file content, however malformed or unusual, makes influx-spout panic or hang during start-up: loading it and starting the component either succeeds or fails with an error message. In particular unparsable TOML, configuration files which exist but can't be read, unknown modes, bad rule definitions (invalid regular expressions, malformed tags, unknown types), out-of-range numbers and an unreachable NATS server are reported as errors, and a failed start leaves no listening port or goroutine behind.",
["configurations","inputs","fault_sequences"],"All byte strings as configuration files, in particular mutated valid ones, for all modes, with and without a NATS server.",
"Tests check messages for about twenty particular mistakes at the loading stage only, never through component start-up.",
["config/config.go","cmd/influx-spout/main.go","filter/rules.go","filter/filter.go","writer/writer.go","listener/listener.go","downsampler/downsampler.go","monitor/monitor.go"],
[("validation","config/config.go Validate"),("cleanup on failed start","Start* functions' deferred Stop")],
["result of starting the component","process exit status"])

p("C32","Probes report exactly the component's current liveness and readiness",
"At every moment between start and close, /healthz answers 200 exactly while the component is alive and /readyz exactly while it is ready, and 503 otherwise, each independently of the other and for any order of state changes and concurrent requests. A fresh probe listener is alive and not ready, close releases the port, and port 0 disables probes without effect on anything else. A component that reports ready is able to do its work: data sent to it from then on is processed. A component that is being stopped is neither ready nor alive from the beginning of its stop, however long that takes.",
["histories","schedules","configurations"],"All sequences of state changes and requests; all components started with a probe port.",
"One test walks a single sequence of states; components are only probed once, after start.",
["probes/probes.go","listener/listener.go","filter/filter.go","writer/writer.go","downsampler/downsampler.go","monitor/monitor.go"],
[("atomic state read per request","probes/probes.go newHandler"),("ready set after subscribing","Start* functions")],
["HTTP status of /healthz and /readyz"])

p("C33","Components can be stopped and restarted at any time without leaks",
"Stopping a running component of any mode, at any moment and with any traffic in flight, returns promptly, without panic, and afterwards its ports are free, its NATS connections closed and its goroutines gone. The same component can then be started again with the same configuration and works as if new, any number of times.",
["histories","schedules","configurations"],"All start/traffic/stop/restart histories over all component modes.",
"Tests stop each component once, idle, and never look at what is left behind.",
["listener/listener.go","filter/filter.go","writer/writer.go","writer/retryworker.go","downsampler/downsampler.go","monitor/monitor.go","probes/probes.go"],
[("stop channel and wait group","each component's Stop")],
["return of Stop, open ports, NATS client connections, goroutines"])

p("C34","End to end, each valid line reaches exactly the databases its rule selects, once",
"With listeners, filter, writers and InfluxDB servers running normally, every valid newline-terminated line sent to a listener by UDP or HTTP arrives, with sorted tags but otherwise unchanged, exactly once in each database whose writer consumes the subject of the first filter rule matching it (or the junkyard), and in no other database. Lines outside the time window arrive nowhere, and no batch boundary along the way ever merges, cuts, loses or duplicates a line.",
["inputs","configurations","histories"],"All topologies built from filter rules and writers x all sequences of lines over UDP and HTTP x all batch settings.",
"The single end-to-end test sends the same four lines with one fixed topology and batch count 1.",
["listener/listener.go","filter/filter.go","writer/writer.go","batch/batch.go"],
[("newline-terminated line stream through every hop","listener, filter, writer")],
["requests received by the InfluxDB servers"])

p("C35","The tap prints exactly the lines on the subject that match its expression",
"influx-spout-tap writes to standard output exactly the bytes of the lines published on the chosen subject, in order, or, with an expression, exactly those lines that match it. Every byte is printed verbatim, whatever characters the lines contain.",
["inputs"],"All messages x all regular expressions.",
"The tap has no tests.",
["cmd/influx-spout-tap/influx-spout-tap.go"],
[("line split and print","cmd/influx-spout-tap/influx-spout-tap.go process")],
["standard output of the tap"])

p("C36","Every consumer gets each message once; members of a group share them",
"Each message published on a subject is consumed exactly once by every running writer and downsampler which is configured with that subject and has no queue group, and exactly once by all running writers with the same queue group and that subject together. Names of components, other subjects and other consumers have no influence, and neither has how many consumers of any kind are started or stopped before or in between.",
["histories","configurations"],"All histories of starting and stopping writers (with and without queue groups) and downsamplers with overlapping subjects, and of publishing messages.",
"Tests start a single consumer per subject, never with a queue group.",
["writer/writer.go","downsampler/downsampler.go","config/config.go"],
[("subscription, with the queue group","writer/writer.go StartWriter"),("subscription","downsampler/downsampler.go StartDownsampler")],
["requests received by each writer's InfluxDB server, messages published by each downsampler"])

p("C37","Components survive NATS outages, and lose nothing that they had accepted",
"While its connection to NATS is interrupted, for however long (also for more than the two minutes after which NATS clients give up by default) and however often, every component stays alive and keeps doing what does not need NATS: listeners accept data, writers post what is due, monitors answer. When NATS is back, it becomes fully functional again by itself within seconds: what listeners accepted and what downsamplers had to emit meanwhile is published then, in order and exactly once, messages which did not fit into the client's buffer are counted in failed_nats_publish, and new data is processed exactly once. A component can also be stopped during an outage.",
["histories","faults","configurations"],"All histories of outages (refused, closed and hanging connections, of any duration) x all components x the data sent before, during and after.",
"No test interrupts a connection to NATS.",
["listener/listener.go","filter/filter.go","filter/worker.go","writer/writer.go","downsampler/downsampler.go","monitor/monitor.go"],
[("reconnecting without limit","nats.Connect options in every component"),("publishing while disconnected","listener sendBatch, downsampler worker")],
["published messages, InfluxDB requests, /metrics, probes and metrics after the outage"])

p("C38","Overload drops whole messages, and every one of them is counted",
"When messages arrive faster than a filter, writer or downsampler gets rid of them, messages beyond nats_max_pending_size are dropped as a whole, for each subject on its own: every message published on a subject is either processed, completely and once, or counted in that subject's nats_dropped metric. Nothing is dropped while the bytes pending are below the limit, what is kept in memory is bounded by the limit (plus queues and batches), and afterwards the component works as before.",
["inputs","configurations","schedules"],"All bursts of messages (sizes, numbers, subjects) x all limits and numbers of workers, while the output is held back.",
"Tests drop messages of a single size once, for one subject, and only look at the counter.",
["filter/filter.go","writer/writer.go","downsampler/downsampler.go","stats/anonstats.go"],
[("pending limits of subscriptions","SetPendingLimits in filter, writer and downsampler"),("nats_dropped","updateNATSDropped, writer statistician")],
["output of the component and its nats_dropped metric"])

p("C39","What a component needs does not grow with what it has processed",
"Once a component has done with the data it was given, it needs as much memory, as many goroutines and as many open files (connections) as after the data before: none of them depends on how many messages, different series, malformed lines, requests, clients, or failed or refused writes it has seen. (A monitor keeps the latest value of each metric, and nothing else.)",
["histories","inputs","faults"],"All histories of traffic x all components and configurations, however long.",
"Tests run each component for a fraction of a second, and never look at its resources.",
["listener/listener.go","filter/worker.go","filter/rules.go","writer/writer.go","writer/retryworker.go","writer/influxclient.go","downsampler/assigner.go","monitor/monitor.go"],
[("buffers kept","batch, filter/worker.go sendOff, downsampler/assigner.go Bytes"),("responses closed","writer/influxclient.go Write")],
["heap, goroutines and open files of a process which runs the component"])

p("C40","benchcheck fails exactly on significant regressions beyond the limit",
"benchcheck exits with an error and prints the comparison if and only if some benchmark which is in both files got worse by more than max-delta percent in some unit (worse means less for MB/s, and more for all other units), with a probability below alpha that this is a coincidence. Other lines, benchmarks which are only in one file, and the number of samples have no other influence.",
["inputs","configurations"],"All pairs of benchmark results x all values of -alpha and -max-delta.",
"benchcheck has no tests.",
["cmd/benchcheck/benchcheck.go"],
[("search for regressions","cmd/benchcheck/benchcheck.go findProblems")],
["exit code and output of benchcheck"])

p("C41","Every component's documented metrics arrive truthfully at the monitor",
"For every component of an installation, the monitor's page has exactly the documented metrics, labelled with the component's type, configured name (or the default derived from its file's name) and, where documented, its subject, database, or rule; their values become what the component really did since it was last started. A component reports at every statistics interval while it runs, never more often, also when it has nothing to do; timestamps are those of the reports and values of one run never decrease.",
["configurations","histories","workloads"],"All components, names, statistics intervals and workloads, including restarts.",
"Unit tests look at the metrics of one component with one fixed workload each; nothing looks at the page of a monitor which several real programs report to.",
["listener/listener.go","filter/filter.go","writer/writer.go","downsampler/downsampler.go","stats/prometheus.go","monitor/monitor.go","config/config.go"],
[("statistics loops","listener/listener.go startStatistician, filter/filter.go startStatistician, writer/writer.go startStatistician, downsampler/downsampler.go startStatistician"),("metric lines","stats/prometheus.go SnapshotToPrometheus")],
["GET /metrics of the monitor","messages on nats_subject_monitor"])

p("C42","Diagnostic options change nothing but diagnostics",
"debug, pprof_port, probe_port and workers = 0 do not change which data a component accepts, publishes or writes. A program listens on exactly the configured ports: profiles are served only at pprof_port (and only if it is set), probes only at probe_port, metrics only at the monitor's port. That a profiling port is taken does not keep a program from working.",
["configurations","inputs"],"All modes x all combinations of these options x all data.",
"No test runs a program with these options, or compares what it does with and without them.",
["cmd/influx-spout/main.go","probes/probes.go","config/config.go","listener/listener.go","filter/filter.go","writer/writer.go","downsampler/downsampler.go","monitor/monitor.go"],
[("profiling server","cmd/influx-spout/main.go main"),("debug logging","listener/listener.go, filter/filter.go, writer/writer.go, downsampler/downsampler.go")],
["listening sockets, HTTP responses, published messages and writes of a running program"])

p("C43","A message NATS refuses is counted once and has no other effect",
"When NATS refuses a message of a listener or downsampler (because it exceeds the server's max_payload), failed_nats_publish increases by exactly one for this message. It is not published later, neither as a whole nor in part, and everything else is as if nothing had failed: the other parts of the same batch or period, which are small enough, and all later data are published exactly once and in order, and nothing else is counted differently.",
["inputs","configurations","faults"],"All sequences of writes or downsampled periods x all batch settings x all limits of the NATS server.",
"No test lets a publish fail.",
["listener/listener.go","downsampler/downsampler.go","batchsplitter/batch_splitter.go"],
[("publishing chunk by chunk","listener/listener.go sendBatch"),("publishing chunk by chunk","downsampler/downsampler.go worker")],
["published messages and the failed_nats_publish metric"])

p("C44","Over https, the writer sends nothing to a server it cannot verify",
"With influxdb_protocol https, batches, credentials and the database name are only ever sent encrypted, and only to a server which proves, with a certificate which is valid now, meant for servers and issued by an authority the system trusts, that it is the configured influxdb_address. A write to any other server fails like a temporary error: it is counted in write_requests and failed_writes, and the batch is retried and posted exactly once when the server has a valid certificate (unless the retries are disabled or exhausted). With a valid certificate, writes work exactly as over http.",
["inputs","configurations","faults","histories"],"All sequences of valid and invalid certificates x addresses and names x credentials x retry settings.",
"The tests only check that the setting is parsed; none writes over https.",
["writer/influxclient.go","config/config.go","writer/retryworker.go"],
[("the URL and the HTTP client","writer/influxclient.go newInfluxClient"),("failed writes are retried unless permanent","writer/influxclient.go Write")],
["requests and raw bytes a server receives; write_requests and failed_writes"])

p("C45","slowinfluxd answers each write after exactly the delay, whatever else it does",
"slowinfluxd listens on the port given by -port and answers every request to /write, whatever its method, parameters and body, with 204 (No Content), not before the time given by -delay (30 seconds by default) has passed since the request and without further delay. Requests don't wait for each other, not on account of clients which give up, and requests for other paths get 404 at once. It keeps serving.",
["inputs","configurations","schedules"],"All delays x all sequences of overlapping requests.",
"slowinfluxd has no tests.",
["cmd/slowinfluxd/main.go"],
[("the handler","cmd/slowinfluxd/main.go main")],
["status and time of HTTP responses"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
