"""What the driver (check) and the manifest generator know about each check."""

_PURE = "calls the real code in-process; "

CHECKS = {
    "C01": dict(pkg="listener", run="^TestC01",
                technique="property-based testing of a running UDP listener against the concatenation of the generated datagrams",
                note="Real sockets and an in-process NATS server; datagrams are flow-controlled through the received metric so that the kernel drops none."),
    "C02": dict(pkg="listener", run="^TestC02", race=True,
                technique="property-based testing with concurrent clients, comparing published with posted lines",
                note="Real HTTP connections; interleavings of clients are sampled."),
    "C03": dict(pkg="listener", run="^TestC03",
                technique="property-based testing with injected connection faults at generated cut points",
                note="Real TCP connections which are closed, reset, broken or stalled after a generated number of body bytes."),
    "C04": dict(pkg="listener", run="^TestC04",
                technique="property-based testing of posted bodies against a big-integer conversion",
                note="Generated lines and timestamps biased to the limits, through a running HTTP listener."),
    "C05": dict(pkg="listener", run="^TestC05",
                technique="model-based testing of message boundaries against a model of the batch limits",
                note="Count and size limits are compared message by message; ages are checked against measured times with slack upwards."),
    "C06": dict(pkg="pure", run="^TestC06",
                technique="property-based testing against a reference splitter, plus exhaustive small buffers",
                note="Generated buffers and limits biased to newlines around the limit, compared chunk by chunk with an independently written splitter; all buffers up to a small length are enumerated."),
    "C07": dict(pkg="pure", run="^TestC07",
                technique="stateful model-based testing of the batch against a byte-slice model, with a fake clock",
                note="Generated operation histories, readers and capacities; the clock is that of testing/synctest, so ages are compared exactly."),
    "C08": dict(pkg="filter", run="^TestC08",
                technique="property-based testing of a running filter against a reference router",
                note="Generated rule lists and messages through NATS, compared message by message with an independently written parser and router."),
    "C09": dict(pkg="filter", run="^TestC09",
                technique="differential property-based testing of rules against their documented meaning",
                note="Through the exported lookup used by the writer, and through a running filter."),
    "C10": dict(pkg="filter", run="^TestC10",
                technique="metamorphic property-based testing of a running filter (permutation, idempotence)",
                note="The relation between input and output line is checked directly, on generated lines with arbitrary bytes."),
    "C11": dict(pkg="filter", run="^TestC11", overlay=["filter"],
                technique="property-based testing with a fake clock against big-integer arithmetic, and of a running filter",
                note="The window's boundaries are tested to the nanosecond on a filter worker under testing/synctest's clock (through an export shim added by overlay), and coarsely on a running filter."),
    "C12": dict(pkg="filter", run="^TestC12",
                technique="metamorphic property-based fuzzing: a message's output against its lines' outputs",
                note="Structured fuzzing of lines (arbitrary bytes and mutations of valid lines), on a running filter, on a filter worker (through an export shim) and on the rule lookup."),
    "C13": dict(pkg="filter", run="^TestC13",
                technique="property-based testing of published counters against true counts",
                note="Counters are read from the monitor subject at quiescent points."),
    "C14": dict(pkg="filter", run="^TestC14", race=True,
                technique="property-based testing of concurrent filters against the expected multiset of messages, under the race detector",
                note="Real goroutines and connections; interleavings are sampled."),
    "C15": dict(pkg="writer", run="^TestC15",
                technique="property-based testing of a running writer against the generated messages",
                note="Real connections to an in-process NATS server and a fake InfluxDB which records every request."),
    "C16": dict(pkg="writer", run="^TestC16",
                technique="model-based testing of request boundaries against a model of the batch limits",
                note="Count and size limits are compared request by request; ages are checked against measured times with slack upwards."),
    "C17": dict(pkg="writer", run="^TestC17",
                technique="property-based testing of a running writer's rules against their documented meaning",
                note="Rules go through a generated configuration file; requests are recorded by a fake InfluxDB."),
    "C18": dict(pkg="writer", run="^TestC18", overlay=["writer"],
                technique="stateful model-based testing of the retry queue under a fake clock, with injected failures",
                note="The exact model runs on a retry worker under testing/synctest's clock (through an export shim added by overlay); a coarser part runs on a running writer in real time."),
    "C19": dict(pkg="writer", run="^TestC19",
                technique="property-based fault injection: generated sequences of InfluxDB outcomes, checked over the history of requests",
                note="A fake InfluxDB refuses, drops, delays and hangs as generated; requests are compared with the batches."),
    "C20": dict(pkg="downsampler", run="^TestC20", overlay=["downsampler"],
                technique="model-based property-based testing against exact rational means",
                note="On an assigner with the check's clock (through an export shim) and on running downsamplers; means are computed with 3000-bit floats."),
    "C21": dict(pkg="downsampler", run="^TestC21", overlay=["downsampler"],
                technique="stateful model-based testing with generated clock histories",
                note="The exact model runs on an assigner with the check's clock (through an export shim); a coarser part runs on running downsamplers in real time."),
    "C22": dict(pkg="downsampler", run="^TestC22",
                technique="model-based property-based testing of running downsamplers",
                note="Real time with short periods; several downsamplers at once, some with more than 1 MB of output."),
    "C23": dict(pkg="downsampler", run="^TestC23", overlay=["downsampler"],
                technique="metamorphic property-based fuzzing: output with and without malformed lines",
                note="On pairs of assigners with the check's clock (through an export shim) and on running downsamplers."),
    "C24": dict(pkg="pure", run="^TestC24",
                technique="property-based testing against a big-integer reference",
                note="Generated digit strings biased to the 64-bit limits and their wrap-arounds, and arbitrary bytes."),
    "C25": dict(pkg="pure", run="^TestC25",
                technique="property-based testing against a regexp/big-integer reference",
                note="Generated lines and timestamps biased to the limits; every precision."),
    "C26": dict(pkg="pure", run="^TestC26",
                technique="round-trip and differential property-based testing against a reference parser",
                note="Generated names, keys, values and lines rich in delimiters and backslashes."),
    "C27": dict(pkg="pure", run="^TestC27",
                technique="round-trip, model-based and mutation (fuzz) testing of the metric format",
                note="Generated metric sets, update histories and truncated or mutated texts."),
    "C28": dict(pkg="system", run="^TestC28", race=True,
                technique="stateful model-based testing of a running monitor with concurrent clients, under the race detector",
                note="Every response is one of the states of a model; interleavings of messages and requests are sampled."),
    "C29": dict(pkg="race", run="^TestC29", race=True,
                technique="generated concurrent schedules under the race detector, checked against exact totals",
                note="Real goroutines on 8 cores; interleavings are sampled, not enumerated."),
    "C30": dict(pkg="pure", run="^TestC30",
                technique="property-based testing of file pairs against a model of the documented options",
                note="Generated pairs of common and specific files on an in-memory file system, compared with an independently written table of options, defaults and constraints."),
    "C31": dict(pkg="system", run="^TestC31", bins=["influx-spout"],
                technique="structured fuzzing of configurations and start-up faults, against the program and in-process",
                note="Generated configurations of all modes with injected flaws run as real programs; leaks after failed starts are looked for in-process; text mutations go to the configuration parser."),
    "C32": dict(pkg="system", run="^TestC32",
                technique="stateful model-based testing of probes and of starting and stopping components, with delayed NATS connections",
                note="Readiness is judged by what happens to data sent at the first 200; interleavings are sampled."),
    "C33": dict(pkg="system", run="^TestC33",
                technique="property-based testing of generated start/traffic/stop/restart histories, with leak checks as the oracle",
                note="Moments of the stop and traffic are sampled; goroutines, ports and NATS connections are looked at after each stop."),
    "C34": dict(pkg="system", run="^TestC34",
                technique="model-based property-based testing of generated installations, end to end",
                note="All components run in-process around a real NATS server and fake InfluxDBs; the multiset of lines in each database is compared with a model. HTTP bodies are newline-terminated, but for the known finding's input."),
    "C35": dict(pkg="system", run="^TestC35", bins=["influx-spout-tap"],
                technique="differential property-based fuzzing of the program's output against a reference",
                note="The real program reads generated messages from a NATS server; its standard output is compared byte by byte."),
    "C36": dict(pkg="bus", run="^TestC36",
                technique="stateful model-based testing: histories of consumers and messages against the set of deliveries each must get",
                note="Real NATS subscriptions of real components, which are started and stopped in between; the distribution inside a group is only required to be exact in sum."),
    "C37": dict(pkg="bus", run="^TestC37",
                technique="property-based testing with injected NATS outages of generated kinds and durations, against the expected multiset of lines",
                note="Each component's connections go through a link which refuses, closes or leaves hanging; one outage lasts 140 seconds, the others up to three."),
    "C38": dict(pkg="bus", run="^TestC38",
                technique="property-based testing with injected stalls: conservation of messages (processed + counted as dropped = published)",
                note="The output of a running component is held back (by a link which stalls, or by InfluxDB), while generated bursts are published."),
    "C39": dict(pkg="long", run="^TestC39",
                technique="property-based testing with generated phases of traffic: resources after many phases against those after a few (metamorphic)",
                note="Growth of less than about 100 bytes per message is below the threshold; a phase has 500 to 3000 messages (thorough: more), so what grows slower, or only in days, is not seen."),
    "C40": dict(pkg="system", run="^TestC40", bins=["benchcheck"],
                technique="property-based testing of the program's exit code against an exact significance test",
                note="Generated samples are either fully apart or of the same range, so that the exact p value is known; ratios stay one percent or more away from the limit."),
    "C41": dict(pkg="system", run="^TestC41", bins=["influx-spout"],
                technique="model-based property-based testing of generated installations of real programs: the monitor's page against the truth",
                note="Real programs, restarted in between; what each did is known from the generated traffic. Rules of one filter have distinct subjects, since documented labels do not tell them apart otherwise."),
    "C42": dict(pkg="system", run="^TestC42", bins=["influx-spout"],
                technique="property-based testing of generated option combinations: output against the model without them, and sockets against the configured ports",
                note="Real programs; sockets are read from /proc of the programs started."),
    "C43": dict(pkg="listener", run="^TestC43",
                technique="model-based property-based testing with NATS servers which refuse messages beyond generated sizes",
                note="The servers' max_payload is generated; what fits is compared message by message (listeners) or line by line (downsamplers) with a model, and the rest with failed_nats_publish."),
    "C44": dict(pkg="writer", run="^TestC44",
                technique="stateful property-based testing with TLS servers whose certificate changes as generated",
                note="The certificates are made by the check, which makes its own authority the only one trusted; raw bytes of every connection are searched for what must not be sent unencrypted."),
    "C45": dict(pkg="system", run="^TestC45", bins=["slowinfluxd"],
                technique="property-based testing of the running program with generated overlapping requests",
                note="The real program; lower limits of times are exact, upper ones have a slack of 2 s (10 s for the default)."),
}
