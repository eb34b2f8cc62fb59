#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Concurrent span buffer hands every accepted span over exactly once",
  "Whatever the interleaving of any number of producers with the one consumer, every object a producer successfully adds to the bounded concurrent buffer reaches the consumer exactly once, whole and fully initialised, and is destroyed exactly once. An object whose add is refused is still owned, unchanged, by its producer, and an object whose add succeeds no longer is. Discarding elements destroys exactly the oldest ones asked for, and the counts of elements added, consumed and held always agree with what was handed over.",
  ["schedules", "histories"], "every interleaving of N producers and one consumer, every buffer capacity, every number of wrap-arounds and of elements taken at a time",
  "the tests run one random concurrent schedule per run on one machine and count totals; the window between filling a slot and publishing it, and the undo path, are almost never hit",
  ["src/common/circular_buffer.h", "src/common/circular_buffer_range.h", "src/common/atomic_unique_ptr.h"],
  [("reserve slot by swap-if-null, publish by compare-exchange of head, undo by swap", "src/common/circular_buffer.h Add"), ("advance tail, then empty the slots", "src/common/circular_buffer.h Consume")],
  [("head", "number of elements ever published", "circular_buffer.h"), ("tail", "number of elements ever consumed", "circular_buffer.h"), ("slot", "owning pointer or null", "atomic_unique_ptr.h")],
  ["return value and argument of Add", "elements seen by the consumer callback", "destructor calls"])
p("C02", "Span buffer keeps per-producer order, its bound, and never gets stuck",
  "Each producer's objects reach the consumer in the order that producer added them, and the buffer never holds more objects than its configured capacity. An add is refused only if, during that add, the number of objects added minus the number consumed can be seen to have reached the capacity; a buffer that is quiescent and not full always accepts. Producers that keep retrying and a consumer that keeps consuming always finish: no interleaving leaves the buffer stuck.",
  ["schedules", "histories"], "every interleaving of producers and consumer, any capacity including one, any history of wrap-arounds",
  "tests cannot enumerate interleavings, and a lost slot or a false 'full' shows only after a particular wrap-around",
  ["src/common/circular_buffer.h", "src/common/circular_buffer_range.h"],
  [("full test against head and tail", "src/common/circular_buffer.h Add"), ("wrap-around of the readable range", "src/common/circular_buffer.h Peek, circular_buffer_range.h")],
  [], ["order of elements in the consumer callback", "return value of Add", "termination"])
p("C03", "An atomically swapped owning slot never leaks or double-frees",
  "An owning slot that several threads exchange, conditionally fill and reset concurrently always owns at most one object, every object is at any time owned by exactly one slot or caller, and each is destroyed exactly once, by its last owner. Filling a slot conditionally succeeds only if the slot was empty, and otherwise leaves both sides as they were.",
  ["schedules", "histories"], "every interleaving of swap, conditional fill and reset from any number of threads",
  "the tests are single-threaded",
  ["src/common/atomic_unique_ptr.h"],
  [("compare-exchange from null", "SwapIfNull"), ("atomic exchange", "Swap, Reset, destructor")],
  [], ["ownership after each call", "destructor calls"])
p("C04", "The spin lock excludes, publishes, and is always obtainable once released",
  "At most one thread is ever between acquiring and releasing the spin lock, and everything the previous holder wrote before releasing is visible to the next holder. A released lock can always be acquired again, so threads that each release after a finite time all finish.",
  ["schedules"], "every interleaving of any number of lock/unlock pairs",
  "the test increments a counter from a few threads on one schedule",
  ["src/common/spin_lock_mutex.h"], [("test-and-set with acquire/release", "SpinLockMutex")], [("locked", "flag", "spin_lock_mutex.h")],
  ["entry and exit of the critical section"])
p("C05", "Consuming part of a fragment sequence leaves exactly the unread bytes",
  "For any group of byte-fragment sequences (arrays of fragments, chained blocks, linked chains of several, or the buffered spans), consuming any number of bytes leaves precisely the bytes after that point, in order: nothing is skipped, repeated or reordered, however many times consumption is resumed and wherever it stops, including on fragment and sequence boundaries. Consumption reports completion exactly when no byte is left, and the reported number of fragments always equals the number visited.",
  ["inputs", "histories"], "every shape of fragment sequences (including empty ones) and every sequence of consumption sizes",
  "the tests try a handful of fixed shapes and offsets",
  ["src/common/fragment_input_stream.cpp", "src/common/fragment_array_input_stream.cpp", "src/common/composable_fragment_input_stream.cpp", "src/common/chained_stream.cpp", "src/recorder/stream_recorder/span_stream.cpp"],
  [("walk, then clear or seek each stream", "fragment_input_stream.cpp Consume"), ("relative seek", "Seek/SegmentSeek of each stream")],
  [("position", "current fragment and offset in it", "each stream class")], ["fragments visited after each step", "return value of Consume"])
p("C06", "A block-chained output stream yields exactly the bytes written to it",
  "Whatever sequence of buffer requests and give-backs a serializer makes on the block-chained output stream, once closed the stream yields exactly the bytes that were written and not given back, in order, and its byte count equals their number at every point. Chains of such streams yield the concatenation of their parts.",
  ["inputs", "histories"], "every sequence of next-buffer and back-up calls, every split of the data into writes, every way of appending streams to one another",
  "the tests write a few sizes through protobuf's coded stream",
  ["src/common/chained_stream.cpp", "src/common/composable_fragment_input_stream.cpp"],
  [("block bookkeeping", "ChainedStream::Next, BackUp"), ("linking", "ComposableFragmentInputStream::Append")],
  [("current block and position", "where the next write goes", "chained_stream.h")], ["bytes visited", "ByteCount"])
p("C07", "Gathered socket writes send each byte once, in order, and report the truth",
  "Writing a group of fragment sequences to a socket hands the kernel each byte exactly once and in order across any mixture of short writes, would-block results and errors, for any number of fragments; what the kernel accepted is consumed from the sequences and everything else stays for the next attempt, even when the write fails. The call reports completion exactly when nothing is left, reports would-block as incompletion, and raises any other error.",
  ["fault_sequences", "inputs"], "every sequence of kernel results (full, short at any byte, would-block, error) over every shape of fragment sequences, including more fragments than one system call takes",
  "tests use real sockets, where short writes happen at uncontrolled places and errors hardly ever",
  ["src/network/vector_write.cpp", "src/common/fragment_input_stream.cpp", "src/common/platform/network_unix.cpp"],
  [("batching and short-write detection", "vector_write.cpp Write"), ("consumption of what was written", "fragment_input_stream.cpp Consume")],
  [], ["writev calls and their results", "streams' content after the call", "return value or exception"])
p("C08", "Streaming spans out of the buffer never splits or repeats a span silently",
  "When the bytes of buffered spans are consumed for sending at arbitrary points, spans that are completely consumed are released and counted as sent exactly once, a span consumed in part is handed to its sender as a remainder holding exactly its unsent bytes, and spans not yet begun stay in the buffer in order. The remainder is handed over at most once and no span's bytes are lost, repeated or attributed to another span, even while producers keep adding spans.",
  ["histories", "schedules", "inputs"], "every history of adding, allotting, consuming by any number of bytes and taking the remainder, including concurrent producers",
  "the tests consume one or two fixed amounts",
  ["src/recorder/stream_recorder/span_stream.cpp", "src/common/circular_buffer.h", "src/recorder/metrics_tracker.cpp"],
  [("split a consumption point into whole spans plus remainder", "SpanStream::Seek, Clear, ConsumeRemnant")],
  [("allotment", "range of buffered spans being written", "span_stream.h"), ("remnant", "partly written span", "span_stream.h")],
  ["fragments visited", "remainder", "sent counts reported to the metrics observer"])
p("C09", "Each satellite connection carries one well-formed chunked HTTP request",
  "The bytes written on one satellite connection always form a prefix of a single valid chunked HTTP/1.1 report request: the request headers, then the report header and any drop-count chunk, then one chunk per span, and after a shutdown the terminating chunk and nothing more. This holds for any sequence of short, blocked or failed writes, a span begun on a connection is always completed on that same connection before anything else is written there, and after the connection is reset the next one starts a fresh request.",
  ["fault_sequences", "histories"], "every sequence of partial writes, errors, new spans, shutdown and reset",
  "tests exercise a few fixed chunkings of one stream",
  ["src/recorder/stream_recorder/connection_stream.cpp", "src/common/chunked_http_framing.cpp", "src/common/report_request_framing.cpp", "src/recorder/stream_recorder/host_header.cpp"],
  [("header, remnant, spans and terminal streams written in order", "ConnectionStream::Flush, Reset, Shutdown"), ("chunk framing of a span", "report_request_framing, chunked_http_framing")],
  [], ["bytes passed to the writer of each connection"])
p("C10", "Across satellite connections each span is delivered once or counted dropped",
  "With several satellite connections sharing the span buffer, every span accepted into the buffer is written completely on exactly one connection and counted as sent, or is cut off by the failure of the connection it was being written on and counted as dropped, or is still buffered: never two of these and never none. Drop counts that a connection took to report but did not deliver are returned, so that counts delivered plus counts outstanding always equal the drops that occurred; this includes connections that are destroyed in mid-request.",
  ["fault_sequences", "histories", "schedules"], "every interleaving of flushes, partial writes, failures and resets over any number of connections, with spans arriving at any time",
  "no test drives several connections through interleaved partial writes and failures",
  ["src/recorder/stream_recorder/connection_stream.cpp", "src/recorder/stream_recorder/span_stream.cpp", "src/recorder/metrics_tracker.cpp", "src/recorder/serialization/embedded_metrics_message.cpp"],
  [("remnant kept by its connection", "ConnectionStream"), ("unconsume drop counts on reset", "ConnectionStream::Reset, MetricsTracker")],
  [], ["bytes per connection", "metrics observer", "drop counter"])
p("C11", "Drop counts are never lost or double-counted under concurrency",
  "However many threads record drops while reports take the pending drop count and failed reports return it, the counts taken and not returned plus the count still pending always equal the number of drops recorded, and the metrics observer is told of each drop, sent span and flush exactly once.",
  ["schedules", "fault_sequences"], "every interleaving of recording, taking and returning",
  "no test runs these concurrently",
  ["src/recorder/metrics_tracker.cpp", "src/recorder/metrics_tracker.h"],
  [("atomic add and exchange", "MetricsTracker")], [("dropped", "pending drop count", "metrics_tracker.h")], ["return values", "observer calls"])
p("C12", "A report is exactly its header, its drop count and its spans",
  "The bytes of an assembled report are exactly the report header, then, if any span was dropped, one metrics message carrying that drop count, then every added span's bytes once in the order added; the advertised byte, span, drop and fragment counts match those bytes. Iterating or copying the report, repeatedly or stopping early, never changes it.",
  ["inputs", "histories"], "every number, size and block structure of spans, every drop count",
  "the tests use one or two small spans",
  ["src/recorder/serialization/report_request.cpp", "src/recorder/serialization/embedded_metrics_message.cpp", "src/common/buffer_chain.cpp", "src/common/protobuf.cpp"],
  [("append span streams", "ReportRequest::AddSpan"), ("embedded metrics encoding", "EmbeddedMetricsMessage, WriteEmbeddedMessage")],
  [], ["fragments visited", "num_bytes, num_spans, num_fragments, num_dropped_spans"])
p("C13", "Manual recorder: every span is delivered once or counted dropped",
  "With user-driven flushing, each recorded span is handed to the transport in exactly one report, or is dropped because the buffer was full; drops are reported with a later report, and a report that fails has all its spans and the drops it carried counted as drops of a later report. A full buffer asks the transport to flush, success and failure of a report are announced to the metrics observer with its number of spans, and a flush with nothing to report sends nothing.",
  ["histories", "fault_sequences"], "every sequence of recording, flushing, transport success, failure and refusal, with any number of reports outstanding",
  "tests walk through a few short sequences",
  ["src/recorder/manual_recorder.cpp", "src/recorder/serialization/report_request.cpp", "src/recorder/metrics_tracker.cpp"],
  [("flush builds a report from the buffer", "ManualRecorder::FlushOne/FlushWithTimeout"), ("OnSuccess/OnFailure account", "ManualRecorder")],
  [], ["AsyncTransporter calls", "MetricsObserver calls", "report bytes"])
p("C14", "Legacy manual recorder: one report in flight and exact accounting",
  "With the legacy user-driven transport at most one report is in flight at a time, flushes requested meanwhile are served after it, and every recorded span is in exactly one report or counted as dropped in a following one. After a failed report its spans and the drops it carried are reported as drops by a later report, and after the collector asks for it the recorder stops recording for good.",
  ["histories", "fault_sequences"], "every sequence of recording, flushing, transport completion and failure",
  "tests walk through a few short sequences",
  ["src/recorder/legacy_manual_recorder.cpp", "src/recorder/report_builder.cpp"],
  [("encoding and flushed sequence numbers", "LegacyManualRecorder")], [], ["LegacyAsyncTransporter calls", "reports sent"])
p("C15", "Background recorder: bounded, exactly-once reports under any schedule",
  "With the background reporting thread, each recorded span appears in exactly one report sent to the transport or is counted as dropped in the next report sent successfully, the number of spans waiting never exceeds the configured maximum, and a failed report turns its spans and the drops it carried into drops reported later. No schedule of recording threads, flushers and the reporting thread loses, duplicates or reorders a recorded span, and after the collector's disable command nothing further is recorded or sent.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of recording threads with the reporting thread, timeouts, flushes and transport failures",
  "tests use one thread plus an artificial condition variable and a few scripted sequences",
  ["src/recorder/auto_recorder.cpp", "src/recorder/report_builder.cpp"],
  [("builder and counters under one lock", "AutoRecorder::RecordSpan, SendReport")], [], ["SyncTransporter calls"])
p("C16", "Background recorder: flush and destruction always finish and tell the truth",
  "A flush of the background recorder returns true only if every span recorded before it began has been handed to the transport, and returns false no later than its timeout otherwise; waiting spans are sent at the latest after the reporting period, which begins again after a report sent early because no more could wait, or as soon as a report that took longer than that ends. Destroying the recorder always terminates, joins its thread and sends nothing afterwards, whatever the other threads and the transport are doing.",
  ["schedules", "fault_sequences"], "every interleaving of flush callers, recorders, the reporting thread, timeouts, failures and destruction",
  "tests flush from one thread with no contention",
  ["src/recorder/auto_recorder.cpp", "src/common/condition_variable_wrapper.h"],
  [("encoding/flushed sequence numbers and condition variable", "AutoRecorder::FlushWithTimeout, Write, MakeWriterExit")], [], ["FlushWithTimeout result", "SyncTransporter calls", "termination"])
p("C17", "Streaming recorder: flush and shutdown tell the truth and always return",
  "A flush returns true only if every span recorded before it has left the buffer (written to a satellite, or begun and then counted as dropped), and a shutdown returns true only when no connection is open or will be reopened (short of a fork, after which both processes connect anew), each having finished its request or run out of its time to. Both return by their timeout, and destroying the recorder always terminates. Every recorded span is either written whole on exactly one connection, or counted as dropped, or still waiting; a span arriving while the buffer is full is dropped and counted; and while a connection accepts data, spans waiting are written within a reporting period, or at once when a flush asks for it or the buffer fills beyond its early-flush mark.",
  ["schedules", "fault_sequences", "histories"], "every schedule of recording, flushing and closing threads with the network thread, and any satellite behaviour (slow, refusing, closing)",
  "tests use a cooperating local server and one schedule",
  ["src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/recorder/stream_recorder/satellite_streamer.cpp"],
  [("flush condition variables and consumption counter", "StreamRecorder"), ("poll/flush timers", "StreamRecorderImpl")], [], ["results of FlushWithTimeout and ShutdownWithTimeout", "bytes on connections", "metrics observer"])
p("C18", "Satellite connections are always re-established and retired in order",
  "A satellite connection that cannot connect or whose write or reply is in error is abandoned and tried again after the retry period; one that is closed by the peer, or runs out of its time to become writable, is abandoned and tried again at once; always with the next endpoint. It never has two sockets or pending attempts at once, closes each socket exactly once, and never stops trying while the recorder lives and is not shutting down. Within its renewal window a connection is renewed: it first finishes its request, has a bounded time to receive the reply, and is then replaced. A connection told to shut down finishes its request if it can, closes when the reply has come or its time is up, and never connects again.",
  ["fault_sequences", "histories", "configurations"], "every order of connect results, write results, replies, closures and timer expirations",
  "tests have a handful of scripted satellites in real time",
  ["src/recorder/stream_recorder/satellite_connection.cpp", "src/recorder/stream_recorder/satellite_streamer.cpp", "src/network/event.cpp", "src/network/timer_event.cpp"],
  [("per-connection state machine with timers", "SatelliteConnection")], [], ["socket system calls", "event registrations", "bytes written"])
p("C19", "Endpoint choice rotates fairly over every resolved endpoint",
  "Successive requests for an endpoint cycle through all configured endpoints in order and through all resolved addresses of each host, skipping hosts that have no address, so that every usable endpoint keeps being chosen. A host's IPv4 addresses are used if it has any, otherwise its IPv6 addresses; its turn may begin anywhere in the list once that list changes. An endpoint returned always carries an address resolved for its own host together with its own port and that host's name; names that differ only in case are one host.",
  ["configurations", "histories"], "every set of hosts, ports and resolution results, and every sequence of requests and re-resolutions",
  "tests use one or two hosts",
  ["src/recorder/stream_recorder/satellite_endpoint_manager.cpp", "src/recorder/stream_recorder/utility.cpp"],
  [("rotation index per host and over endpoints", "SatelliteEndpointManager::RequestEndpoint")], [], ["sequence of endpoints returned"])
p("C20", "Name resolution: ready exactly once, refreshed for ever",
  "For each host both address families are resolved, and readiness is announced exactly once, when the first of all these resolutions succeeds. Failed or empty resolutions are retried after the retry period and successful ones refreshed within the refresh window for as long as the recorder lives, a successful refresh replaces the addresses of that host and family, and a failed one never discards those resolved before.",
  ["fault_sequences", "histories"], "every order of success, empty result and failure over hosts and families, and every order of timers",
  "tests use a cooperative DNS server or one failure",
  ["src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp"],
  [("resolution callbacks and timers", "SatelliteDnsResolutionManager")], [], ["resolver calls", "ready callback", "endpoints returned"])
p("C21", "The status line is recognised identically however the reply is split",
  "However a satellite's reply is divided into reads, the status code and reason recognised are those of the first line of the whole reply, completion is reported as soon as and only when that line is complete, and bytes after it are ignored. A line without a three-digit status code between two spaces is always reported as an error, never as some status, and after a reset a new reply is parsed afresh.",
  ["inputs"], "every reply and every way of splitting it",
  "tests split a few fixed lines",
  ["src/recorder/stream_recorder/status_line_parser.cpp"], [("line accumulation", "StatusLineParser::Parse")], [], ["completion, status code and reason after each read", "exceptions"])
p("C22", "Endpoint lists are split into distinct hosts without losing any endpoint",
  "Splitting a configured list of endpoints yields each host name once, ignoring case, and for every configured endpoint, in the configured order and including repeats, its own port together with a reference to its own host.",
  ["inputs"], "every list of host and port pairs",
  "tests have two fixed lists",
  ["src/recorder/stream_recorder/utility.cpp", "src/common/platform/string_unix.cpp"], [("sort, unique, binary search", "SeparateEndpoints")], [], ["returned hosts and indexed endpoints"])
p("C23", "Fork: every live recorder is told once, and the child starts clean",
  "At a fork every live recorder is prepared once and then notified once as parent or once as child, whatever the order in which recorders were created and destroyed. In the child, spans recorded before the fork are discarded rather than sent a second time, and both parent and child can record, flush and be destroyed normally afterwards.",
  ["histories", "crash_points", "schedules"], "every history of creating, destroying, recording, flushing and forking",
  "the test forks once with one recorder",
  ["src/recorder/fork_aware_recorder.cpp", "src/recorder/manual_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp"],
  [("intrusive list of active recorders and atfork handlers", "ForkAwareRecorder"), ("drop buffered state in the child", "ManualRecorder::OnForkedChild, StreamRecorder::OnForkedChild")], [], ["handler calls", "reports in parent and child"])
p("C24", "A finished span is recorded once and frozen",
  "However many times and in whatever order a span is finished, destroyed and modified, from any number of threads, it is recorded exactly once if it is sampled and never otherwise, and the record contains exactly the operation name last set and all tags, logs, references and baggage set before it finished, its start time and its duration, with each value decodable as set. Changes attempted after finishing have no effect on the record, and its context (identifiers, baggage) remains readable.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of span operations",
  "tests perform one fixed sequence each",
  ["src/tracer/span.cpp", "src/tracer/serialization.cpp", "src/tracer/legacy/legacy_span.cpp", "src/common/serialization.cpp"],
  [("finished flag and spin lock", "Span::FinishImpl"), ("incremental serialization", "src/tracer/serialization.cpp")], [], ["spans received by the recorder"])
p("C25", "The sampling decision follows references and the last priority tag",
  "A span started without references is sampled; with references it is sampled exactly when at least one referenced context is; and the most recently set sampling-priority tag overrides either, zero meaning not sampled. The decision propagated downstream equals the one used for recording the span at that moment.",
  ["histories", "inputs"], "every combination of references and every sequence of priority tags",
  "tests cover single cases",
  ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/utility.h"], [("trace flags", "Span constructor, SetTag, FinishImpl")], [], ["recorded or not", "injected flag"])
p("C26", "Trace identity and baggage are inherited correctly",
  "A span with valid references belongs to the trace of the first valid one, and its recorded parent references name each referenced context's identifiers in order; a span without any starts a new trace. It has a span identifier of its own, inherits every referenced context's baggage and, where trace states are carried, their trace states, and keeps its identifiers unchanged for life; invalid references are ignored.",
  ["histories", "inputs"], "every tree of spans and contexts, including extracted contexts and invalid references",
  "tests cover one parent and one child",
  ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/immutable_span_context.cpp"], [("SetSpanReference", "Span")], [], ["recorded span", "injected context"])
p("C27", "Injecting and extracting a context round-trips in every format",
  "In every propagation format, extracting what was injected yields the same trace identifier (to the width the format carries), span identifier, sampling decision and, where the format carries it, baggage with lower-cased keys and trace state, for every identifier value and baggage content and for headers in any letter case. With several formats configured, all of them are injected and any one alone can be extracted.",
  ["inputs", "configurations"], "every identifier, flag, baggage and every configured list of formats",
  "tests use a few fixed identifiers",
  ["src/tracer/propagation/multiheader_propagator.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/propagation/envoy_propagator.cpp", "src/tracer/propagation/binary_propagation.cpp", "src/tracer/propagation/baggage_propagator.cpp", "src/common/hex_conversion.cpp"],
  [("one propagator per format", "src/tracer/propagation"), ("hex codecs", "src/common/hex_conversion.cpp")], [], ["carrier content", "extracted context"])
p("C28", "Extraction tries formats in order and never invents a context",
  "Extraction tries the configured formats in their configured order and uses the first one present; a carrier with none yields no context, and a carrier whose first present format is malformed or incomplete yields an error, never a context made from other data. No carrier content, however malformed, crashes the process or yields identifiers that the carrier does not spell.",
  ["inputs", "configurations"], "every carrier content and every list of formats",
  "tests cover a few malformed values",
  ["src/tracer/propagation/propagation.cpp", "src/tracer/propagation/propagation_options.cpp", "src/tracer/propagation/multiheader_propagator.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/common/hex_conversion.cpp"],
  [("ordered extraction", "ExtractSpanContextImpl"), ("validation", "parsers")], [], ["extraction result"])
p("C29", "Generated identifiers do not repeat across threads and forks",
  "Identifiers generated by any threads of a process and by any processes forked from it, at any point and to any depth, are drawn from independently seeded generators, so that no thread or process repeats another's sequence; within one thread the sequence does not repeat either.",
  ["schedules", "histories", "crash_points"], "every pattern of thread creation, forking and generation",
  "the test forks once from one thread",
  ["src/common/random.cpp", "src/common/fast_random_number_generator.h", "src/common/platform/fork_unix.cpp"], [("thread-local engine seeded at first use and after fork", "random.cpp")], [], ["identifiers generated in each thread and process"])
p("C30", "Random traversal visits every index exactly once",
  "A random traversal calls back with every index of the sequence exactly once and reports completion, or, if the callback asks to stop, stops at once with distinct indexes visited so far and reports that; this holds for every size and for repeated traversals, completed or not, and over traversals every order is possible.",
  ["inputs", "histories"], "every size, every stopping point, every sequence of traversals",
  "tests try one size and one stop",
  ["src/common/random_traverser.cpp"], [("incremental shuffle", "RandomTraverser::ForEachIndex")], [], ["indexes passed to the callback", "return value"])
p("C31", "The baggage map behaves as a sorted map with unique keys",
  "After any sequence of insertions the flat map holds each inserted key exactly once with its last value, iterates in key order, finds exactly the keys inserted, and reports the position of the affected element.",
  ["histories", "inputs"], "every sequence of insertions and lookups",
  "tests insert two or three keys",
  ["src/common/flat_map.h", "src/tracer/baggage_flat_map.h"], [("sorted vector", "FlatMap")], [], ["contents", "find and insert results"])
p("C32", "Numbers and embedded messages encode to standard protobuf bytes",
  "The direct serializer writes, for every integer, tag and byte string, exactly the standard protobuf encoding that decodes to the same value, and every size computed in advance equals the number of bytes then written. An embedded message written with its field number decodes as that field with equal content.",
  ["inputs"], "every integer of either width (all byte lengths), field number and payload",
  "tests sample random integers and one message",
  ["src/common/direct_coded_output_stream.h", "src/common/protobuf.cpp", "src/common/serialization.h"], [("unrolled varint writer", "DirectCodedOutputStream::WriteBigVarint64"), ("size computation", "src/common/protobuf.cpp, serialization.h")], [], ["bytes written", "sizes returned"])
p("C33", "Clock conversions are exact inverses and keep differences",
  "Converting a time point between the monotonic and the wall clock with one measured offset and back yields the same time point, differences between time points are preserved exactly, and the offset measured lies between those seen just before and just after measuring.",
  ["inputs"], "every time point and offset",
  "the test converts the current time once",
  ["src/common/timestamp.cpp"], [("integer nanosecond arithmetic", "timestamp.cpp")], [], ["converted time points"])
p("C34", "Each socket descriptor is closed exactly once, by its last owner",
  "However socket objects are created, moved, assigned, and destroyed, every descriptor they own is closed exactly once, when its last owner is destroyed or overwritten and never before, and failures while creating or connecting leak none and are reported as errors. A connecting socket is non-blocking, and a connection still in progress is not an error.",
  ["histories", "fault_sequences"], "every sequence of construction, move, assignment and destruction, and every result of the underlying system calls",
  "tests do one move each",
  ["src/network/socket.cpp", "src/common/platform/network_unix.cpp"], [("move empties its source", "Socket"), ("error classification", "Connect")], [], ["socket/close/fcntl/connect calls"])
p("C35", "Events and timers fire as registered and are released exactly once",
  "An event or timer wrapper registers with the event loop exactly what was asked and releases it exactly once however the wrappers are moved, assigned, reset and destroyed, so that a callback never runs for a released or disabled event. A periodic timer that is reset fires one full period after the reset, and periodically from then on; errors from the event library are reported and leak nothing.",
  ["histories", "fault_sequences"], "every sequence of wrapper operations and event-library results",
  "tests cover single operations in real time",
  ["src/network/event.cpp", "src/network/event_base.cpp", "src/network/timer_event.cpp"], [("owning wrappers", "Event, EventBase, TimerEvent")], [], ["event library calls"])
p("C36", "A JSON configuration is applied completely or refused",
  "Every recognised setting present in a JSON tracer configuration is reflected in the tracer's options, every absent or zero one leaves the documented default, and a configuration that is not valid JSON, has the wrong types, an unknown propagation mode or a port out of range is refused with an error rather than applied in part.",
  ["configurations"], "every combination of present, absent and invalid settings",
  "tests set one or two fields",
  ["src/tracer/json_options.cpp"], [("MakeTracerOptions", "json_options.cpp")], [], ["options returned or error"])
p("C37", "Network addresses parse, print and compare consistently",
  "A textual IPv4 or IPv6 address is accepted exactly when it is a valid numeric address, keeps its family, bits and port, and prints to text that parses back to an equal address. Two addresses are equal exactly when family, address bits and port are equal.",
  ["inputs"], "every address of both families and every port, and malformed text",
  "tests compare two or three addresses",
  ["src/network/ip_address.cpp"], [("sockaddr storage", "IpAddress")], [], ["comparison, text, family"])
p("C38", "A tracer is built as its options say or not at all",
  "Building a tracer uses the recorder its options ask for: a background thread with a synchronous transporter, the streaming recorder only threaded, in plaintext and without a custom transporter, and without a thread the transporter the user gave. A combination that cannot work yields no tracer and a logged error. Every report of a tracer carries the access token, one reporter identifier that no other tracer shares, the component name (the program's name when none is given), the library's own tags and the user's tags.",
  ["configurations"], "every combination of transporter kind, threading, streaming and encryption options, tags and names",
  "tests build a tracer of one or two kinds and look at one report",
  ["src/tracer/tracer.cpp", "src/recorder/report_builder.cpp", "src/recorder/serialization/report_request_header.cpp"], [("MakeLightStepTracer", "tracer.cpp"), ("default tags", "tracer.cpp")], [], ["the tracer returned", "log", "reports given to the transporter"])
p("C39", "A name resolution ends exactly once, with what was answered",
  "A name resolution asked of the resolver is called back exactly once: with the addresses of the answer in order and in their family, or with an error text exactly if it failed. This holds however the answers, truncated or stray packets, broken sockets, retries and further queries come in, and whether or not a socket can be watched: every answer that reached a watched socket is read at once, and a resolution whose packets are lost ends when its queries have timed out, or when the resolver is destroyed. The resolver asks the servers, port and timeout it was given and leaves no event registered for a closed socket.",
  ["histories", "fault_sequences", "timing"], "every order of answers, losses, retries, socket changes and failures",
  "tests resolve one name against a well-behaved server",
  ["src/network/ares_dns_resolver/ares_dns_resolver.cpp", "src/network/ares_dns_resolver/ares_library_handle.cpp"],
  [("socket states and timeouts of c-ares", "AresDnsResolver"), ("answer", "AresDnsResolution")], [], ["callbacks of resolutions", "calls into the library and the event loop"])
p("C40", "Messages reach the log exactly when its level admits them",
  "A message at or above the logger's level reaches the sink once and unchanged, one below it never does, and neither a sink that throws nor a message that cannot be made lets an exception out or affects later messages; without a sink, messages go to standard error, one line each with their level. Of a collector's response the errors and warnings are logged at their levels in order, and the rest only on request.",
  ["inputs", "histories", "fault_sequences"], "every order of levels, messages, sinks and failures",
  "tests log one message per level",
  ["src/common/logger.h", "src/common/logger.cpp", "src/common/utility.cpp"], [("levels", "Logger"), ("LogReportResponse", "utility.cpp")], [], ["sink calls", "standard error"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
