MBT = "TLA+ model checked with TLC; its transitions replayed on the code and recorded operation traces validated against the trace specification"
SCHED = "TLA+ model checked with TLC; the real code run under a deterministic scheduler over many interleavings and every distinct history validated by TLC against the trace specification"
CHECKS = {
    "C01": (SCHED, "Algorithm model exhaustive for 2-3 producers; the compiled code under preemption-bounded depth-first and random schedules with happens-before race detection; each distinct history linearized by TLC. Trusts the scheduler's memory model (sequentially consistent values, C++11 happens-before)."),
    "C02": (SCHED, "As C01; liveness under fairness on the algorithm model, and no schedule explored on the code is stuck."),
    "C03": (SCHED, "Slot exchanges, conditional fills and resets from 2-3 threads under explored schedules, with ownership and destruction tracked."),
    "C04": (SCHED, "Exclusion and release liveness on the model; lock histories of the code under explored schedules with race detection for publication."),
    "C11": (SCHED, "Drop, take, give-back and observer calls from 2-4 threads under explored schedules."),
    "C05": (MBT, "Exhaustive over small fragment groups (TLC) and every transition of that model replayed; larger chained streams by recorded traces. Trusts the driver's byte identities and TLC."),
    "C06": (MBT, "All short Next/BackUp sequences around block boundaries plus random long ones, validated against the specification."),
    "C07": (MBT, "Every kernel answer script of the small model replayed through an interposed writev, plus groups around the 1024-fragment limit."),
    "C08": (MBT, "Every transition of the small span buffer model (adds, partial sends, splits, drops) replayed on SpanStream over a real circular buffer; longer random runs validated."),
    "C09": (MBT, "Two connections over one buffer exhausted on the algorithm model (every stopping point of every write, failures, shutdowns, resets); every transition replayed with byte positions inside items; what was written is parsed as chunked HTTP and each step validated. More than 1024 fragments per write by random runs."),
    "C10": (MBT, "As C09, with every count told to the metrics and every delivered drop count judged."),
    "C12": (MBT, "Every transition of the small report model replayed on ReportRequest; longer random reports, header sizes and drop counts by recorded traces; the metrics message is decoded with the protobuf library."),
    "C22": (MBT, "All small endpoint lists over case-colliding names and random longer ones; recorded answers validated."),
    "C29": (MBT, "Generator model exhaustive for 3 processes of 2 threads; its histories and deeper process trees run in real processes and threads, every identifier checked distinct; concurrent first use under explored schedules with race detection. Distinctness of 64-bit values stands for independence of the seeds."),
    "C34": (MBT, "Socket model exhaustive for 3 objects and 4 descriptors with failures of every kernel call; every transition replayed over a scripted kernel (descriptor 0 included)."),
    "C30": (MBT, "Model exhaustive up to 4 indices; recorded traversals, complete and stopped early, validated; every order of up to 4 indices must turn up."),
    "C31": (MBT, "Map model exhaustive over small key sets; every recorded lookup, insertion and iteration validated, with long keys by recorded traces."),
    "C32": (MBT, "Encoders compared with the specification's digit functions at every power-of-two boundary and random 64-bit values; sizes and headers included."),
    "C33": (MBT, "Clock model exhaustive over small times; recorded conversions of 64-bit nanosecond values validated."),
    "C37": (MBT, "Textual form of addresses in TLA+; recorded conversions, comparisons and parses validated."),
    "C13": (SCHED, "Interleavings of 2 recording/flushing/answering threads exhausted on the model; single-threaded histories of the sequence model replayed; concurrent histories of the code validated step by step. Reports are decoded with the protobuf library."),
    "C14": (MBT, "Every transition of the small recorder model (five transport answers, changing maximum) replayed; longer random histories validated. One thread, as documented."),
    "C15": (SCHED, "Interleavings of 2 recorders, a flusher, the reporting thread and the destructor exhausted on the model; the code runs on a virtual clock under explored schedules."),
    "C16": (SCHED, "As C15; with early timeouts switched off the virtual clock is exact and deadlines are checked to the millisecond."),
    "C17": (SCHED, "Interleavings of up to 3 calling threads (record, flush, shut down), the reporting thread and the connections exhausted on the protocol model with its liveness; the real recorder runs the model's programs and random ones on scripted sockets and virtual time under explored schedules, each history validated."),
    "C23": (SCHED, "Fork model exhaustive; every small sequence of recorder creation, destruction and forks replayed in real processes, with random longer ones; forks of the manual and streaming recorders at any point of their histories; creation and destruction on several threads under explored schedules."),
    "C35": (MBT, "Every transition of the small wrapper models (two events, two timers, an event with a timer and a one-shot callback) replayed over a stand-in for libevent on virtual time; longer histories with refused calls, callbacks that act, and several loops validated. Trusts the stand-in's rendering of libevent's semantics."),
    "C24": (SCHED, "Small trees and programs of spans exhausted on the model; both tracers run the model's programs and random ones, on one thread and on several under explored schedules with race detection; recorded spans are decoded with the protobuf library (default tracer) or captured as messages (legacy) and every history validated."),
    "C25": (SCHED, "As C24: every combination of reference decisions and priority tags of the model, injected flag and recording compared."),
    "C26": (SCHED, "As C24: references to live, finished, extracted, null and foreign contexts in every order."),
    "C27": (MBT, "Every format's writing and reading in TLA+ down to the byte (hexadecimal, decimal, base64, protobuf); boundary identifiers exhausted on the model; every format and list of formats on every carrier kind, both tracers, written headers compared and read back by the other configurations."),
    "C28": (MBT, "Every list of up to two (thorough: three) formats on every combination of headers present, absent and spoilt, replayed; mutated headers of every format decided by the specification's own reading of the bytes. What the documentation leaves open is left open."),
    "C36": (MBT, "Every document of up to two settings over every class of values exhausted on the model and replayed, larger and random documents validated. JSON text that the protobuf reader takes leniently is left open."),
    "C38": (MBT, "Every combination of transporter, thread, streaming and encryption options with tag and name variants; the reports are decoded with the protobuf library. The build is without gRPC."),
    "C21": (MBT, "Line model exhaustive over short replies in all pieces; replies cut everywhere and random ones recorded from the parser and validated byte for byte."),
    "C18": (MBT, "Every transition of small pools (one or two connections, all orders of taking, blocking, breaking, replying, shutting down and timers) replayed into the satellite streamer over scripted sockets on virtual time; random histories with up to 8 connections validated. Names are answered by the script."),
    "C19": (MBT, "Every transition of small endpoint/host/address models (up to 3 endpoints, 3 hosts, lists of 1 to 3 addresses) replayed into the endpoint manager; random histories with up to 8 endpoints validated. The resolver is scripted; time is virtual."),
    "C20": (MBT, "Every transition of small models of questions, answers and timers for 1 and 2 hosts replayed on virtual time; random histories with answers given at once or later validated. The resolver is scripted (C39 covers the real one)."),
    "C39": (MBT, "Every transition of small models of one and two questions (retries, chains, truncation, stray packets, broken sockets, sockets that cannot be watched, destruction at any point) replayed over a stand-in for c-ares and libevent on virtual time; random histories of several resolvers with questions asked from callbacks, and the endpoint manager over real resolvers taken down at any point, validated. Trusts the stand-in's rendering of c-ares 1.27, compared by hand with the real library."),
    "C40": (MBT, "Every order of up to three levels, messages and responses on four kinds of sink replayed; longer random ones validated byte for byte."),
}
NOT_APPLICABLE = {}
