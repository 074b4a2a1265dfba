"""Writes MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SND = "stateful property-based testing over real sockets and child processes"
T = {
 "C01": ("property-based testing: generated send sequences, every byte on the stream parsed by an independent strict framer and compared with a model",
   "Generated messages of every kind and size up to megabytes over TCP client, TCP server and stdio. Trusts the harness's own frame parser, serde_json's Value and the kernel's sockets and pipes."),
 "C02": ("property-based testing: generated frames in generated spellings and fragmentation, metamorphic against the unfragmented model",
   "Decides generated streams and cuts; kernel may merge writes, so a given fragmentation is likely but not forced."),
 "C03": ("fault-injecting property-based testing: generated malformed and truncated streams in a memory-limited worker",
   "Generated faults of eleven kinds after generated good frames. Exhaustion is judged against a 12 GB address-space limit of the worker process; a crash is attributed by re-running the case alone."),
 "C04": ("property-based round-trip and differential testing against a hand-written table of documented methods and schemas",
   "All request kinds over generated ids and parameters, through text and, for a sample, through two connections."),
 "C05": ("property-based round-trip and differential testing against a hand-written table of documented methods and schemas",
   "All notification kinds over generated parameters, through text and, for a sample, through two connections."),
 "C06": ("property-based round-trip testing of generated outcomes and of every error helper",
   "Generated ids, results and errors; helpers compared with a table of codes."),
 "C07": ("property-based testing: generated messages in shuffled spellings, classification compared with the presence rule",
   "Generated member sets, orders and extras, over all known method names and near misses."),
 "C08": ("model-based testing of the initialize handshake: generated client histories against a reference state machine, with disconnects",
   "Histories queued before, fed in lock-step or over a stream; the reference machine decides replies, consumed messages and outcome."),
 "C09": ("model-based testing of the shutdown handshake with generated histories, deafness and silence",
   "Silence is decided by two waits of the documented half minute (accepted between 20 s and 90 s)."),
 "C10": (SND + ": generated streams around an exit notification",
   "Generated frames before, after and resembling exit; reading must end although the peer keeps its side open."),
 "C11": (SND + ": generated teardown orders and peer faults; blocking decided by quiescence of all threads",
   "Real schedules are sampled, not enumerated. A hang is reported when every thread and child sleeps without a context switch for 3 s after the patience of 20 s, and is re-run."),
 "C12": ("property-based testing: generated unknown methods and arbitrary JSON both ways",
   "Method names include near misses of known ones; values are arbitrary JSON with integers in the full 64-bit range."),
 "C13": ("model-based testing: generated operation sequences on a pair against two queues, plus concurrent runs",
   "Single-threaded histories are compared exactly with the model; concurrent ones per sender."),
 "C14": ("property-based round-trip testing of generated documents against hand-written schemas",
   "Schemas transcribed from the protocol as the library implements it; floating point numbers excepted."),
 "C15": ("model-based testing: generated constructor and setter sequences against a map of members",
   "Every constructor, setter, public field and getter named in the table; one added to the library later is not covered."),
 "C16": ("property-based testing with exhaustive enumeration of small codes",
   "Codes -70000..70000 are enumerated for each numeric enumeration, wider ones and strings generated."),
 "C17": (SND + ": generated concurrent producers, every byte read and per-thread order compared",
   "Schedules are sampled by the operating system on 8 cores, with 5,000 runs of up to eight threads."),
 "C18": ("differential testing of decoding routes over generated well-formed and damaged messages",
   "Routes: text, bytes, reader, Value, borrowed Value; as Message, or as Request, Notification, Response."),
 "C19": ("property-based testing of every conversion against the table of kinds",
   "All conversions the library offers for its payload types at the pinned commit."),
 "C20": ("property-based testing: accessors compared with the encoding of generated requests and notifications",
   "All kinds, built and decoded; ids compared pairwise including look-alikes."),
 "C21": ("property-based round-trip testing of generated Unix paths",
   "Unix paths only; paths the url crate itself does not keep are left out."),
 "C22": (SND + ": generated sessions against a documented-style server, pipelined and in lock-step",
   "The server under test is the documentation's loop with four handlers."),
 "C23": ("property-based testing: generated requests shaped by hand-written BSP 2.0 schemas",
   "Schemas transcribed by hand from the BSP 2.0 specification. Known findings: compile, test, run, dependencySources."),
 "C24": ("negative property-based testing: generated documents with one defect each",
   "Known findings are keyed by defect kind, so a new kind of confusion is reported."),
 "C25": (SND + ": generated strict request-response exchanges in which nothing follows",
   "Failing to make progress is decided by quiescence, not by a clock."),
 "C26": (SND + ": generated stalls of one direction with volumes far above socket buffers",
   "Stalls are real (unread sockets and pipes, megabytes in flight)."),
 "C27": (SND + ": generated sequences of limited sends against reading, stalled and vanishing peers, outcomes and bytes compared",
   "Durations are judged with 12 s of slack above and 1 ms below; schedules are sampled."),
 "C28": (SND + ": generated interleavings of exchanges and faults on 2 to 6 connections of one process",
   "Interleavings are driven from one thread or one per connection; the kernel's own schedule is sampled."),
 "C29": ("metamorphic property-based testing: the same generated traffic many times over, resources before and after compared",
   "Each case runs in a process of its own with a counting allocator; growth below 2 bytes per message, 8 threads or 8 files is not seen. Distinct custom method names are kept for ever by the API's design and excluded."),
 "C30": ("property-based testing of the other stream and handshake properties with every log event formatted",
   "Reuses the generators and models of C01-C03, C08-C11, C17, C18, C22 and C25."),
 "C31": ("fault-injecting property-based testing: the other stream properties under a storm of signals without SA_RESTART",
   "Interruptions are frequent and random, not enumerated. Reuses the generators and models of C01-C03, C08, C10, C11, C17, C22 and C25."),
 "C32": ("metamorphic property-based testing: equality of generated pairs compared with equality of their encodings",
   "Covers the 22 payload types that are comparable; pairs mostly differ in one part at any depth."),
 "C34": ("model-based testing: generated call sequences, received and dispatched to three complementary implementations of the interface",
   "Which operations are provided is fixed at compile time: none, or one of two halves."),
 "C35": ("differential testing: generated sessions of two library endpoints over every pair of transports against an in-memory pair and a queue model",
   "Steps have a global order, and what is under way stays within the transports' buffers, so that no step waits for a later one. Ends of stream without exit are left to C02 and C11."),
 "C36": ("property-based testing of a fixpoint: decode, encode, decode of generated accepted documents, partly through an echoing application",
   "Documents are damaged or decorated messages; floating point numbers are limited to those every parser agrees on."),
 "C37": (SND + ": generated sets of receivers on one stream, everything received compared with what was sent",
   "Schedules are sampled; up to six threads, six ways of receiving."),
 "C38": ("metamorphic property-based testing: cost of a generated message against that of a multiple of it, in a process that counts allocations and processor time",
   "Growth is allowed a factor of 2.5 (memory) or 4 (time) above proportional plus a constant, so that n log n and constant factors pass; time is measured again before it counts."),
 "C39": ("model-based testing: generated histories of calls and answers in tables keyed by RequestId against a table keyed by the JSON of the id",
   "Ids are obtained in nine ways; groups of look-alike ids make collisions likely."),
 "C40": (SND + ": generated fill-ups of a connection in both directions against a bound and a queue model",
   "The bound is what the operating system is configured to buffer plus 40 messages; being held back is seen as no progress for 600 ms."),
 "C33": ("model-based testing of generated opening attempts against the first usable address",
   "IPv4 loopback only; unusable means taken (listen) or without listener (connect)."),
}
checks = []
for k, (tech, note) in T.items():
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                   "evidence_file": f"evidence/{k}.json", "technique": tech, "level": "exploration", "level_note": note})
M = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is driven through the public API and real byte streams. Known findings are in known-findings.txt."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
