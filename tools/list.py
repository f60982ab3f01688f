SB = "stateful property-based testing against a reference model, with shrinking"
PB = "property-based testing against an independent reference implementation"

prop("C01", "k-base",
  "The persisted key-value store gives back what was last stored, or nothing",
  "Reading a key gives back exactly the value last stored under it by a write that succeeded, in this or an earlier process, and nothing for a key never stored. An entry whose raw contents cannot be decoded as its type, whatever bytes it holds, reads as absent and is removed; failing storage makes a read return nothing and a write change nothing. Reads and writes of one key never affect another, and no contents crash the process.",
  ["inputs", "histories", "fault_sequences"], "For all histories of stores, reads, restarts and storage faults, and all raw contents of the storage.",
  "The tests store and read single values on a healthy storage; corruption, faults and restarts range over all contents and orders.",
  ["bd-key-value/src/lib.rs"], [("typed keys", "bd-key-value/src/lib.rs"), ("removal of malformed entries", "bd-key-value/src/lib.rs")],
  SB, "Sampled histories over five typed keys with an in-memory faulting storage; the reference decodes the stored form independently.")

prop("C02", "k-base",
  "A device keeps one id across restarts and concurrent callers",
  "The device id is a random UUID made once: every later request, from any thread and any later process with the same storage, returns it and writes nothing. Only when no usable id is stored (first run, wiped or corrupt storage) is a new one made, which was never used before and is stored. Within a process the id never changes, even if storage fails or is corrupted meanwhile.",
  ["histories", "schedules", "fault_sequences"], "For all histories of requests, restarts, corruption and failing writes, and any number of concurrent callers.",
  "The one test asks twice from one thread on a healthy storage.",
  ["bd-device/src/lib.rs", "bd-key-value/src/lib.rs"], [("lazily created id", "bd-device/src/lib.rs")],
  SB, "Sampled histories; concurrent callers run on real threads, whose interleavings are those the scheduler produces.")

prop("C03", "k-session",
  "A fixed session lasts until a new one is asked for, and is remembered across it",
  "With host-generated sessions, the session id is asked of the host once per session and stays the same for all readers and threads until a new session is started; if the host fails, a fresh random UUID is used. The previous process's session is the last one stored by an earlier process, whatever happens in this one. Calls made by the host from within its own callback do not deadlock.",
  ["histories", "schedules", "fault_sequences"], "For all histories of reads, new sessions, restarts, host failures, re-entrant host calls and storage faults.",
  "The tests follow a few fixed sequences; re-entrance, faults and restarts combine over all histories.",
  ["bd-session/src/fixed.rs", "bd-session/src/lib.rs"], [("re-entrant id generation", "bd-session/src/fixed.rs")],
  SB, "Sampled histories over an in-memory faulting storage; threads run on the real scheduler.")

prop("C04", "k-base",
  "Each log field comes from its highest-priority source, exactly once",
  "A log's captured fields hold every key once, taken from the first of: host fields supplied by the SDK, the log's SDK fields, the log's own fields, global fields, host custom fields; matching-only fields follow the same order, and a log of a replay, resource or internal kind gets the host's fields for matching only. Keys reserved by the SDK (underscore-prefixed, or well-known) are never taken from custom fields, and adding such a global field is refused. A failing metadata provider makes the log fail instead of carrying partial metadata.",
  ["inputs", "histories"], "For all sets of fields from all sources, kinds of log and histories of global fields.",
  "The tests use a handful of fixed field sets.",
  ["bd-logger/src/metadata.rs"], [("priority merge", "bd-logger/src/metadata.rs"), ("reserved keys", "bd-logger/src/metadata.rs")],
  SB, "Sampled histories over a small pool of colliding keys; the source file is compiled into the harness.")

prop("C05", "k-base",
  "App version changes are reported exactly once each",
  "A version is reported as changed exactly when it differs from the last recorded one, and recording it returns that previous one; the first ever recorded version reports no previous one. What was recorded survives a restart if its write succeeded, and unreadable stored versions count as none. The platform's additional version number takes part in the comparison.",
  ["histories", "fault_sequences"], "For all histories of checks, recordings, restarts, failing writes and malformed storage.",
  "The tests record two versions in one order on a healthy storage.",
  ["bd-logger/src/app_version.rs"], [("recorded version", "bd-logger/src/app_version.rs")],
  SB, "Sampled histories over a small pool of colliding versions; the source file is compiled into the harness.")

prop("C06", "k-server",
  "Server metrics: one metric per name and label set, nothing lost",
  "Asking for a metric by the same full name and label set always reaches the same metric, whatever handle, nested scope or thread asks, and the gathered families and the text exposition hold exactly the accumulated values. Labels given at several levels merge, the innermost winning. Above the limit on distinct label values, late-labelled metrics fall into one overflow series per metric and no increment is lost.",
  ["histories", "schedules"], "For all histories of scopes, labels, metrics and increments, and any number of concurrent callers.",
  "The tests check a few metrics one by one.",
  ["bd-server-stats/src/stats.rs"], [("get-or-create registry", "bd-server-stats/src/stats.rs"), ("label limit", "bd-server-stats/src/stats.rs")],
  SB, "Sampled histories; concurrency is what the real scheduler produces.")

prop("C07", "k-server",
  "Feature flags read as configured, and fractions hold",
  "A flag of each type reads as the value in the file through the accessor of its type, and as the caller's default when it is absent or of another type; a malformed or missing file makes every flag read as its default. A flag given as a share of ten thousand is true with that probability, never for zero and always from ten thousand on.",
  ["inputs"], "For all flag files, names, types, defaults and fractions.",
  "The tests read one file; the fraction is a probability, which single evaluations cannot show.",
  ["bd-runtime-config/src/feature_flags.rs"], [("typed accessors", "bd-runtime-config/src/feature_flags.rs"), ("fraction", "bd-runtime-config/src/feature_flags.rs")],
  "property-based testing with a statistical oracle", "Sampled files; the fraction is decided statistically at nine standard deviations, which cannot see an error smaller than that.")

prop("C08", "k-server",
  "A watched configuration file is always reflected in the snapshot",
  "After a file is replaced by a rename of it or of the link it is reached through, the snapshot becomes its new content, and if that is malformed or missing the snapshot becomes empty, without the loader ever stopping. No replacement is missed, neither in a burst, nor while a load is running, nor when the system had to drop notifications, and each load is counted by outcome. After shutdown nothing changes.",
  ["histories", "schedules"], "For all histories of replacements and contents, on a real directory with real notifications.",
  "The tests replace the file once with a valid content.",
  ["bd-runtime-config/src/loader.rs"], [("directory watch", "bd-runtime-config/src/loader.rs")],
  SB, "Sampled histories on a real directory; a missing reload is reported only if a second watcher saw the notification, or if it followed a loss of notifications that the system reports.")

prop("C09", "k-base",
  "Shutdown reaches every component and waits for all of them",
  "Every component, including ones cloned later, is told once shutdown is requested and not before; the request completes exactly when every component has gone, and then always does. No wake-up is lost in any order of waiting, cloning, dropping and requesting. A one-shot completion delivers the sent value, or an error when its sender is dropped.",
  ["schedules", "histories"], "For all orders of creating, cloning, waiting on and dropping the parts around the request.",
  "The tests run one order each.",
  ["bd-shutdown/src/lib.rs", "bd-completion/src/lib.rs"], [("trigger and handles", "bd-shutdown/src/lib.rs"), ("completion", "bd-completion/src/lib.rs")],
  "stateful property-based testing over poll schedules", "Sampled poll schedules on one thread, plus real threads for the blocking form.")

prop("C10", "k-base",
  "The runtime has as many workers as the configured CPU share, at least one",
  "With a CPU share configured as a normal number, the runtime gets as many workers as its whole part and never fewer than one; with none, or one that is not a normal number, the machine's own count applies. The runtime built from it runs work.",
  ["configurations", "inputs"], "For all values of the CPU-share variable (runtimes are built up to some dozens of workers).",
  "No test covers it.",
  ["bd-rt/src/lib.rs"], [("thread count", "bd-rt/src/lib.rs")],
  PB, "Sampled values, including not-a-number and infinities; a child process builds the real runtime for some of them.")

prop("C11", "k-base",
  "Rate-limited warnings appear at once, then at most once per window",
  "A rate-limited warning site reports loudly the first time and then only after its window has passed since the last loud report; in between it reports at debug level and nothing is dropped. Sites and trackers never affect each other.",
  ["histories", "inputs"], "For all histories of reports, windows and passages of time.",
  "The test asks one tracker a few times.",
  ["bd-log/src/rate_limit_log.rs"], [("tracker", "bd-log/src/rate_limit_log.rs"), ("macros", "bd-log/src/rate_limit_log.rs")],
  SB, "Sampled histories on the virtual clock.")

prop("C12", "k-base",
  "Log field lookup finds captured fields before matching-only ones",
  "Looking a key up in a log gives its captured value if there is one, else its matching-only value, else nothing; binary values have no text form. Conversions between the field and value forms lose nothing.",
  ["inputs"], "For all captured and matching field lists and keys.",
  "No test covers lookups over duplicate keys.",
  ["bd-log-primitives/src/lib.rs"], [("lookup", "bd-log-primitives/src/lib.rs")],
  PB, "Sampled lists over a small pool of keys.")

prop("C13", "k-base",
  "Handshake metadata always identifies platform, SDK and configuration version",
  "The metadata a client presents contains the platform's os and kind, the SDK version and the build's configuration version, whatever the host supplies; host-supplied entries under other keys are all present unchanged.",
  ["inputs"], "For all host-supplied entries, including colliding ones.",
  "No test covers it.",
  ["bd-metadata/src/lib.rs"], [("collection", "bd-metadata/src/lib.rs")],
  PB, "Sampled entries over colliding and other keys.")

prop("C14", "k-base",
  "The panic policy holds on every thread and for every payload",
  "With the forced-exit policy any panic, on whatever thread or task and with whatever payload, ends the process with status 1; without it the panic stays contained. With single-line logging the panic appears as exactly one line with its message and place.",
  ["configurations", "inputs"], "For all policies, threads and payloads.",
  "A test cannot exit its own process.",
  ["bd-panic/src/lib.rs"], [("panic hook", "bd-panic/src/lib.rs")],
  "property-based testing over child processes", "Sampled combinations in child processes.")

prop("C15", "k-base",
  "Stat identity depends on name and label set only",
  "Two stat identities are equal, and hash equally, exactly when their names and their label sets are equal, whatever order the labels were given in. When a label key is given twice the later value is the one kept.",
  ["inputs"], "For all names, label lists, orders and repetitions.",
  "No test covers identities; the guarantee ranges over all label lists and orders.",
  ["bd-stats-common/src/lib.rs"], [("ordered label map", "bd-stats-common/src/lib.rs")],
  "property-based testing (algebraic laws over generated identities)",
  "Sampled: generated label lists over a small alphabet; trusts the standard library's maps.")

prop("C16", "k-session",
  "An activity-based session ends after the inactivity threshold, and only then",
  "The session id stays the same while each use comes no later than the inactivity threshold after the last activity, also across restarts (where activity is recorded at most 15 seconds late), and is replaced by a fresh random one after a longer gap, when the clock has gone back, or when a new session is asked for. A session that begins because of inactivity or because there was none is announced to the host exactly once. The previous process's session is the last one an earlier process stored.",
  ["histories", "schedules", "fault_sequences"], "For all histories of uses, flushes, new sessions, restarts, clock movements and storage faults.",
  "The tests follow a few fixed sequences of clock steps.",
  ["bd-session/src/activity_based.rs", "bd-session/src/lib.rs"], [("inactivity", "bd-session/src/activity_based.rs"), ("write throttling", "bd-session/src/activity_based.rs")],
  SB, "Sampled histories on a test clock; after a restart the last activity is the last persisted one, as the code defines it.")

prop("C17", "k-session",
  "Time rounding, wire conversions and timers are exact",
  "Rounding an instant down or up to an interval gives the nearest multiple not after or not before it, leaving multiples alone, for instants before and after 1970 and with sub-second parts. Instants and durations survive conversion to the wire form and back exactly. Timers and deadlines elapse exactly at their duration, and a jittered interval starts within one period.",
  ["inputs"], "For all instants, offsets, intervals and durations in the supported range.",
  "The tests round a few whole-second instants after 1970.",
  ["bd-time/src/lib.rs"], [("floor and ceil", "bd-time/src/lib.rs"), ("wire conversions", "bd-time/src/lib.rs")],
  PB, "Sampled over the whole calendar range, weighted to boundaries; the wire types are stand-ins (see DESIGN.md).")

prop("C18", "k-match",
  "Log conditions match as configured",
  "A tree of conditions combined with and, or and not matches a log exactly when its leaves say so, each comparing the message, a captured or matching-only field, the level or the type with the configured operator; text compares as text, regular expressions search anywhere, numbers compare as numbers and a field that is absent or not a number matches nothing. Versions compare segment by segment, numerically where both segments are numbers. A condition that is incomplete or has an invalid pattern is refused as a whole.",
  ["inputs"], "For all condition trees, operators, patterns and logs.",
  "The tests evaluate a few trees on a few logs.",
  ["bd-log-matcher/src/matcher.rs", "bd-log-matcher/src/version.rs"], [("condition tree", "bd-log-matcher/src/matcher.rs"), ("version order", "bd-log-matcher/src/version.rs")],
  PB, "Sampled; regular expressions come from a small grammar with a matcher of its own. The wire types are stand-ins (see DESIGN.md).")

prop("C19", "k-match",
  "Each log goes to exactly the buffers whose matcher accepts it",
  "A log is sent to exactly the configured buffers of which some matcher accepts it, by its level, type, message and tags, every matching buffer is named once, and a buffer without matchers never receives anything. Matchers nested under and, or, and negation follow the same logic, and a configuration with an incomplete matcher or invalid pattern is refused.",
  ["inputs"], "For all buffer configurations and logs.",
  "The tests select among a few buffers for a few logs.",
  ["bd-matcher/src/buffer_selector.rs", "bd-matcher/src/matcher.rs"], [("buffer selector", "bd-matcher/src/buffer_selector.rs")],
  PB, "Sampled configurations of a few buffers; the wire types are stand-ins.")

prop("C20", "k-match",
  "Log filters change matching logs only, in order, as configured",
  "Each valid filter whose condition accepts the log as left by the filters before it applies its transforms in order: capturing a matching-only field, setting, removing or rewriting a field; no other log, field or message changes and no key is duplicated. A field that exists, text or binary, is not overwritten unless the transform allows it. Filters that cannot be understood are skipped and counted, the others apply.",
  ["inputs"], "For all chains of filters and all logs.",
  "The tests apply one or two filters to one log.",
  ["bd-log-filter/src/lib.rs"], [("filter chain", "bd-log-filter/src/lib.rs")],
  PB, "Sampled chains of up to four filters over a small pool of colliding keys.")

prop("C21", "k-match",
  "A message is accepted exactly when it keeps the rules of its schema",
  "Validation accepts a message exactly when it and every message nested in it, in lists, maps and alternatives too, keep the rules annotated in the schema: required messages and alternatives, text length in characters, number bounds, list sizes, defined enum values, constants and duration bounds. Absent fields without presence count as their default. A value under a rule that is not supported is refused, never silently accepted.",
  ["inputs"], "For all messages of all annotated schemas.",
  "The tests validate about one message per kind of rule, without nesting.",
  ["bd-pgv/src/proto_validate.rs"], [("rule evaluation", "bd-pgv/src/proto_validate.rs"), ("recursion", "bd-pgv/src/proto_validate.rs")],
  "structure-aware random generation of messages against an independent reference validator",
  "Sampled messages of 24 message types with the rules read from the raw schema; reflection is a stand-in (see DESIGN.md).")

prop("C22", "k-match",
  "A message's fingerprint is stable and tells changes apart",
  "Equal messages have equal fingerprints, in whatever order their fields and map entries arrived. Changing a single value, the presence of a nested message or the length of a list changes the fingerprint.",
  ["inputs"], "For all messages and all single changes.",
  "The one test hashes one map in two orders.",
  ["bd-proto-util/src/proto.rs"], [("message hashing", "bd-proto-util/src/proto.rs")],
  "metamorphic property-based testing over generated messages",
  "Sampled messages of 24 message types; not asserted for NaN and for changes at several places at once, which the encoding may confuse.")

prop("C23", "k-buffer",
  "The memory ring hands out what was written, whole and in order",
  "Records are read in the order in which their space was reserved, byte for byte as committed and exactly once; what is not yet committed is not seen and holds back what was reserved after it. A full buffer refuses a new record, or, where overwriting is allowed, drops the oldest unread ones and never one being read or written. A record that can never fit, or misuse such as committing without reserving, is refused without harm; the counters of written, read, overwritten and refused records and bytes are exact.",
  ["histories", "inputs"], "For all histories of reserve, commit, read, acknowledge, lock, flush and shutdown by several writers, all sizes and both policies.",
  "The tests play about forty fixed histories.",
  ["bd-buffer/src/buffer/common_ring_buffer.rs", "bd-buffer/src/buffer/volatile_ring_buffer.rs"], [("space and ordering", "bd-buffer/src/buffer/common_ring_buffer.rs"), ("concurrent writers", "bd-buffer/src/buffer/volatile_ring_buffer.rs")],
  SB, "Sampled histories with up to three writers interleaved at the level of operations; threads are left to C26.")

prop("C24", "k-buffer",
  "The file-backed ring keeps unread records across restarts",
  "Records written to a buffer file are read in order, whole and once, and those not acknowledged when the process ends, even if it ends between any two operations, are there again when the file is opened, in order and without the ones acknowledged. A reader that reads ahead frees space only by acknowledging, oldest first. A record that was never finished, or whose contents were damaged, is skipped and the ones after it are still delivered and accounted for.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of writes, reads, acknowledgements and reopening, all points of ending and all damage to record contents.",
  "The tests reopen a few buffers after fixed sequences.",
  ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs", "bd-buffer/src/buffer/common_ring_buffer.rs"], [("file header and recovery", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs"), ("cursor", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs")],
  SB, "Sampled histories; ending the process is modelled by dropping the buffer without a clean end, since the mapped pages survive it.")

prop("C25", "k-buffer",
  "A damaged buffer file never crashes, hangs or delivers wrong records",
  "Whatever bytes a buffer file holds, and whatever changes in the space of its records while it is open, opening it either succeeds, empties it or reports an error, and operations on it end. Every record delivered has exactly the contents of one that was written; after the damage is noticed and outstanding reads are acknowledged, the buffer works again.",
  ["inputs", "fault_sequences", "histories"], "For all file contents, all damage at all times, and all histories around it.",
  "The tests damage a few chosen bytes.",
  ["bd-buffer/src/buffer/non_volatile_ring_buffer.rs", "bd-buffer/src/buffer/common_ring_buffer.rs"], [("header checks", "bd-buffer/src/buffer/non_volatile_ring_buffer.rs"), ("total data loss", "bd-buffer/src/buffer/common_ring_buffer.rs")],
  "stateful fuzzing with structure-aware corruption and a time limit, with shrinking and a regression corpus",
  "Sampled damage; header words changed while the file is open are out of scope. Damage that keeps a record's checksum valid is not expected to be found.")

prop("C26", "k-buffer",
  "A buffer with memory in front of a file loses and reorders nothing between them",
  "Records written by any number of threads reach the reader, each writer's in its order, whole and at most once, in this process or, once flushed, after a restart; without overwriting, a record is missing only if its writer was told so or it is counted as dropped. A flush returns, also when what it waits for is overwritten or cannot be stored, and then everything written before is in the file.",
  ["schedules", "histories"], "For all interleavings of writers, reader, background copying, flushes and shutdown.",
  "The tests write single records from one thread.",
  ["bd-buffer/src/buffer/aggregate_ring_buffer.rs", "bd-buffer/src/buffer/volatile_ring_buffer.rs"], [("background copying", "bd-buffer/src/buffer/aggregate_ring_buffer.rs"), ("flush", "bd-buffer/src/buffer/volatile_ring_buffer.rs")],
  "property-based testing with real threads against an invariant over the history", "Sampled schedules: those that real threads with random delays produce.")

prop("C27", "k-buffer",
  "The buffers in use are those of the last accepted configuration",
  "After each accepted configuration exactly its buffers exist; unchanged ones and their unread records stay, new ones are announced with their kind, and removed ones are announced before their files go, all before the update counts as done. A refused configuration changes nothing in use. A flush request is served for every known trigger buffer it names, always answered, and never keeps later requests from being served; unread records survive a restart, and a damaged file is started over.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of configurations, writes, reads, flush requests, restarts and damage.",
  "The tests apply two or three configurations.",
  ["bd-buffer/src/ring_buffer.rs"], [("configuration changes", "bd-buffer/src/ring_buffer.rs"), ("flush requests", "bd-buffer/src/ring_buffer.rs")],
  SB, "Sampled histories of up to four buffers with in-process restarts.")

prop("C28", "k-flow",
  "Workflows do what their configuration says for every log",
  "For every sequence of logs, each workflow advances, forks, completes and starts over exactly as its states, transitions, match counts, execution mode, and limits on matched logs, duration and active positions prescribe. Each followed transition's actions are carried out: counters, histograms, screenshots and paths, with values and tags taken from the log. A workflow that cannot be understood is left out without affecting the others, a new session starts all over, and the number of active positions is exact and never above its limit.",
  ["histories", "inputs"], "For all sets of workflows, all sequences of logs and all changes of the set.",
  "The tests play about a hundred fixed pairs of workflow and logs.",
  ["bd-workflows/src/workflow.rs", "bd-workflows/src/engine.rs", "bd-workflows/src/metrics.rs", "bd-workflows/src/config.rs", "bd-workflows/src/sankey_diagram.rs"],
  [("runs and traversals", "bd-workflows/src/workflow.rs"), ("limits and sessions", "bd-workflows/src/engine.rs"), ("metrics", "bd-workflows/src/metrics.rs")],
  SB, "Sampled sets of up to four workflows of up to five states; loops back to a first state and several workflows of one id are not generated.")

prop("C29", "k-flow",
  "Flushes are negotiated once and streaming goes where it should",
  "A flush action asks the server once per action until it is decided, asks again when the question is lost, and never again once refused; an approved one flushes exactly the existing trigger buffers it names, unless a flush of that action is still under way. Afterwards, exactly the logs bound for those buffers are redirected to the action's existing continuous buffers, until the limit of logs or the session ends and the flush is done; every other log goes where it was bound. Changes of the configured buffers leave no action stuck and nothing directed to buffers that are gone.",
  ["histories"], "For all histories of logs, decisions, lost questions, finished or abandoned flushes, and configurations.",
  "The tests cover single flush and streaming actions with fixed answers.",
  ["bd-workflows/src/actions_flush_buffers.rs", "bd-workflows/src/engine.rs"],
  [("negotiation and streaming", "bd-workflows/src/actions_flush_buffers.rs"), ("decisions", "bd-workflows/src/engine.rs")],
  SB, "Sampled histories with up to three actions over six buffers.")

prop("C30", "k-flow",
  "Workflows go on after a restart, and damage to their state does no harm",
  "After a restart, workflows, pending flushes and streaming go on exactly from what was stored last. Whatever the state file holds, damaged or left behind by other workflows, starting and processing logs never crash, the number of active positions stays within its limit, and from the next session on everything works as if there had been no such file.",
  ["histories", "crash_points", "fault_sequences"], "For all histories with restarts at any point, and all contents of the state file.",
  "The tests restart after a few fixed steps and load one corrupt file.",
  ["bd-workflows/src/engine.rs", "bd-workflows/src/workflow.rs"],
  [("storing and restoring", "bd-workflows/src/engine.rs"), ("restored runs", "bd-workflows/src/workflow.rs")],
  "stateful model-based property-based testing, and structure-aware corruption with a differential oracle, with shrinking and a regression corpus",
  "Sampled histories and damage. State of workflows dropped when a start finds them not configured stays in the file until something else is stored; histories are not continued across that.")

prop("C31", "k-stats",
  "Recorded metrics are handed over whole, once, under their own name and labels",
  "Whatever is recorded on counters and histograms, taken together over all hand-overs for a flush, is exactly what was recorded: per name and set of labels, counters sum up and histograms hold every value (inline while few, as a sketch of the promised accuracy beyond). Asking for a metric again gives the same one, another kind under a used name and labels is refused, and so is a new metric beyond the limit on how many there may be. Merging two batches equals recording all of it in one.",
  ["histories", "schedules"], "For all histories of recording from several scopes and threads, handing over, merging and dropping.",
  "The tests record a few values in one order.",
  ["bd-client-stats-store/src/lib.rs"], [("collector and scopes", "bd-client-stats-store/src/lib.rs")],
  SB, "Sampled histories over small pools of names and labels; real threads for the schedules.")

prop("C32", "k-stats",
  "Every recorded metric reaches the server once, through restarts and faults",
  "What is flushed is kept in files until the server has acknowledged the upload it was sent in; failed uploads are sent again under the same identity and nothing acknowledged is sent again. Per upload the values are exactly those recorded between flushes, after restarts too; only when there are more files than allowed does the oldest go unsent. Damaged, truncated or foreign files and failing writes cost at most what they held: they never end the reporting, and what is recorded afterwards is delivered.",
  ["histories", "crash_points", "fault_sequences", "schedules"], "For all histories of recording, flushes, uploads and their answers, restarts and storage faults.",
  "The tests cover single uploads with fixed timing and one corrupt file.",
  ["bd-client-stats/src/stats.rs", "bd-client-stats/src/file_manager.rs", "bd-client-common/src/file.rs"],
  [("flush and upload", "bd-client-stats/src/stats.rs"), ("files", "bd-client-stats/src/file_manager.rs")],
  "stateful model-based property-based testing with fault injection on a virtual clock, with shrinking and a regression corpus", "Sampled histories; restarts happen between steps, crash within a write is modelled by truncating the file.")

prop("C33", "k-net",
  "Messages survive the wire however they are compressed and cut into pieces",
  "Every sequence of messages sent over a stream, with no, per-message or whole-stream compression, arrives complete and in order, each as soon as its last byte does, wherever the bytes are split; small messages stay uncompressed, and byte counts are exact from the first byte. A damaged compressed message is refused rather than taken for another one, and never affects other streams.",
  ["inputs", "histories", "fault_sequences"], "For all messages, compression settings, ways to cut the bytes, interleavings of streams and damage to one of them.",
  "The tests use a few messages and one split.",
  ["bd-grpc-codec/src/lib.rs", "bd-grpc-codec/src/stats.rs"], [("framing", "bd-grpc-codec/src/lib.rs"), ("byte counts", "bd-grpc-codec/src/stats.rs")],
  "property-based testing: round trips over generated streams, with damage, shrinking and a regression corpus", "Sampled messages of up to 18 kB. Damage is asserted to be refused only where a message carries its own checksum.")

prop("C34", "k-net",
  "Flags follow the last configuration, over restarts, and bad ones are given up",
  "Flags read, and watchers see, exactly the values of the last configuration received, or their defaults; a watcher is told of a change exactly when a value changed. After a restart the stored configuration applies again; one that was started from six times without the server having been reached is dropped. Missing, damaged or half-written files lead to defaults or to what was stored, never to a crash or to other values.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of configurations, reads, watches, restarts, successful connections and damage to the stored files.",
  "The tests use one or two flags and one restart.",
  ["bd-runtime/src/runtime.rs"], [("values and watches", "bd-runtime/src/runtime.rs"), ("stored configuration", "bd-runtime/src/runtime.rs")],
  SB, "Sampled histories; flags configured with a value of another type are not decided.")

prop("C35", "k-net",
  "What is stored of logs and messages is read back exactly, or refused",
  "A stored log has exactly the level, type, message, fields in order, session, time, actions and streams it was made from, whatever was stored with the same buffer before, failed writes included. Stored messages are read back equal; when cut anywhere or changed they are refused or still equal. Reading arbitrary bytes never crashes.",
  ["inputs", "fault_sequences"], "For all logs and messages, all places to cut and all damage.",
  "The tests store one log.",
  ["bd-client-common/src/fb.rs", "bd-client-common/src/file.rs"], [("logs", "bd-client-common/src/fb.rs"), ("compressed files", "bd-client-common/src/file.rs")],
  "property-based testing: round trips and structure-aware damage, with shrinking and a regression corpus", "Sampled logs and damage; every length of messages of up to 200 stored bytes, every n-th of longer ones.")

prop("C36", "k-net",
  "Unexpected errors are reported a few times, completely, and then only counted",
  "An unexpected error reaches the reporter in place, or the one set for the thread, with its description and, when wanted, the session and metadata; after five reports in a process, or when reporting is switched off, errors are only counted, and their details are not even computed. The caller goes on with its value or the fallback.",
  ["histories", "schedules"], "For all histories of errors from any thread, of reporters and of switching off.",
  "The tests report one error.",
  ["bd-client-common/src/error.rs"], [("limit and reporters", "bd-client-common/src/error.rs")],
  "model-based property-based testing in child processes", "Sampled histories of up to thirteen steps; nested per-thread reporters are not generated.")

prop("C37", "k-net",
  "The connection keeps its order, answers and pauses, and heeds its switches",
  "Each stream begins with a handshake naming the device, the configurations in force and why the last one ended; then every upload goes out once, in order, and its answer reaches exactly the one who asked, or is known to be lost with the stream. Configurations are acknowledged with what is in force, requested flushes passed on, pings sent on time; between streams there are pauses within the configured bounds, starting over after a long stream. Once refused for good or switched off, no stream is begun until that time is over or the key changes, over restarts too, and a shutdown is heeded at once in every state.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of uploads, answers, errors, closings, waiting, restarts, and damage to the stored switch-off.",
  "The tests play single exchanges.",
  ["bd-api/src/api.rs", "bd-api/src/upload.rs"], [("streams, pauses, switch-off", "bd-api/src/api.rs"), ("answers", "bd-api/src/upload.rs")],
  "stateful model-based property-based testing on a virtual clock, with shrinking and a regression corpus",
  "Sampled histories on one thread. Answers to questions never asked end the connection by design and are not generated.")

prop("C38", "k-logger",
  "Buffered logs reach the server once, in order, in time and within the limits",
  "A log taken by a buffer is uploaded in the order it was written, in batches bounded by count, size and age: by itself from continuous and streamed buffers, on request from trigger ones, within the byte budget of each period, and the same batch again after growing pauses until it succeeds or the permitted attempts are used up. Whoever asks for buffers to be uploaded is told exactly when those have been, logs older than the look-back window are left out, and what happens is counted exactly. What was not handed over when the process ends, properly or not, is uploaded by the next one, and neither changing the buffers nor shutting down ever waits for the server.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of writing, answers, losses, waiting, changed limits, requests, reconfigurations and restarts.",
  "The tests play single exchanges with one buffer and never restart.",
  ["bd-logger/src/consumer.rs", "bd-logger/src/service.rs", "bd-buffer/src/ring_buffer.rs"], [("batches, requests", "bd-logger/src/consumer.rs"), ("attempts, byte budget", "bd-logger/src/service.rs")],
  "stateful model-based property-based testing on a virtual clock, with shrinking and a regression corpus",
  "Sampled histories; the buffers' own threads run freely. A batch under way from a trigger buffer is lost when the process ends, by design.")
prop("C39", "k-logger",
  "The whole logger delivers each log as configured, across restarts and outages",
  "A log written through a logger's handle reaches the server from exactly the buffers that the configuration in force when it is processed selects, once, in order, with the level, type, message, merged fields, session and time that hold when it was written, whatever was buffered before there was a configuration included; those that match a flush action mark and flush the buffers asked for, and leave a synthetic log there if they were written elsewhere only. A configuration is applied whole and confirmed, or refused and without effect; the one in force survives restarts, and one damaged on disk is dropped without harm. Calls that wait for a log or a flush return without a network, and what they waited for survives the end of the process.",
  ["histories", "crash_points", "fault_sequences"], "For all histories of logs, configurations, flags, outages, requests, restarts and damage to the stored configuration.",
  "The tests send a handful of logs through one configuration on a good network.",
  ["bd-logger/src/async_log_buffer.rs", "bd-logger/src/log_replay.rs", "bd-logger/src/client_config.rs", "bd-logger/src/logger.rs", "bd-client-stats/src/stats.rs"],
  [("order, replay of early logs", "bd-logger/src/async_log_buffer.rs"), ("filters, buffers, flows, synthetic logs", "bd-logger/src/log_replay.rs"), ("configurations", "bd-logger/src/client_config.rs")],
  "stateful model-based property-based testing of the whole logger against a model server, with shrinking and a regression corpus",
  "Sampled histories. Where the model cannot know whether a flush asked for was approved (outage, kill), what is in trigger buffers may arrive but need not.")

prop("C40", "k-grpc",
  "grpc calls come to what the other side said, or to an error, in time",
  "Between this client and this server, a unary, streaming or server-streaming call carries every message in order and exactly once with the compression agreed on, and ends for the caller as the handler ended it: with its messages, or with its status and whole message text whatever characters that has. A peer of any kind (answers, trailers, content, damage, silence) gives the caller a value that it did send or an error, within the time allowed for the whole exchange, and never a panic. The server answers any request likewise, and does not hand what is not valid to a handler.",
  ["inputs", "fault_sequences", "schedules"], "For all messages, statuses, headers, damage, sizes, ends and stalls.",
  "The tests make a few calls with short ASCII messages between a well-behaved client and server.",
  ["bd-grpc/src/lib.rs", "bd-grpc/src/axum_helper.rs", "bd-grpc-codec/src/lib.rs"],
  [("client, statuses, streams, server routers", "bd-grpc/src/lib.rs"), ("serving and shutting down", "bd-grpc/src/axum_helper.rs")],
  "property-based testing of client and server against each other and against generated and damaged peers, with an oracle of what was sent and a paused clock",
  "Sampled calls over in-memory connections with the real HTTP stack; TLS and DNS are not part of it.")

prop("C41", "k-logger",
  "What waits to be processed stays within its limits, and comes out in order",
  "A message handed to the logger's queue is accepted exactly when it fits both the count and the bytes left; one that is refused is given back, changes nothing and is counted under its reason. What was accepted comes out exactly once, in the order of each sender, and gives its room back, however many threads send. A log that arrives before there is a configuration is kept exactly if it fits after those kept before, and they come back in order; what is counted for a log is at least what it carries.",
  ["inputs", "histories", "schedules"], "For all capacities, sizes, sequences of operations and interleavings of senders.",
  "The tests fill one queue of one size from one thread.",
  ["bd-logger/src/memory_bound.rs", "bd-logger/src/pre_config_buffer.rs", "bd-logger/src/size.rs", "bd-logger/src/async_log_buffer.rs"],
  [("queue", "bd-logger/src/memory_bound.rs"), ("before there is a configuration", "bd-logger/src/pre_config_buffer.rs"), ("sizes", "bd-logger/src/size.rs")],
  "model-based property-based testing over sequences, and invariants over runs of real threads, with shrinking",
  "Interleavings are those that the machine makes, not all there are. While threads race, a message may be refused for room that another one gives back at once.")

prop("C42", "k-logger",
  "What the logger notes on logs about logs, traffic and network is right",
  "Interceptors only add fields, of the SDK's own kind, each once; while periodic logging is on, each resource log says how many logs of each type there were since the last that said so and since the start, so that all reports together count every log once. A resource log after which traffic older than a minute is left out says how many bytes HTTP responses reported since the oldest resource log of the last minute, whatever values apps report. A response with a status means the network is online, and only logs of the app written offline say so.",
  ["inputs", "histories", "schedules"], "For all sequences of logs, field values, times, flags and network states.",
  "The tests send a fixed handful of logs with small values.",
  ["bd-logger/src/internal_report.rs", "bd-logger/src/network.rs"],
  [("counts of logs", "bd-logger/src/internal_report.rs"), ("traffic, network", "bd-logger/src/network.rs")],
  "model-based property-based testing of the interceptors on a mock clock, and totals over runs of real threads, with shrinking",
  "Sampled sequences.")

prop("C43", "k-logger",
  "The app is asked for screens, screenshots and resources as configured",
  "While it is on, each of the periodic screen capture and resource report happens at once and then every interval (from now on when it was late or the interval changes), and never otherwise, however often the logger's loop turns to something else. A screenshot is asked for exactly when one was requested while they are on and the one before has come; each request is counted under what became of it. The events listener runs exactly while its flag is on; all of them end when they are told to, and no configured value ends them before.",
  ["histories", "schedules"], "For all sequences of flags, intervals, times, requests, screenshots and interruptions.",
  "The tests change one flag once and wait for a tick.",
  ["bd-session-replay/src/lib.rs", "bd-resource-utilization/src/lib.rs", "bd-events/src/lib.rs", "bd-time/src/lib.rs"],
  [("screens and screenshots", "bd-session-replay/src/lib.rs"), ("resources", "bd-resource-utilization/src/lib.rs"), ("events", "bd-events/src/lib.rs")],
  "model-based property-based testing on a paused clock in a loop that interrupts as the logger's does, with shrinking",
  "Sampled sequences. Several flags changing at once is not explored; screenshots are delivered one at a time, as platforms do.")

prop("C44", "k-pipe",
  "A log goes where flows send it, and whoever waits for it finds it stored",
  "A log, filtered while filters are on, is written once to each of the buffers its selectors name, or where a flow streams to instead, with the ids of the flushes it triggers; where none of these is uploaded although it triggered a flush, one synthetic log goes to a flushed buffer; a buffer that refuses it changes nothing for the others. A caller who waits for a log goes on only when every buffer that now has the log (or its synthetic log), the metrics and the state of the flows are stored, and does go on then; nothing is stored for one nobody waits for. What flows ask for (flushes, screenshots) is passed on once, or counted as lost, while flows are on, whatever configuration replaces another.",
  ["histories", "fault_sequences"], "For all configurations, sequences of logs, answers, uploads, flags, refused writes and restarts.",
  "The tests wait for one log in one buffer, without flows that redirect it.",
  ["bd-logger/src/log_replay.rs", "bd-logger/src/logging_state.rs"],
  [("writing, synthetic logs, waiting", "bd-logger/src/log_replay.rs"), ("replacing configurations", "bd-logger/src/logging_state.rs")],
  "stateful property-based testing of the pipeline against a twin of the engine, selector and filters it composes, with recording buffers that refuse writes and stores that answer late, with shrinking",
  "Sampled histories. What engine, selector and filters decide is taken from twins of them (C19, C20, C28-C30 decide those); streams for live tailing are left to C39.")
prop("C45", "k-hyper",
  "The bundled network carries bytes both ways and survives every stream",
  "Each stream that the HTTP/2 network is asked for is one POST to the Mux method with the headers given. What its owner sends arrives at the server, and what the server sends arrives at the owner, unchanged and in order; what the server sent before it ended the stream arrives before its owner is told, once, that the stream is closed, and nothing follows. A refused stream (status, gRPC status, reset, cut connection) is told as closed, without data. However a stream ended, or was given up by its owner before its end, the next one asked for starts, and gets nothing of what was sent for the previous one. Being shut down, or losing its last handle, ends the network.",
  ["histories", "fault_sequences"], "For all sequences of streams, sizes, answers, ways to end and owners that give up.",
  "The one test refuses a connection.",
  ["bd-hyper-network/src/lib.rs"],
  [("the network's loop", "bd-hyper-network/src/lib.rs")],
  "stateful property-based testing of the real network over loopback against a scripted h2 server, checked byte for byte, with shrinking",
  "Sampled histories over plain HTTP/2 (a stand-in takes the place of the TLS connector). An owner reads its events until it gives up; data sent while the server ends the stream may be lost; a server that never answers is left out (the network waits for it even when shut down, as its own note says).")

prop("C46", "k-base",
  "What the program logs about itself follows the rules given last",
  "After the logger is initialized, a record is written exactly if the rules allow it: those of RUST_LOG, or the built-in ones without it; and from the moment other rules are swapped in, exactly if those allow it, for every level, target and thread, whether they allow more or less than before, and however often they change. The level a caller asks about first agrees with what is then written. Rules that make no sense are left out without touching the others, no swap fails, and nothing is colored unless asked for.",
  ["inputs", "histories"], "For all sequences of rules and records.",
  "There is no test of it.",
  ["bd-log/src/lib.rs"],
  [("logger whose rules can be swapped", "bd-log/src/lib.rs")],
  "stateful property-based testing of child processes against an own evaluator of the rules, with shrinking",
  "Sampled histories in processes of their own. Rules on spans and fields are not generated, and nothing is logged while rules are being swapped.")
