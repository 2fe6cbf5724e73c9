#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os, re
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    assert re.match(r'^[A-Z][0-9]{2,3}$', id)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CONN = ["kanon/net/connection/connection_base.cc", "kanon/net/connection/connection_base.h",
        "kanon/linux/net/connection/connection_base.inl", "kanon/net/connection/tcp_connection.cc"]

# ---------------------------------------------------------------- network
prop("N01", "A connection delivers sent bytes exactly once and in order",
  "Every byte handed to any send operation of an established TCP connection (raw bytes, string, input/output buffer or chunk list; from the loop thread or from any other thread) reaches the peer exactly once. "
  "Bytes sent by one thread arrive in the order of its send calls and a single send is never interleaved with another, whatever mix of send operations is used and however slowly the peer reads. "
  "This holds for level- and edge-triggered connections, for both readiness back ends, and under short writes, interrupted writes and a full socket buffer.",
  ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
  "All sequences of sends of all kinds and sizes, all peer read patterns, all placements of short writes / EAGAIN / EINTR, all sending threads, level/edge trigger, poll/epoll.",
  "No test opens a connection at all; loss and reordering need a full socket buffer with a particular mix of sends still pending.",
  CONN + ["kanon/linux/net/buffer.cc", "kanon/linux/net/chunk_list.cc", "kanon/buffer/buffer.cc", "kanon/buffer/chunk_list.cc", "kanon/linux/net/sock_api.cc"],
  [("direct write, remainder queued in the output buffer", "kanon/net/connection/connection_base.cc SendInLoop, SendInLoopForBuf, SendInLoopForChunkList"),
   ("writable-event drain", "kanon/linux/net/connection/connection_base.inl HandleLtWrite, HandleEtWrite"),
   ("cross-thread sends handed to the loop", "kanon/net/connection/connection_base.cc Send")],
  ["bytes read on the peer socket"],
  [("output_buffer_", "bytes accepted but not yet written to the socket", "kanon/net/connection/connection_base.h")])

prop("N02", "Graceful shutdown flushes everything sent before, then ends the stream",
  "After a connection's write side is shut down, the peer receives every byte accepted for sending before the shutdown request and then end-of-stream, and nothing after it. "
  "The connection keeps delivering what the peer still sends until the peer ends its own direction, after which it is torn down normally. "
  "This holds when the shutdown is requested with output still queued, from a message or write-complete callback, from another thread after its sends, or more than once.",
  ["inputs", "histories", "schedules", "configurations"],
  "All amounts of pending output at the shutdown request, all places the request can come from, all peer read/close orders, both trigger modes.",
  "No test performs a shutdown; losing the tail or never ending the stream needs output that is still queued when shutdown is requested.",
  CONN + ["kanon/net/socket.cc"],
  [("shutdown postponed while output is queued", "kanon/net/connection/connection_base.cc ShutdownWrite"),
   ("shutdown after the last queued byte", "kanon/linux/net/connection/connection_base.inl HandleLtWrite, HandleEtWrite")],
  ["bytes and EOF seen on the peer socket", "bytes seen by the message callback after shutdown"])

prop("N03", "Received bytes reach the message callback once, in order, none withheld",
  "The bytes a peer sends appear in the connection's input buffer exactly once and in order, however they are split into segments and however large each burst is. "
  "Bytes the message callback leaves unread stay in front of later bytes and are offered again with the next arrival; bytes it consumed never reappear. "
  "Everything sent before the peer's close is offered before the disconnection is reported, reading can be paused and resumed without loss, and interrupted or would-block reads lose nothing.",
  ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
  "All segmentations, burst sizes, consumption patterns of the callback, pause/resume points, read faults, both trigger modes.",
  "No test reads from a connection; errors need bursts larger than one read, partial consumption or an edge-triggered drain that stops early.",
  CONN + ["kanon/linux/net/buffer.cc", "kanon/buffer/buffer.h"],
  [("scatter read into buffer tail plus stack overflow area", "kanon/linux/net/buffer.cc BufferReadFd"),
   ("read event handling", "kanon/linux/net/connection/connection_base.inl HandleLtRead, HandleEtRead")],
  ["the input buffer as seen in the message callback"])

prop("N04", "A connection goes up once and down once, in its loop, leaking nothing",
  "The connection callback reports a connection up exactly once, before any message is delivered, and down exactly once, after which no message, write-complete or high-water callback runs for it; all its callbacks run in the thread of the one loop it was assigned to. "
  "This holds for every way a connection ends (peer close, peer reset, forced close from any thread and repeatedly, local shutdown, server destruction) and for any race between them, with or without pending output. "
  "Afterwards the descriptor is closed, the library keeps no reference to the connection, and a user that kept one can still call its operations harmlessly.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "All interleavings of local and remote close actions, sends and context operations over any number of connections and threads.",
  "No test closes a connection; the failures need two close causes in one loop iteration or a close racing with queued work.",
  CONN + ["kanon/net/tcp_server.cc", "kanon/net/tcp_server.h"],
  [("state machine connecting/connected/disconnecting/disconnected", "kanon/net/connection/connection_base.h State"),
   ("deferred destruction in the owner loop", "kanon/net/tcp_server.cc NewConnection close callback; kanon/net/connection/connection_base.cc ConnectionDestroyed")],
  ["connection/message callbacks", "open descriptors", "weak references to the connection"])

prop("N05", "Write-complete and high-water notifications match the output backlog",
  "When a write-complete callback is set, it runs once for each time everything accepted so far has been handed to the kernel (so at least once after the last send), and never before that. "
  "When a high-water callback is set, it runs when and only when a send makes the queued backlog rise from below the mark to the mark or above, and reports that backlog. "
  "Both run in the connection's loop thread, and neither disturbs the delivery of the data, whichever value the write-complete callback returns.",
  ["inputs", "histories", "configurations"],
  "All sequences of sends and peer reads against all marks, callback return values, both trigger modes.",
  "No test sets either callback.",
  CONN + ["kanon/net/callback.h"],
  [("backlog check when queueing the remainder", "kanon/net/connection/connection_base.cc SendInLoop*"),
   ("completion detection after the last write", "kanon/net/connection/connection_base.cc CallWriteCompleteCallback; kanon/linux/net/connection/connection_base.inl HandleLtWrite")],
  ["the two callbacks", "bytes read on the peer socket"])

prop("N06", "A server accepts every client and spreads them over its loops",
  "Every client that connects to a listening server gets exactly one server-side connection whose reported peer and local addresses match the client's view, with a name unique among the server's connections, in both trigger modes and when many clients arrive at once, and with the callbacks set on the server; socket options and the context set on one connection are that connection's alone. "
  "With N worker loops the k-th accepted connection runs in loop k mod N (in the listening loop when there are none), and the thread-init callback runs once per loop in that loop's thread. "
  "Starting a server repeatedly or from several threads starts it once, a server that was never started can be destroyed, destroying one closes all its connections and frees the port, and iterating over the connections visits each live one exactly once.",
  ["inputs", "histories", "schedules", "configurations"],
  "All numbers of clients, loops and arrival patterns, start/stop orders, trigger modes, address families.",
  "No test starts a server; lost connections need several clients in one readiness event.",
  ["kanon/net/tcp_server.cc", "kanon/net/tcp_server.h", "kanon/net/acceptor.cc", "kanon/net/acceptor.h", "kanon/net/event_loop_pool.cc", "kanon/net/event_loop_thread.cc", "kanon/net/socket.cc"],
  [("accept on readability", "kanon/net/acceptor.cc"), ("round robin over loops", "kanon/net/event_loop_pool.cc GetNextLoop"),
   ("connection table", "kanon/net/tcp_server.cc NewConnection, RemoveConnection, ApplyAllPeers"), ("single start", "kanon/net/tcp_server.cc StartRun")],
  ["client sockets", "connection callback on the server"])

prop("N07", "A client connects, retries with growing delay, reconnects and stops as asked",
  "A client asked to connect reports a connection once the server accepts, retrying while the server is unavailable (doubling the delay up to its maximum) until it succeeds or is stopped; stopping it, even while a retry is pending, means no further attempt and no connection. "
  "With retry enabled it reconnects after an established connection is lost, without retry it does not; disconnecting shuts the connection down gracefully. "
  "A client can be destroyed at any of these points, and connection attempts and ended connections leave no descriptor or timer behind.",
  ["histories", "schedules", "fault_sequences"],
  "All orders of connect, disconnect, stop, destroy, server start/stop and peer close.",
  "No test creates a client; failures need a stop or destruction at a particular stage of the connect/retry sequence.",
  ["kanon/net/tcp_client.cc", "kanon/net/tcp_client.h", "kanon/net/connector.cc", "kanon/linux/net/connector.cc", "kanon/net/connector.h"],
  [("connect state machine and back-off", "kanon/net/connector.cc, kanon/linux/net/connector.cc"), ("reconnect", "kanon/net/tcp_client.cc CloseConnectionHandler")],
  ["the client's connection callback", "accepts seen at the server", "open descriptors"])

prop("N08", "An event loop runs each submitted function once, in order, in its thread",
  "Each function handed to a loop runs exactly once in the loop's thread: immediately when run from that thread, otherwise in submission order per submitting thread, also when submitted from inside another function, before the loop starts, or just before it quits. "
  "A submission or quit request from any thread wakes a blocked loop without further events. "
  "Quitting makes the loop return, it can be asked to at any time from any thread, and functions submitted before the quit request are run.",
  ["schedules", "histories", "configurations"],
  "All interleavings of submitting threads with the loop, nested submissions, submissions before start and around quit, both back ends.",
  "The existing loop tests are manual programs; lost wakeups need a submission in a particular window.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop.h", "kanon/net/event_loop_thread.cc", "kanon/net/event_loop_pool.cc"],
  [("functor queue under a lock plus wakeup descriptor", "kanon/net/event_loop.cc QueueToLoop, RunInLoop, CallFunctors, Wakeup"), ("quit flag", "kanon/net/event_loop.cc Quit")],
  ["the functions' own log"])

prop("N09", "Timers fire never early, in due order, the right number of times",
  "A one-shot timer fires exactly once and a periodic timer once per period, never before its due time, in order of due time, in the loop's thread, from whichever thread it was added. "
  "A cancelled timer never fires again once the cancel has taken effect in the loop: cancelling works before it fires, from its own callback, from another timer's callback in the same batch, from another thread, and is harmless for a timer that already fired or was already cancelled. "
  "Timers may be added and cancelled from timer callbacks, never disturb each other, and all their memory and captured state is released once they are done or cancelled.",
  ["inputs", "histories", "schedules"],
  "All sequences of run-at/after/every and cancel with any delays (including zero, equal and past times), issued from any callback or thread.",
  "No stable test runs a timer; use-after-free and missed cancels need a cancel at a particular moment.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/linux/net/timer/timer_queue.h", "kanon/net/timer/timer.h", "kanon/net/timer/timer_id.h", "kanon/net/event_loop.cc"],
  [("ordered timer map over one timerfd", "kanon/linux/net/timer/timer_queue.cc"), ("cancel list during expiry processing", "kanon/linux/net/timer/timer_queue.cc CancelTimer, ProcessAllExpiredTimers")],
  ["timer callbacks with timestamps", "lifetime of captured state"])

prop("N10", "Readiness back ends report exactly the enabled, ready events",
  "For any sequence of enabling, disabling and removing interest, with any readiness of the descriptors, one poll of either back end (or, when very many descriptors are ready at once, the polls that follow) reports each channel that is registered and ready for an event it has enabled (or in error/hang-up), with the right event bits, and no other channel. "
  "The two back ends agree with each other and with the operating system. "
  "Disabling and re-enabling, or removing and re-adding a channel any number of times and in any order keeps this true, and callbacks of a ready channel (read, write, error, close) are dispatched according to the reported events.",
  ["inputs", "histories", "configurations"],
  "All sequences of interest changes over any set of descriptors with any readiness, both back ends, level trigger.",
  "No test drives a poller; index bookkeeping errors need removal and re-registration in particular orders.",
  ["kanon/linux/net/poller.cc", "kanon/linux/net/epoller.cc", "kanon/linux/net/channel.cc", "kanon/linux/net/channel.h", "kanon/net/poll/poller.h", "kanon/net/poll/epoller.h", "kanon/net/poll/poller_base.h"],
  [("poll array with index per channel", "kanon/linux/net/poller.cc UpdateChannel, RemoveChannel"), ("epoll add/mod/del by channel index", "kanon/linux/net/epoller.cc"), ("event dispatch", "kanon/linux/net/channel.cc HandleEvents")],
  ["active channel list", "channel callbacks"])

prop("N11", "Socket addresses keep address, port and family through text and native form",
  "An address built from any IPv4 or IPv6 text and port (including text that is part of a longer string, bracketed or port-suffixed forms, IPv4-mapped IPv6, any/loopback) has exactly that family, address and port (and no other content in the native form), formatting it gives text that builds an equal address, and conversion to and from the native socket address is lossless. "
  "Text that is not an address, or has a port that is no number from 0 to 65535, is refused with the address exception and never accepted as another address or fatal; a host name is resolved with exactly that name and service. "
  "Name resolution returns all answers in order, the local, peer and self-connection queries of a socket agree with the kernel, its options, non-blocking and close-on-exec modes and shutdown take effect as asked, and byte-order helpers are inverses that produce big-endian bytes.",
  ["inputs"],
  "All IPv4/IPv6 addresses, all ports, all accepted spellings.",
  "The address tests print a handful of addresses.",
  ["kanon/net/inet_addr.cc", "kanon/net/inet_addr.h", "kanon/net/sock_api.cc", "kanon/linux/core/util/endian_api.h"],
  [("text parsing", "kanon/net/inet_addr.cc, kanon/net/sock_api.cc FromIpPort"), ("formatting", "kanon/net/sock_api.cc ToIpPort")],
  ["public accessors of the address", "inet_pton/inet_ntop/getnameinfo as oracle"])

# ---------------------------------------------------------------- buffers
prop("B01", "The I/O buffer behaves as an unbounded byte queue with prepend",
  "After any sequence of append, prepend, read, advance, retrieve, find, integer access, swap, copy, move, reserve, direct-write and shrink operations, the readable contents equal those of a plain byte queue given the same operations. "
  "Integers are stored in network byte order and read back equal; searches return the first match in the readable part or nothing. "
  "Reserving and shrinking never change the contents, the space they promise is really there, and no access leaves the buffer's storage.",
  ["inputs", "histories"],
  "All operation sequences with all data and sizes.",
  "The buffer tests use a few fixed sequences; index errors need prepends, shrinks or moves at particular fill levels.",
  ["kanon/buffer/buffer.h", "kanon/buffer/buffer.cc", "kanon/net/buffer.h"],
  [("read/write indices over one array with prepend area", "kanon/buffer/buffer.h"), ("make space by moving or growing", "kanon/buffer/buffer.cc ReserveWriteSpace")],
  ["readable view and sizes"])

prop("B02", "The chunked output buffer behaves as an unbounded byte queue",
  "After any sequence of append (bytes, integers, or another chunk list spliced in whole), advance, reserve, direct write, shrink, copy, clone, swap and move operations, the readable contents over all chunks equal those of a plain byte queue given the same operations, and the reported readable size is exact. "
  "Splicing moves every byte of the source exactly once, after the bytes already present, and leaves the source empty and usable. "
  "Chunks come from and return to the free list without being lost, shared or used twice.",
  ["inputs", "histories"],
  "All operation sequences over several lists with all sizes around chunk boundaries.",
  "The existing chunk list test covers a handful of fixed appends.",
  ["kanon/buffer/chunk_list.h", "kanon/buffer/chunk_list.cc", "kanon/net/chunk_list.h"],
  [("list of fixed-size chunks with a free list", "kanon/buffer/chunk_list.cc")],
  ["iteration over chunks and readable size"])

prop("B03", "Buffer descriptor I/O transfers each byte once and reports errors faithfully",
  "Reading from a descriptor into a buffer appends exactly the bytes obtained from it, at most what was available, in order, for any free space left in the buffer; end-of-file and errors leave the contents unchanged. "
  "Writing a chunk list (of any number of chunks) to a descriptor writes a prefix of its contents and reports exactly its length, whatever short counts the descriptor accepts, so that advancing by it and writing again sends every byte once. "
  "When a read or write fails, the error is reported to the caller and nothing is lost.",
  ["inputs", "histories", "fault_sequences"],
  "All buffer fill levels and chunk counts, all short counts and error returns of the system call.",
  "No test reads or writes a descriptor through a buffer; losses need a short count or an error part-way.",
  ["kanon/linux/net/buffer.cc", "kanon/linux/net/chunk_list.cc", "kanon/linux/net/sock_api.cc"],
  [("readv into buffer plus stack area", "kanon/linux/net/buffer.cc"), ("writev in batches", "kanon/linux/net/chunk_list.cc")],
  ["the descriptor's other end"])

# ---------------------------------------------------------------- containers
prop("C01", "The forward list behaves as a sequence under every operation",
  "After any sequence of insertions, removals, splices, merges, assignments, copies, moves, swaps, resizes, reversals and clears, forward iteration yields exactly the elements a reference singly linked list yields, and the reported size matches. "
  "Splicing and swapping move nodes without copying, constructing or destroying elements; comparison is by length and elements. "
  "Every element constructed is destroyed exactly once and all nodes are returned to the allocator, also when the copy of an element, an allocation or a predicate throws: the list then still is a sequence, holding what it held and, after an insertion, a first part of the new elements.",
  ["inputs", "histories", "fault_sequences"],
  "All operation sequences over several lists, including empty, single-element and range forms, arguments that are elements or ranges of the list itself, and every place where a copy, an allocation or a predicate can fail.",
  "Each operation has one or two fixed-example tests.",
  ["kanon/algo/forward_list.h", "kanon/algo/forward_list/forward_list_impl.h", "kanon/algo/forward_list/algorithm.cc", "kanon/algo/forward_list/forward_list_iterator.h", "kanon/algo/forward_list/node_def.h"],
  [("node linking algorithms", "kanon/algo/forward_list/algorithm.cc"), ("element lifetime", "kanon/algo/forward_list/forward_list_impl.h")],
  ["iteration, size, element counters"])

prop("C02", "Resizable and fixed-size arrays keep their elements with exact lifetimes",
  "After any sequence of construction with a count, grow, shrink, copy, move, assignment, swap and element access, the resizable array has exactly the size asked for and holds exactly the elements a standard vector would hold: the retained ones unchanged, the new ones default constructed (unspecified for trivial types). "
  "The fixed-size vector holds in every slot the object constructed there. "
  "Every element constructed is destroyed exactly once and all memory is returned, for trivial, relocatable, self-referential and throwing element types and either allocator kind; an operation that throws, for lack of memory or because an element does, leaves the array as it was.",
  ["inputs", "histories", "fault_sequences"],
  "All operation sequences and sizes including zero, all element kinds, all places an element constructor can throw.",
  "The existing tests construct, grow and print a few integers and strings.",
  ["kanon/algo/reserved_array.h", "kanon/algo/fixed_vector.h", "kanon/algo/libc_allocator_with_realloc.h", "kanon/algo/construct.h", "kanon/zstl/uninitialized.h"],
  [("grow and shrink by reallocation or move", "kanon/algo/reserved_array.h Reallocate, Shrink_impl"), ("copy assignment by size", "kanon/algo/reserved_array.h CopyAssignmentForSizeNotEqual"), ("destroy all slots", "kanon/algo/fixed_vector.h")],
  ["elements, size, element and allocation counters"])

# ---------------------------------------------------------------- strings
prop("S01", "String views search, compare and slice exactly like the standard ones",
  "Every query, search, comparison, slice, copy and iteration on a string view gives the result the standard string view gives for the same bytes and arguments, including embedded zero bytes, empty views and needles, and any start position the operation accepts. "
  "Case-insensitive comparison agrees with comparing the ASCII lower-cased bytes. "
  "Splitting, case conversion and conversion to a string use exactly the viewed bytes, and no operation reads outside the view.",
  ["inputs"],
  "All byte strings, needles, positions and counts.",
  "The tests compare a few literals and one of them hangs.",
  ["kanon/string/string_view.h", "kanon/string/string_view.cc", "kanon/string/string_view_util.h", "kanon/string/string_view_util.cc", "kanon/linux/core/string/strcasecmp.cc"],
  [("search and comparison loops", "kanon/string/string_view.h")],
  ["return values against std::string_view"])

prop("S02", "Text formatting streams print values exactly and never overrun",
  "Streaming any sequence of integers, floating-point numbers, characters, booleans, strings, byte ranges and pointers into a text stream, or concatenating strings with StrCat/StrAppend, produces exactly the concatenation of the values' text forms; each % in a format is replaced by the next argument, %% by a percent sign, and everything else is copied unchanged. "
  "A fixed-size buffer never writes or reads beyond its capacity, leaves out as a whole a piece that does not fit (numbers need up to 32 free bytes), keeps everything written before, reports its size and free space exactly and stays zero-terminated. "
  "Resetting or rewinding a stream makes it behave like a fresh one.",
  ["inputs", "histories"],
  "All values, format strings, operation sequences and remaining capacities.",
  "Tests print a few values into large buffers.",
  ["kanon/string/fixed_buffer.h", "kanon/string/fixed_buffer.cc", "kanon/string/lexical_stream.h", "kanon/string/fmt_stream.h", "kanon/string/stream_common.h"],
  [("bounded append", "kanon/string/fixed_buffer.h"), ("stream operators", "kanon/string/lexical_stream.h"), ("placeholder scanning", "kanon/string/fmt_stream.h")],
  ["stream contents against snprintf"])

prop("S03", "Conversions between numbers and text round-trip",
  "Converting any integer or floating-point value to text gives its decimal text, and converting that text back gives the same value (to the printed precision for floating point), for every arithmetic type, including extreme values. "
  "Converting text, given as a string or as a view into a longer string, gives the value the C library gives for exactly those bytes, and no value when it is not a number. "
  "Conversions in several threads at once do not affect each other.",
  ["inputs", "schedules"],
  "All values of all arithmetic types, all numeric strings, any number of concurrent converting threads.",
  "Tests convert a few constants in one thread.",
  ["kanon/string/lexical_cast.h", "kanon/string/lexical_cast.cc", "kanon/string/string_view.h", "kanon/string/string_util.h"],
  [("number/text conversion", "kanon/string/lexical_cast.h"), ("view to number", "kanon/string/string_view.h, string_view_util.h")],
  ["return values against strto*/snprintf"])

# ---------------------------------------------------------------- util
prop("U01", "Type-erased and optional values own exactly one object and return it intact",
  "Any sequence of construct, assign, copy, move, swap, reset, extract and destroy on the any, unique-any and optional types keeps the value last stored, reports emptiness and stored type correctly, and destroys every stored object exactly once, also when an empty optional is converted to another value type, when a copy throws (the target then keeps its value) and when the stored object is itself a container of holders. "
  "Casting to the stored type yields that object (reference, pointer or moved-out value); casting to another type, or from an empty holder, fails as documented without touching the value. "
  "Weak callbacks call their target, and return its result, only while it is alive; checked pointer down-casts give the same object, and make_unique() builds the object or the zero-initialised array it is asked for.",
  ["inputs", "histories"],
  "All operation sequences over several holders and stored types of all sizes.",
  "Tests exercise single constructions and casts.",
  ["kanon/util/any.h", "kanon/util/unique_any.h", "kanon/util/optional.h", "kanon/util/raw_any.h", "kanon/util/ptr.h", "kanon/thread/weak_callback.h"],
  [("placeholder ownership", "kanon/util/any.h, unique_any.h"), ("in-place storage", "kanon/util/optional.h")],
  ["stored values, lifetime counters"])

prop("U02", "Time stamps order, add, subtract and print exactly",
  "Adding and then subtracting any duration (seconds, milliseconds or microseconds) returns the original time stamp, differences equal the duration added, and comparison agrees with the numeric microsecond count, without overflow for any representable time of common use. "
  "Formatted text shows the local calendar time of that instant with the microsecond part as exactly six digits when requested, and parsing what was formatted gives back the same second (either of the two when daylight saving repeats an hour). "
  "Text that is not a time is reported as such, and a measured scope reports exactly the name it was given and the time that passed in it, in the unit asked for, also when it is left by an exception.",
  ["inputs"],
  "All time stamps from 1970 to 2200, all durations, all formats.",
  "The tests print the current time.",
  ["kanon/util/time_stamp.h", "kanon/util/time_stamp.cc", "kanon/linux/core/util/time.h", "kanon/util/measure_time.h"],
  [("microsecond count arithmetic", "kanon/util/time_stamp.h"), ("formatting and parsing", "kanon/util/time_stamp.cc")],
  ["text and numeric accessors against gmtime/strftime"])

prop("U03", "Memory pools hand out aligned, disjoint blocks and reuse or release them safely",
  "Every block obtained from a pool is aligned for any object of its size class, lies inside memory the pool owns, and overlaps no other live block, for any block size and any order of allocations and releases; its contents are never changed by the pool while it is live. "
  "Reserving provides the promised free blocks, shrinking releases only unused memory and never invalidates live or reusable blocks, and the reported usage is exact. "
  "Containers over pool allocators construct and destroy each object exactly once, all memory is returned on destruction, and without memory the request fails (a null pointer or std::bad_alloc) and the pool stays as it was.",
  ["inputs", "histories", "fault_sequences"],
  "All block sizes and counts, all interleavings of allocate, release, reserve, shrink, move.",
  "The pool tests allocate and release in one fixed pattern.",
  ["kanon/mem/fixed_chunk_memory_pool.h", "kanon/mem/fixed_chunk_memory_pool.cc", "kanon/mem/linear_fixed_memory_pool.h", "kanon/mem/object_memory_pool.h", "kanon/mem/object_pool_allocator.h"],
  [("free list threaded through blocks", "kanon/mem/fixed_chunk_memory_pool.cc"), ("bump allocation", "kanon/mem/linear_fixed_memory_pool.h")],
  ["returned pointers and contents"])

# ---------------------------------------------------------------- threads
prop("T01", "Locks exclude, and know whether the calling thread holds them",
  "At most one thread is inside a region guarded by a mutex, and inside one guarded by a read/write lock either one writer or only readers, for all scoped, try, nested-scope and manual lock/unlock uses; what one holder wrote is visible to the next. "
  "A mutex reports itself held by the calling thread exactly while that thread holds it, also after a failed try-lock, around condition waits, and while other threads contend. "
  "Every scoped guard releases what it acquired, and no schedule deadlocks threads that use the locks correctly.",
  ["schedules", "histories"],
  "All interleavings of any number of threads locking, trying, waiting and releasing.",
  "Tests run a few threads incrementing a counter.",
  ["kanon/thread/mutex_lock.h", "kanon/thread/rw_lock.h", "kanon/thread/rw_lock.cc", "kanon/thread/condition.h", "kanon/thread/condition.cc"],
  [("holder bookkeeping around pthread calls", "kanon/thread/mutex_lock.h"), ("holder hand-over in waits", "kanon/thread/condition.cc")],
  ["overlap monitors in the critical sections"])

prop("T02", "Latches and conditions wake every waiter once the event has happened, not before",
  "Threads waiting on a latch with count n return only after n count-downs and all return then, whatever the interleaving, including count-downs before the wait, spurious wakeups, and waits by several threads or after an increase or reset of the count. "
  "A condition notification wakes at least one (or, on broadcast, every) waiting thread, a timed wait reports a timeout only when not notified within the time given and never returns it early, and the mutex is held again when any wait returns.",
  ["schedules", "histories", "fault_sequences"],
  "All numbers of waiters, counts, orders of count-down, wait, notify and spurious wakeup.",
  "Tests use one waiter and one fixed order.",
  ["kanon/thread/count_down_latch.h", "kanon/thread/condition.h", "kanon/thread/condition.cc"],
  [("count under mutex and condition", "kanon/thread/count_down_latch.h"), ("timed wait", "kanon/thread/condition.cc WaitForSeconds")],
  ["order of returns against count-downs"])

prop("T03", "A thread pool runs every task exactly once and stops cleanly",
  "Every task submitted to a started pool runs exactly once, on one of its worker threads, in submission order when there is one worker, and with at most the configured number of workers and queued tasks at any time; a full queue makes the submitter wait rather than drop a task. "
  "Workers keep running tasks for as long as the pool lives, and a task may submit further tasks. "
  "Stopping or destroying the pool, idle or busy, ends and joins every worker in every schedule.",
  ["schedules", "histories", "configurations"],
  "All numbers of workers, queue bounds, submitters, tasks and stop moments.",
  "The pool test submits a few tasks and prints.",
  ["kanon/thread/thread_pool.h", "kanon/thread/thread_pool.cc"],
  [("bounded queue with two conditions", "kanon/thread/thread_pool.cc"), ("worker loop", "kanon/thread/thread_pool.cc RunInThread")],
  ["task log"])

prop("T04", "Threads run their function once with correct identity; atomics are exact",
  "Starting a thread runs its function exactly once in a new thread whose identity, name and main-thread status are what the thread object and the thread itself report, however the thread object is moved or destroyed meanwhile; joining waits for the function to finish. "
  "Thread-local values are separate per thread and destroyed with it. "
  "Atomic counters return and hold exactly the values of some sequential order of the operations applied, for any number of threads.",
  ["schedules", "histories"],
  "All numbers of threads and orders of start, join, detach and counter operations.",
  "Tests start one or two threads.",
  ["kanon/thread/thread.h", "kanon/thread/thread.cc", "kanon/thread/current_thread.h", "kanon/thread/current_thread.cc", "kanon/thread/thread_local.h", "kanon/thread/atomic_counter.h", "kanon/thread/atomic.h"],
  [("start hand-shake", "kanon/thread/thread.cc"), ("per-thread data", "kanon/thread/thread_local.h"), ("atomic builtins", "kanon/thread/atomic_counter.h")],
  ["values seen inside and outside the thread"])

# ---------------------------------------------------------------- logging
prop("L01", "Each log statement at an enabled level yields exactly one complete record",
  "A log statement whose level is at or above the threshold emits exactly one record to the configured sink, consisting of time stamp, level name, thread id, the streamed text, source file, line and newline; one below the threshold emits nothing and does not evaluate its arguments. "
  "System-error records contain the text of the current error code, records longer than the line buffer are truncated but still end in a newline, and colour codes appear only when enabled. "
  "Fatal records are flushed and then end the process.",
  ["inputs", "configurations", "schedules"],
  "All levels, thresholds, messages and lengths, error codes, colour and sink settings, and concurrent logging threads.",
  "Tests print a few messages to the terminal and check nothing.",
  ["kanon/log/logger.h", "kanon/log/logger.cc", "kanon/log/log_stream.h", "kanon/log/terminal_color.h"],
  [("record assembly in constructor/destructor", "kanon/log/logger.cc"), ("level macros", "kanon/log/logger.h")],
  ["records received by the sink"])

prop("L02", "Log files hold every record once, in order, within their size and count limits",
  "Concatenating a log file's rolled files in creation order gives exactly the records appended, each once, in order and unsplit; a new file is started when and only when the size limit was exceeded or the day changed, and never more often than once a second. "
  "Files are created in the requested directory (created if missing) with the base name, and only the documented number of files is retained, the newest never being removed. "
  "After a flush or destruction everything appended is on disk.",
  ["inputs", "histories", "schedules", "configurations"],
  "All record sizes and counts, size limits, flush intervals, retention counts, clock steps, one or several appending threads.",
  "The log file tests write a fixed pattern and check nothing.",
  ["kanon/log/log_file.h", "kanon/log/log_file.cc", "kanon/log/append_file.h", "kanon/log/append_file.cc", "kanon/process/process_info.cc"],
  [("roll decision", "kanon/log/log_file.h Append, RollFile"), ("buffered append", "kanon/log/append_file.cc"), ("retention", "kanon/log/log_file.cc")],
  ["the files on disk"])

prop("L03", "The asynchronous log loses, repeats and reorders nothing within its limits",
  "Every record appended to a started asynchronous log from any thread appears in its log file exactly once, unsplit and in per-thread order, once the log has been stopped or destroyed, as long as the documented backlog limit was not exceeded. "
  "Flushing makes everything appended before it reach the file. "
  "When the backlog limit is exceeded only the newest excess is dropped and the drop is reported; starting, stopping, flushing at any moment and destroying never hang or crash.",
  ["inputs", "histories", "schedules"],
  "All numbers of threads and records, sizes up to the buffer size, and stop/flush moments.",
  "The benchmark-style test checks nothing and never stops with data pending.",
  ["kanon/log/async_log.h", "kanon/log/async_log.cc"],
  [("double buffering with a background thread", "kanon/log/async_log.cc Append, Write"), ("final drain", "kanon/log/async_log.cc Stop")],
  ["the files on disk"])

# ---------------------------------------------------------------- protobuf
prop("P01", "The protobuf codec frames messages losslessly and rejects corrupt frames",
  "Any sequence of messages sent through a codec (ProtobufCodec, ProtobufCodec2) and received in any segmentation yields the same messages, in order, each exactly once, with nothing left over. "
  "A frame whose length is out of range, whose tag or checksum does not match, or whose payload does not parse is reported with the corresponding error, never delivered as a message, and never read out of bounds. "
  "The frame format is the documented one, and serialising into a chunk list or its output stream gives the same bytes as a flat buffer.",
  ["inputs", "histories", "fault_sequences"],
  "All messages, sequences, segmentations and corruptions of the byte stream.",
  "The codec is not built by default and has no automatic test.",
  ["kanon/protobuf/generic_pb_codec.h", "kanon/protobuf/generic_pb_codec.cc", "kanon/protobuf/protobuf_codec.h", "kanon/protobuf/protobuf_codec2.h", "kanon/protobuf/protobuf_codec2.cc", "kanon/protobuf/chunk_stream.h", "kanon/protobuf/chunk_stream.cc"],
  [("size/tag/payload/checksum framing", "kanon/protobuf/generic_pb_codec.cc"), ("zero-copy stream over chunks", "kanon/protobuf/chunk_stream.cc")],
  ["messages and errors delivered by the codec"])

prop("P02", "An RPC channel gives every call its own answer and serves every request once",
  "A call made on a connected channel from any thread, with or without a controller, is sent once with its service, method, request and deadline under an id of its own; its done runs at most once, in the loop, with exactly the response sent for that id, and does run if that answer arrives before the deadline, whatever the order of answers; answers that belong to no outstanding call are ignored. "
  "A channel with services hands each well-formed request once to the named method with the sent contents and deadline and answers it when, and as often as, the method runs done (at once, later, from another thread; without effect after the connection ended), and answers malformed requests with the matching error code. "
  "Nothing is leaked by a completed call or request, and nothing of a channel, server or controller is used after its end.",
  ["inputs", "histories", "schedules"],
  "All call sequences, deadlines, answer orders, unknown, duplicate and late answers, malformed requests, segmentations, moments of closing and destruction, and threads.",
  "RPC is not built by default and has no automatic test; the examples make one call each.",
  ["kanon/rpc/rpc_channel.cc", "kanon/rpc/rpc_channel.h", "kanon/rpc/rpc_server.cc", "kanon/rpc/rpc_server.h", "kanon/rpc/rpc_controller.cc", "kanon/rpc/rpc_controller.h", "kanon/rpc/rpc_codec.h", "kanon/rpc/callable.h", "kanon/rpc/rpc.proto"],
  [("outstanding call table and deadline timers", "kanon/rpc/rpc_channel.cc SendRpcRequest, OnRpcMessageForResponse"), ("request dispatch", "kanon/rpc/rpc_channel.cc OnRpcMessageForRequest"), ("channel per connection", "kanon/rpc/rpc_server.cc")],
  ["the bytes on the connection, the methods called and the done closures run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    n = len(re.findall(r'[.!?](?:\s|$)', p["statement"]))
    assert n <= 3, (p["id"], n, p["statement"])
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
