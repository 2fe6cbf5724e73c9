# One entry per claimed property: sources, build options and manifest texts.
WRAPIO = ["-Wl," + ",".join("--wrap=" + x for x in "write writev send sendmsg read readv recv recvmsg".split())]
TARGETS = {
    "B01": {"src": ["b01_buffer.cc"],
            "tech": "stateful property-based testing against a byte-string model (ASan/UBSan), shrinking to a replay file",
            "note": "Random operation sequences (up to 60 operations, up to 3 buffers, sizes up to 5000 bytes around all region boundaries); exploration, no exhaustiveness claim."},
    "B02": {"src": ["b02_chunk_list.cc"],
            "tech": "stateful property-based testing against byte-string models (ASan/UBSan), shrinking to a replay file",
            "note": "Random operation sequences (up to 40 operations, up to 3 lists, up to 30000 bytes per append) with exact chunk accounting; exploration."},
    "C01": {"src": ["c01_forward_list.cc"],
            "tech": "stateful property-based testing against a std::list-style model with lifetime and allocation tracking (ASan/UBSan)",
            "note": "Random operation sequences over several lists of tracked elements; exploration."},
    "C02": {"src": ["c02_arrays.cc"], "libs": ["-Wl,--wrap=malloc,--wrap=realloc"],
            "tech": "stateful property-based testing against vectors with lifetime/allocation tracking, injected constructor exceptions and failing allocations (ASan/UBSan)",
            "note": "Sizes up to 40 (rarely 70000), up to 3 arrays, 7 element/allocator kinds, exceptions injected at random constructor calls, allocations failed; exploration."},
    "B03": {"src": ["b03_fdio.cc", "faultio.cc"], "net": True, "libs": WRAPIO,
            "tech": "property-based testing with injected short counts and errors over real pipes and sockets, byte-string oracle (ASan/UBSan)",
            "note": "Lists of up to ~2600 chunks per splice, reads of up to 250 kB, faults injected at random calls; exploration."},
}
TARGETS.update({
    "S01": {"src": ["s01_string_view.cc"],
            "tech": "differential property-based testing against std::string_view over exact-size heap copies (ASan/UBSan)",
            "note": "Views up to 300 bytes over small alphabets with zero and high bytes, needles mostly (nearly) taken from the view; exploration."},
    "S02": {"src": ["s02_format.cc"],
            "tech": "stateful property-based testing against a text model (printf/to_string) with truncation (ASan/UBSan)",
            "note": "Streams of 16 to 4096 bytes, up to 24 insertions, formats with up to 3 arguments; exploration."},
    "S03": {"src": ["s03_convert.cc"],
            "tech": "round-trip and differential property-based testing against strtoXX/printf, plus concurrent conversions (ASan/UBSan)",
            "note": "All integer types, random and boundary values and texts; threads suite samples schedules only."},
})
TARGETS.update({
    "U01": {"src": ["u01_any.cc", "u01_cxx11.cc"], "variants": [("asan", "any,unique_any,optional,frail,misc"), ("gcc", "nested")],
            "tech": "stateful property-based testing against a tagged-value model with lifetime tracking (ASan/UBSan)",
            "note": "Up to 30 operations over up to 4 holders and 6 stored types; conversions of optionals; weak callbacks around the death of the target; throwing copies; nested holders (this suite compiled by gcc, the rest by clang); exploration."},
    "U02": {"src": ["u02_time.cc"],
            "tech": "property-based testing against 64-bit arithmetic, localtime/strftime/strptime and parse-back round trips (UBSan)",
            "note": "Stamps 1970-2200 over six time zones with and without daylight saving; exploration."},
    "U03": {"src": ["u03_pools.cc"], "libs": ["-Wl,--wrap=malloc,--wrap=_Znwm"],
            "tech": "stateful property-based testing with pattern-filled live blocks, overlap/alignment/accounting oracles (ASan/UBSan)",
            "note": "Block sizes 1..300, 1..20 chunks per block, up to 80 operations, allocations failed; exploration.", "flags": ["-fsanitize=alignment"], "libflags": ["-fsanitize=alignment"]},
})
WRAPPTH = ["-Wl," + ",".join("--wrap=pthread_" + x for x in "mutex_lock mutex_trylock mutex_unlock cond_wait cond_timedwait cond_signal cond_broadcast".split())]
TARGETS.update({
    "T01": {"src": ["t01_locks.cc", "schedfuzz.cc"], "san": "tsan", "libs": WRAPPTH,
            "tech": "property-based testing of generated multi-thread scripts under injected schedule noise, overlap monitors and ThreadSanitizer",
            "note": "2-5 threads, up to 14 operations each; schedules are sampled with noise at every pthread call; exploration."},
    "T02": {"src": ["t02_latch.cc", "schedfuzz.cc"], "san": "tsan", "libs": WRAPPTH,
            "tech": "property-based testing of generated multi-thread scripts with injected spurious wakeups and schedule noise (ThreadSanitizer)",
            "note": "Up to 5 waiters and 3 counting threads, up to 3 rounds; schedules are sampled; exploration."},
})
TARGETS.update({
    "T03": {"src": ["t03_pool.cc", "schedfuzz.cc"], "variants": [("asan", "tasks,bound,stop,together"), ("tsan", "races,bound_races")], "libs": WRAPPTH,
            "tech": "property-based testing of generated submitter/worker scripts with schedule noise and spurious wakeups, exactly-once and bound monitors (ASan, and TSan)",
            "note": "Up to 5 workers, 3 submitters, 60 tasks; schedules are sampled; exploration."},
    "T04": {"src": ["t04_thread.cc", "schedfuzz.cc"], "variants": [("asan", "thread,foreign,create_fails,local,counter"), ("tsan", "races,local_races")], "libs": WRAPPTH + ["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach"],
            "tech": "property-based testing of generated thread life cycles and concurrent counter histories (linearisability by Eulerian trail) (ASan, and TSan)",
            "note": "Up to 5 threads; counters of 8 to 64 bits with up to 120 operations; schedules are sampled; exploration."},
})
TARGETS.update({
    "N10": {"src": ["n10_poll.cc"], "net": True,
            "tech": "stateful and differential property-based testing of both readiness back ends against raw poll()/epoll on the same descriptors (ASan/UBSan)",
            "note": "1-8 (sometimes up to 40) pipes, sockets, eventfds and listeners, up to 30 steps; level- and edge-triggered; exploration."},
})
TARGETS.update({
    "N08": {"src": ["n08_loop.cc", "schedfuzz.cc"], "net": True, "san": "tsan", "libs": WRAPPTH,
            "tech": "property-based testing of generated submission/quit scripts over several threads with schedule noise, exactly-once and order monitors (ThreadSanitizer)",
            "note": "Up to 3 submitting threads, 8 submissions each with nested submissions; loop threads and pools of up to 4; schedules are sampled; exploration."},
})
WRAPCLOCK = ["-Wl," + ",".join("--wrap=" + x for x in "epoll_wait epoll_pwait poll ppoll timerfd_create timerfd_settime gettimeofday clock_gettime".split())]
TARGETS.update({
    "N09": {"src": ["n09_timer.cc", "schedfuzz.cc"], "net": True, "libs": WRAPPTH + WRAPCLOCK,
            "tech": "stateful property-based testing on a virtual clock against a timer model, plus generated cross-thread scripts in real time (ASan)",
            "note": "Up to 40 timers and 120 firings per history, delays from 0 to 400 days, cancels and additions from callbacks; exploration."},
})
TARGETS.update({
    "N01": {"src": ["n01_send.cc", "faultio.cc", "schedfuzz.cc"], "variants": [("asan", "unix,tcp,threads"), ("tsan", "races")], "net": True, "libs": WRAPIO + WRAPPTH,
            "tech": "stateful property-based testing of one connection against a byte-stream model with injected short/interrupted writes, plus concurrent senders (ASan/UBSan)",
            "note": "Up to 75 operations, messages up to 150 kB, all send kinds mixed, socket pairs and loopback TCP, poll/epoll/edge-triggered; 1-3 concurrent senders with sampled schedules; exploration."},
})
TARGETS.update({
    "N02": {"src": ["n02_shutdown.cc", "faultio.cc", "schedfuzz.cc"], "variants": [("asan", "unix,tcp,threads"), ("tsan", "races")], "net": True, "libs": WRAPIO + WRAPPTH,
            "tech": "stateful property-based testing of one connection's shutdown against a byte-stream model with injected short/interrupted I/O, plus concurrent senders (ASan/UBSan)",
            "note": "Shutdown from steps, callbacks and other threads with up to megabytes of queued output, poll/epoll/edge-triggered, socket pairs and TCP; sampled schedules; exploration."},
    "N03": {"src": ["n03_receive.cc", "faultio.cc"], "net": True, "libs": WRAPIO,
            "tech": "stateful property-based testing of one connection's input against a byte-stream model with injected short/interrupted reads (ASan/UBSan)",
            "note": "Bursts up to 256 kB, up to 56 operations, arbitrary consumption and pausing in the callback, all ways the peer can end; exploration."},
    "N05": {"src": ["n05_notify.cc", "faultio.cc"], "net": True, "libs": WRAPIO,
            "tech": "stateful property-based testing of both callbacks against a backlog model fed by the actual write calls (ASan/UBSan)",
            "note": "Up to 60 operations, marks 0 to 120000, sends from callbacks and other threads, injected short/EINTR/EAGAIN writes; exploration."},
})
TARGETS.update({
    "N04": {"src": ["n04_life.cc", "faultio.cc", "schedfuzz.cc"], "variants": [("asan", "unix,tcp,threads"), ("tsan", "races")], "net": True, "libs": WRAPIO + WRAPPTH,
            "tech": "stateful property-based testing of connection life cycles with close actions from all sides, life-cycle monitors and leak checks (ASan/UBSan), plus concurrent closers",
            "note": "Up to 48 operations, close actions from steps, callbacks, other threads and the peer (close, half close, reset), poll/epoll/edge-triggered; threads suite samples schedules; exploration."},
})
WRAPACC = ["-Wl,--wrap=accept4,--wrap=accept"]
TARGETS.update({
    "N06": {"src": ["n06_server.cc", "schedfuzz.cc"], "variants": [("asan", "single,loops"), ("tsan", "races")], "net": True, "libs": WRAPPTH + WRAPACC,
            "tech": "stateful property-based testing of servers with real clients against a connection model (ASan/UBSan), plus generated multi-thread scripts over worker loops (ASan, TSan)",
            "note": "Up to 40 clients and 24 steps, bursts, accept errors, exhausted descriptors, IPv4/IPv6, poll/epoll/edge-triggered, up to 3 worker loops and 3 client threads; schedules are sampled; exploration."},
})
TARGETS.update({
    "N07": {"src": ["n07_client.cc", "schedfuzz.cc"], "variants": [("asan", "virtual,threads"), ("tsan", "races")], "net": True, "libs": WRAPPTH + WRAPCLOCK + ["-Wl,--wrap=connect,--wrap=close"],
            "tech": "stateful property-based testing of a client on a virtual clock with observed connect() calls against a retry model (ASan/UBSan), plus generated multi-thread scripts against a real server (ASan, TSan)",
            "note": "Up to 30 steps, injected connect errors, self connections, servers up and down, operations in callbacks and from other threads, poll/epoll/edge-triggered; 1-3 threads with sampled schedules; exploration."},
})
TARGETS.update({
    "N11": {"src": ["n11_addr.cc"], "net": True, "libs": ["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"],
            "tech": "round-trip and differential property-based testing against inet_pton/inet_ntop and a grammar of the accepted forms, with a generated resolver and real sockets (ASan/UBSan)",
            "note": "All spellings of IPv4/IPv6 addresses inside longer texts, mutated texts, ports inside and outside the range, loopback sockets of both families; exploration."},
})

WRAPTIME = ["-Wl,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=time"]
TARGETS.update({
    "L01": {"src": ["l01_log.cc", "schedfuzz.cc"], "variants": [("asan", "record,threads,fatal,env"), ("tsan", "races")], "libs": WRAPPTH + WRAPTIME, "repo_src": ["kanon/protobuf/logger.cc", "kanon/rpc/logger.cc"],
            "tech": "stateful property-based testing of log statements on a virtual clock against an exact model of the record, in child processes for fatal records and environment settings, and of logging threads (ASan/UBSan, TSan)",
            "note": "Up to 12 statements of every macro and level with changing settings, messages around the line buffer size, five time zones; 2-4 threads with sampled schedules; exploration."},
})
TARGETS.update({
    "L02": {"src": ["l02_logfile.cc", "schedfuzz.cc"], "variants": [("asan", "model,threads,fatal"), ("tsan", "races")], "libs": WRAPPTH + WRAPTIME,
            "tech": "stateful property-based testing of log files in a scratch directory on a virtual clock against a model of names, contents and removals (ASan/UBSan), plus generated multi-thread scripts (ASan, TSan)",
            "note": "Up to 40 operations, records up to 140 kB, roll sizes 0 to 1 MB, 1-5 or unlimited files, clock steps in both directions; 2-4 threads with sampled schedules; exploration."},
})
TARGETS.update({
    "L03": {"src": ["l03_async.cc", "schedfuzz.cc"], "variants": [("asan", "script,backlog,process"), ("tsan", "races,logger")], "libs": WRAPPTH + WRAPTIME,
            "tech": "property-based testing of generated multi-thread scripts of appends, flushes and stops with schedule noise and spurious wakeups against the files on disk (ASan/UBSan, TSan), with generated backlogs and process ends",
            "note": "1-4 threads, up to 40 operations each, records up to the 4 MB buffer, backlogs of 24 to 90 MB; schedules are sampled; exploration."},
})

def _protoc(gendir, incs, files):
    import subprocess
    subprocess.run(["protoc", "--cpp_out=" + gendir] + ["-I" + i for i in incs] + files, check=True)
def _gen_p01(repo, root, gendir):
    _protoc(gendir, [root + "/harness"], [root + "/harness/p01.proto"])
    # the header of the kvarint submodule, unless the repository has it
    import os, shutil
    own = os.path.exists(repo + "/kanon/protobuf/kvarint/kvarint.h")
    d = gendir + "/kanon/protobuf/kvarint"
    shutil.rmtree(d, ignore_errors=True)
    if not own: shutil.copytree(root + "/harness/standin/kanon/protobuf/kvarint", d)
    return [gendir + "/p01.pb.cc"]
PBSRC = ["kanon/protobuf/generic_pb_codec.cc", "kanon/protobuf/chunk_stream.cc", "kanon/protobuf/logger.cc"]
TARGETS.update({
    "P01": {"src": ["p01_codec.cc", "faultio.cc"], "net": True, "gen": _gen_p01, "repo_src": PBSRC + ["kanon/protobuf/protobuf_codec2.cc"], "libs": WRAPIO + ["-lprotobuf"],
            "tech": "round-trip and differential property-based testing of generated messages, segmentations and corruptions against a reference frame format (ASan/UBSan)",
            "note": "Streams of up to 6 frames with messages of up to about 100 kB (a few up to the 64 MB limit), one corruption per stream, connections with injected short I/O; exploration."},
})
def _gen_p02(repo, root, gendir):
    import os
    for d in ("/harness", "/kanon/rpc"): os.makedirs(gendir + d, exist_ok=True)
    _protoc(gendir, [root + "/harness"], [root + "/harness/p02.proto"])
    _protoc(gendir + "/kanon/rpc", [repo + "/kanon/rpc"], [repo + "/kanon/rpc/rpc.proto"])
    return [gendir + "/p02.pb.cc", gendir + "/kanon/rpc/rpc.pb.cc"]
RPCSRC = ["kanon/rpc/rpc_channel.cc", "kanon/rpc/rpc_codec.cc", "kanon/rpc/rpc_controller.cc", "kanon/rpc/rpc_server.cc", "kanon/rpc/logger.cc"]
TARGETS.update({
    "P02": {"src": ["p02_rpc.cc", "faultio.cc", "schedfuzz.cc"], "variants": [("asan", "client,server,leaks,threads"), ("tsan", "races")], "net": True, "gen": _gen_p02, "repo_src": PBSRC + RPCSRC, "libs": WRAPIO + WRAPCLOCK + WRAPPTH + ["-lprotobuf"],
            "tech": "stateful property-based testing of both ends of an RPC channel against a raw peer and a model of the calls, on a virtual clock (ASan/UBSan), plus generated multi-thread scripts",
            "note": "Up to 60 calls or requests per case, answers in any order, duplicate, unknown and late answers, malformed requests, deadlines; 1-4 threads with sampled schedules; exploration."},
})
