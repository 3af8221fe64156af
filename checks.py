"""What each property's check runs (see run.py)."""

PROGRAMS = {
    "comp": dict(groups=[], srcs=["comp.cpp", "@core/ProfilerBuffer.cpp", "@core/UnknownHandleManager.cpp"]),
    "ident": dict(),
    "fedsim": dict(),
    "codec": dict(),
    "values": dict(),
    "capi": dict(),
    "misc": dict(),
    "fedq": dict(),
    "filt": dict(),
}
FEAT = ["--feat", "32747"]
FEDRULE = ("random federations (2-5 federates, 1-3 cores, 0-2 sub-brokers, every timing option, values of all types over all link "
           "methods, targeted and plain endpoints) run for real; the recorded history of every federate is checked offline; two cases "
           "are distinct when the sequence of (federate, request kind, grant outcome, observations) differs")


def J(prog, cases, workers=(8, 8), **k):
    return dict(prog=prog, cases=cases, workers=workers, **k)


PROPS = {
    "C01": dict(rule=FEDRULE, evals="grants", jobs=[
        J("fedsim", (3600, 60000), profile="timing", variant="plain", args=FEAT, watchdog=40),
        J("fedsim", (1200, 20000), profile="value", variant="plain", args=FEAT, watchdog=40)]),
    "C02": dict(rule=FEDRULE, evals="grants", jobs=[
        J("fedsim", (1800, 30000), profile="timing", variant="plain", args=FEAT, watchdog=40),
        J("fedsim", (1800, 30000), profile="value", variant="plain", args=FEAT, watchdog=40),
        J("fedsim", (1000, 20000), profile="message", variant="plain", args=FEAT, watchdog=40)]),
    "C03": dict(rule=FEDRULE, evals="value_reads", jobs=[
        J("fedsim", (4000, 50000), profile="value", variant="plain", args=FEAT, watchdog=40),
        J("fedsim", (400, 5000), profile="value", args=FEAT, watchdog=50)]),
    "C04": dict(rule=FEDRULE, evals="messages_received", jobs=[
        J("fedsim", (4000, 50000), profile="message", variant="plain", args=FEAT, watchdog=40),
        J("fedsim", (400, 5000), profile="message", args=FEAT, watchdog=50)]),
    "C24": dict(rule=FEDRULE + "; here over zmq, zmq_ss, tcp, udp and shared memory transports on a loopback network of its own",
                evals="grants", jobs=[
        J("fedsim", (1600, 20000), profile="value", variant="plain", args=FEAT + ["--net", "1"], netns=True, any=True, watchdog=60),
        J("fedsim", (1600, 20000), profile="message", variant="plain", args=FEAT + ["--net", "1"], netns=True, any=True, watchdog=60),
        J("fedsim", (60, 2000), profile="value", variant="plain", args=FEAT + ["--net", "15"], workers=(1, 1), netns=True, any=True,
          serial=True, watchdog=60)]),
    "C19": dict(
        rule="random operation sequences on three SmallBuffers (sizes clustered around the inline capacity and growth edges, spans of "
             "user memory, locks, moves, swaps), each state compared with a byte-string model and the heap counted; two cases are "
             "distinct when their sequence of (operation, storage mode, aliasing) differs",
        evals="smallbuffer_operations",
        jobs=[J("comp", (24000, 2000000), profile="smallbuf")]),
    "C20": dict(
        rule="random histories of add/clear operations on the registry of unmatched interfaces, every lookup, predicate and "
             "iteration compared with a list model after each step; distinct by operation sequence",
        evals="registry_operations",
        jobs=[J("comp", (8000, 400000), profile="unkhandle")]),
    "C23": dict(
        rule="random histories of add/write/redirect operations incl. refusing devices, missing directories, destruction; file contents "
             "compared with a model after each step; distinct by operation sequence",
        evals="profiler_operations",
        jobs=[J("comp", (8000, 300000), profile="profbuf")]),
    "C25": dict(
        rule="default ports of every core type number, every spelling of the zmq socket names, and concurrent acquisition/closing of "
             "named zmq contexts by six threads (ASan and TSan builds); distinct by resolved spelling",
        jobs=[J("ident", (240, 4000), profile="net", workers=(4, 8)), J("ident", (80, 2000), profile="net", variant="tsan", workers=(4, 8))]),
    "C28": dict(
        rule="identifier pairs drawn from edge values and uniformly, and core type names in random spellings plus arbitrary byte strings; "
             "distinct by identifier value or string",
        jobs=[J("ident", (4000, 200000), profile="ids"), J("ident", (4000, 200000), profile="types")]),
    "C11": dict(
        rule="random messages of every action (fields from edge values, payloads clustered at size boundaries, string lists) through every "
             "encoding, compared field by field and with an independent encoder; distinct by action, encoding and size class",
        evals="frames_decoded", jobs=[J("codec", (8000, 400000), profile="round")]),
    "C12": dict(
        rule="mutations of valid frames, packets and JSON texts and random bytes in exactly sized heap buffers into every decoder under "
             "ASan/UBSan; distinct by input kind and outcome",
        evals="malformed_inputs", jobs=[J("codec", (8000, 400000), profile="malformed")]),
    "C13": dict(
        rule="values of nine types converted through every pair of types directly, and published/read through two federates with random access "
             "functions; compared with a model of the documented conversions; distinct by (value kind, publication type, target, function)",
        evals="conversions", jobs=[J("values", (4000, 200000), profile="convert"),
                                   J("values", (480, 12000), profile="pubsub", watchdog=60)]),
    "C14": dict(
        rule="texts generated with a known meaning in all documented spellings, and mutated or random texts in exactly sized buffers; "
             "distinct by text class and outcome",
        evals="texts_checked", jobs=[J("values", (2400, 100000), profile="parse")]),
    "C29": dict(
        rule="two federates, 2-5 sources per input, all handling methods, priorities, mixed types; distinct by (method, types, sources present)",
        evals="reductions_checked", jobs=[J("values", (800, 16000), profile="multi", watchdog=60)]),
    "C30": dict(
        rule="two federates, histories drifting around the minimum change on either side; distinct by (type, side, decision sequence)",
        evals="changes_checked", jobs=[J("values", (800, 16000), profile="change", watchdog=60)]),
    "C15": dict(
        rule="every C API function with a wrong handle (null, random memory, a live object of another kind), a set error or no error object, and "
             "random call sequences on live handles with arbitrary text and numbers; distinct by (function, kind of mistake or error code)",
        evals="calls", jobs=[J("capi", (64, 2400), profile="invalid", watchdog=60), J("capi", (160, 6000), profile="robust", watchdog=60)]),
    "C16": dict(
        rule="data buffers, message histories and inputs of a running federation copied into guarded buffers of every size and compared with a "
             "model; distinct by (function, source kind, target kind) and (operation, messages alive)",
        evals="copies_checked", jobs=[J("capi", (1200, 40000), profile="buffers", watchdog=60)]),
    "C05": dict(
        rule="random federations of 2-4 federates on 1-2 cores with up to 5 filters of every kind on the senders' and receivers' endpoints of the "
             "filter's core, and each filter operation and operator by itself on generated messages and property sequences; distinct by the "
             "deliveries seen (federations) and by generator state (operations)",
        evals="checked", jobs=[
        J("filt", (1600, 40000), variant="plain", args=["--remote", "0", "--cores", "2"], watchdog=60),
        J("filt", (320, 6000), args=["--remote", "0", "--cores", "2"], watchdog=90),
        J("filt", (1600, 60000), profile="ops", watchdog=60)]),
    "C09": dict(
        rule="registration histories of 2-4 federates on 1-3 cores under 0-2 sub-brokers: local and global names, aliases before and after, links by "
             "any name, duplicates, clashes between cores; distinct by history",
        evals="lookups", jobs=[J("fedq", (480, 12000), profile="names", watchdog=90)]),
    "C10": dict(
        rule="federations of 2-4 federates on 1-3 cores under 0-2 sub-brokers, every query to every kind of target from every kind of source in "
             "six phases, then concurrent queries while stepping and disconnecting; distinct by (query, source, target, phase, mode)",
        evals="answers_checked", jobs=[J("fedq", (480, 12000), profile="query", watchdog=90)]),
    "C21": dict(
        rule="histories of add/change/cancel operations on up to 4 threads over one timer; pairs of real-time federates with random lead, lag and "
             "delay; distinct by history",
        evals="timer_operations", jobs=[
            J("misc", (480, 12000), profile="timer", watchdog=60),
            J("misc", (120, 4000), profile="timer", variant="tsan", watchdog=60),
            J("misc", (96, 2000), profile="realtime", watchdog=90)]),
    "C22": dict(
        rule="histories of log messages and reconfigurations of one log buffer, of one log manager, and of federations of two federates with remote "
             "loggers; distinct by history",
        evals="log_operations", jobs=[
            J("misc", (480, 12000), profile="logbuf", watchdog=60),
            J("misc", (80, 3000), profile="logbuf", variant="tsan", watchdog=60),
            J("misc", (320, 8000), profile="fedlog", watchdog=60)]),
    "C27": dict(
        rule="random commands of every kind between federates, cores and brokers, fast and ordered, with comments, blanks and quotes, while federates "
             "step; distinct by (command, kinds of source and target, mode)",
        evals="received", jobs=[J("fedq", (480, 12000), profile="commands", watchdog=60)]),
}
