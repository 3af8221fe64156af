"""Texts of the properties (properties.jsonl and MANIFEST.json are generated from here by gen_meta.py)."""
NOT_APPLICABLE = {}
TEXT = {
    "C01": dict(
        title="Granted time honours the request and the federate's time settings",
        statement="Every granted time is a time the documentation promises: simulated time starts at zero when executing mode is entered and "
                  "each later grant is strictly later; it lies on the federate's period/offset grid and keeps the minimum time delta; a grant "
                  "earlier than the request happens only because an update (value or message) became available to an interruptible federate by "
                  "then, and such an update does interrupt; an uninterruptible federate receives exactly the requested time (moved up to its "
                  "grid); without an update the grant is never past the requested time as adjusted to the grid; a request for the maximum time "
                  "ends only with an update or the end of the co-simulation, and getCurrentTime is the granted time.",
        over=["schedules", "histories", "inputs"],
        qtext="every sequence of time requests by every federate, every combination of period, offset, delta, delays and interrupt "
              "settings, every interleaving of the federates, cores and brokers",
        why="Unit tests fix two or three federates with regular steps; the distributed time algorithm only fails for particular orders of "
            "requests and messages. Six timing defects were found (and repaired) with this check.",
        files=["src/helics/core/TimeCoordinator.cpp", "src/helics/core/TimeDependencies.cpp", "src/helics/core/ForwardingTimeCoordinator.cpp",
               "src/helics/core/FederateState.cpp", "src/helics/application_api/Federate.cpp"],
        mech=[("time coordination per federate", "TimeCoordinator"), ("aggregation in cores and brokers", "ForwardingTimeCoordinator, TimeDependencies")],
        observe=["requestTime/getCurrentTime of each federate", "values and messages read at each grant"],
        technique="offline trace oracle over recorded histories of random multi-threaded federations run on the real library",
        note="up to 5 federates (6 thorough), 30 grants each; regime limits (one-hop interruption chains, documented look-ahead of the time "
             "algorithm) in DESIGN.md"),
    "C02": dict(
        title="Causality: no federate sees the future or misses the past",
        statement="When a federate is granted a time, everything any other federate published or sent for an earlier time has been delivered "
                  "(or superseded), and nothing published or sent for a later time is visible, whatever the relative speed of federates, cores "
                  "and brokers.",
        over=["schedules", "histories"],
        qtext="every interleaving of the threads and messages of a federation, every topology of cores and sub-brokers, every time setting",
        why="The guarantee of a co-simulation; a violation depends on message timing that a fixed test meets by accident only.",
        files=["src/helics/core/TimeCoordinator.cpp", "src/helics/core/TimeCoordinatorProcessing.cpp", "src/helics/core/TimeDependencies.cpp",
               "src/helics/core/ForwardingTimeCoordinator.cpp", "src/helics/core/CommonCore.cpp", "src/helics/core/CoreBroker.cpp"],
        mech=[("Te/minDe/TeAlt exchange", "TimeDependencies::update, generateMinTime*"), ("value queueing until granted", "InputInfo::updateTimeUpTo")],
        observe=["timestamped publications and sends of every federate against what every other federate saw at each grant"],
        technique="offline happens-before style oracle over merged event logs of random federations",
        note="as C01"),
    "C03": dict(
        title="Inputs show exactly the newest value published to them",
        statement="At each grant an input reports updated exactly when a publication connected to it produced a new value for it in the period "
                  "since the previous grant, the value read is bit-for-bit one that was published, the newest one (by time, then source order) "
                  "among its sources, and its last update time is the time that value became valid; this holds for every value type, however the "
                  "connection was made (by input, by publication, by core, by broker, by subscription) and through any topology.",
        over=["schedules", "histories", "inputs"],
        qtext="every history of publications on any number of sources per input, all types, connection methods and interleavings",
        why="Unit tests check single transfers with known timing.",
        files=["src/helics/core/InputInfo.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/CommonCore.cpp",
               "src/helics/application_api/Inputs.cpp", "src/helics/application_api/ValueFederateManager.cpp"],
        mech=[("per-source value queues", "InputInfo"), ("routing of CMD_PUB", "CommonCore, CoreBroker")],
        observe=["isUpdated, getValue, getLastUpdateTime of each input at each grant"],
        technique="offline trace oracle with self-identifying values, plain and ASan/UBSan builds",
        note="up to 8 publications and 10 inputs per federation"),
    "C04": dict(
        title="Messages arrive exactly once, intact, in time order, at the addressed endpoint",
        statement="Every message sent to an existing endpoint is received there exactly once with unchanged payload, source, destination and "
                  "time (send time plus output delay, or the later requested time), not before the receiver's time reaches it, at the first grant "
                  "that includes it; messages of one endpoint come in time order and those from one source at one time in sending order; pending "
                  "counts agree with what can be read; nothing else is ever received.",
        over=["schedules", "histories", "inputs"],
        qtext="every history of sends (default, explicit and delayed, plain and targeted endpoints), all interleavings and topologies",
        why="Unit tests send single messages at chosen times.",
        files=["src/helics/core/EndpointInfo.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/CommonCore.cpp",
               "src/helics/application_api/MessageFederateManager.cpp", "src/helics/application_api/Endpoints.cpp"],
        mech=[("ordered message queues", "EndpointInfo::addMessage, getMessage"), ("address resolution", "CommonCore::sendTo*, route*")],
        observe=["every sent and received message with its metadata, pending counts at each grant"],
        technique="offline exactly-once/ordering oracle over recorded sends and receipts, plain and ASan/UBSan builds",
        note="up to 7 endpoints per federation; payloads up to several hundred bytes (larger ones in C24/C11)"),
    "C05": dict(
        title="Filters change, copy, redirect, delay or drop exactly the messages they should",
        statement="A message sent by an endpoint passes every filter on it (of the endpoint's core) exactly once: delays add their time, "
                  "custom and data operators see and change its content, a reroute gives it a new destination where its conditions match "
                  "(the original one is kept), a conditional or dropping filter removes it; filters on the receiving endpoint act likewise, one that "
                  "reroutes sending it on to the new destination, and cloning filters deliver one copy to each of their delivery endpoints and "
                  "leave the original alone. "
                  "Each surviving message and copy arrives exactly once, with the resulting content, time and addresses, and messages on endpoints without "
                  "filters are untouched. Filter properties read back as set, and the operations act as their properties say.",
        over=["schedules", "histories", "inputs"],
        qtext="every set of filters of every kind on senders and receivers, every message history, all interleavings",
        why="Filters run inside the core on its own thread; unit tests use one filter at a time. A dropping destination filter crashed the core, a "
            "rerouting one did not reroute, and a cloning one kept others from being added.",
        files=["src/helics/core/FilterFederate.cpp", "src/helics/core/FilterCoordinator.cpp", "src/helics/application_api/FilterOperations.cpp",
               "src/helics/application_api/MessageOperators.cpp", "src/helics/application_api/Filters.cpp", "src/helics/core/CommonCore.cpp"],
        mech=[("filter execution", "FilterFederate::processMessage, executeFilter, destinationProcessMessage, runCloningDestinationFilters"),
              ("operations", "DelayFilterOperation, RerouteFilterOperation, CloneFilterOperation, RandomDelayFilterOperation")],
        observe=["every message sent and received with its metadata in federations with filters", "result of each operator on generated messages",
                 "properties read back"],
        technique="offline exactly-once/transformation oracle over recorded sends and receipts; model of each operation; plain and ASan/UBSan builds",
        note="TEST core; up to 4 federates on 2 cores, 5 filters; filters of another core than their endpoint's are left out (they stall, see DESIGN)"),
    "C24": dict(
        title="The guarantees do not depend on the transport",
        statement="A federation over zmq, zmq_ss, tcp, udp or shared-memory transports starts, runs and ends exactly as the same federation in "
                  "one process: the same grant, causality, value and message guarantees hold, and every core and broker disconnects at the end.",
        over=["schedules", "histories"],
        qtext="every federation over every real transport, every arrival order of packets",
        why="The upstream system tests over sockets use few fixed federations and mostly check that they finish.",
        files=["src/helics/network/zmq/ZmqComms.cpp", "src/helics/network/zmq/ZmqCommsSS.cpp", "src/helics/network/tcp/TcpComms.cpp",
               "src/helics/network/udp/UdpComms.cpp", "src/helics/network/ipc/IpcComms.cpp", "src/helics/network/NetworkCommsInterface.cpp",
               "src/helics/network/CommsInterface.cpp", "src/helics/core/ActionMessage.cpp"],
        mech=[("transport send/receive loops", "*Comms::queue_rx_function, queue_tx_function"), ("port and address negotiation", "NetworkCommsInterface")],
        observe=["complete federate histories over real sockets", "disconnection of cores and brokers"],
        technique="offline trace oracle over federations run over real loopback sockets in a private network namespace",
        note="four socket transports plus shared memory; tcp_ss is not covered (see DESIGN.md)"),
    "C19": dict(
        title="Payload buffer behaves as an owning byte string in every storage mode",
        statement="The payload buffer that carries every value and message holds exactly the bytes last put in it after any sequence of "
                  "construction, copy, move, swap, assignment, append, resize, reserve, locking, span/ownership transfer and release, whether "
                  "the bytes sit inline, on the heap or in caller-owned memory; two buffers never share storage and a moved-from or released "
                  "buffer is empty and usable. It never reads, writes or frees memory that is not its own, never frees caller-owned memory and "
                  "never leaks what it owns, and its reported capacity is really usable. A locked buffer never relocates: an operation that "
                  "needs more room is refused with an allocation error and leaves the content unchanged.",
        over=["inputs", "histories"],
        qtext="every sequence of buffer operations, every size around the inline capacity and the growth thresholds, every mixture of "
              "storage modes of the participating buffers",
        why="The 40-odd unit tests apply one or two operations to fixed sizes; the defects live in combinations (swap of an inline with a heap "
            "buffer, growth out of a span, move into a locked buffer) - one such defect existed and was found by this check.",
        files=["src/helics/core/SmallBuffer.hpp"],
        mech=[("inline/heap/span storage switch", "SmallBuffer::reserve, swap, operator=, release")],
        observe=["public methods of SmallBuffer", "heap accounting", "AddressSanitizer"],
        technique="model-based runtime monitoring of random operation sequences under ASan/UBSan with heap accounting and guard bytes",
        note="three buffers per history, 20-100 operations, sizes up to 70000 bytes; states compared after each operation"),
    "C20": dict(
        title="Registry of not-yet-matched interfaces loses, invents and mixes nothing",
        statement="Whatever is recorded as waiting for a named publication, input, endpoint or filter, or as a link between two names, is "
                  "reported for exactly that name and kind, with the target and flags it was recorded with and once per recording, until it is "
                  "cleared by name, by federate or by predicate; clearing one name, kind or federate leaves all others. The summary questions "
                  "(anything unknown, anything not optional, anything required) and the iterations agree with the recorded set.",
        over=["inputs", "histories"],
        qtext="every history of recordings and clearings over colliding names, kinds, federates and flag combinations",
        why="No unit test in the runnable suite touches it; the integration tests only see the effect on one or two links at a time.",
        files=["src/helics/core/UnknownHandleManager.cpp", "src/helics/core/UnknownHandleManager.hpp"],
        mech=[("multimaps per interface kind", "UnknownHandleManager")],
        observe=["all public query methods after every step"],
        technique="model-based runtime monitoring: list model compared with every query after every operation, under ASan/UBSan",
        note="10-70 operations per history, up to 7 names, 3 federates"),
    "C23": dict(
        title="Profiling records reach the file exactly once, in order, or fail loudly",
        statement="Every non-empty profiling record added is written exactly once and in order, one per line, to the output file selected when "
                  "the buffer is written or destroyed; appending keeps what the file held, otherwise selecting the file clears it. A failure to "
                  "open or write is reported by an exception (never from destruction), and records that could not be written are kept and come "
                  "out at the next successful write.",
        over=["inputs", "histories", "fault_sequences"],
        qtext="every history of add, write, redirect and destroy operations, with output targets that are missing, refused or full",
        why="No test exercises failing targets or the order over several writes.",
        files=["src/helics/core/ProfilerBuffer.cpp"],
        mech=[("buffering and file output", "ProfilerBuffer::writeFile, setOutputFile, destructor")],
        observe=["file contents after every operation", "exceptions"],
        technique="runtime monitoring of file contents against a model under injected I/O faults (full device, missing directory), ASan/UBSan",
        note="two lifetimes per history, 5-30 operations each"),
    "C25": dict(
        title="Default ports, socket names and shared network contexts are consistent",
        statement="Each network transport has its own documented default port and other transports have none; each socket kind name resolves to "
                  "its kind regardless of letter case. A named shared network context is one object for all threads that ask for it until it is "
                  "closed, keeps its name, stays usable for those who still hold it after closing, and a later request creates a new one.",
        over=["inputs", "schedules", "histories"],
        qtext="every core type number, every spelling, every interleaving of concurrent acquisition and closing",
        why="The tests never resolve all kinds and never acquire contexts concurrently.",
        files=["src/helics/network/networkDefaults.cpp", "src/helics/network/zmq/ZmqContextManager.cpp", "src/helics/network/zmq/ZmqHelper.cpp"],
        mech=[("port table", "getDefaultPort"), ("context registry under a mutex", "ZmqContextManager"), ("name table", "socketTypeFromString")],
        observe=["return values", "pointer identity across threads"],
        technique="runtime monitoring with concurrent stress under ASan/UBSan and ThreadSanitizer builds",
        note="six threads per case on four context names"),
    "C28": dict(
        title="Identifiers and transport names are unambiguous",
        statement="Identifiers compare, hash, print and convert consistently with their number; federate, broker and invalid ranges do not overlap, "
                  "the special identifiers of different brokers never collide with each other or with ordinary federates, and the combined "
                  "federate/interface key is unique per pair. Every transport name printed by the library resolves to the same transport, every "
                  "documented alias resolves regardless of letter case, leading dashes or a trailing underscore, any other text gives a "
                  "deterministic answer without reading out of bounds, and a transport is reported available exactly when this build can create it.",
        over=["inputs"],
        qtext="all identifier values and pairs, all names and spellings, arbitrary byte strings",
        why="Tests check a handful of names and no identifier algebra.",
        files=["src/helics/core/GlobalFederateId.hpp", "src/helics/core/LocalFederateId.hpp", "src/helics/core/LocalFederateId.cpp",
               "src/helics/core/coreTypeOperations.cpp", "src/helics/application_api/typeOperations.cpp"],
        mech=[("identifier ranges", "GlobalFederateId, GlobalBrokerId, getSpecialFederateId"), ("name table and prefix rules", "coreTypeFromString, to_string")],
        observe=["return values"],
        technique="runtime monitoring of algebraic laws and a name table over random and edge inputs under ASan/UBSan",
        note="edge-biased identifiers, random spellings"),
    "C11": dict(
        title="Wire messages survive encoding and decoding unchanged",
        statement="Any ActionMessage of less than 16 MB written with any of the encodings (buffer, vector, string, packet, JSON string, nested in a "
                  "multi message, copied into or out of a Message) and read back equals the original in every field that the encoding carries; the "
                  "reader consumes exactly the bytes of that message; a frame written by a machine of the other byte order decodes to the same "
                  "message; reusing a message object for decoding leaves nothing of its previous content; copy and move keep the content; the size "
                  "announced is the size written, and a too small buffer is refused without being written past its end.",
        over=["inputs", "histories"],
        qtext="every action code, field value, payload length and content, string list, buffer size, and order of encodes and decodes on one object",
        why="Unit tests encode a dozen messages; every federation message passes through this code.",
        files=["src/helics/core/ActionMessage.cpp", "src/helics/core/ActionMessage.hpp", "src/helics/core/SmallBuffer.hpp"],
        mech=[("binary codec", "ActionMessage::toByteArray, fromByteArray, packetize, depacketize"), ("JSON codec", "to_json_string, from_json_string"),
              ("containers", "appendMessage, createMessageFromCommand")],
        observe=["bytes produced and fields decoded, compared with an independent encoder of the documented layout"],
        technique="online round-trip and differential monitor with an independent encoder, ASan/UBSan",
        note="payloads up to 70 kB (and the 16 MB limit for the refusal of the size field); packets above 16 MB are outside the statement"),
    "C12": dict(
        title="Malformed wire input is refused or decoded without harm",
        statement="Decoding arbitrary bytes (truncated, corrupted, oversized counts and lengths, wrong markers, invalid JSON) as a message, packet "
                  "or JSON text never reads outside the given bytes, never crashes, hangs or allocates without bound, and reports a truncated message "
                  "as not decoded; valid messages around the garbage still decode.",
        over=["inputs"],
        qtext="every byte string as input of every decoder entry point",
        why="Brokers listen on open ports, the bytes are not under their control; tests only feed well formed frames.",
        files=["src/helics/core/ActionMessage.cpp", "src/helics/core/ActionMessage.hpp"],
        mech=[("bounds checks", "ActionMessage::fromByteArray, depacketize, from_json_string")],
        observe=["bytes consumed, acceptance, sanitizer reports on exactly sized heap buffers"],
        technique="mutation fuzzing under ASan/UBSan with exactly sized buffers and a consumed-bytes monitor",
        note="mutated and random inputs up to a few kB"),
    "C13": dict(
        title="Values keep their meaning through publication and type conversion",
        statement="A value published through a publication of any type and read from an input as any type, by any of the access functions, is the "
                  "documented conversion of that value: exact when the types agree or the target can represent it (numbers, complex, vectors, text "
                  "spelling a number or a list), the documented norm, magnitude or element otherwise; text has the documented form and parses back to "
                  "the same numbers; sizes announced (string size, vector size) suffice for the copy; reading twice gives the same; defaults are what "
                  "was set until the first update; isUpdated is true exactly until the update is read or cleared.",
        over=["inputs", "histories"],
        qtext="every value of every type, every pair of types, every access function, every order of publications and reads",
        why="Nine types on each side, four storage forms and a dozen access functions; the tests try a few values for some pairs. Fifteen "
            "conversion defects were found and repaired.",
        files=["src/helics/application_api/helicsTypes.cpp", "src/helics/application_api/HelicsPrimaryTypes.hpp",
               "src/helics/application_api/helicsPrimaryTypes.cpp", "src/helics/application_api/ValueConverter.hpp",
               "src/helics/application_api/ValueConverter.cpp", "src/helics/application_api/Inputs.cpp",
               "src/helics/application_api/Inputs.hpp", "src/helics/application_api/Publications.cpp"],
        mech=[("conversion on publishing", "typeConvert"), ("conversion on reading", "valueExtract"), ("kept value", "Input::getValue_impl, getValueRef")],
        observe=["every published value and every value read back"],
        technique="online differential monitor against an independent model of the documented conversions, ASan/UBSan",
        note="conversions whose result the documentation leaves open (e.g. free text read as a vector) are only required to be safe"),
    "C14": dict(
        title="Text to value parsing is exact and bounded",
        statement="Parsing the text of a number, complex number, vector, complex vector, named point, boolean or type name gives exactly the value "
                  "spelled, in every documented spelling; anything else gives the documented invalid value or a refusal; no text, however malformed "
                  "or long, makes the parser read outside it, crash, hang or throw something undocumented; parsing what was generated gives back the "
                  "value.",
        over=["inputs"],
        qtext="every character string",
        why="Text reaches these parsers from other federates and configuration files; the defects found (reads outside the text, lost exponents) "
            "need spellings the tests do not use.",
        files=["src/helics/application_api/helicsTypes.cpp", "src/helics/application_api/helicsPrimaryTypes.cpp"],
        mech=[("complex/vector grammar", "helicsGetComplex, helicsGetVector, helicsGetComplexVector, readSize"), ("booleans", "helicsBoolValue")],
        observe=["values parsed from generated spellings and from mutated text held in exactly sized buffers"],
        technique="grammar-based generation with known meaning plus mutation fuzzing under ASan/UBSan",
        note="texts up to a few kB"),
    "C15": dict(
        title="Misused C API calls report an error and harm nothing",
        statement="Any C API function called with an invalid, null or mistaken object handle, or with a null text, returns its documented failure "
                  "value, reports a non-zero error code with a message in the error object if one is given, and changes no live object; a call whose "
                  "error object already holds an error does nothing and leaves that error; no exception crosses the C boundary; no sequence of calls "
                  "on live handles with arbitrary text and numbers crashes, corrupts memory or frees another object.",
        over=["inputs", "histories"],
        qtext="every function of the C API, every kind of wrong handle, every argument text, every order of calls",
        why="450 functions each check their own handles and texts; the tests misuse a few. A message cleared and then freed released another "
            "message; nine functions crashed on null texts; three without an error object.",
        files=["src/helics/shared_api_library/helicsExport.cpp", "src/helics/shared_api_library/FederateExport.cpp",
               "src/helics/shared_api_library/ValueFederateExport.cpp", "src/helics/shared_api_library/MessageFederateExport.cpp",
               "src/helics/shared_api_library/MessageFiltersExport.cpp", "src/helics/shared_api_library/TranslatorExport.cpp",
               "src/helics/shared_api_library/helicsData.cpp", "src/helics/shared_api_library/internal/api_objects.h"],
        mech=[("handle checks", "getFed, getCore, verifyEndpoint, getMessageObj, getBuffer"), ("text checks", "CHECK_NULL_STRING, AS_STRING"),
              ("errors", "helicsErrorHandler, assignError"), ("object holders", "MessageHolder, MasterObjectHolder")],
        observe=["result, error object and live-object state after every call; ASan/UBSan reports"],
        technique="generated misuse of every C API function under ASan/UBSan with an online monitor of results, errors and object state",
        note="raw bytes presented as an encoded value, handles already freed and functions that block by design are outside; 23 process-wide functions "
             "are not called"),
    "C16": dict(
        title="C API copies fit the caller's buffer and keep the content",
        statement="Every C API function that copies data out writes only inside the buffer length given, reports the length copied, and delivers the "
                  "value, converted as documented, completely if the buffer has the announced size; a buffer that is too small gets the documented "
                  "prefix or an error, never a byte beyond. Messages and data buffers hold exactly what the calls on them put there: setting, "
                  "appending, resizing, copying, cloning, clearing and freeing one never changes another.",
        over=["inputs", "histories"],
        qtext="every value, buffer size, and history of message and buffer calls",
        why="Every language binding copies through these functions; off-by-one terminators and lengths only show at exact sizes.",
        files=["src/helics/shared_api_library/helicsData.cpp", "src/helics/shared_api_library/ValueFederateExport.cpp",
               "src/helics/shared_api_library/MessageFederateExport.cpp", "src/helics/core/SmallBuffer.hpp", "src/helics/core/core-data.hpp"],
        mech=[("copies", "helicsDataBufferTo*, helicsInputGet*, helicsMessageGetBytes"), ("message ownership", "MessageHolder")],
        observe=["guard bytes behind every output buffer, reported lengths, content of every live message after each operation"],
        technique="model-based online monitor with guarded output buffers under ASan/UBSan",
        note="one federate and core; strings up to 3 kB"),
    "C29": dict(
        title="Inputs with several sources combine them as configured",
        statement="An input with several sources and a multi-input handling method (none, vectorize, and, or, sum, diff, max, min, average) gives, "
                  "at each update, the documented combination of the newest value of every source that has one, in source order, for numeric, vector "
                  "and text sources and any target type; without a method it gives the newest value, ties resolved by the priority list; it is "
                  "updated exactly when one of its sources is.",
        over=["inputs", "histories"],
        qtext="every number of sources, method, priority list, mix of types and history of publications",
        why="Tests use two or three sources with one publication each.",
        files=["src/helics/application_api/Inputs.cpp", "src/helics/core/InputInfo.cpp", "src/helics/application_api/ValueFederateManager.cpp"],
        mech=[("reductions", "Input::vectorDataProcess"), ("source priority", "InputInfo::getData")],
        observe=["combined values, update flags, option read back"],
        technique="online differential monitor against a model of the reductions, ASan/UBSan",
        note="2-5 sources, 20-50 rounds per case"),
    "C30": dict(
        title="Minimum change settings suppress exactly the insignificant updates",
        statement="With a minimum change set on an input it reports an update exactly when the new value differs from the last reported one by more "
                  "than the setting (any change for other types), and reads the last reported value; with a minimum change on a publication a value is "
                  "sent exactly when it differs from the last sent one by more than the setting, the first is always sent; only-update-on-change "
                  "settings suppress exactly the repetitions.",
        over=["inputs", "histories"],
        qtext="every value history of every type, every minimum change setting, on either side",
        why="Drift below the threshold against the last reported rather than the previous value needs long histories; tests use two or three values.",
        files=["src/helics/application_api/Inputs.cpp", "src/helics/application_api/Publications.cpp",
               "src/helics/application_api/helicsPrimaryTypes.cpp", "src/helics/core/InputInfo.cpp"],
        mech=[("comparison", "changeDetected"), ("input side", "Input::checkUpdate"), ("publication side", "Publication::publish*")],
        observe=["update flags and values at each step"],
        technique="online monitor against a model of the filtering, ASan/UBSan",
        note="numeric, complex, vector, text and named point histories of 20-60 steps"),
    "C09": dict(
        title="Names and aliases identify exactly one interface everywhere",
        statement="Every federate, publication, input and endpoint has the name it was registered with (local names prefixed by the federate), and "
                  "looking a name up in its federate, by full name, local name, index or declared alias, finds that object and no other; registering "
                  "a federate or a local interface name twice is refused; a name registered twice on different cores, or an alias that would name two "
                  "interfaces, surfaces as an error of a federate; links and messages given by any name or alias of an "
                  "interface, in any order of registration, linking and aliasing, reach exactly that interface; tags and descriptions are kept.",
        over=["histories", "schedules", "inputs"],
        qtext="every order of registrations, aliases and links over federates, cores and sub-brokers, and every interleaving of their processing",
        why="Aliases and unresolved names are stored and propagated at three levels; the order of arrival decides. Alias groups lost members, named "
            "freed memory or two interfaces; local errors did not reach federates of other cores.",
        files=["src/helics/core/HandleManager.cpp", "src/helics/core/CoreBroker.cpp", "src/helics/core/CommonCore.cpp",
               "src/helics/core/UnknownHandleManager.cpp", "src/helics/application_api/ValueFederateManager.cpp",
               "src/helics/application_api/MessageFederateManager.cpp", "src/helics/core/InterfaceInfo.cpp"],
        mech=[("alias groups", "HandleManager::addAlias"), ("late matching", "UnknownHandleManager, findAndNotify*Targets"),
              ("duplicates", "checkInterfaceCreation, registerFederate"), ("error routing", "CoreBroker::processError")],
        observe=["lookups, counts and handles in every federate", "values and messages received through names and aliases", "errors raised for clashes"],
        technique="model-based monitor of registration histories of live federations under ASan/UBSan",
        note="TEST core; up to 4 federates, 3 cores, 2 sub-brokers; endpoints only without sub-brokers"),
    "C10": dict(
        title="Queries return, once, a well formed and true answer",
        statement="Every query, by a federate, core or broker, synchronous or asynchronous, to any object of the federation and in every phase, fast or "
                  "ordered, is answered exactly once with valid JSON of the documented shape or a documented error; concurrent queries each get their "
                  "own answer; while nothing changes the answer is the truth: the names, counts, interfaces, links, tags, times, dependencies, states "
                  "and maps of the federation as they are; a disconnect answers the queries in flight.",
        over=["histories", "schedules", "inputs"],
        qtext="every query string and target, every topology, every phase and interleaving of queries with time steps and disconnects",
        why="About 80 query strings are answered by four kinds of objects, many by combining replies of others; the tests sample some on small "
            "topologies. Repeated or concurrent map queries lost answers, several answers were not JSON, some ended the process.",
        files=["src/helics/core/CoreBroker.cpp", "src/helics/core/CommonCore.cpp", "src/helics/core/FederateState.cpp",
               "src/helics/core/queryHelpers.cpp", "src/helics/core/queryHelpers.hpp", "src/helics/application_api/Federate.cpp",
               "src/helics/application_api/queryFunctions.cpp"],
        mech=[("map queries", "CoreBroker::processQuery, JsonMapBuilder"), ("in flight queries", "activeQueries"),
              ("quick answers", "quickBrokerQueries, quickCoreQueries"), ("federate answers", "FederateState::processQuery")],
        observe=["every answer, parsed and compared with a model of the federation", "unanswered queries", "ASan/UBSan reports"],
        technique="model-based monitor of query answers in live federations, with concurrent queries during stepping and disconnect, under ASan/UBSan",
        note="TEST core; up to 3 cores and 2 sub-brokers; ordered queries to a federate are answered inside its blocking calls only"),
    "C21": dict(
        title="Timers fire once, on time, and real-time federates keep pace",
        statement="A message given to the message timer is sent exactly once, not before its time and soon after it, unless it was cancelled or replaced "
                  "before; changing the time, the message or both of a pending timer takes effect, of a finished or unknown timer reports failure; "
                  "concurrent use loses and duplicates nothing. A federate in real-time mode is never granted a time more than its lead ahead of the "
                  "wall clock and, if its dependencies are late, is granted once its lag is used up.",
        over=["schedules", "histories"],
        qtext="every history of timer operations from several threads, every lead, lag, tolerance and pace of the other federates",
        why="Timers race with the thread that runs them; the tests use one or two timers at a time.",
        files=["src/helics/core/MessageTimer.cpp",
               "src/helics/core/MessageTimer.hpp", "src/helics/core/FederateState.cpp"],
        mech=[("timer", "MessageTimer"), ("real time", "FederateState::requestTime realtime branch, rt_lag, rt_lead")],
        observe=["every message sent with its wall-clock time against the recorded operations", "grants against the wall clock"],
        technique="offline checker over time-stamped timer histories under ASan and TSan, wall-clock monitor of real-time grants",
        note="lateness is judged generously (8 s for timers, repeated with larger delays for grants) so that a loaded machine raises no alarm"),
    "C22": dict(
        title="Log messages reach exactly their destinations, in order",
        statement="A message logged by a federate, core or broker is delivered unchanged, with its level and source, exactly once and in order to the "
                  "callback, file, log buffer and remote loggers whose level admits it, and to no other; changes of level, file, buffer size or "
                  "callback and remote loggers coming and going take effect from then on; a log buffer holds the newest messages up to its capacity, "
                  "under concurrent use; the logs query and commands return it.",
        over=["histories", "schedules", "inputs"],
        qtext="every history of messages and reconfigurations, every level, every interleaving of writers",
        why="Levels are kept in four places and cached; messages cross threads. Remote loggers lost levels, buffers outgrew their capacity and changing "
            "the file ended the process.",
        files=["src/helics/core/LogManager.cpp", "src/helics/core/LogManager.hpp", "src/helics/common/LogBuffer.cpp",
               "src/helics/core/BrokerBase.cpp", "src/helics/core/FederateState.cpp", "src/helics/common/logging.cpp"],
        mech=[("log buffer", "LogBuffer"), ("destinations", "LogManager::sendToLogger"), ("remote logging", "CMD_REMOTE_LOG, remote_log command")],
        observe=["callback calls, file lines, buffer contents and remote messages against a model after each step"],
        technique="model-based monitor of logging histories under ASan and TSan",
        note="the format of console output and time stamps in files are outside; file and console devices come from shims of spdlog sinks"),
    "C27": dict(
        title="Commands arrive once, in order, at their target",
        statement="A command sent by a federate, core or broker to a federate by name is received exactly once, with the text (comments and outer blanks "
                  "removed) and the name of its sender, in order among those of one sender and sequencing mode; waitCommand returns one when there is "
                  "one; commands to cores and brokers act as documented; echo, notify, log, command_status and the other built-in commands give exactly "
                  "their documented reply; nothing is invented and no command ends the process.",
        over=["histories", "schedules", "inputs"],
        qtext="every history of commands between all objects, every text, every interleaving with stepping",
        why="Commands travel on two paths and are partly consumed by the library; the tests send a handful.",
        files=["src/helics/core/FederateState.cpp", "src/helics/core/CommonCore.cpp", "src/helics/core/CoreBroker.cpp",
               "src/helics/application_api/Federate.cpp"],
        mech=[("built-in commands", "FederateState::processCommandInstruction, processLogCommand"), ("queue", "FederateState::getCommand, waitCommand"),
              ("core and broker", "processCommandInstruction")],
        observe=["every command received against those sent", "replies of built-in commands", "core and broker answers afterwards"],
        technique="exactly-once and per-channel order monitor of live federations under ASan/UBSan",
        note="commands to unknown targets are errors by design and outside; TEST core"),
}
