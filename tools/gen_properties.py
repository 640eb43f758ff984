#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})
M = "modbus_tk/modbus.py"; R = "modbus_tk/modbus_rtu.py"; T = "modbus_tk/modbus_tcp.py"
U = "modbus_tk/utils.py"; O = "modbus_tk/modbus_rtu_over_tcp.py"; H = "modbus_tk/hooks.py"
S = "modbus_tk/simulator.py"; SC = "modbus_tk/simulator_rpc_client.py"

p("C01", "The RTU checksum is the Modbus CRC-16 of the bytes",
  "For every byte sequence of every length, the checksum computed for an RTU frame is the Modbus CRC-16 (reflected polynomial 0xA001, initial value 0xFFFF) of exactly those bytes, with its low-order byte first on the wire.",
  ["inputs"], "every byte sequence, any length and content",
  "The tests compare against a reference on six ASCII strings and one growing string; a wrong table entry reached only with some checksum state, or a fault after a certain length, is not sampled.",
  [U], [("calculate_crc", U), ("swap_bytes", U)])

p("C02", "RTU framing round-trips and rejects every damaged or foreign frame",
  "For every unit address 0 to 255 and every PDU, the RTU request and response are the address byte, the PDU and its checksum, and parsing such a frame gives back exactly that address and PDU; building a request for any other address is refused with an invalid-argument error. A received request or response that is shorter than three bytes or whose last two bytes are not the checksum of the rest is refused with an invalid-request, respectively invalid-response, error and never yields a PDU. The same holds for a response whose address differs from the one the request was sent to.",
  ["inputs"], "all addresses, all PDUs, all received byte strings",
  "Tests try four PDUs and one corruption; the rejection must hold for every byte string.",
  [R, U], [("RtuQuery.build_request", R), ("RtuQuery.parse_response", R), ("RtuQuery.parse_request", R), ("RtuQuery.build_response", R)])

p("C03", "Modbus TCP framing round-trips and rejects mismatching headers",
  "For every unit id 0 to 255 and every PDU, the TCP request is a seven-byte header (transaction id, protocol id 0, PDU length plus one, unit id) followed by the PDU, parsing it gives back exactly that unit id and PDU, and the response built for a request repeats its transaction id, protocol id and unit id with its own length; any other unit id is refused with an invalid-argument error. A response is accepted only if its transaction id, protocol id and unit id equal those of the request and its length field equals the number of bytes that follow it; a request only if its length field equals the number of bytes that follow. Every other byte string is refused with an error and never yields a PDU.",
  ["inputs"], "all unit ids, all PDUs, all received byte strings, all pairs of headers",
  "Tests alter one header field at a time by one on a single PDU; combinations and other differences are not tried.",
  [T], [("TcpMbap.check_response / check_length / pack / unpack / clone", T), ("TcpQuery.build_request / parse_request / parse_response / build_response", T)])

p("C04", "Every TCP query gets a fresh transaction id, also across threads",
  "Consecutive TCP requests made anywhere in the process carry transaction ids that advance by one modulo 65536, so 65536 consecutive requests all carry different ids and every id fits the two-byte field. Reading and advancing the id happens under one lock shared by all queries, so no two threads can obtain the same id.",
  ["histories", "schedules"], "every history of queries, every starting value of the counter, every interleaving of threads",
  "One test runs 20 threads for a moment and one walks the counter once; neither covers every counter value or every interleaving.",
  [T, U], [("TcpQuery._get_transaction_id", T), ("threadsafe_function", U)], [{"name": "_last_transaction_id", "meaning": "last id handed out, process wide", "where": T}])

p("C05", "Reading coils or discrete inputs returns exactly the stored bits",
  "For every memory layout and contents and every request for 1 to 2000 coils or discrete inputs that lie inside one block of that kind, the reply is the function code, the byte count (quantity divided by 8, rounded up) and the stored bits packed least significant bit first, bit n of the payload being 1 exactly when item start+n is non-zero, with unused high bits of the last byte 0. This holds for signed and unsigned slaves alike, and reading changes no memory.",
  ["inputs", "configurations"], "all block layouts, all contents, all start addresses, all quantities",
  "Tests read eight fixed ranges of one 128-coil block; positions, quantities and contents are not covered.",
  [M], [("Slave._read_digital", M), ("Slave._get_block_and_offset", M), ("Slave.handle_request", M)])

p("C06", "Reading holding or input registers returns exactly the stored words",
  "For every memory layout and every request for 1 to 125 holding or input registers that lie inside one block of that kind, whose stored values fit a 16-bit word (unsigned, or two's complement for a signed slave), the reply is the function code, twice the quantity and each stored value as a big-endian word in address order. Reading changes no memory.",
  ["inputs", "configurations"], "all block layouts, all contents, all start addresses, all quantities, signed and unsigned slaves",
  "Tests read seven fixed ranges of one block with small values on unsigned slaves.",
  [M], [("Slave._read_registers", M), ("Slave._get_block_and_offset", M)])

p("C07", "Single-item writes store exactly the requested value and echo it",
  "For every memory layout, writing a single coil with 0x0000 or 0xFF00 stores 0 or 1, writing a single register stores the word (read as two's complement on a signed slave; a slave is unsigned unless made signed), and a mask write stores (old AND and-mask) OR (or-mask AND NOT and-mask) as a 16-bit word of the slave's signedness, in exactly the addressed item. The reply echoes the request.",
  ["inputs", "configurations"], "all block layouts, contents, addresses, values and masks, signed and unsigned slaves",
  "Tests write a handful of values at a handful of addresses; the one mask-write test is broken.",
  [M], [("Slave._write_single_coil", M), ("Slave._write_single_register", M), ("Slave._mask_write_register", M)])

p("C08", "Multi-item writes and read/write store every value at its address",
  "For every memory layout, a write of 1 to 1968 coils or 1 to 123 registers that lie inside one block stores item n of the payload at start+n for every n and nothing else, and the reply repeats the start address and quantity. The combined read/write request replies with the registers as they were before its own write, encoded as in a plain read, and stores every written word at its address.",
  ["inputs", "configurations"], "all block layouts, contents, start addresses, quantities, payloads, signed and unsigned slaves, overlapping read and write ranges",
  "Tests write a few fixed lengths and payload patterns, and never exercise read/write on overlapping ranges.",
  [M], [("Slave._write_multiple_coils", M), ("Slave._write_multiple_registers", M), ("Slave._read_write_multiple_registers", M)])

p("C09", "Illegal requests get the right exception code",
  "Every request PDU that is complete for its function is answered by its function code with the top bit set and: code 1 if the function is not supported; otherwise code 3 if a quantity is outside the allowed range, a byte count disagrees with the quantity or the data actually present is shorter than the byte count; otherwise code 2 if the addressed items do not all lie inside one block of the right kind. A single-coil value other than 0x0000 and 0xFF00 gives code 3, or 2 when the address is not mapped. Only requests with none of these faults get a normal reply.",
  ["inputs", "configurations"], "all function codes, all PDUs complete for their function, all block layouts",
  "Tests try a few out-of-range addresses and one excess quantity for some functions.",
  [M], [("Slave.handle_request", M), ("Slave._get_block_and_offset", M), ("quantity checks in each handler", M)])

p("C10", "A request touches only what it addresses, and a refused one nothing",
  "Whatever bytes a request PDU contains, a slave changes no item outside the range a successful write addresses, no block of another kind and no block layout. If the outcome is anything but a normal reply to a write (an exception reply, an internal failure, or a read), no item changes at all: a write is applied completely or not at all (hook functions that raise are aside).",
  ["inputs", "configurations", "fault_sequences"], "all request PDUs including truncated and malformed ones, all block layouts and contents",
  "Tests check the written items but hardly ever that everything else is untouched, and send no truncated writes.",
  [M], [("write handlers of Slave", M), ("ModbusBlock.__setitem__", M)])

p("C11", "The server survives every byte string and answers in frame or not at all",
  "For every byte string presented as a request, over RTU or TCP, handling it raises no exception, and the result is either no reply or exactly one frame that the requester can parse: same unit (and transaction and protocol id for TCP), correct length or checksum, carrying the reply of the addressed slave. An RTU string that is too short or has a wrong checksum gets no reply and has no effect.",
  ["inputs", "fault_sequences"], "all byte strings on both framings, all sets of slaves",
  "The only test with malformed requests (three strings) does not run on Python 3.",
  [M, R, T], [("Databank.handle_request", M), ("RtuQuery.parse_request", R), ("TcpQuery.parse_request", T)])

p("C12", "A broadcast write reaches every slave and is never answered",
  "A request sent to unit 0 is carried out by every slave of the server, each independently of whether another slave refuses it or fails on it, and never produces a reply, however malformed its PDU is. A broadcast read of coils, discrete inputs, holding or input registers is ignored.",
  ["inputs", "configurations", "fault_sequences"], "all request PDUs, all sets of slaves, any one of them refusing or failing",
  "The broadcast tests fail on the baseline for other reasons, and cover neither failing slaves nor malformed requests.",
  [M], [("Databank.handle_request", M), ("Slave.handle_request(broadcast=True)", M)])

p("C13", "A request is carried out only by the slave it is addressed to",
  "A request addressed to unit n (1 to 255) is handed, unaltered and once, to the slave registered under n and to no other, and the reply carries what that slave answered. If no such slave exists, nothing is changed and no reply is sent, whether or not missing slaves are configured to be reported as errors.",
  ["inputs", "configurations"], "all unit ids, all sets of slaves, all PDUs, both framings",
  "Tests address two fixed slaves.",
  [M], [("Databank.handle_request", M), ("Databank.get_slave", M)])

p("C14", "The set of slaves behaves as a map from unit id to slave",
  "After any sequence of additions and removals, a slave can be retrieved under an id exactly if the last operation on that id added it, and it is the very object that addition returned. Every addition makes a new slave, which holds no block except those of the memory it was given. Ids outside 1 to 255 are refused, adding an existing id is refused with a duplicate-key error and retrieving or removing an absent one with a missing-key error, each leaving the set unchanged; removing all empties it.",
  ["histories"], "every history of registry operations, every id",
  "Tests run ascending sequences of additions then removals only.",
  [M], [("Databank.add_slave / get_slave / remove_slave / remove_all_slaves", M), ("Server delegation", M)], [{"name": "_slaves", "meaning": "id to slave", "where": M}])

p("C15", "Blocks of one kind never overlap and the block registry is a map",
  "After any sequence of block additions and removals, the blocks of one kind cover pairwise disjoint address ranges, so every address of a kind is held by at most one block. An addition succeeds exactly if the size is positive, the start not negative, the kind valid, the name unused and the range free of blocks of that kind; otherwise it is refused with the corresponding error and changes nothing. Removing a block removes exactly that block, and an unknown name is refused with a missing-key error.",
  ["histories", "inputs"], "every history of additions and removals, every name, kind, start and size, in every order",
  "Tests add blocks in ascending address order only; the order in which blocks were added is what decides whether an overlap is seen.",
  [M], [("Slave.add_block", M), ("ModbusBlock.is_in", M), ("Slave.remove_block / remove_all_blocks", M)], [{"name": "_blocks, _memory", "meaning": "blocks by name and by kind", "where": M}])

p("C16", "Local reads and writes of block values are exact and bounds-checked",
  "Writing a number, a list or a tuple of values into a named block at an address makes exactly those items of that block hold exactly those values and leaves every other item of every block unchanged; reading n items (n at least 1) returns a tuple of the n values last written there, by either a local or a remote write, and 0 for items never written. An access that is not completely inside the named block is refused with an out-of-block error and an unknown name with a missing-key error, without changing anything.",
  ["histories", "inputs"], "every sequence of accesses, all addresses, lengths and values",
  "Tests write and read back a few fixed ranges.",
  [M], [("Slave.set_values / get_values", M), ("ModbusBlock.__getitem__ / __setitem__", M)])

p("C17", "The master encodes each request exactly as the protocol demands",
  "For every supported function and all arguments, the request PDU handed to the framing layer is the protocol's encoding of the function code, addresses, quantities, byte counts, packed coils, register words (negative values in two's complement), masks and file-record groups given by the caller. A call whose arguments cannot be encoded, or whose function is not supported, raises an error without sending anything.",
  ["inputs"], "all function codes, addresses, quantities, value lists and masks",
  "Tests send a few typical requests to a slave of the same library.",
  [M], [("Master.execute", M)])

p("C18", "The master returns data only from a valid matching response",
  "For every response PDU, a call returns the decoded values of exactly the items asked for (bits, words, or the echoed fields of a write, or the raw bytes if asked) when the response has the requested function code and a consistent length (for raw requests any response other than an exception reply), raises a Modbus error carrying the slave's exception code when the response is an exception reply, and raises an error otherwise. A byte count that disagrees with the data received always raises an invalid-response error.",
  ["inputs", "fault_sequences"], "all response byte strings for every supported function and quantity",
  "Tests see only responses of the library's own slave.",
  [M], [("Master.execute (response analysis)", M)])

p("C19", "Master and slave agree end to end, and on the response length",
  "For every supported function and all arguments the slave accepts, what a master call returns is what the slave's memory holds (reads) or the echo of what it stored (writes), and a read following a write returns the values written. The number of bytes an RTU master expects for a call is exactly the length of the frame the slave sends as its normal reply - for file records and diagnostics with data, which the slave of the library does not support, the length the protocol gives that reply - unless the caller gives the length to expect.",
  ["inputs", "configurations", "histories"], "all functions common to master and slave, all block layouts, contents and arguments",
  "The functional tests exercise some fixed calls over TCP, where the expected length is not used at all.",
  [M, R], [("Master.execute", M), ("Slave.handle_request", M), ("expected_length computation", M)])

p("C20", "The TCP server handles each request of a byte stream exactly once",
  "However a client's byte stream is split into segments, the TCP server takes exactly one request frame (six header bytes plus the announced length, which is at least 1) from the stream per step, handles exactly those bytes once, and sends the complete reply to the connection it came from before it takes the next. A request cut off by the end of its connection is not handled.",
  ["inputs", "schedules"], "all byte streams, all segmentations, all request lengths",
  "Tests send whole requests in one segment.",
  [T], [("TcpServer._do_run", T), ("TcpServer._get_request_length", T)])

p("C21", "A faulty connection affects neither the TCP server nor other clients",
  "If receiving from, sending to or accepting one connection fails in any way at any point, the TCP server closes and forgets at most that connection, keeps listening, and keeps serving the others. A connection the client closed is closed and forgotten; a new connection is added to the ones served; stopping closes all of them.",
  ["fault_sequences", "histories"], "an error at any socket operation of any connection, for any set of connections",
  "Tests never inject socket errors.",
  [T], [("TcpServer._do_run", T), ("TcpServer._do_exit", T)], [{"name": "_sockets", "meaning": "listening socket and connected clients", "where": T}])

p("C22", "Masters collect exactly one response and never hang on a closed link",
  "However the response bytes arrive, a TCP master returns exactly the first frame of the stream (six header bytes plus the announced length), and a serial or RTU-over-TCP master, given the expected length, returns exactly that many bytes, or for RTU over TCP the five bytes of an exception reply. If the peer closes the connection or falls silent earlier, receiving ends with the bytes received so far or an error, and never loops for ever.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, all segmentations, the end of the stream at every position",
  "Tests use a local server that answers completely and at once; no serial or RTU-over-TCP receive test runs.",
  [T, R, O], [("TcpMaster._recv", T), ("RtuMaster._recv", R), ("RtuOverTcpMaster._recv", O)])

p("C23", "A request is sent whole, on a link cleared of stale bytes",
  "Before each request a master discards whatever is still waiting to be read on the link, or reconnects when the TCP connection was lost, so that a late answer to an earlier request cannot be taken for the answer to this one. It then transmits the complete request frame, byte for byte, also when the operating system accepts only part of it at once, and a serial master that expects a local echo discards exactly that echo (which has arrived when the port has flushed its output).",
  ["inputs", "schedules", "fault_sequences"], "all frames, any amount of stale data, any split of partial sends, a connection lost at any point",
  "Tests run on a clean loopback link that takes every frame at once.",
  [T, R, U], [("TcpMaster._send", T), ("flush_socket", U), ("RtuMaster._send", R)])

p("C24", "The RTU server answers each received frame once, with the right bytes",
  "Whatever bytes arrive in one burst, in whatever pieces, the RTU server treats the whole burst as one request, sends the reply of the addressed slave exactly once, and sends nothing for a damaged frame, another unit, a broadcast, or when a new request is already arriving. A read error or a failure while handling a request leaves the server running with its read timeout restored.",
  ["inputs", "schedules", "fault_sequences"], "all bursts and their segmentations, errors at any serial operation",
  "No RTU server test can run without two cabled serial ports.",
  [R], [("RtuServer._do_run", R)])

p("C25", "Hooks are called in order until one returns a value",
  "Calling a hook point calls the installed functions in installation order with the given arguments, stops at the first one that returns something other than nothing and returns that value, and otherwise returns nothing; an error raised by a hook function reaches the caller. Installing adds a function at the end of its own hook point only; uninstalling removes that function (the earliest of its installations), or all functions, of that hook point only.",
  ["histories", "inputs"], "every history of installations and removals, all return values",
  "One test counts the calls of a single hook.",
  [H], [("install_hook / uninstall_hook / call_hooks", H)], [{"name": "_HOOKS", "meaning": "functions by hook name", "where": H}])

p("C26", "A hook that returns modified data replaces exactly that data",
  "At each documented hook point that may return modified data (master request before sending and response after receiving, RTU and TCP requests and responses, server request and response, slave request) the returned value is what is processed, sent or returned from there on (for the slave: the hook around its handling of a whole request); a hook returning nothing changes nothing.",
  ["inputs", "configurations"], "every such hook point, all data passed and all values returned",
  "No test installs a hook that modifies data.",
  [M, R, T, O, H], [("call_hooks and its call sites", M)])

p("C27", "Requests and local accesses to one slave are atomic",
  "Every remote request, local read or write and block addition or removal on a slave performs all its accesses to that slave's block registry and values inside one uninterrupted critical section of one lock that belongs to the slave, and releases it whatever happens. So no concurrent access ever observes or produces a partly applied write.",
  ["schedules"], "every interleaving of operations of any threads on one slave, every outcome of each operation",
  "Tests run two threads with sleeps; a missing or too narrow critical section shows only in rare interleavings.",
  [M], [("Slave._data_lock", M), ("Slave.handle_request / set_values / get_values / add_block / remove_block / remove_all_blocks", M)])

p("C28", "Master calls are serialised and always release the lock",
  "From the moment a master call sends its request until it has received the response, one lock is held, so that requests and responses of concurrent calls on one master never interleave. The lock is released on every exit, normal or exceptional, and the wrapper that serialises calls passes arguments, result and exceptions through unchanged; a caller may opt out per call.",
  ["schedules", "fault_sequences"], "every interleaving of calls, an error at any point of a call",
  "The multi-thread test is commented out; errors during a call are not injected.",
  [M, U], [("threadsafe_function", U), ("Master.execute", M)])

p("C29", "Master connections are opened once, on demand, and closed once",
  "A call on a closed master opens the link first; opening an open master does nothing; closing closes the link exactly once, and a later call opens it again. If opening fails the master stays closed and the error reaches the caller, and changing the timeout takes effect on the open link at once and on every link opened later.",
  ["histories", "fault_sequences"], "every sequence of open, close, timeout changes and calls, with opening failing at any point",
  "Tests open and close once each.",
  [M, T, R], [("Master.open / close / execute", M), ("TcpMaster._do_open / _do_close / set_timeout", T), ("RtuMaster._do_open / _do_close / set_timeout", R)], [{"name": "_is_opened", "meaning": "link is open", "where": M}])

p("C30", "RTU timing follows the Modbus serial specification",
  "For every baud rate the character time is eleven bits up to 19200 baud and a fixed 0.5 ms above, an RTU master and server set the port's inter-byte timeout to 1.5 and its read timeout to 3.5 character times unless other multipliers are given, and a master uses a character time given explicitly instead.",
  ["inputs", "configurations"], "all positive baud rates and multipliers",
  "Tests check a table of standard rates for the first function only; no RTU master or server is constructed.",
  [R, U], [("calculate_rtu_inter_char", U), ("RtuMaster.__init__", R), ("RtuServer.__init__", R)])

p("C31", "Every simulator command is executed and answered exactly once",
  "For every command line of up to 1024 bytes, from the console or over RPC (received in one piece), the simulator performs the named operation with the given numbers on the addressed slave and block and gives exactly one answer: the command followed by done and its result, or by error and the reason; unknown commands are answered with an error. No command other than quit (any line that starts with it) ends the command loop, and the RPC client returns exactly the result part of a done answer and raises on any other.",
  ["inputs", "histories"], "all command lines with all numbers, all outcomes of the operations",
  "No test covers the simulator.",
  [S, SC], [("Simulator._handle and _do_* commands", S), ("RpcHandler.handle", S), ("SimulatorRpcClient", SC)])

p("C32", "The pymodbus-style client returns what the master returned",
  "Every read of the drop-in client issues exactly one request of the corresponding function for unit 1 with the given address and quantity and returns the values of the response as a sequence, and every write issues exactly one request with the given address and value, and none when no request can carry the value. The client connects to the host and port, with the timeout, given when it was made, and reports whether it is open.",
  ["inputs"], "all addresses, quantities and values",
  "No test covers this client.",
  ["modbus_tk/pymodbusclient.py"], [("PyModbusClientTCP", "modbus_tk/pymodbusclient.py")])

p("C33", "A server runs from start to stop and can be started again",
  "Once started, a server runs its initialisation, then its serving step again and again until it is stopped, then its clean-up; stop returns only after the step in progress and the clean-up have finished, no step begins after it, and stopping a server that is not running does nothing. An error that escapes from any of the three ends the run and is handed once, with the server, to the hook modbus.Server.on_exception. However a run ended, the server can be started again. A serial server opens its port when it starts if necessary, is woken by stop while it waits for a request, and closes the port when it stops. A worker thread runs its init function, its main function until it is stopped or fails, and its exit function once in every case. A composite server starts, stops and configures each of its servers, which share its databank.",
  ["schedules", "histories", "fault_sequences"], "every number of steps, stops and errors at every point, start and stop racing with the end of a run",
  "Tests start and stop one TCP server and never make a run fail or race with stop.",
  [M, R, U, S], [("Server.start / stop / _run_server / _make_thread", M), ("RtuServer.start / stop / _do_init / _do_exit", R), ("WorkerThread", U), ("CompositeServer", S)], [{"name": "_go", "meaning": "the run goes on", "where": M}])

p("C34", "Documented event hooks are called exactly when their event happens",
  "Each request a slave handles calls the hook modbus.Slave.handle_request once and then the hook of its function once (none for an unsupported function or an ignored broadcast read), both with the slave and the request PDU, before anything changes; a request answered with an exception code calls on_exception once with slave, function code and error, a broadcast carried out calls on_handle_broadcast once, and every assignment to a block is reported with the block, the item and the value. Opening, closing, connecting, disconnecting, replying, and an error that a server or databank survives call their documented hooks exactly once, in the documented order around the event and with the documented arguments; without the event they are not called.",
  ["inputs", "fault_sequences"], "every request PDU, memory and outcome; every link event",
  "Tests install a handful of hooks and never check order, arguments or that a hook stays silent.",
  [H, M, T, R], [("Slave.handle_request and handlers", M), ("ModbusBlock.__setitem__", M), ("TcpMaster._do_open / _do_close, TcpServer._do_run", T), ("RtuMaster._do_open / _do_close, RtuServer._do_run", R), ("Databank.handle_request", M)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
