"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None,
        ),
    )
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Escaping on the wire is transparent and leaves one end character",
     "For every frame content, the escaped form contains the end character 0x0D only as its last byte and no 0x8D at all, consists only of literal bytes and the three documented two-byte escapes, and un-escaping it returns the original bytes exactly. Un-escaping bytes that contain no escape character returns them unchanged.",
     ["inputs"], "every byte string ending in the end character, any mix and order of the three reserved characters and of bytes that look like escape sequences",
     "tests escape two sample frames and one three-byte string; adjacent reserved bytes and bytes that look like escape sequences are not reached",
     ["elgas/utils.py"], [("escape_characters / return_characters", "elgas/utils.py")], ["elgas.utils.escape_characters", "elgas.utils.return_characters", "ElgasConnection.send"])

prop("C02", "Every frame a peer can build is encoded and decoded without loss",
     "For every service, every pair of destination and source addresses in range and every payload, encoding a plain or encrypted request or response frame and decoding the bytes gives back the same service, addresses and payload, and the bytes follow the documented layout: STX, 0xFE, the frame type, service, length (every byte but STX), destination and source address (two bytes little-endian plus one byte each), payload, LRC, checksum, DRC, 0x0D. A response is decoded as the plain or encrypted kind its type byte says.",
     ["inputs"], "all services x all addresses (0..65535, 0..255) x all payload bytes",
     "tests decode a few captured frames, never encode-then-decode, and use address values whose byte order cannot be seen",
     ["elgas/frames.py"], [("Request/Response.to_bytes and from_bytes", "elgas/frames.py"), ("ResponseFactory.from_bytes", "elgas/frames.py")], ["elgas.frames"])

prop("C03", "A damaged, truncated or malformed frame is never accepted",
     "The frame decoders accept a byte string only if re-encoding the result gives exactly that byte string, and reject everything else with ValueError. In particular every valid frame with one byte changed, removed or added is rejected.",
     ["inputs", "fault_sequences"], "all byte strings up to the bound; all single-byte substitutions, deletions and insertions in any valid frame",
     "there is one test with one good frame and none with a damaged one",
     ["elgas/frames.py", "elgas/utils.py"], [("length, LRC, checksum and DRC checks", "elgas/frames.py")], ["elgas.frames.*.from_bytes"])

prop("C04", "Redundancy codes equal their protocol definitions",
     "For every byte string, LRC is the XOR of its bytes, checksum the sum modulo 256, DRC the rotate-left-by-one-and-XOR fold, and CRC the byte-swapped Modbus CRC-16 (polynomial 0xA001, initial 0xFFFF); each result is within its width.",
     ["inputs"], "all byte strings up to the bound, values and lengths",
     "tests compare two or three sample strings",
     ["elgas/utils.py"], [("calculate_lrc, calculate_checksum, calculate_drc, calculate_crc, crc16_table", "elgas/utils.py")], ["elgas.utils.calculate_*"])

prop("C05", "Encrypted payloads decrypt to exactly what was encrypted",
     "For every payload, key and key id and whatever padding is drawn, decrypting the encrypted form with the same key and key id returns the payload unchanged. The encrypted form is the payload length (little-endian), the key id, and the AES-CBC encryption, under the key as both key and IV, of payload, padding and CRC (over length, key id, payload and padding), with the least padding that makes it a whole number of 16-byte blocks.",
     ["inputs"], "all payload bytes and lengths up to the bound, all key ids, all padding draws; AES as an arbitrary invertible function",
     "the tests never call the package's encrypt or decrypt",
     ["elgas/security.py", "elgas/utils.py"], [("CipherContext.encrypt/decrypt, data_padding", "elgas/security.py")], ["elgas.security.CipherContext"])

prop("C06", "Tampered or mis-keyed encrypted payloads are refused",
     "Decryption returns data only if the CRC stored in the decrypted content matches length, key id, data and padding and the key id in the header is the context's own; otherwise it raises. In particular, altering the header of a genuine encrypted payload by one byte, or one byte of what decryption yields, is always refused.",
     ["inputs", "fault_sequences"], "all headers and all decrypted contents up to the bound",
     "the tests never call the package's decrypt",
     ["elgas/security.py"], [("CRC and key-id comparison in CipherContext.decrypt", "elgas/security.py")], ["elgas.security.CipherContext.decrypt"])

prop("C07", "With a key configured, requests only leave the connection encrypted",
     "When an encryption key and key id are configured, every request the connection sends is an encrypted frame whose payload is the header (payload length, key id) followed by the ciphertext of the request, under the configured key; with no key configured it is a plain frame carrying the request bytes. Service and the configured addresses are the same in both cases; the named key ids are the documented ones (1 factory to 7 user 3).",
     ["inputs", "configurations"], "all request kinds and field values, keys, key ids and addresses",
     "the tests never load the connection",
     ["elgas/connection.py", "elgas/security.py"], [("create_cipher_context, ElgasConnection.send", "elgas/connection.py")], ["bytes returned by ElgasConnection.send"])

prop("C08", "One request at a time: only its own response completes it",
     "A connection accepts a request only when none is outstanding, and while one is outstanding the only event it delivers is that request's own kind of response, after which it is ready again. A refused or failed send raises, emits nothing and changes nothing; a response that answers a different request is refused and does not complete the outstanding one. Refusals because of the outstanding request are LocalElgasProtocolError.",
     ["histories", "inputs"], "all sequences of request kinds and response kinds up to the bound, with arbitrary field values (also ones that cannot be encoded)",
     "the tests never load the connection or the state machine",
     ["elgas/connection.py", "elgas/state.py"], [("ELGAS_STATE_TRANSITIONS, ElgasState.process_event", "elgas/state.py"), ("ElgasConnection.send/next_event", "elgas/connection.py")], ["ElgasConnection.send", "ElgasConnection.next_event"],
     [("current_state", "which request is outstanding", "elgas/state.py")])

prop("C09", "A response is delivered the same however its bytes arrive",
     "However the wire bytes of one response are split into pieces, the connection reports that it needs more data until the last byte has arrived and then delivers exactly the event it would deliver had the bytes arrived at once, exactly once. A lone end character received while nothing is buffered is ignored.",
     ["schedules", "inputs"], "all splits of the escaped response into pieces (bounded number of pieces, plus byte by byte), all payload contents including escaped bytes, plain and encrypted",
     "the tests never load the connection",
     ["elgas/connection.py"], [("receive_data, next_event", "elgas/connection.py")], ["ElgasConnection.receive_data", "ElgasConnection.next_event"],
     [("buffer", "bytes received and not yet delivered", "elgas/connection.py")])

prop("C10", "Every device error is raised as its documented exception",
     "A one-byte response with any error bit set always raises the exception of its lowest set error bit (bit 0 wrong password, 1 setting archive full, 2 switch off, 3 blocked buffer, 4 data error, 5 cipher key, 6 wrong encryption keys, 7 write error), plain or encrypted and whatever was requested, and is never delivered as a result. The exchange is then over: the same connection can send the next request and receive its response.",
     ["inputs", "histories"], "all 255 error bytes x all request kinds x plain/encrypted, followed by any further exchange",
     "the tests never load the connection; combined error bits and what follows an error are unexplored",
     ["elgas/connection.py", "elgas/exceptions.py"], [("raise_error, ElgasConnection.next_event", "elgas/connection.py")], ["ElgasConnection.next_event"])

prop("C11", "Line noise and corrupt frames do not block the response that follows",
     "Bytes that do not form a valid response frame (nor an encrypted one whose content matches its CRC), ended by an end character, received before a valid response never raise, are never delivered as an event, and do not prevent the connection from delivering that response, whether it was already received or arrives later.",
     ["fault_sequences", "histories", "inputs"], "all noise strings up to the bound and all single-byte corruptions of a response, one or more in a row, before any valid response",
     "the tests never load the connection",
     ["elgas/connection.py"], [("handling of undecodable data in next_event", "elgas/connection.py")], ["ElgasConnection.next_event"],
     [("buffer", "bytes received and not yet delivered", "elgas/connection.py")])

prop("C12", "Device timestamps convert without loss and invalid ones are refused",
     "Every timestamp of the years 2000 to 2099 (whole seconds) is encoded as six BCD bytes (second, minute, hour, day, month, year) and decodes back to itself; a timestamp outside those years is refused. Decoding returns the two hour-byte flags (0x80 daylight saving, 0x40 daylight saving supported) separately from the time, and rejects with ValueError anything that is not six bytes of valid BCD forming a real date and time.",
     ["inputs"], "all datetimes and all 6-byte strings (and other lengths up to the bound)",
     "tests decode two samples and encode one",
     ["elgas/utils.py"], [("bytes_to_datetime, datetime_to_bytes, to_bdc, from_bcd", "elgas/utils.py")], ["elgas.utils.bytes_to_datetime", "elgas.utils.datetime_to_bytes"])

prop("C13", "Every request payload carries its fields at the documented place",
     "Each request payload is exactly its documented fields in order: for all but the time read a 10-byte password field (the password followed by four filler bytes), then archive, record id (4 bytes), amount (2 bytes), oldest timestamp (6 bytes), object count and buffer length (2 bytes each), or device time and flags (time sync bit 0x04, plus cry-out bit 0x01 when asked for), little-endian, under the documented service number, each named archive by its documented number. A field value that does not fit is refused with an exception, never truncated or wrapped.",
     ["inputs"], "all passwords of up to the permitted 6 Latin-1 characters, archives, record ids, amounts, timestamps and flags, in and out of range; all filler draws",
     "only the write-time request is encoded in a test, and its result is not compared",
     ["elgas/application.py", "elgas/utils.py"], [("to_bytes of the request classes, pad_password", "elgas/application.py, elgas/utils.py")], ["elgas.application.*Request.to_bytes"])

prop("C14", "Every response payload is decoded field by field without loss",
     "Decoding a response payload returns each documented field from its place: time responses the time, its flags, data access byte and extra data; archive responses the archive, the full four-byte record id and all record bytes; parameter responses object number, amount, end flag and data; instantaneous values the time and flags, data, data access, two 8-byte status fields and parameter CRC. A payload too short for its fixed fields, or with an unknown archive, raises an exception.",
     ["inputs"], "all payload bytes and lengths up to the bound for all six response kinds",
     "tests decode one or two captured payloads per kind, with record ids of 1 and results that are printed rather than compared",
     ["elgas/application.py"], [("from_bytes of the response classes", "elgas/application.py")], ["elgas.application.*Response.from_bytes"])

prop("C15", "A device's call-in message is decoded field by field",
     "For every well-formed version-2 call-in payload, each decoded field (identifiers, station id, BCD SIM and modem ids, protocol, addresses, signal, counters, times as seconds since 2000-01-01, serial number, IP address, modem error, battery, firmware) equals the value at its documented offset; a truncated payload, an invalid BCD identifier or an unknown protocol raises an exception.",
     ["inputs"], "all 141-byte payloads (text fields of printable characters) and all truncations",
     "one captured message is decoded",
     ["elgas/application.py", "elgas/utils.py"], [("CallRequest.from_bytes", "elgas/application.py")], ["elgas.application.CallRequest.from_bytes"])

prop("C16", "Every device parameter object is decoded from its documented layout",
     "For every parameter object type, each attribute of the decoded object equals the little-endian integer, IEEE float, text, flag bit or hex string at its documented offset in the object's bytes, for every content of those bytes, with the optional trailing fields (decimals; action and log texts) present or absent and reported as None when absent. Data too short for the fixed fields raises an exception.",
     ["inputs"], "all contents of every object type in both lengths, all truncations",
     "tests decode one captured object for some types and print the result; several types are never decoded",
     ["elgas/parameters/"], [("from_bytes of the parameter classes", "elgas/parameters/*.py")], ["elgas.parameters.factory.ParameterFactory.from_bytes"])

prop("C17", "A parameter list is parsed object by object, in order and completely",
     "Parsing a concatenation of length-prefixed parameter objects returns one decoded object per entry, in order, each of the class of its type number and equal to decoding that entry alone; every type number the library knows is parsed. Data that is empty, ends inside an entry or has an unknown type number raises an exception instead of returning a partial or altered list.",
     ["inputs"], "all sequences of known types with arbitrary contents up to the bound; all truncation points; all type numbers",
     "tests parse captured lists that hold only some of the types and no truncated one",
     ["elgas/parser.py", "elgas/parameters/factory.py", "elgas/parameters/enumerations.py"], [("ScadaParameterParser.parse", "elgas/parser.py"), ("ParameterFactory.object_map", "elgas/parameters/factory.py")], ["elgas.parser.ScadaParameterParser.parse"])

prop("C18", "Stored parameter objects load back exactly as they were",
     "For every parameter object type, dumping an object through the schema registered for its type number yields every attribute as a plain JSON value (number, boolean, text, null, list or mapping), and loading the dump returns an object of the same class equal to the original. A dump that lacks any attribute is refused. Stored together as a configuration, with their type numbers, objects come back unchanged as well.",
     ["inputs"], "all values of all attributes (integers in their wire width, finite floats, texts, optional fields present or None) of every type",
     "tests dump a set of sample objects and load back one type",
     ["elgas/parameters/", "elgas/parameters/factory.py", "elgas/integration.py"], [("marshmallow schemas and ParameterSchemaFactory.object_map", "elgas/parameters/factory.py")], ["ParameterSchemaFactory.by_parameter_id(t)().dump / .load"])

prop("C19", "Paged parameter reads return the whole list for any paging",
     "However the device splits its parameter objects over successive responses, the client asks for each next page from exactly the first object not yet received, stops after the page marked last, and returns the same list as parsing all the objects at once.",
     ["schedules", "inputs"], "all page counts up to the bound, all object counts per page and object contents, any starting object, plain and encrypted",
     "the tests never load the client",
     ["elgas/client.py", "elgas/connection.py", "elgas/parser.py"], [("ElgasClient.read_parameters", "elgas/client.py")], ["ElgasClient.read_parameters", "bytes given to the transport"])

prop("C20", "Client operations send one right request and return the device's answer",
     "Each client read or write of time, archive (by id or by date) or instantaneous values sends exactly one frame, of the documented service and carrying exactly the caller's arguments, and returns what the device's response to it carried; a device error or a failed transport surfaces as an exception from that call. What was read together with one operation's answer is never taken for the answer of the next.",
     ["inputs", "fault_sequences"], "all arguments and all response contents up to the bound, responses delivered in one or several reads",
     "the tests never load the client",
     ["elgas/client.py", "elgas/connection.py"], [("ElgasClient operations", "elgas/client.py")], ["ElgasClient"])

prop("C21", "Receiving returns one frame's bytes and never hangs or invents data",
     "On both transports a receive returns exactly the incoming bytes up to and including the first end character, in order, taking nothing beyond it, or the bytes so far if the overall timeout has passed. If the peer closes the connection, a read times out or the operating system reports an error before that, it raises CommunicationError; it never loops without end.",
     ["schedules", "fault_sequences", "inputs"], "all byte streams, all points at which the stream ends, stalls or fails, and all clock readings up to the bound",
     "the tests never load the transports",
     ["elgas/transport.py"], [("recv, recv_until, _recv_bytes, Timeout", "elgas/transport.py")], ["BlockingTcpTransport.recv", "SerialTransport.recv"])

prop("C22", "Transport life cycle survives every failure of the operating system",
     "On both transports, any operating-system failure while connecting, sending or disconnecting surfaces as CommunicationError; sending or receiving while not connected and connecting while connected raise RuntimeError without touching the link. Disconnecting closes the link and always leaves the transport disconnected, able to connect again, even when shutting down fails; disconnecting while disconnected does nothing, and all bytes given to a successful send reach the link in order.",
     ["histories", "fault_sequences"], "all sequences of connect, send, receive and disconnect up to the bound, each operating-system call succeeding or failing",
     "the tests never load the transports",
     ["elgas/transport.py"], [("connect, disconnect, send", "elgas/transport.py")], ["BlockingTcpTransport", "SerialTransport"],
     [("tcp_socket / serial_port", "the open link or None", "elgas/transport.py")])

prop("C23", "Fixed-width device text is decoded by one total rule",
     "For every content of a text field, decoding never fails and yields the Latin-1 text before the last terminator (all of it if there is none), with inner terminators shown as spaces and surrounding ASCII whitespace removed. A 4-byte IP address is decoded to dotted decimal in wire order and any other length is rejected; a BCD number is decoded to its decimal value and rejected with ValueError if a digit is not decimal.",
     ["inputs"], "all byte strings up to the bound",
     "one sample string is decoded",
     ["elgas/utils.py"], [("pretty_text, parse_ip_address, from_bcd, to_bdc", "elgas/utils.py")], ["elgas.utils"])

prop("C24", "Printing a client never reveals its password or encryption key",
     "The printed representation of a client, of its connection and of any request it makes is the same whatever password and encryption key it was given, so neither can be learned from it; the secrets themselves still reach the wire and the cipher unchanged.",
     ["inputs"], "all passwords and keys, every request kind",
     "no test prints a client or checks for secrets",
     ["elgas/utils.py", "elgas/client.py", "elgas/security.py"], [("SecretStr, SecretByte and the converters on ElgasClient", "elgas/utils.py, elgas/client.py")], ["repr(ElgasClient)", "repr(request)"])

prop("C25", "Only addresses and passwords the protocol can carry are accepted",
     "A connection can be configured exactly when both 2-byte addresses are in 0..65535, both 1-byte addresses in 0..255, the password id in 801..849 and the password has at most 6 characters; any other value is refused with ValueError when it is configured, and every accepted address configuration can be sent.",
     ["configurations", "inputs"], "all integer values of the four addresses and the password id, all password lengths up to the bound",
     "the tests never load the connection",
     ["elgas/connection.py"], [("attribute validators of ElgasConnection", "elgas/connection.py")], ["ElgasConnection()"])

prop("C26", "Clients, connections and decoded objects are independent of each other",
     "Two clients, connections or cipher contexts used at the same time, with their steps interleaved in any order, each behave exactly as if used alone (requests sent with their own addresses, password and key; responses and errors delivered to their own user). Decoding, parsing, dumping or loading the same data always gives the same result whatever was handled before, and nothing done later, to the library or to results returned later, changes an object already returned.",
     ["schedules", "histories", "inputs"], "all interleavings of two exchanges up to the stated bounds, all contents of the responses and objects involved",
     "the tests use one object at a time, once",
     ["elgas/connection.py", "elgas/client.py", "elgas/parser.py", "elgas/parameters.py", "elgas/application.py", "elgas/security.py"],
     [("ElgasConnection state", "elgas/connection.py"), ("ElgasClient", "elgas/client.py"), ("ScadaParameterParser.parse", "elgas/parser.py")],
     ["ElgasClient", "ElgasConnection", "ScadaParameterParser.parse", "ParameterFactory"])

prop("C27", "A client that connects again starts afresh",
     "After an operation that failed in any way (device error, refused response, timeout, broken link, partial, foreign or damaged response, noise), connecting the client again, with or without disconnecting first, leaves it as a new client: nothing received before is taken for an answer, and the next operation sends its request and returns its own answer.",
     ["histories", "fault schedules", "inputs"], "all operations, all failure kinds at every link call, all contents of the partial and late data within the bounds",
     "the tests never reconnect",
     ["elgas/client.py", "elgas/connection.py"], [("ElgasClient.connect", "elgas/client.py"), ("ElgasConnection.reset", "elgas/connection.py")],
     ["ElgasClient.connect", "ElgasClient.disconnect"])

prop("C28", "Operations neither alter nor keep hold of what they are given",
     "No encoding, decoding, escaping, sending, receiving, parsing, ciphering, dumping or loading operation alters the buffers, requests, objects or mappings given to it, and what the caller does with a buffer afterwards does not change what was already accepted, decoded or returned; the same bytes give the same result whether handed over as bytes or as bytearray.",
     ["inputs", "histories"], "all contents of the buffers within the length bounds, all operations that take a buffer, request, object or mapping",
     "the tests hand over constants and never look at or reuse them",
     ["elgas/utils.py", "elgas/frames.py", "elgas/application.py", "elgas/parameters.py", "elgas/parser.py", "elgas/security.py", "elgas/connection.py"],
     [("return_characters", "elgas/utils.py"), ("from_bytes of frames, responses and parameters", "elgas/frames.py"), ("receive_data", "elgas/connection.py")],
     ["escape_characters", "return_characters", "from_bytes", "ScadaParameterParser.parse", "CipherContext", "ElgasConnection.receive_data"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
