#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Basic values are encoded exactly as the D-Bus wire format prescribes",
  "Appending any value of any basic type (byte, boolean, 16/32/64-bit integers, double, string, object path, signature) to an outgoing message at any position adds exactly the zero padding up to the type's natural alignment, followed by the value's D-Bus encoding: fixed-size values as their bytes in host order, booleans as a 32-bit 0 or 1, strings and object paths as 32-bit length, the bytes and a NUL, signatures as an 8-bit length, the bytes and a NUL. Nothing already in the message changes.",
  ["inputs"], "all values of every basic type, all start positions modulo 8, all string contents (bounded length)",
  "the tests write a handful of literals at one or two positions; the guarantee is over 2^16..2^64 values times 8 alignments times arbitrary text",
  ["dbus_messageostream.h", "dbus_utils.cpp", "dbus_type_byte.cpp", "dbus_type_boolean.cpp", "dbus_type_int16.cpp", "dbus_type_uint16.cpp", "dbus_type_int32.cpp", "dbus_type_uint32.cpp", "dbus_type_int64.cpp", "dbus_type_uint64.cpp", "dbus_type_double.cpp", "dbus_type_string.cpp", "dbus_type_objectpath.cpp", "dbus_type_signature.cpp", "dbus_type.cpp"],
  [("MessageOStream::write* / pad", "src/dbus_messageostream.h"), ("Utils::getPadding", "src/dbus_utils.cpp"), ("Type::marshallData dispatch", "src/dbus_type.cpp")],
  observe=["bytes of the outgoing stream"])
p("C02", "Basic values decode to the sent value in either byte order at any offset",
  "Decoding a basic-typed value from a message that is in either byte order and starts at any offset skips the type's alignment padding, yields exactly the value that the bytes denote in the message's byte order, and leaves the read position immediately after the value. When the message ends before the value is complete, decoding fails with an exception instead of yielding a value.",
  ["inputs"], "all byte contents, both byte orders, all offsets modulo 8, all truncation points, every basic type",
  "the tests decode a few literals, mostly from offset 0; doubles are never decoded from an unaligned offset",
  ["dbus_messageistream.cpp", "dbus_messageistream.h", "dbus_octetbuffer.cpp", "dbus_type.cpp", "dbus_type_double.cpp", "dbus_type_string.cpp", "dbus_type_signature.cpp", "dbus_type_byte.cpp", "dbus_type_boolean.cpp"],
  [("MessageIStream::read/align/swap", "src/dbus_messageistream.*"), ("Type::unmarshallData dispatch", "src/dbus_type.cpp")],
  state=[("m_offset", "position relative to the start of the message", "MessageIStream"), ("m_swapByteOrder", "byte order differs from the host", "MessageIStream")],
  observe=["decoded values", "exceptions"])
p("C03", "Containers are encoded exactly as the D-Bus wire format prescribes",
  "Encoding an array, struct, dictionary entry or variant at any position produces the D-Bus container layout: arrays carry the 32-bit byte length of their elements, not counting the padding between the length and the first element, which is aligned to the element type; structs and dictionary entries start on an 8-byte boundary with their fields in order; variants are their content's signature followed by the content, with no padding of their own. The signature reported for a value always describes the bytes that encoding it produces.",
  ["inputs"], "all element values and bounded counts, all start positions modulo 8, nested shapes up to the stated depth",
  "the tests only check that the library reads back what it wrote, which a consistent error on both sides passes; real peers follow the specification",
  ["dbus_type_array.cpp", "dbus_type_struct.cpp", "dbus_type_dictentry.cpp", "dbus_type_variant.cpp", "dbus_type.cpp", "dbus_messageostream.h"],
  [("Array::marshall", "src/dbus_type_array.cpp"), ("Struct::marshall", "src/dbus_type_struct.cpp"), ("DictEntry::marshall", "src/dbus_type_dictentry.cpp"), ("Variant::marshall", "src/dbus_type_variant.cpp"), ("Type::getAlignment / getMarshallingSignature", "src/dbus_type.cpp")],
  observe=["bytes of the outgoing stream", "reported signature"])
p("C04", "Any value survives encode and decode, and re-encodes to the same bytes",
  "For every value, basic or nested container, decoding its encoding under its own signature gives an equal value with an equal signature and the same number of elements, at every offset and in order; encoding the decoded value again at the same offset gives byte-for-byte the same message. This includes empty arrays, arrays of arrays, variants holding containers, and strings of any content and length.",
  ["inputs"], "all field values, element counts within the stated bounds, a family of nested signatures, both byte orders for the decode",
  "tests round-trip fixed literals for a few shapes at offset 0",
  ["dbus_type.cpp", "dbus_type_array.cpp", "dbus_type_struct.cpp", "dbus_type_dictentry.cpp", "dbus_type_variant.cpp", "dbus_messageistream.cpp", "dbus_messageostream.h"],
  [("unmarshall/marshall pairs", "src/dbus_type_*.cpp"), ("Type::create by signature", "src/dbus_type.cpp")],
  observe=["decoded value text and signature", "re-encoded bytes"])
p("C05", "Decoding arbitrary bytes under any signature is memory-safe and terminates",
  "Decoding an arbitrary byte sequence under an arbitrary signature, well-formed or not, either produces a value or fails with a standard exception. It never reads outside the supplied bytes, never loops or recurses without consuming input, never allocates beyond a fixed multiple of the input, and a value that was produced can always be printed and re-encoded without fault.",
  ["inputs"], "all body bytes and all signature bytes up to the stated lengths, both byte orders",
  "robustness against arbitrary input is over 256^n inputs; the tests truncate one message at four points",
  ["dbus_type.cpp", "dbus_type_array.cpp", "dbus_type_struct.cpp", "dbus_type_dictentry.cpp", "dbus_type_variant.cpp", "dbus_type_string.cpp", "dbus_type_signature.cpp", "dbus_messageistream.cpp", "dbus_octetbuffer.cpp", "dbus_validation.cpp"],
  [("OctetBuffer bounds checks", "src/dbus_octetbuffer.cpp"), ("Array sub-stream", "src/dbus_type_array.cpp"), ("extractSignature", "src/dbus_type.cpp"), ("Type::create", "src/dbus_type.cpp")],
  observe=["memory accesses", "termination", "exceptions"])
p("C06", "Received messages are delivered exactly once, in order, however they are chunked",
  "However the byte stream of a sequence of valid messages is cut into reads, each message is handed to the handler for its kind exactly once, in stream order, with its own header fields and parameters, and as soon as its last byte has arrived. No message is delivered early, merged with another, duplicated or lost, whatever mix of kinds, byte orders, and empty or non-empty bodies the stream has.",
  ["inputs", "histories"], "all cut positions of the stream, message sequences up to the stated length, symbolic field contents",
  "tests feed one message whole, one message byte by byte and one pair; the number of ways to cut a stream is exponential in its length",
  ["dbus_messageprotocol.cpp", "dbus_messageprotocol.h", "dbus_octetbuffer.cpp", "dbus_message.cpp"],
  [("three-state parser with octet cache", "src/dbus_messageprotocol.cpp")],
  state=[("m_State/m_headerSize/m_bodySize", "progress in the current message", "MessageProtocol"), ("m_octetCache", "bytes not consumed yet", "MessageProtocol")],
  observe=["handler invocations"])
p("C07", "A hostile byte stream cannot crash the receiver or be accepted oversize",
  "Feeding arbitrary bytes in arbitrary chunks to the message receiver never causes an out-of-bounds access, unbounded loop or recursion, or an exception that is not a standard exception; the receiver consumes all the input it is given. A message announcing more than 64 MiB of header fields or more than 128 MiB in total is refused with an exception, and messages up to those sizes are not refused for their size.",
  ["inputs", "histories"], "all header bytes, all announced 32-bit sizes in both byte orders, arbitrary bodies up to the stated length, all cut points",
  "the tests try one oversize value for each of the two limits",
  ["dbus_messageprotocol.cpp", "dbus_message.cpp", "dbus_message_error.cpp", "dbus_message_methodcall.cpp", "dbus_message_methodreturn.cpp", "dbus_message_signal.cpp", "dbus_type.cpp"],
  [("MAX_ARRAY_SIZE / MAX_MESSAGE_SIZE checks", "src/dbus_messageprotocol.cpp"), ("catch in onBodyComplete", "src/dbus_messageprotocol.cpp")],
  observe=["exceptions", "memory accesses", "handler invocations"])
p("C08", "A bad message or throwing handler does not disturb its neighbours",
  "A correctly framed message that cannot be decoded, has an unknown kind, or whose handler throws a standard exception, is dropped by itself: no handler sees a partially decoded message, no exception reaches the reader for it, and every message before and after it in the stream is delivered exactly once with its own contents.",
  ["inputs", "histories", "fault_sequences"], "all undecodable bodies and kinds in the bounds, every position of the bad message in the sequence, throwing or not",
  "one test has one null handler; which message is bad and how is an unbounded choice",
  ["dbus_messageprotocol.cpp", "dbus_message.cpp", "dbus_native.cpp"],
  [("try/catch then startMessage in onBodyComplete", "src/dbus_messageprotocol.cpp")],
  observe=["handler invocations", "exceptions"])
p("C09", "After a protocol error the receiver starts afresh",
  "When the message receiver is reset, which is how the connection recovers from a stream error, it behaves exactly like a new receiver: nothing received before the reset influences what is delivered afterwards, no message delivered before it is delivered again, and the next valid message that arrives is delivered.",
  ["inputs", "histories"], "all byte prefixes (valid, truncated or malformed) before the reset in the bounds, cut in any way, followed by any valid message",
  "no test resets a receiver; the history before the reset is unbounded",
  ["dbus_messageprotocol.cpp", "dbus_native.cpp"],
  [("MessageProtocol::reset", "src/dbus_messageprotocol.cpp"), ("catch in onReceiveMessageData", "src/dbus_native.cpp")],
  state=[("m_octetCache", "bytes not consumed yet", "MessageProtocol"), ("m_HeaderStruct", "decoded header of the current message", "MessageProtocol")],
  observe=["handler invocations"])
p("C10", "Outgoing messages are well-formed D-Bus messages saying what was asked",
  "Every method call, method return, error and signal is sent as a well-formed D-Bus message: endianness mark, right kind, only the supported flags the caller gave, version 1, exact body length, a non-zero serial, header fields of the right types for exactly the path, interface, member, error name, destination, reply serial and body signature supplied, header padded with zeros to an 8-byte boundary, and a body that encodes the parameters in order. An independent reading of the bytes by the specification recovers everything the caller supplied.",
  ["inputs"], "all names, destinations, flags, serials and parameter values in the stated bounds",
  "no test looks at a whole outgoing message",
  ["dbus_message.cpp", "dbus_message.h", "dbus_message_methodcall.cpp", "dbus_message_methodreturn.cpp", "dbus_message_error.cpp", "dbus_message_signal.cpp", "dbus_messageostream.h"],
  [("Base::marshallMessage", "src/dbus_message.cpp"), ("per-kind marshall", "src/dbus_message_*.cpp")],
  observe=["bytes handed to the transport"])
p("C11", "A message arrives with every field it was sent with",
  "A message built by one side and received by the other, in either byte order, presents the receiver with the same kind, path, interface, member, destination, sender, serial, reply serial, reply-expected flag, error text and parameters, for every value of each of them; fields that the sender omitted appear empty or zero, never as left-over or indeterminate data.",
  ["inputs"], "all 32-bit serials and reply serials, all flag bytes, all field contents within the length bounds, all subsets of optional fields",
  "tests check one string parameter of one method return; serials above 2^31, flags, error texts and absent fields are never exercised",
  ["dbus_message.cpp", "dbus_message.h", "dbus_message_methodcall.cpp", "dbus_message_methodreturn.cpp", "dbus_message_error.cpp", "dbus_message_signal.cpp", "dbus_type.cpp"],
  [("Base(header, body) constructor", "src/dbus_message.cpp"), ("asByte/asUint32/asString", "src/dbus_type.cpp")],
  state=[("m_Header", "received header fields", "Message::Base")],
  observe=["accessors of the delivered message"])
p("C12", "Serial numbers are never zero and never repeat while in use",
  "Each message created for sending gets a non-zero serial that differs from the serials of all messages created before it within the last 2^32 - 1, also when the counter wraps around and when several threads create messages at the same time.",
  ["histories", "schedules"], "every 32-bit counter state, every interleaving of creators in the bounds",
  "a test would need 2^32 messages to reach the wrap-around, and a chosen thread schedule",
  ["dbus_message.cpp", "dbus_message.h"],
  [("m_SerialCounter under m_SerialCounterMutex", "src/dbus_message.cpp")],
  state=[("m_SerialCounter", "next serial", "Message::Base")],
  observe=["getSerial()"])
p("C13", "Each reply completes exactly the call it answers, once",
  "For a method call that expects a reply, the first method return or error carrying that call's serial invokes exactly one of its two callbacks, with that reply, exactly once; no other call's callback is invoked, replies with unknown or already completed serials invoke nothing, and a call sent with no-reply-expected never gets a callback. This holds for any interleaving of calls and replies, for any reply order, and when callbacks throw or themselves send calls.",
  ["inputs", "histories"], "all reply serials, all orders of returns/errors for the outstanding calls in the bounds, callbacks that throw or re-enter",
  "no test exercises the connection object at all; orderings and 32-bit serials are beyond sampling",
  ["dbus_native.cpp", "dbus_native.h", "dbus_message_error.cpp", "dbus_message_methodreturn.cpp"],
  [("m_MessageQueue find/invoke/erase", "src/dbus_native.cpp")],
  state=[("m_MessageQueue", "serial to callback pair of outstanding calls", "Native")],
  observe=["callback invocations"])
p("C14", "Method calls and signals reach exactly the handlers registered for them",
  "An incoming method call invokes the handler registered under its interface.member name, and no other; an incoming signal invokes the handler registered under its interface.member name and every added match rule that matches it, each once, and nothing else. The first handler registered under a name, or added with a rule text, keeps it until it is removed. Unregistering or removing stops delivery, and handlers may register, unregister, add or remove rules, including their own, while they run.",
  ["inputs", "histories"], "all names in the bounds, all register/unregister/deliver sequences in the bounds, handlers that modify the registrations",
  "no test covers dispatch; names and histories are unbounded",
  ["dbus_native.cpp", "dbus_native_messages.cpp", "dbus_matchrule.cpp", "dbus_message_methodcall.cpp"],
  [("m_MethodCallMap / m_SignalMap / m_RulesMap lookup", "src/dbus_native.cpp"), ("callAddMatch/callRemoveMatch", "src/dbus_native_messages.cpp")],
  state=[("m_MethodCallMap", "method handlers", "Native"), ("m_SignalMap", "signal handlers", "Native"), ("m_RulesMap", "match rules", "Native")],
  observe=["handler invocations"])
p("C15", "A match rule matches a signal exactly when every condition in it holds",
  "A rule matches a signal if and only if each of its conditions on type, sender, interface, member, path, destination and path namespace agrees with the signal; a path namespace condition agrees with that path itself and with every path below it, and with nothing else. Conditions may come in any order, and evaluating a rule never fails.",
  ["inputs"], "all subsets of conditions, all condition values and signal field contents in the length bounds",
  "no test covers match rules; matching is over pairs of arbitrary strings",
  ["dbus_matchrule.cpp", "dbus_matchrule.h"],
  [("MatchRule::MatchRule parser", "src/dbus_matchrule.cpp"), ("MatchRule::isMatched", "src/dbus_matchrule.cpp")],
  observe=["isMatched result"])
p("C16", "A malformed match rule is rejected, never misread",
  "Constructing a match rule from an arbitrary string either succeeds or throws a standard exception, without touching memory outside the string's parts; a rule with a condition that lacks a value, or with both a path and a path namespace condition, throws, and a rejected rule is not installed.",
  ["inputs"], "all rule strings up to the stated length",
  "no test covers it; the input space is all strings",
  ["dbus_matchrule.cpp", "dbus_native_messages.cpp"],
  [("MatchRule::MatchRule parser", "src/dbus_matchrule.cpp")],
  observe=["exceptions", "memory accesses"])
p("C17", "The authentication handshake follows the protocol for every server and chunking",
  "The client sends the credentials byte and AUTH EXTERNAL with its hex-encoded user id; it sends BEGIN exactly once, after the server's OK in basic mode, or after OK followed by AGREE_UNIX_FD when descriptor passing is required (having sent NEGOTIATE_UNIX_FD once), and never after anything else such as REJECTED, ERROR, DATA or unknown commands. The outcome does not depend on how the server's lines are cut into reads, and bytes following the final line are treated as message data, none lost or repeated.",
  ["inputs", "histories"], "all server line sequences and arbitrary line contents in the bounds, all cut positions, both modes",
  "no test covers authentication; it is a state machine over arbitrary text in arbitrary chunks",
  ["dbus_auth.cpp", "dbus_auth.h", "dbus_native.cpp", "dbus_transport.cpp"],
  [("AuthenticationProtocol::onReceiveData/processData/onCommand", "src/dbus_auth.cpp"), ("Native::onReceiveAuthData", "src/dbus_native.cpp")],
  state=[("m_data", "partial line", "AuthenticationProtocol"), ("m_AuthType", "required mode", "AuthenticationProtocol")],
  observe=["bytes sent", "authentication result", "message handler invocations"])
p("C18", "Messages sent before authentication are queued, then sent once and in order",
  "Before BEGIN, nothing but the credentials byte and authentication lines is sent. Messages submitted before authentication completes follow BEGIN in submission order, before any message submitted later, each exactly once and unaltered; this holds for every interleaving of submitting threads with the thread that completes authentication.",
  ["schedules", "histories"], "all interleavings at lock granularity of up to the stated number of senders with the completing thread, symbolic message contents",
  "no test covers the transport; the guarantee is about thread interleavings",
  ["dbus_transport.cpp", "dbus_transport.h", "dbus_auth.cpp"],
  [("m_ReadyToSend and m_BufferedMessages under m_SendMutex", "src/dbus_transport.cpp")],
  state=[("m_ReadyToSend", "authentication completed", "Transport"), ("m_BufferedMessages", "messages awaiting authentication", "Transport")],
  observe=["bytes written to the socket"])
p("C19", "Concurrent and partial socket writes never interleave messages",
  "The bytes that reach the socket are the concatenation of the submitted messages, each contiguous and complete, in the order in which they were submitted, even when the kernel accepts only part of a write at a time and several messages are outstanding; message buffers stay valid until written.",
  ["schedules", "fault_sequences", "inputs"], "all partial-write lengths and completion orders permitted by the socket API, all sender interleavings, in the bounds",
  "needs a full socket buffer at a chosen moment; no test has a socket",
  ["dbus_transport.cpp", "dbus_transport.h"],
  [("sendStringDirect / handle_write_output", "src/dbus_transport.cpp")],
  observe=["bytes written to the socket"])
p("C20", "Closing a connection is safe at any moment",
  "Destroying a connection at any point, with reads pending, data arriving, handlers running on the I/O thread and writes outstanding, terminates without deadlock, does not touch freed memory, and once it has returned no handler is invoked.",
  ["schedules", "fault_sequences"], "all interleavings at lock granularity of destruction with data arrival, errors and handler execution, in the bounds",
  "no test creates a connection; it is a race between two threads",
  ["dbus_transport.cpp", "dbus_native.cpp"],
  [("m_CallbackMutex, setDataHandler, shutdown and join", "src/dbus_transport.cpp"), ("Native::~Native", "src/dbus_native.cpp")],
  state=[("m_ShuttingDown", "EOF expected", "Transport")],
  observe=["handler invocations", "memory accesses", "termination"])
p("C21", "Bus addresses are translated to the socket they name",
  "For an address unix:path=P the socket name is P, for unix:abstract=A it is a NUL followed by A, in both cases without any trailing parameters such as the guid; any other text is used unchanged; without an address the system bus default or the empty string is used.",
  ["inputs"], "all address strings up to the stated length, including every position of the guid parameter",
  "tests try six literals, none with a path and a guid",
  ["dbus_platform.cpp"],
  [("getPath / getAbstractPath", "src/dbus_platform.cpp")],
  observe=["returned socket name"])
p("C22", "Signatures split into single complete types with the right alignment",
  "For every valid signature and every position where a type starts, the extracted signature is exactly the single complete type starting there, so that successive extraction partitions the signature; the alignment reported for a type is the one the D-Bus specification gives. For invalid signatures extraction terminates and reads nothing outside the text.",
  ["inputs"], "all strings over the signature alphabet up to the stated length",
  "no test calls it directly; the set of signatures is infinite and nested",
  ["dbus_type.cpp", "dbus_type_variant.h", "dbus_type_array.h", "dbus_type_struct.h"],
  [("Type::extractSignature", "src/dbus_type.cpp"), ("Type::getAlignment", "src/dbus_type.cpp")],
  observe=["returned signature and alignment"])
p("C23", "Introspection XML lists exactly the declared members and argument types",
  "The XML produced for an object lists every added interface with all its properties, methods and signals, in the order added within each kind, with their names and access; every method and signal has exactly one argument element per single complete type of its declared signature, in order, with the direction in for inputs and out for outputs.",
  ["inputs"], "all member combinations and all valid signatures in the bounds",
  "no test covers introspection; signatures are arbitrary",
  ["dbus_introspectable.cpp", "dbus_type.cpp"],
  [("serialize of Introspection, Interface, Method, Property, Signal", "src/dbus_introspectable.cpp")],
  observe=["returned XML text"])
p("C24", "Hex encoding and padding arithmetic are exact",
  "Hex encoding appends exactly two lower-case digits per byte and nothing else, and hex decoding inverts it for every byte string; the padding computed for any alignment and size is the smallest non-negative number that makes the size a multiple of the alignment, and alignment tests agree with it.",
  ["inputs"], "all byte strings up to the stated length; all 64-bit sizes with each alignment in use",
  "no direct test; the domain is all byte strings and 64-bit sizes",
  ["dbus_utils.cpp"],
  [("ConvertBinaryToHexString / ConvertHexStringToBinary", "src/dbus_utils.cpp"), ("getPadding / isAlignedTo", "src/dbus_utils.cpp")],
  observe=["returned values"])
p("C25", "Buffer views and input streams never read outside their bytes",
  "Every operation of a buffer view or input stream, in any sequence and with any arguments, either stays within the bytes it was given or throws and leaves the contents and position as they were (a typed read that throws may have skipped the padding in front of the value); sizes, contents and searches always describe exactly the bytes not yet consumed, and a sub-stream covers exactly the bytes carved out of its parent.",
  ["inputs", "histories"], "all operation sequences up to the stated length with arbitrary 64-bit arguments over buffers of arbitrary content",
  "tests run a few fixed sequences",
  ["dbus_octetbuffer.cpp", "dbus_messageistream.cpp", "dbus_messageistream.h"],
  [("OctetBuffer bounds checks", "src/dbus_octetbuffer.cpp"), ("MessageIStream", "src/dbus_messageistream.cpp")],
  observe=["returned bytes", "exceptions", "memory accesses"])
p("C26", "Value accessors return the value held",
  "The native-value accessors return exactly what a value holds, directly or inside a variant: every byte as itself, every 32-bit unsigned integer as itself, integers of every width and sign as their decimal text, booleans as 0 or 1 text, strings, paths and signatures as their exact bytes.",
  ["inputs"], "all values of each type",
  "tests use small positive literals; the accessors convert through text, so wide and extreme values matter",
  ["dbus_type.cpp", "dbus_type_byte.cpp", "dbus_type_uint32.cpp", "dbus_type_int64.cpp", "dbus_type_variant.cpp", "dbus_type_boolean.cpp"],
  [("asByte/asUint32/asString", "src/dbus_type.cpp"), ("asString per type", "src/dbus_type_*.cpp")],
  observe=["returned values"])
p("C27", "Nesting is bounded: legal depth is accepted, runaway depth is refused",
  "Every value whose containers nest no deeper than the 64 levels the D-Bus specification allows decodes, and input that nests without limit, through variants, arrays, structs or malformed signatures, is refused with an exception before the stack is exhausted.",
  ["inputs"], "nesting depths around the limit for every kind of container, all contents",
  "the tests nest a few levels; exhausting the stack needs a crafted message",
  ["dbus_type.cpp", "dbus_type_variant.cpp", "dbus_messageistream.h"],
  [("recursion through Type::unmarshallData", "src/dbus_type.cpp")],
  observe=["exceptions", "stack depth"])
p("C28", "Reported statistics equal what happened",
  "The connection's statistics report exactly the number of method calls, method returns, errors and signals sent and received, and for the transport the number of messages queued, pumped and sent (authentication lines included), the bytes sent (the initial NUL byte excluded) and the bytes read, with their parts used for authentication and for messages, for every history of operations.",
  ["histories"], "all histories of sends, receives and authentication in the bounds",
  "no test reads statistics; histories are unbounded",
  ["dbus_native.cpp", "dbus_native.h", "dbus_transport.cpp"],
  [("m_Stats counters", "src/dbus_native.cpp, src/dbus_transport.cpp")],
  observe=["getStats() text"])
p("C29", "Bus convenience calls send the standard bus method with the given arguments",
  "Each message-bus convenience call sends exactly one method call to org.freedesktop.DBus, object /org/freedesktop/DBus, interface org.freedesktop.DBus, with the standard member name for that operation and the caller's arguments in order and unaltered, and its reply reaches the caller's callbacks; removing a match rule asks for no reply.",
  ["inputs"], "all argument strings in the length bounds and all 32-bit flags",
  "no test covers them; needs a bus",
  ["dbus_native_messages.cpp", "dbus_native.cpp"],
  [("call* methods", "src/dbus_native_messages.cpp")],
  observe=["bytes handed to the transport", "callback invocations"])
p("C30", "The log level never changes behaviour",
  "At every log level the library delivers the same messages, returns the same values and sends the same bytes; logging any received or sent data, whatever its content, neither fails nor reads outside it, and a message is emitted exactly when its severity is at or above the level set.",
  ["inputs", "configurations"], "all log levels, arbitrary message contents in the bounds",
  "the tests run at the default level only, so no trace-level code runs at all",
  ["dbus_log.cpp", "dbus_message_signal.cpp", "dbus_message_methodreturn.cpp", "dbus_transport.cpp", "dbus_auth.cpp", "dbus_messageprotocol.cpp"],
  [("Log::write / writeHex / isActive", "src/dbus_log.cpp"), ("trace blocks in message constructors", "src/dbus_message_signal.cpp")],
  observe=["handler invocations", "memory accesses", "lines emitted"])
p("C31", "The connection's public operations can be used from several threads",
  "Calls into a connection from any number of threads at once, while the I/O thread receives data and runs handlers, never deadlock and leave registrations, outstanding calls and queued messages consistent, as if the operations had happened one after the other.",
  ["schedules"], "all interleavings at lock granularity of the stated operations",
  "no test uses threads; interleavings cannot be sampled exhaustively",
  ["dbus_native.cpp", "dbus_transport.cpp", "dbus_messageprotocol.cpp", "dbus_message.cpp"],
  [("recursive mutexes around each map and the send path", "src/dbus_native.cpp, src/dbus_transport.cpp")],
  observe=["callback invocations", "bytes written", "termination"])
p("C32", "Every value names its own type",
  "Every value, basic or container, tells exactly the D-Bus type it has and the alignment of that type: when it has just been made, when it was filled, copied, assigned, moved or held as a value of any type, and when it was decoded from a message - then the type is exactly the signature it was decoded by, and a signature that is not made of complete types is refused rather than read as another one.",
  ["inputs"], "all values of all types and shapes in the bounds, built and decoded; all signature texts and bodies up to the stated lengths",
  "tests look at the types of a few literals, never at copies or at decoded values of arbitrary signatures",
  ["dbus_type_base.cpp", "dbus_type.cpp", "dbus_type_array.cpp", "dbus_type_struct.h", "dbus_type_struct.cpp", "dbus_type_dictentry.cpp", "dbus_type_byte.cpp", "dbus_type_variant.cpp"],
  [("getSignature per type", "src/dbus_type_*.h"), ("Type::getMarshallingSignature", "src/dbus_type.cpp"), ("Struct::unmarshall", "src/dbus_type_struct.cpp")],
  observe=["returned signatures and alignments", "exceptions"])
p("C33", "The printed description of a value shows its type, value and structure",
  "Printing a value describes it completely: a basic value on one line naming its type, integers of every width in decimal and in hexadecimal, truth values as True or False, texts with their length and exact content; a container with its signature and every element, field, key and value in order; every line of the value itself begins with the prefix asked for.",
  ["inputs"], "all values of the basic types but floating point numbers, containers of the stated shapes, arbitrary prefixes in the bounds",
  "tests compare the descriptions of three literals",
  ["dbus_type.cpp", "dbus_type_boolean.cpp", "dbus_type_array.cpp", "dbus_type_struct.cpp", "dbus_type_dictentry.cpp", "dbus_type_variant.cpp", "dbus_type_string.cpp", "dbus_type_int64.cpp"],
  [("Type::toString", "src/dbus_type.cpp"), ("toString per type", "src/dbus_type_*.cpp")],
  observe=["returned text"])
p("C34", "A conversation over the bus gives each side exactly what the other side sent",
  "A method call sent over the bus reaches the handler registered for it once, with exactly the arguments, destination and flags the caller gave and the sender the bus has set; what the handler answers - at once or later, in any order, a result, an error, or the very values it received - reaches exactly that caller's success or failure callback, once, with exactly those values; an answer that comes again finds nobody. Whatever arrives can be passed on as a call, an answer or a signal without any of it changing, and signals reach every handler and rule they match with their parameters intact.",
  ["inputs", "histories"], "all arguments, results, flags, serial counters and byte orders, all orders of answers and cuts in the bounds",
  "tests exercise encoding and decoding apart from each other and never a whole connection with handlers and callbacks",
  ["dbus_native.cpp", "dbus_transport.cpp", "dbus_messageprotocol.cpp", "dbus_message.cpp", "dbus_message_methodcall.cpp", "dbus_message_methodreturn.cpp", "dbus_message_error.cpp", "dbus_message_signal.cpp", "dbus_type.cpp", "dbus_type_variant.cpp"],
  [("sendMethodCall, sendMethodReturn, sendError, broadcastSignal, onReceive*", "src/dbus_native.cpp"), ("marshalling of received values", "src/dbus_type_*.cpp")],
  state=[("m_MessageQueue", "callbacks of the calls that wait for an answer", "Native")],
  observe=["handler and callback arguments", "messages sent"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
