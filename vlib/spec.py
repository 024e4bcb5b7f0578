"""Which harness entries decide which property, within which bounds."""


class Entry:
    def __init__(self, harness, entry, quick=None, thorough=None, time=200, ttime=600, reach=(), preempt=None, races=False,
                 max_insts=40000000, max_mem=1 << 30, bounds="", share=1, max_frames=4000, variants=("asan",)):
        self.harness, self.entry = harness, entry
        self.quick, self.thorough = dict(quick or {}), dict(thorough if thorough is not None else (quick or {}))
        self.time, self.ttime = time, ttime
        self.reach, self.preempt, self.races = list(reach), preempt, races
        self.max_insts, self.max_mem, self.bounds, self.share = max_insts, max_mem, bounds, share
        self.max_frames = max_frames


CHECKS = {}


def check(pid, entries, technique=None, note="", outside="", assumptions=()):
    CHECKS[pid] = dict(entries=entries, note=note, outside=outside, assumptions=list(assumptions),
                       technique=technique or "symbolic execution of the compiled LLVM IR with Z3 deciding every assertion; counterexamples replayed natively")


E = Entry

check("C24", [
    E("utils.cpp", "hex_roundtrip", {"maxlen": 8}, {"maxlen": 12}, reach=["done"], bounds="byte strings of every length up to {maxlen}, all contents"),
    E("utils.cpp", "padding", {"maxpad": 24}, {"maxpad": 64}, reach=["zero", "done"], bounds="alignments 1..2^15 that are powers of two with all 64-bit sizes; every alignment up to {maxpad} with 12-bit sizes"),
], note="hex conversion on all byte strings up to the bound; padding arithmetic on all 64-bit sizes")

TY = "types.cpp"
check("C01", [
    E(TY, "encode_basic", {"maxoff": 16, "maxstr": 3}, {"maxoff": 40, "maxstr": 10}, reach=["done"], bounds="every basic type, every value, strings up to {maxstr} bytes, after every prefix of up to {maxoff} bytes"),
    E(TY, "encode_sequence", {"maxoff": 4, "maxstr": 1}, {"maxoff": 8, "maxstr": 3}, reach=["done"], bounds="two values in a row, strings up to {maxstr}, prefixes up to {maxoff}"),
    E(TY, "encode_long", {"lens": 14}, reach=["long", "refused"], max_insts=400000000, bounds="strings, paths, signatures of 14 lengths from 127 to 70000"),
], note="every value of every basic type at every alignment phase; longer strings by selected lengths",
    outside="strings longer than the bounds except the selected lengths; prefixes longer than the bounds")
check("C02", [
    E(TY, "decode_basic", {"maxoff": 8}, {"maxoff": 24, "maxdata": 14}, reach=["decoded", "truncated"], bounds="every basic type, both byte orders, every offset up to {maxoff}, every content and every truncation"),
    E(TY, "decode_sequence", {}, {"maxoff": 8, "maxstr": 3}, reach=["done"], bounds="two values in a row"),
    E(TY, "decode_long", {}, {}, reach=["decoded", "refused"], max_insts=400000000, bounds="strings, paths, signatures of 13 lengths from 127 to 70000, whole and truncated"),
], note="arbitrary bytes decoded as every basic type in both orders at every offset, and every truncation",
    outside="strings longer than the supplied bytes of the bounds")
check("C03", [
    E(TY, "encode_container", {"depth": 1, "maxoff": 8, "maxstr": 1}, {"depth": 1, "maxoff": 16, "maxarr": 3, "maxstr": 2, "fields": 3}, reach=["done"], ttime=1500, bounds="containers of depth {depth}, every content, after {maxoff} prefix lengths"),
    E(TY, "encode_container", {"depth": 2, "maxoff": 1}, {"depth": 2, "maxoff": 8}, reach=["done"], ttime=1500, share=3, bounds="containers of depth {depth}, arrays up to 2, structs up to 2 fields"),
    E(TY, "change_container", reach=["entry", "struct", "array", "twice"], bounds="containers set, filled or grown a second time, and their copies, with any of 7 types and any content"),
    E(TY, "long_container", {"sizes": 10}, reach=["encoded"], max_insts=400000000, bounds="arrays, strings in arrays, structs, dictionaries and variants of selected sizes from 127 to 70000 bytes"),
    E(TY, "encode_container", {"spine": 4, "maxoff": 1, "maxarr": 1}, {"spine": 5, "maxoff": 1}, reach=["done"], ttime=1500, bounds="one container at each of {spine} levels"),
], note="every container shape up to depth 2 (3 in parts) with symbolic contents against an independent encoder",
    outside="deeper nesting, longer arrays, more fields; values the public API cannot construct (variants holding other than string, path, signature, uint32; arrays directly in arrays or structs)")
check("C04", [
    E(TY, "roundtrip", {"depth": 1, "maxoff": 8, "vardepth": 0}, {"depth": 1, "maxoff": 8, "vardepth": 1, "maxstr": 2}, reach=["done"], ttime=1500, bounds="all shapes of depth {depth}, every offset below {maxoff}, both byte orders"),
    E(TY, "roundtrip", {"depth": 1, "maxoff": 1, "vardepth": 1}, {"depth": 1, "maxoff": 1, "vardepth": 2}, reach=["done"], ttime=1500, bounds="shapes of depth {depth} with variants {vardepth} deep holding basic values and containers"),
    E(TY, "roundtrip", {"depth": 2, "maxoff": 1, "vardepth": 0}, {"depth": 2, "maxoff": 8, "vardepth": 0, "maxarr": 1}, reach=["done"], ttime=1500, share=2, bounds="all shapes of depth {depth}"),
    E(TY, "long_roundtrip", {"sizes": 10}, reach=["done"], max_insts=400000000, bounds="containers of selected sizes from 127 to 70000 bytes, both byte orders"),
    E(TY, "roundtrip", {"spine": 4, "maxoff": 1, "maxarr": 1}, {"spine": 5, "maxoff": 1, "maxarr": 1}, reach=["done"], ttime=1500, bounds="one container at each of {spine} levels, both byte orders"),
], note="every type shape up to depth 2, symbolic contents, encoded by the reference encoder in both orders, decoded, compared, re-encoded",
    outside="deeper nesting, longer arrays and strings, more fields")
check("C05", [
    E(TY, "decode_arbitrary", {"maxsig": 3, "maxdata": 6}, {"maxsig": 3, "maxdata": 7}, reach=["value", "exception"], ttime=1500, bounds="every signature text up to {maxsig} bytes, every body up to {maxdata} bytes, both orders"),
    E(TY, "decode_nested", {"maxdata": 10}, {"maxdata": 13}, reach=["value", "exception"], ttime=1500, share=2, bounds="24 nested and damaged signatures, every body up to {maxdata} bytes"),
    E(TY, "decode_variant", {"maxsig": 4, "maxdata": 5}, {"maxsig": 6, "maxdata": 8}, reach=["value", "exception"], ttime=1500, bounds="variants with every embedded signature up to {maxsig} bytes and bodies up to {maxdata}"),
], note="arbitrary signature and body: memory safety of every access, termination within an instruction budget, memory in proportion, printing and re-encoding of what was decoded",
    outside="longer signatures and bodies; the digits of printed numbers are abstracted here (C26 decides them)")
check("C22", [
    E(TY, "extract_valid", {"depth": 2, "types": 2}, {"depth": 3, "types": 2}, reach=["done"], ttime=1500, bounds="every sequence of up to {types} complete types, containers up to depth {depth}"),
    E(TY, "extract_arbitrary", {"maxsig": 5}, {"maxsig": 8}, reach=["type", "threw"], ttime=1500, bounds="every text up to {maxsig} bytes, every position"),
    E(TY, "alignments", reach=["known", "unknown"], bounds="every type code"),
    E(TY, "extract_valid", {"spine": 4, "depth": 2, "types": 2}, {"spine": 6, "depth": 2, "types": 2}, reach=["done"], ttime=1500, bounds="one container at each of {spine} levels, alone and in front of another type"),
], note="every valid signature up to the depth bound, every text up to the length bound", outside="longer texts, deeper types")
check("C26", [
    E(TY, "accessor_numbers", {"bits": 64}, {"bits": 64}, reach=["done", "u"], ttime=1500, bounds="every value of every integer type"),
    E(TY, "accessor_text", {"maxstr": 4}, {"maxstr": 12}, reach=["done"], bounds="strings, paths, signatures up to {maxstr} bytes, direct and in a variant"),
], note="accessors on symbolic values", outside="doubles' decimal text; containers as text")
check("C27", [
    E(TY, "depth_legal", reach=["variants", "structs", "arrays", "mixed"], max_insts=200000000, bounds="1 to 64 variants, 1 to 32 structs, 1 to 32 arrays, 64 mixed"),
    E(TY, "depth_runaway", {"sizes": 5}, {"sizes": 6}, reach=["done"], max_insts=400000000, bounds="nesting of 80 to 1000 (thorough: 3000) levels by variants, structs in variants, arrays in variants, and unbalanced signatures"),
], note="legal depths are accepted, runaway depths refused within a bounded number of frames", outside="mixed nestings other than those listed")
ST = "stream.cpp"
check("C25", [
    E(ST, "buffer_ops", reach=["done", "threw"], bounds="every sequence of OctetBuffer operations up to the harness's length, symbolic arguments"),
    E(ST, "stream_ops", reach=["done", "threw", "sub-stream"], bounds="every sequence of MessageIStream reads up to the harness's length over symbolic bytes, both orders, every offset"),
], note="every sequence of buffer and stream reads up to the bound against a model", outside="longer sequences and buffers")

PR = "protocol.cpp"
check("C06", [
    E(PR, "chunks", {"messages": 2, "bodies": 2, "cuts": 1}, {"messages": 2, "bodies": 5, "cuts": 1}, reach=["done"], ttime=1500, bounds="{messages} messages out of {bodies} bodies and every kind, cut at every {cuts} places"),
    E(PR, "chunks", {"messages": 1, "bodies": 5, "cuts": 2}, {"messages": 2, "bodies": 1, "cuts": 2}, reach=["done"], ttime=1500, share=3, bounds="{messages} messages, {bodies} bodies, cut at every {cuts} places"),
    E(PR, "strides", reach=["done"], bounds="a stream of messages in pieces of 1, 3, 16, 17 and 1000 bytes"),
    E(PR, "long_messages", {}, {}, reach=["done"], max_insts=400000000, bounds="a message with a text of 14 lengths from 127 to 70000 bytes in any place, between two others, divided in 9 ways"),
    E(PR, "many_messages", {"count": 40}, {"count": 200}, reach=["done"], max_insts=400000000, bounds="{count} messages in reads of 5 sizes"),
], note="every division of the stream of messages at the given number of cuts, and every stride", outside="more cuts at once, more or longer messages")
check("C07", [
    E(PR, "hostile", {"maxlen": 24}, {"maxlen": 28}, reach=["accepted", "refused", "message"], ttime=1500, bounds="every byte stream up to {maxlen} bytes"),
    E(PR, "hostile", {"maxlen": 17, "cut": 1}, {"maxlen": 24, "cut": 1}, reach=["accepted", "refused"], ttime=1500, bounds="every byte stream up to {maxlen} bytes cut in two at every place"),
    E(PR, "hostile_fields", {"maxlen": 13}, {"maxlen": 16}, reach=["accepted", "message"], ttime=1500, share=4, bounds="every header field array up to {maxlen} bytes behind a valid fixed header"),
    E(PR, "sizes", reach=["fields accepted", "message accepted", "refused"], bounds="every pair of announced 32-bit sizes"),
], note="arbitrary bytes fed to the protocol: memory safety, bounded work and memory, limits enforced before buffering", outside="longer hostile streams")
check("C08", [
    E(PR, "bad_message", {"junk": 5}, {"junk": 8}, reach=["done"], ttime=1500, bounds="a complete message whose fields or body are damaged by up to {junk} arbitrary bytes, between good messages"),
    E(PR, "throwing_handler", reach=["done"], bounds="handlers throwing on every subset of messages, every cut"),
    E("native.cpp", "connection_recovers", {}, {}, reach=["done"], bounds="bad messages and throwing handlers on a connection"),
], note="a bad message or a throwing handler affects no other message", outside="more damaged bytes at once; handlers throwing other than standard exceptions")
check("C09", [
    E(PR, "reset_fresh", {"junk": 18}, {"junk": 20}, reach=["done", "threw"], ttime=1500, bounds="every stream of up to {junk} bytes before the reset, then a good message"),
], note="after reset the protocol behaves as new whatever came before", outside="longer streams before the reset")
check("C30", [
    E(PR, "emission", reach=["emitted", "silent"], bounds="every level, every subset, every message level"),
    E(PR, "levels", {"bodies": 2}, {"bodies": 5}, reach=["done"], ttime=1500, bounds="the same stream at every log level"),
    E(PR, "levels", {"rich": 1, "bodies": 1}, {"rich": 1, "bodies": 3}, reach=["done"], ttime=1500, bounds="messages with every header field, every log level"),
    E("loglevels.cpp", "same_at_every_level", {"maxtext": 2}, {"maxtext": 3}, reach=["everything logged", "less logged"], share=4, ttime=1500, bounds="11 kinds of history of a connection (authentication lines, calls, answers, signals, throwing handlers, bad messages, rules, failures, descriptions), arbitrary texts of {maxtext} bytes, at every level against no logging"),
], note="what is logged does not change what is delivered or sent", outside="more or longer messages")
MS = "message.cpp"
check("C10", [
    E(MS, "outgoing", {"maxtext": 9, "params": 1, "depth": 0}, {"maxtext": 20, "params": 1, "depth": 1, "maxstr": 3}, reach=["done"], ttime=1500, bounds="all four kinds, every flags word and counter state, every text up to {maxtext} bytes, up to {params} parameters of depth {depth}"),
    E(MS, "outgoing", {"maxtext": 1, "params": 1, "depth": 1}, {"maxtext": 1, "params": 1, "depth": 2}, reach=["done"], ttime=1500, share=2, bounds="up to {params} parameters of every shape of depth {depth}"),
    E(MS, "outgoing", {"maxtext": 1, "params": 2, "depth": 0}, {"maxtext": 1, "params": 2, "depth": 1}, reach=["done"], ttime=1500, bounds="up to {params} parameters of every shape of depth {depth}"),
    E(MS, "outgoing_long", {}, {}, reach=["done"], max_insts=400000000, bounds="a text of 14 lengths from 127 to 70000 bytes in any place"),
    E(MS, "outgoing_forms", {}, {"maxtext": 40}, reach=["done", "refused"], bounds="every way of giving parameters; 255 and 256 parameters"),
    E(MS, "outgoing", {"spine": 3, "maxtext": 1, "params": 1, "depth": 1}, {"spine": 4, "maxtext": 1, "params": 1, "depth": 1}, reach=["done"], ttime=1500, bounds="a parameter with one container at each of {spine} levels"),
], note="every message kind with symbolic names, flags, serials and parameters, read back by an independent reader", outside="longer texts, deeper or more parameters")
check("C11", [
    E(MS, "arrives", {"maxtext": 9, "params": 1, "depth": 0}, {"maxtext": 20, "params": 1, "depth": 1, "maxstr": 3}, reach=["done"], ttime=1500, bounds="what the library builds, every text up to {maxtext} bytes, {params} parameter of depth {depth}"),
    E(MS, "arrives", {"maxtext": 1, "params": 1, "depth": 1}, {"maxtext": 1, "params": 1, "depth": 2}, reach=["done"], ttime=1500, bounds="{params} parameter of every shape of depth {depth}"),
    E(MS, "arrives_long", {}, {}, reach=["done"], max_insts=400000000, bounds="a text of 14 lengths from 127 to 70000 bytes in any place"),
    E(MS, "arrives_fields", {"rotations": 2, "extras": 3}, {"rotations": 8, "extras": 6}, reach=["done"], ttime=1500, share=3, bounds="every subset of the header fields in {rotations} orders, unknown fields, both byte orders, every flags byte and serial"),
    E(MS, "arrives_params", {"params": 1, "depth": 1}, {"params": 1, "depth": 2}, reach=["done"], ttime=1500, bounds="{params} parameters of every shape of depth {depth}, both byte orders"),
    E(MS, "arrives_params", {"params": 2, "depth": 0}, {"params": 2, "depth": 1}, reach=["done"], ttime=1500, bounds="{params} parameters of depth {depth}"),
    E(MS, "arrives_params", {"spine": 3, "params": 1, "depth": 1}, {"spine": 4, "params": 1, "depth": 1}, reach=["done"], ttime=1500, bounds="a parameter with one container at each of {spine} levels, both byte orders"),
], note="messages built by the library and by the reference encoder, every subset of header fields", outside="longer texts, deeper or more parameters")
check("C12", [
    E(MS, "serials", {"count": 4}, {"count": 6, "received": 0}, reach=["done"], ttime=1500, bounds="every state of the 32-bit counter, {count} messages of every kind, messages received in between"),
    E(MS, "serial_threads", {"threads": 2, "each": 2, "preempt": 3}, {"threads": 3, "each": 2, "preempt": 3}, reach=["done"], preempt=3, races=True, ttime=1500, bounds="{threads} threads creating {each} messages each, every schedule with up to {preempt} preemptions, from every state of the counter"),
], note="one step from every counter state, and every interleaving of the creators", outside="more threads and preemptions; preemptions between plain memory accesses are covered by the data race check",
    assumptions=["the counter is set with the hook setNextSerial, which stores its argument in the counter"])
MR = "matchrule.cpp"
check("C15", [
    E(MR, "one_condition", {"maxlen": 8}, {"maxlen": 24}, reach=["match", "no match"], ttime=1500, bounds="each condition by itself, every value and field up to {maxlen} bytes"),
    E(MR, "path_namespace", {"maxlen": 8}, {"maxlen": 14}, reach=["match", "no match"], ttime=1500, bounds="every namespace up to {maxlen} bytes and path up to 3 bytes more"),
    E(MR, "conditions", {"orders": 3, "len": 2}, {"orders": 7, "len": 3}, reach=["match", "no match"], ttime=1500, share=2, bounds="every subset of the conditions in {orders} orders with values of {len} bytes, against every signal of such fields"),
], note="rules and signals with symbolic values and fields, against the conditions evaluated directly", outside="longer values; conditions on arguments, which the library ignores")
check("C16", [
    E(MR, "rule_arbitrary", {"maxlen": 9}, {"maxlen": 13}, reach=["accepted", "rejected"], ttime=1500, bounds="every rule text up to {maxlen} bytes"),
    E(MR, "rule_damaged", {"maxlen": 6}, {"maxlen": 9}, reach=["accepted", "rejected"], ttime=1500, bounds="known keys with up to {maxlen} arbitrary bytes in place of or behind a part of the rule"),
    E(MR, "rule_both_paths", reach=["done"], bounds="path and path_namespace in every order and position"),
    E("native.cpp", "rule_refused", {}, {}, reach=["accepted", "rejected"], ttime=1500, bounds="rules of up to 4 arbitrary bytes behind known keys added to a connection"),
], note="every text up to the bound parses or is refused with an exception, within memory bounds", outside="longer texts")
PF = "platform.cpp"
check("C21", [
    E(PF, "known_addresses", {"maxlen": 10}, {"maxlen": 14}, reach=["done"], ttime=1500, bounds="names up to {maxlen} bytes, parameters of up to 3 arbitrary bytes behind known keys"),
    E(PF, "odd_names", reach=["done"], bounds="names that resemble addresses and parameters"),
    E(PF, "other_text", {"maxlen": 12}, {"maxlen": 20}, reach=["done"], ttime=1500, bounds="any text up to {maxlen} bytes that is not of a known kind"),
    E("auth.cpp", "socket_name", {}, {"maxlen": 12}, reach=["connected", "failed"], bounds="the socket that a connection connects to, and failure to"),
    E(PF, "defaults", {"maxlen": 10}, {"maxlen": 20}, reach=["done"], ttime=1500, bounds="addresses from the environment up to {maxlen} bytes; no address"),
], note="both buses, every address text in the bounds", outside="longer texts; lists of addresses and %-escapes, which the library does not support")
IN = "introspect.cpp"
check("C23", [
    E(IN, "arguments", {"types": 2, "depth": 1}, {"types": 2, "depth": 2, "names": 3}, reach=["method", "signal"], ttime=1500, share=2, bounds="methods and signals of up to {types} types of depth {depth}, in both directions, every name"),
    E(IN, "members", {"interfaces": 2, "members": 2}, {"interfaces": 2, "members": 3}, reach=["done"], ttime=1500, bounds="{interfaces} interfaces of up to {members} members of every kind, every name"),
    E(IN, "arguments", {"spine": 2, "types": 1, "depth": 1}, {"spine": 3, "types": 1, "depth": 1}, reach=["method", "signal"], ttime=1500, bounds="arguments with one container at each of {spine} levels"),
], note="the XML is read by an independent reader and compared with what was declared", outside="more members; names that are not D-Bus names (the library does not escape)")
NA = "native.cpp"
TR = "transport.cpp"
AU = "auth.cpp"
CO = "concurrent.cpp"
MA = "many.cpp"
SCHED = "threads switch at lock operations, waits, thread creation and end; preemptions between plain memory accesses are covered by the data race check of the same run"
check("C13", [
    E(NA, "replies", {"calls": 2, "replies": 2, "acts": 4}, {"calls": 3, "replies": 3, "acts": 2}, reach=["all", "some", "unanswered"], ttime=1500, bounds="{calls} calls with every flag byte and every state of the counter, {replies} replies with arbitrary serials; callbacks that return, throw, send another call, or both"),
    E(NA, "replies", {"together": 1}, {"together": 1, "replies": 3}, reach=["all", "some", "unanswered"], ttime=1500, bounds="the replies arrive in one read"),
    E(CO, "pairs", {"inside": 1}, {"inside": 1}, reach=["done"], share=4, preempt=1, races=True, time=300, ttime=1800, bounds="a thread's operation against an operation made by a handler"),
    E(CO, "prompt_replies", {"threads": 2, "preempt": 1}, {"threads": 2, "preempt": 3}, reach=["done"], preempt=2, races=True, ttime=1800, bounds="up to {threads} threads making a call each, which the peer answers, once or twice, as soon as it has the bytes"),
    E(MA, "any_of_many", {"numbers": 4}, {"numbers": 7}, reach=["answered", "unknown"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers of calls from 9 to 300, counter starts at the limits of 8, 16, 31 and 32 bits, one reply of arbitrary serial"),
    E(MA, "many_calls", {"numbers": 3}, {"numbers": 7}, reach=["done"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers of calls from 9 to 300, all answered, one of them first, in one read or in many"),
], note="which callback runs, how often, with what, for arbitrary serials", outside="other numbers of calls and replies; the same MethodCall object sent again while its first sending awaits its reply",
    assumptions=[SCHED])
check("C14", [
    E(NA, "dispatch_names", {"most": 2, "handlers": 2}, {"most": 3, "handlers": 2}, reach=["handled", "unhandled"], ttime=1500, bounds="{handlers} handlers, names of up to {most} bytes in every part"),
    E(NA, "dispatch_rules", {}, {}, reach=["match", "no match"], ttime=1500, bounds="two match rules with every single condition and arbitrary one-byte values, installed or removed, against every signal of such fields"),
    E(NA, "dispatch_history", {"steps": 3}, {"steps": 4}, reach=["done"], share=4, time=300, ttime=1800, bounds="every history of {steps} registrations, removals and deliveries, with handlers that register and unregister others and themselves"),
    E(MA, "many_handlers", {"numbers": 4}, {"numbers": 7}, reach=["done"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers, from 9 to 300, of handlers of each kind and rules, one of which is removed"),
], note="handlers reached for every name and every history", outside="longer histories and names; handlers that throw; several handlers for one name or rule text (the first one registered keeps it)")
check("C17", [
    E(AU, "server_arbitrary", {"maxlen": 5}, {"maxlen": 8}, reach=["not authenticated"], ttime=1500, bounds="every text of up to {maxlen} bytes from the server, both modes"),
    E(AU, "server_lines", {"lines": 2, "tail": 1}, {"lines": 3, "tail": 1}, reach=["authenticated", "not authenticated"], ttime=1500, bounds="every sequence of {lines} lines of every command with arbitrary tails of {tail} bytes, both modes"),
    E(AU, "server_lines", {"lines": 3, "tail": 0}, {"lines": 4, "tail": 0}, reach=["authenticated", "not authenticated"], ttime=1500, bounds="{lines} lines"),
    E(AU, "server_lines", {"lines": 3, "tail": 0, "kinds": 3, "reads": 2}, {"lines": 3, "tail": 0, "kinds": 5, "reads": 3}, reach=["authenticated", "not authenticated"], ttime=1500, bounds="{lines} lines cut into {reads} reads at every position"),
    E(AU, "messages_behind", {}, {}, reach=["done"], ttime=1500, bounds="messages behind the last line, in the same reads and in others"),
    E(AU, "user_id", {"digits": 2}, {"digits": 3}, reach=["done"], ttime=1500, bounds="user ids of up to {digits} digits"),
], note="every server in the bounds; what is sent, and what is taken as messages", outside="longer lines; the kernel's delivery of credentials")
check("C18", [
    E(TR, "queue_history", {"messages": 3}, {"messages": 4, "partial": 1}, reach=["queued", "direct"], ttime=1500, bounds="{messages} messages of every kind at every stage of the authentication, both modes"),
    E(TR, "queue_history", {"messages": 2, "partial": 1}, {"messages": 3, "partial": 2}, reach=["queued", "direct"], ttime=1500, bounds="with {partial} partial writes"),
    E(TR, "auth_threads", {"threads": 1, "each": 2}, {"threads": 2, "each": 1}, reach=["done"], preempt=2, races=True, ttime=1500, bounds="{threads} threads sending {each} messages while the I/O thread completes authentication"),
    E(TR, "auth_threads", {"threads": 2, "each": 1}, {"threads": 1, "each": 3, "partial": 1}, reach=["done"], preempt=2, races=True, ttime=1500, bounds="{threads} threads sending {each} messages"),
    E(MA, "many_queued", {"numbers": 5}, {"numbers": 7}, reach=["done"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers of messages, from 9 to 300, of two sizes, some of them before authentication begins"),
], note="every history and schedule in the bounds; the exact bytes that reach the socket", outside="more messages, threads and preemptions", assumptions=[SCHED])
check("C19", [
    E(TR, "partial_writes", {"messages": 3, "maxlen": 3, "partial": 2}, {"messages": 4, "maxlen": 4, "partial": 3}, reach=["done"], ttime=1500, bounds="{messages} messages of up to {maxlen} arbitrary bytes, {partial} partial or blocked writes"),
    E(TR, "writes_and_reads", {}, {"bytes": 4, "partial": 3, "partialReads": 2}, reach=["done"], ttime=1500, bounds="answers sent from the handler while a message is being written"),
    E(TR, "failed_writes", {}, {"messages": 4, "partial": 2}, reach=["all", "part"], ttime=1500, bounds="the connection breaks at any write"),
    E(TR, "writers", {"threads": 2, "each": 2}, {"threads": 3, "each": 1}, reach=["done"], share=4, preempt=2, races=True, ttime=1500, bounds="{threads} threads sending {each} messages each, one partial write"),
    E(MA, "many_blocked", {"numbers": 7, "partial": 0}, {"numbers": 4, "partial": 1}, reach=["done"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers of messages, from 9 to 300, of two sizes, while the peer stops and resumes reading"),
], note="every schedule, partial write and failure in the bounds; the exact bytes that reach the socket", outside="more messages, threads and preemptions; a partial write moves nothing, one byte, or all but one byte", assumptions=[SCHED])
check("C20", [
    E(CO, "close_anytime", {}, {"more": 1}, reach=["handled", "unhandled", "early"], preempt=2, races=True, ttime=1800, bounds="closed at every stage of the authentication while the peer closes, fails, sends lines, signals, calls or replies, or writes are outstanding"),
], note="every schedule in the bounds; termination, handlers, memory and data races", outside="more preemptions; a connection destroyed by one of its own handlers",
    assumptions=[SCHED, "the socket's shutdown makes pending reads and writes complete"])
check("C28", [
    E(NA, "stats", {"steps": 3}, {"steps": 4}, reach=["done"], share=4, time=300, ttime=1800, bounds="every history of {steps} sends, receives, failures and the authentication at any point"),
    E(CO, "pairs", {"arrive": 1}, {"arrive": 1}, reach=["done"], share=4, preempt=1, races=True, time=300, ttime=1800, bounds="two threads' operations"),
    E(MA, "many_counted", {"numbers": 6}, {"numbers": 7}, reach=["done"], max_insts=400000000, ttime=1800, bounds="the first {numbers} of 7 numbers, from 9 to 300, of one kind of event"),
], note="all counters after every step", outside="longer histories; counts beyond 64 bits", assumptions=[SCHED])
check("C29", [
    E(NA, "convenience", {"maxlen": 6}, {"maxlen": 12}, reach=["done"], ttime=1500, bounds="every call, names and rules of up to {maxlen} arbitrary bytes, all flags"),
], note="the message that each call sends, and its callbacks", outside="longer arguments")
check("C31", [
    E(CO, "pairs", {"arrive": 1}, {"arrive": 4}, reach=["done"], share=4, preempt=1, races=True, time=300, ttime=2400, bounds="two threads making every pair of 11 operations"),
    E(CO, "pairs", {"inside": 1}, {"inside": 1}, reach=["done"], share=4, preempt=1, races=True, time=300, ttime=1800, bounds="a thread making every operation while a handler of a signal, call, reply or rule makes every operation"),
    E(TR, "writers", {"threads": 2, "each": 1}, {"threads": 2, "each": 2}, reach=["done"], share=4, preempt=2, races=True, ttime=1500, bounds="{threads} threads sending {each} messages each, one partial write"),
], note="every pair of operations, every schedule with the stated preemptions; deadlocks, data races, registrations, messages", outside="more threads and preemptions", assumptions=[SCHED])
VA = "values.cpp"
check("C32", [
    E(VA, "own_type", {"depth": 1}, {"depth": 2, "maxarr": 1, "maxstr": 0}, reach=["built", "decoded"], ttime=1500, bounds="every shape of depth {depth}, built and decoded in both orders, and each value in it: as it is, copied, assigned, moved, held as any type"),
    E(VA, "changed_type", {}, {"more": 3}, reach=["changed"], ttime=1500, bounds="structs, arrays and dictionary entries that were built or decoded, then given more, other or different contents"),
    E(VA, "wide_type", {}, {}, reach=["wide"], bounds="structs of 15 widths up to 251 fields, alone, in arrays, structs and dictionaries"),
    E(VA, "blank_type", reach=["done"], bounds="values of every type that have just been made"),
    E(VA, "decoded_type", {"maxsig": 3, "maxdata": 5}, {"maxsig": 4, "maxdata": 6}, reach=["decoded", "refused"], ttime=1500, share=2, bounds="every signature text up to {maxsig} bytes, every body up to {maxdata} bytes"),
    E(VA, "own_type", {"spine": 3, "maxarr": 1}, {"spine": 4, "maxarr": 1}, reach=["built", "decoded"], ttime=1500, bounds="one container at each of {spine} levels"),
], note="the type a value tells against the type it was made with, for built values, copies and whatever could be decoded", outside="deeper shapes, longer signatures; the types of a dictionary entry's parts, which have no accessor")
check("C33", [
    E(VA, "description_basic", {"maxprefix": 0, "maxstr": 3}, {"maxprefix": 2, "maxstr": 8}, reach=["done"], ttime=1500, share=2, bounds="every value of every basic type but double, texts up to {maxstr} bytes, prefixes up to {maxprefix} bytes"),
    E(VA, "description_container", {"maxarr": 1}, {"maxarr": 2}, reach=["built", "decoded"], ttime=1500, share=2, bounds="containers of depth 1 with up to {maxarr} elements, variants, a symbolic prefix"),
    E(VA, "description_container", {"depth": 2, "maxarr": 1, "fields": 1, "vardepth": 0}, {"depth": 2, "maxarr": 1, "fields": 2, "vardepth": 0}, reach=["built", "decoded"], ttime=1500, bounds="containers of depth 2"),
    E(VA, "description_container", {"spine": 2, "maxarr": 1, "maxprefix": 0}, {"spine": 2, "maxarr": 1}, reach=["built", "decoded"], ttime=1500, bounds="one container at each of {spine} levels"),
], note="the description of symbolic values against an independent description", outside="floating point numbers; the digits of numbers within containers (description_basic decides them); deeper and larger containers")
CV = "conversation.cpp"
check("C34", [
    E(CV, "conversation", {"calls": 1, "depth": 1}, {"calls": 1, "depth": 1, "params": 2, "maxarr": 2}, reach=["answered", "no answer"], ttime=1500, share=2, bounds="a call with arguments, or an answer, of every shape of depth {depth}, every flags byte and counter state, both byte orders; returned, refused, or its arguments returned"),
    E(CV, "conversation", {"calls": 2, "params": 0}, {"calls": 2, "params": 1}, reach=["answered", "no answer"], ttime=1500, bounds="{calls} calls, answered at once or later in either order, arriving together or apart"),
    E(CV, "conversation", {"calls": 1, "cuts": 120, "params": 0}, {"calls": 1, "cuts": 200, "params": 1}, reach=["answered", "no answer"], ttime=1500, bounds="cut after every byte"),
    E(CV, "pass_on", {"depth": 1}, {"depth": 2, "maxstr": 0}, reach=["done"], ttime=1500, bounds="a call or signal with a parameter of every shape of depth {depth}, passed on as a call, an answer, a signal"),
    E(CV, "own_signals", {"signals": 2}, {"signals": 2, "depth": 1}, reach=["done"], ttime=1500, bounds="{signals} signals with parameters of depth {depth}, to a handler and a rule"),
    E(CV, "long_conversation", {"sizes": 6, "cuts": 4}, {"sizes": 10, "cuts": 9}, reach=["done"], max_insts=400000000, ttime=1500, bounds="a call with a long argument of 5 shapes of {sizes} sizes (of 127 to 70000 bytes), which is returned; both byte orders, the stream cut in {cuts} places, the peer slow to read or not"),
    E(CV, "pass_on", {"spine": 2, "depth": 1}, {"spine": 3, "depth": 1}, reach=["done"], ttime=1500, bounds="a parameter with one container at each of {spine} levels, passed on"),
], note="connections talking through a bus of the harness's own: what one side gives is what the other side gets, once", outside="more calls at once, deeper parameters; two connections in one process")
NOT_APPLICABLE = {}
