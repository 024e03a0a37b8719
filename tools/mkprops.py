#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Marshaling produces exactly the TPM 2.0 wire encoding",
  "For every value of every TPM structure, union, list, sized buffer, command and response type that can be marshaled, the bytes written are exactly those the TPM 2.0 Part 2 layout prescribes: integers big-endian, fields in specification order, a list as its count followed by only that many elements, a sized buffer as a 16-bit length followed by only that many bytes, a union as its specification selector value (at the place the enclosing structure puts it) followed by only the selected member. The reported length is exactly the number of bytes written.",
  ["inputs"], "all marshalable types of the base crate x all values of each (every union arm, list count and buffer length from 0 to capacity, every integer value)",
  "The unit tests marshal one or two hand-picked values of a few types and most of them only check that unmarshal undoes marshal, so a wrong selector, order or count in both directions passes; most union arms, list sizes and attestation/creation structures are never encoded.",
  ["base/src/lib.rs", "base/src/constants.rs", "base/src/commands/*.rs", "marshalable/src/lib.rs", "marshalable-derive/src/lib.rs"],
  [("derived marshal bodies", "marshalable-derive/src/lib.rs"), ("hand-written TPMT_PUBLIC / TPMT_SENSITIVE / TPMS_ATTEST impls", "base/src/lib.rs")],
  ["Marshalable::try_marshal output"])
p("C02", "Unmarshaling inverts marshaling and consumes exactly the value's bytes",
  "For every value of every marshalable type, unmarshaling its wire encoding yields an equal value, and re-marshaling that yields the same bytes. Exactly the bytes of the encoding are consumed, so any bytes following it are left in the buffer untouched for the next value, and several values written one after another decode in order.",
  ["inputs", "histories"], "all marshalable types x all values x arbitrary trailing bytes and concatenations",
  "Existing round-trip tests sample a handful of values of a few types, almost never with trailing data or at the capacity limits.",
  ["base/src/lib.rs", "base/src/commands/*.rs", "marshalable/src/lib.rs", "marshalable-derive/src/lib.rs"],
  [("derived unmarshal bodies", "marshalable-derive/src/lib.rs"), ("UnmarshalBuf cursor", "marshalable/src/lib.rs")],
  ["Marshalable::try_unmarshal result and remaining length"])
p("C03", "Unmarshaling untrusted bytes never panics and accepts only valid encodings",
  "For every byte string and every marshalable type, unmarshaling returns without panicking: it succeeds exactly when the bytes start with a valid encoding of that type (enough bytes present, every list count and buffer length within the type's capacity, every union selector known) and otherwise returns an error. The error tells the cause: end of data when bytes are missing, array length exceeded when a list count is above capacity, unknown selector when no union member matches. Whatever is accepted re-marshals to exactly the bytes that were consumed.",
  ["inputs"], "all byte strings (random, mutated-valid, truncated, length/selector corrupted) x all marshalable types",
  "Tests feed a few well-formed buffers and four malformed ones; the space of truncations, corrupted counts and selectors inside nested types is untouched.",
  ["base/src/lib.rs", "base/src/commands/*.rs", "marshalable/src/lib.rs", "marshalable-derive/src/lib.rs"],
  [("length checks and selector dispatch in derived code", "marshalable-derive/src/lib.rs"), ("UnmarshalBuf::get bounds", "marshalable/src/lib.rs")],
  ["Marshalable::try_unmarshal result"])
p("C04", "Marshaling into any destination is bounded, total and panic-free",
  "Marshaling a value into a destination of any length never panics: it succeeds if and only if the destination has room for the whole encoding, and reports an error (end of buffer) otherwise. Bytes of the destination beyond the reported length are never modified. A value whose public count field claims more elements than its array holds is refused with an array-length error instead of being encoded.",
  ["inputs"], "all marshalable types x all values x all destination lengths (including every length below the encoding's), plus inconsistent count fields",
  "Tests use one too-small buffer per scalar/buffer type and otherwise marshal into ample buffers.",
  ["base/src/lib.rs", "marshalable/src/lib.rs", "marshalable-derive/src/lib.rs"],
  [("bounds checks in primitive, sized-buffer and length-array marshal code", "marshalable/src/lib.rs, marshalable-derive/src/lib.rs")],
  ["Marshalable::try_marshal result and destination contents"])
p("C05", "Sized buffers hold exactly the bytes given, up to capacity",
  "A TPM2B sized buffer can be built from a byte string if and only if it is no longer than the type's capacity, and then reports exactly that length and exactly those bytes through every accessor and on the wire; a default one is empty. A sized buffer that wraps a structure contains exactly the structure's encoding, and extracting the structure gives back an equal one; extracting from bytes that are not a valid encoding is an error, never a panic.",
  ["inputs"], "all sized-buffer types x all lengths around 0..capacity+N x all contents; all wrapped structures",
  "Unit tests use constant-filled arrays at four lengths per type and one or two structure conversions.",
  ["marshalable-derive/src/lib.rs", "base/src/lib.rs"],
  [("tpm2b_simple derive", "marshalable-derive/src/lib.rs"), ("Tpm2bStruct derive", "marshalable-derive/src/lib.rs")],
  ["from_bytes/get_size/get_buffer/as_ref/from_struct/to_struct"])
p("C06", "TPM lists behave as bounded sequences under any history",
  "Any sequence of constructing, appending to, reading, marshaling and unmarshaling a TPM list type behaves like a bounded sequence: construction from a slice and append succeed if and only if the result fits the list's capacity, elements come back in insertion order, and the count equals the number of elements. A rejected append or construction reports a size error and leaves the list unchanged.",
  ["histories", "inputs"], "all operation sequences over all list types, including lists filled to capacity",
  "Tests build one list with a couple of elements; capacity edges and histories mixing append with wire round-trips are not exercised.",
  ["base/src/lib.rs"], [("impl_tpml! new/add/count/accessor", "base/src/lib.rs")],
  ["list API results and wire bytes"], [dict(name="count / element array", meaning="number of live elements", where="base/src/lib.rs Tpml*")])
p("C07", "Derived marshaling is correct for any user-defined type",
  "For any user type the derive macros accept (named, tuple and unit structs; nested types; fixed arrays; arrays with a designated length field; tagged enums with any integer representation, several fields per variant and sparse selectors; sized buffers, plain and wrapping a structure), the generated code encodes fields in declaration order with big-endian integers, encodes only the counted elements of length-governed arrays, writes the selector before the variant, and decodes exactly what it encodes. Decoding rejects truncated input, over-capacity counts and unknown selectors, and encoding into too small a destination is an error; neither ever panics.",
  ["programs", "inputs"], "generated type definitions (random shapes, freshly compiled) x values x byte strings x destination lengths",
  "The derive tests cover a few fixed types with a few fixed values; the macro must be right for every type a vendor writes.",
  ["marshalable-derive/src/lib.rs", "marshalable/src/lib.rs"],
  [("derive macro code generation", "marshalable-derive/src/lib.rs")],
  ["derived impls of generated types"])
p("C08", "Every command sent is a well-formed TPM command frame",
  "For any command, handles and zero to three sessions, the client sends the transport exactly one frame per call consisting of: the sessions tag exactly when at least one session is given (otherwise the no-sessions tag), the total frame size, the command code, the command handles, then (only with sessions) the byte size of the authorization area followed by each session's authorization in the order given, then the command parameters. A command whose frame exceeds the 4096-byte command buffer is refused with an error and nothing is sent; writing the authorization area into too small a buffer is an error, never a panic.",
  ["inputs", "configurations"], "all command/handle/parameter contents and sizes up to and beyond the buffer limit x 0..3 sessions of arbitrary contents",
  "Tests send one fixed u32 command and never inspect the authorization area, sizes or limits with sessions.",
  ["crates/tpm2-client/src/lib.rs", "crates/tpm2-client/src/sessions/authorization_area/*.rs", "base/src/commands/*.rs"],
  [("run_command_with_handles / write_command_sessions / CmdHeader", "crates/tpm2-client/src/lib.rs")],
  ["bytes passed to Connection::transact"])
p("C09", "The client trusts only complete, well-formed TPM responses",
  "For any bytes the transport delivers, the client call returns without panicking. A non-zero response code is returned to the caller as exactly that error; a success is returned only if the header's size is consistent with the bytes actually received and those bytes decode completely as header, response handles, response parameters and session authorizations with nothing left over, in which case the returned handles and parameters are exactly those encoded. Anything else (truncated, oversized, trailing or malformed data) and any transport error is returned as an error.",
  ["inputs", "fault_sequences"], "all response byte strings, valid, corrupted, truncated or padded, claimed sizes, tags, response codes and transport failures x commands with and without response handles and sessions",
  "Tests cover five fixed responses; inconsistent sizes and short reads are not among them.",
  ["crates/tpm2-client/src/lib.rs"],
  [("read_response_header / run_command_with_handles", "crates/tpm2-client/src/lib.rs")],
  ["return value of run_command / run_command_with_handles / read_response_header / get_capability"])
p("C10", "Session authorizations are sent and validated faithfully",
  "A password session can be created exactly for secrets of at most 64 bytes and sends the password handle, an empty nonce, no attributes and exactly the secret. It accepts a response authorization only if nonce and authorization value are empty and the attributes are exactly continue-session. With one to three sessions of any kind a command succeeds only if every session's response authorization is present and accepted by that very session, in order; the first rejection is what the caller gets.",
  ["inputs", "configurations"], "all secrets, all response authorizations, all combinations of 1..3 accepting/rejecting/password sessions",
  "Tests check one password and one invalid attribute value with a single session.",
  ["crates/tpm2-client/src/sessions/*.rs", "crates/tpm2-client/src/sessions/authorization_area/*.rs", "crates/tpm2-client/src/lib.rs"],
  [("PasswordSession", "crates/tpm2-client/src/sessions/password.rs"), ("read_response_sessions", "crates/tpm2-client/src/lib.rs")],
  ["auth command bytes, validate_auth_response, run_command_with_handles result"])
p("C11", "Response codes and errors keep their exact numeric meaning",
  "Every error value carries the numeric code the TPM/TSS specifications assign to it and keeps it unchanged through every conversion (TPM error to TSS error, marshaling error to TPM error to TSS error, TSS error to I/O error); any non-zero 32-bit response code, and only those, converts to an error with that code. A format-one error built for a parameter, handle or session position encodes the specified type and number bits, and decoding it reports exactly that type and position; codes without a position report none, and exactly the warning codes are reported as warnings.",
  ["inputs"], "all named errors, all (error kind, type, position) combinations, all 32-bit codes",
  "The tests check one parameter error and one warning.",
  ["crates/tpm2/src/errors/*.rs", "crates/tpm2/src/errors/tpm_rc/mod.rs", "marshalable/src/errors.rs", "crates/tpm2-impl/src/error.rs"],
  [("TpmRcError / ErrorType / ErrorPosition masks", "crates/tpm2/src/errors/tpm_rc/mod.rs"), ("layer error macro", "crates/tpm2/src/errors/tss_rc.rs")],
  ["get(), format1_parameter(), is_warning(), conversions"])
p("C12", "Core-crate marshaling respects limits, sizes and borrowed digests",
  "With the core crate's limit-aware marshaling, for every value, limit set and buffer: marshaling succeeds if and only if the value's hash algorithm is supported and the buffer is large enough, writes exactly the big-endian encoding of exactly the announced size at the front, and returns the untouched remainder; the announced size never exceeds the announced maximum for limits that support it. Unmarshaling succeeds if and only if the algorithm is known, representable and supported and enough bytes are present, yields the encoded value and the exact unconsumed remainder, and otherwise returns an error without changing the target. No input panics.",
  ["inputs", "configurations"], "all integers/arrays/algorithm ids/digests x all 256 subsets of supported hashes x all buffers",
  "The core crate has a single size_of test; nothing exercises limits or marshaling.",
  ["crates/tpm2/src/marshal.rs", "crates/tpm2/src/tpmi.rs", "crates/tpm2/src/tpmt.rs", "crates/tpm2/src/constants.rs"],
  [("Marshal/Unmarshal blanket impls", "crates/tpm2/src/marshal.rs"), ("TpmtHa impls", "crates/tpm2/src/tpmt.rs")],
  ["marshal/unmarshal/marshaled_size/marshaled_size_max"])
p("C13", "The TPM server answers every request with one well-formed response",
  "For any request bytes, any request length and any response buffer size, in either the separate-buffer or the in-place mode, executing a command never panics and returns a length within the response buffer; if the buffer has room for a header the result is a complete response whose header holds the no-sessions tag, a size equal to the returned length, and the response code, otherwise nothing is returned. Requests that are shorter than a header or whose size field differs from the request length get the command-size error, unknown command codes the command-code error, and responses that do not fit the memory error. Bytes beyond the returned length are never modified, and both modes give identical responses.",
  ["inputs", "histories"], "all request byte strings x declared lengths x response buffer sizes x both modes, in sequences on one context",
  "Two tests send one valid GetRandom each; no malformed request, small buffer or error response is tested.",
  ["crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/req_resp.rs", "crates/tpm2-impl/src/buffers/*.rs", "crates/tpm2-impl/src/handler/*.rs"],
  [("execute_command / fill_error", "crates/tpm2-impl/src/tpmctx.rs"), ("RequestResponseCursor", "crates/tpm2-impl/src/req_resp.rs"), ("InOutBuffer", "crates/tpm2-impl/src/buffers/inout.rs")],
  ["returned length and response buffer"])
p("C14", "GetRandom returns fresh generator output, reseeding whenever required",
  "Over any history of commands, each successful random request returns exactly the requested number of bytes and they are exactly the bytes the random generator produced for that request; no generator output is returned twice. The generator is instantiated with entropy and a nonce each freshly and completely filled from the entropy source, and whenever it reports that reseeding is required it is reseeded with fresh, completely filled entropy before producing any output. A failure of the generator (at creation, reseeding or generation) is reported as an error, as the TPM failure code to a command, and never as a success or a panic, and later commands still work.",
  ["histories", "fault_sequences"], "all command sequences with arbitrary request sizes x reseed-required schedules x generator faults at any step, several contexts interleaved",
  "Tests use a generator that never needs reseeding and never fails, and one request per context.",
  ["crates/tpm2-impl/src/handler/random.rs", "crates/tpm2-impl/src/crypto.rs", "crates/tpm2-impl/src/tpmctx.rs"],
  [("try_get_random reseed logic", "crates/tpm2-impl/src/handler/random.rs"), ("Crypto::new", "crates/tpm2-impl/src/crypto.rs")],
  ["responses versus the call log of a scripted generator and entropy source"],
  [dict(name="DRBG state", meaning="generator held by the context", where="crates/tpm2-impl/src/crypto.rs")])
p("C15", "Server byte buffers never read or write out of bounds",
  "For any offset and length, including ones whose sum overflows, a read or write on a platform byte buffer succeeds if and only if the whole range lies inside the buffer; a successful operation transfers exactly that range, and a failed one reports an out-of-bounds error, changes nothing and does not run the write callback. Multi-byte reads are big-endian. The server works identically over any custom request and response buffer that honours this contract, touches request bytes only within the request's length, and reports the memory error when the response buffer refuses a write.",
  ["inputs", "histories", "configurations"], "all buffers x offsets x lengths, sequences of reads/writes against a byte-array model, custom buffers with injected refusals",
  "Buffers are exercised only through two in-bounds commands on slices.",
  ["crates/tpm2-impl/src/platform/buffer.rs", "crates/tpm2-impl/src/buffers/*.rs", "crates/tpm2-impl/src/req_resp.rs"],
  [("TpmReadBuffer/TpmWriteBuffer for [u8]", "crates/tpm2-impl/src/platform/buffer.rs"), ("InOutBuffer::read_into", "crates/tpm2-impl/src/buffers/inout.rs")],
  ["read_into/write/write_callback results and buffer contents"])
p("C16", "Random-generator helpers preserve the generator's byte stream",
  "The helpers that implement one generator operation in terms of another are faithful for every generator, destination length and additional input: filling via word generation yields the little-endian bytes of successive words completely filling the destination, and word generation via filling (or via smaller words) yields the little-endian value of the bytes produced in order. Additional input is supplied exactly once, with the first underlying call, and any underlying failure is returned as failure.",
  ["inputs", "fault_sequences"], "all destination lengths, additional inputs and generator streams x failure at any underlying call",
  "The helpers are used by the test fake but no test examines their results.",
  ["crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs"],
  [("fill_bytes_via_next / next_u32_via_fill / next_u64_via_fill / next_u64_via_u32", "crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs")],
  ["helper results versus the call log of a scripted generator"])
p("C17", "The simulator connection speaks the TCP protocol and survives faults",
  "Over any sequence of operations, the simulator connection sends on the correct socket exactly the protocol message of each operation (command code, current locality and big-endian lengths included), and succeeds if and only if the peer delivers the complete reply including the zero terminator, however the bytes are fragmented, returning exactly the payload. A closed connection at any byte, a non-zero terminator or an ill-sized reply yields an error, never a panic, a hang or made-up data. A reply too large for the caller's buffer is an error that leaves the connection usable for the next operation.",
  ["histories", "fault_sequences", "inputs"], "operation sequences x payloads x fragmentation schedules x disconnection/corruption at every byte of every reply",
  "The connection is only exercised by simulator tests that are not run by default (no simulator is available); no test covers faults.",
  ["crates/tpm2-client/src/connection/tcp.rs"],
  [("TcpConnection operations / check_response_end", "crates/tpm2-client/src/connection/tcp.rs")],
  ["bytes seen by a scripted peer, operation results"])
p("C18", "Constants, attribute bits and handle ranges match the TPM specification",
  "Every named algorithm id, curve, command code, response code, structure tag, capability, property, handle, handle type, NV type and attribute bit has the value the TPM 2.0 specification assigns, and digest sizes match the algorithm. For every 32-bit value, classification as HMAC session, policy session or NV index, and conversion to an NV-index or session handle, holds exactly for the specified ranges (plus the password handle for sessions) and otherwise fails with the value error. Reading or setting the NV index type affects exactly its four bits and no other attribute.",
  ["inputs"], "all named constants; all 32-bit handles; all 32-bit attribute words x all NV types",
  "A few range tests exist at some boundaries; most constants and bits are never compared with anything.",
  ["base/src/constants.rs", "base/src/lib.rs", "crates/tpm2/src/constants.rs", "crates/tpm2/src/tpmi.rs"],
  [("open_enum definitions, TpmHc ranges", "base/src/constants.rs"), ("bitflags and attribute field helpers", "base/src/lib.rs")],
  ["constant values, is_* predicates, TryFrom results, TpmaNv accessors"])
p("C19", "Client and server of this repository interoperate",
  "When the client's transport is this repository's TPM server, a random-bytes request returns to the caller exactly the number of bytes requested (for up to 64) as generated by the server's generator, and every other command the client can issue is answered with the command-code error, which reaches the caller as exactly that code. Server-side failures reach the caller as exactly their response codes and never as a success.",
  ["inputs", "histories", "fault_sequences"], "all client command sequences with arbitrary contents against one server context, with generator faults",
  "No test connects the two crates.",
  ["crates/tpm2-client/src/lib.rs", "crates/tpm2-impl/src/tpmctx.rs", "crates/tpm2-impl/src/handler/random.rs", "base/src/commands/*.rs"],
  [("run_command", "crates/tpm2-client/src/lib.rs"), ("execute_command", "crates/tpm2-impl/src/tpmctx.rs")],
  ["client call results against the generator's log"])
p("C20", "The simulator manager owns the simulator process for its whole life",
  "Starting a simulator launches the given program with the given arguments in the given directory and connects to the two ports the program announces there, waiting for files that appear, and ports that open, within the first seconds. If starting fails for any reason an error is returned and no simulator process is left running. When the manager is dropped, or asked to stop, the simulator is told to stop on both of its ports, or killed if it cannot be told.",
  ["histories", "fault_sequences", "schedules"], "launch/announce/accept schedules with delays, missing or malformed port files, refused connections, peers that vanish before the stop",
  "The manager is only used by simulator tests that never run by default.",
  ["crates/tpm2-client/src/connection/tcp.rs"],
  [("TcpSimulator::new / Drop", "crates/tpm2-client/src/connection/tcp.rs")],
  ["child process state, argv/cwd recorded by a stand-in simulator, bytes on its ports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
