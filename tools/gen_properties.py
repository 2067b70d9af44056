#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Only frames that validate are delivered, unless invalid ones were asked for",
 "Every frame a stream hands out on its read channel is a complete candidate frame found in the received bytes that the stream's dialects accepted as valid. A frame the dialects reject is handed out only by a stream that was created to return invalid frames, and then as it was received.",
 ["inputs", "configurations"], "Every byte sequence on the transport, every chunking of it, every dialect list, both settings of the invalid-frame option.",
 "The tests feed about ten hand-made byte strings; whether some path hands out an unchecked frame is a question about all paths of the reader.",
 ["stream.go", "dialect.go"], [("readFrame validates before it returns a frame", "stream.go:readFrame"), ("ReadContext sends only what readFrame returned without error", "stream.go:ReadContext"), ("Validate", "dialect.go:Dialects.Validate")], ["FrameStream.Read()"])

prop("C02", "The reader resynchronises byte by byte and loses no complete valid frame",
 "Reading consumes the received bytes strictly in order: after a valid frame exactly the bytes of that frame are consumed, and after anything else (a byte that starts no frame, a rejected candidate, a candidate cut off by the end of the stream) exactly one byte is. So a valid frame is found whatever garbage, false start byte or rejected candidate precedes it, no byte is examined twice as part of two delivered valid frames, none is skipped, and the result does not depend on how the transport cuts the bytes into reads.",
 ["inputs", "schedules", "fault_sequences"], "Every byte sequence, every chunking, end of stream or read error at every position.",
 "Tests sample a few offsets and deliver everything in one chunk; the claim is an invariant of the buffer over all histories of reads.",
 ["stream.go"], [("buffer window: buffer[0:bufferIndex] is the unconsumed part of the stream", "stream.go:readFrame"), ("peekHeader computes the candidate's length", "stream.go:peekHeader")], ["FrameStream.Read()"],
 [("buffer/bufferIndex", "received but not yet consumed bytes", "stream.go:FrameStream"), ("readErr", "sticky read error", "stream.go:FrameStream")])

prop("C03", "A delivered frame is a private, exact copy of the bytes on the wire",
 "A frame handed out by a stream consists of exactly the bytes of that frame as they were received, from its start byte to its last checksum or signature byte, and shares no memory with the stream: nothing the stream reads or does later changes a frame that was delivered or logged.",
 ["inputs", "histories"], "Every received byte sequence and every later history of the stream.",
 "The tests look at a frame right after it was delivered; a frame that aliases the reader's buffer still looks right then.",
 ["stream.go", "frame.go"], [("FrameFromBytes with makeCopy", "frame.go:FrameFromBytes"), ("readFrame copies before it shifts the buffer", "stream.go:readFrame")], ["FrameStream.Read()", "FrameLogger.LogRead"])

prop("C04", "No bytes from the wire can make the library panic",
 "Whatever bytes arrive, neither reading them from a stream, validating the candidates found in them, nor calling any accessor or the text rendering of a frame the stream delivered, nor decoding such a frame into a message, panics or reads outside the frame. Building a frame from fewer bytes than announced is refused with an error.",
 ["inputs"], "Every byte sequence, both frame versions, signed and unsigned, valid or not.",
 "Tests run a handful of inputs; an out-of-range index needs one particular length, flag or offset.",
 ["stream.go", "frame.go", "dialect.go", "message.go"], [("buffer of twice the maximal frame length", "stream.go:NewFrameStreamWithLogger"), ("length checks before indexing", "stream.go:readFrame"), ("accessor bounds", "frame.go"), ("length check", "frame.go:FrameFromBytes")], ["any accessor of a delivered Frame"])

prop("C05", "Frame accessors read the fields where the MAVLink headers have them",
 "For every complete version 1 or version 2 frame the accessors report the payload length, sequence number, system id, component id, message id (8 bits in version 1, 24 bits little-endian in version 2), incompatibility and compatibility flags, payload, checksum, checksummed bytes and raw bytes from the positions the MAVLink packet format gives them, without changing the frame. The signature accessor yields the 13 bytes after the checksum if the signed incompatibility flag is set, and nothing otherwise.",
 ["inputs"], "Every complete frame of both versions with every header value and payload length.",
 "Tests check one heartbeat in which most header bytes are zero; swapped or shifted fields need distinct values in every position and version.",
 ["frame.go"], [("FrameV1 accessors", "frame.go:FrameV1"), ("FrameV2 accessors", "frame.go:FrameV2")], ["Frame interface"])

prop("C06", "A built frame carries exactly what was asked for, or building fails",
 "For every message known to the dialects, building a frame yields one of the requested version whose accessors report the given sequence number, system id and component id, the message's id, the encoded payload and its length, no flags, and a checksum that the dialects accept. A version other than 1 or 2, a message id or a payload that does not fit the header, an unknown message and a payload encoding error are reported as errors, with no frame.",
 ["inputs", "configurations"], "Every version, sequence, system id, component id, message, payload length and dialect list.",
 "No test builds a frame at all.",
 ["stream.go", "dialect.go", "frame.go"], [("packFrame", "stream.go:packFrame"), ("GetFrame looks up the metadata", "dialect.go:Dialects.GetFrame")], ["Dialects.GetFrame"])

prop("C07", "The checksum is CRC-16/MCRF4XX over any division of the input",
 "The checksum object computes the MAVLink (X.25, CRC-16/MCRF4XX) checksum: starting from 0xffff after a reset, every byte of every write updates it by the reflected polynomial 0x8408, in order, whatever the content and however the input is divided into writes. Asking for the sum appends the two bytes in little-endian order and does not change the state, a write reports all bytes as written without error, and the size reported is that of the sum.",
 ["inputs", "histories"], "Every byte string, every starting state, every division into writes.",
 "Tests see the checksum only through a few frames; a wrong bit of the update shows only for certain byte/state pairs.",
 ["x25.go"], [("bitwise-parallel update of the register", "x25.go:X25CRC.Write"), ("Sum, Reset", "x25.go")], ["X25CRC"])

prop("C08", "Validation accepts a frame exactly if its length and checksum fit the message",
 "A frame is accepted if and only if some loaded dialect knows its message id, its payload is not longer than the maximum (and, for version 1, not shorter than the minimum) length of that message, and its checksum equals the checksum over all its bytes after the start byte up to the end of the payload followed by that message's extra byte. Otherwise the error names the first of these conditions that fails, an error of a dialect other than 'unknown message' is passed on, and validation changes neither the frame nor the dialects.",
 ["inputs", "configurations"], "Every complete frame of both versions, every dialect list and metadata.",
 "Tests try one wrong checksum; boundary lengths, other dialects in the list, the second frame version and aliasing of the frame's own bytes are not reached.",
 ["dialect.go"], [("Validate", "dialect.go:Dialects.Validate"), ("GetChecksumInput/GetChecksum", "frame.go")], ["Dialects.Validate"])

prop("C09", "Dialect lists answer with the first dialect that knows the message",
 "Looking a message up in a list of dialects asks them in list order, takes the answer of the first one that does not report the message as unknown (an error included) and asks no further one. If none knows it (or the list is empty), building and validating report 'unknown message', and decoding reports it together with a placeholder message that holds the frame's message id, version and a private copy of the whole payload.",
 ["configurations", "inputs"], "Every list of dialects (empty, overlapping, failing), every message id.",
 "Tests use one fixed list whose first dialect knows nearly every message used.",
 ["dialect.go", "message.go"], [("GetMessage/GetFrame/Validate loops", "dialect.go"), ("UnknownMessage.Read", "message.go")], ["Dialects.GetMessage", "Dialects.GetFrame", "Dialects.Validate"])

prop("C10", "Every message has the payload layout the MAVLink definition gives it",
 "For every message of every dialect, the encoded payload consists of the defined fields with their defined types and array lengths, in MAVLink wire order (base fields by decreasing element size, then extension fields in definition order), little-endian and without padding. The checksum extra byte and the minimal and maximal payload length the dialect reports for the message are the ones that follow from that definition.",
 ["inputs", "programs"], "All 329 messages of the ten dialects, every field of each.",
 "Two of the 329 messages occur in tests; a swapped pair of equally sized fields or a wrong extra byte in any other message goes unnoticed.",
 ["common/*.go", "ardupilotmega/*.go", "asluav/*.go", "autoquad/*.go", "icarous/*.go", "matrixpilot/*.go", "paparazzi/*.go", "slugs/*.go", "uAvionix/*.go", "ualberta/*.go"], [("message structs", "*/<message>.go"), ("metadata tables", "*/dialect.go")], ["Message.Write", "Message.Read", "Dialect.GetMeta"])

prop("C11", "Each dialect decodes every message id it lists into the message of that id",
 "For every message id, a dialect either knows both its metadata and how to decode it, or reports the message as unknown for both. Decoding a frame with a known id yields a fresh message of the type that has this id and the dialect's name, filled from that frame, and passes on its decoding error; the message reports its own name.",
 ["inputs"], "All 32-bit message ids in all ten dialects.",
 "Tests decode no message; two ids of one dialect are looked up.",
 ["*/dialect.go", "*/<message>.go"], [("<dialect>Messages / <dialect>Parsers tables", "*/dialect.go"), ("GetID/GetMessageName/GetDialect", "*/<message>.go")], ["Dialect.GetMeta", "Dialect.GetMessage"])

prop("C12", "Decoding fills every field from the payload and treats missing bytes as zero",
 "For every message and every frame whose payload does not exceed the message's maximum, decoding sets every field from its bytes of the payload in little-endian order, with all bytes the payload lacks taken as zero, independently of the message's previous content, and notes extension values exactly for version 2 frames of messages that define extensions. A frame version other than 1 or 2, a version 1 frame for a message id above 255, and a payload that cannot be decoded yield an error and never a panic.",
 ["inputs"], "All messages, all payload contents and lengths, both versions and invalid ones.",
 "No test decodes a message.",
 ["*/<message>.go"], [("Read", "*/<message>.go"), ("getIOSlice", "*/<message>.go")], ["Message.Read"])

prop("C13", "Encoding emits all fields, cut to the form each protocol version requires",
 "For every message and every field content, version 1 encoding yields exactly the base fields (no extensions) at full length, and version 2 encoding yields all fields with trailing zero bytes removed, at least one byte being kept, never more than the maximum length and without changing the message. A version other than 1 or 2, and version 1 for a message id above 255, are refused with an error and no output.",
 ["inputs"], "All messages, all field values, every requested version.",
 "No test encodes a message; all-zero and extension-only payloads are the cases that go wrong.",
 ["*/<message>.go", "util/util.go"], [("Write", "*/<message>.go"), ("TruncateV2", "util/util.go"), ("getV1Length", "*/<message>.go")], ["Message.Write"])

prop("C14", "Text fields store a string up to their size and give back what was stored",
 "Setting a text field of a message stores the string's bytes followed by zeroes up to the field's size and touches no other field; a string longer than the field is cut to the field's size and reported with a 'too long' error. Getting it yields the bytes up to the first zero byte, or the whole field if there is none, so any string without zero bytes that fits is returned unchanged whatever the field held before.",
 ["inputs", "histories"], "All 40 text fields, every string (empty, exactly full, too long), every previous content.",
 "No test sets or gets a text field.",
 ["*/<message>.go", "util/util.go"], [("Set<Field>/Get<Field>", "*/<message>.go"), ("CStrLen", "util/util.go")], ["Set*/Get* methods of messages"])

prop("C15", "The text rendering of a message shows every field under its own name",
 "The text rendering of a message shows the dialect and message name and then every field of the message exactly once, in payload order, each with the value of that very field; extension fields are shown if and only if the message has extension values.",
 ["inputs"], "All messages, with and without extension values.",
 "No test renders a message.",
 ["*/<message>.go"], [("String", "*/<message>.go")], ["Message String()"])

prop("C16", "Enumeration constants have the values of the MAVLink definition",
 "Every exported enumeration constant of every dialect has the numeric value the MAVLink definition assigns to it, within one enumeration no two entries share a value, and the end marker is one more than the largest entry of its enumeration.",
 ["programs"], "All enumeration constants of all dialects.",
 "No test uses an enumeration constant.",
 ["*/enums.go"], [("constant declarations", "*/enums.go")], ["exported constants"])

prop("C17", "Closing a stream takes effect exactly once and never panics",
 "Under any interleaving of closing calls, reads, writes and failures, the first cause of closing is recorded and never replaced, the transport is closed once, and the closed channel and the frame channel are each closed exactly once and only after the cause can be read. No interleaving sends on a closed channel, closes a channel twice or deadlocks the closer.",
 ["schedules", "histories"], "All interleavings of any number of Close calls with the reader and the writer loop, context cancellation, transport errors.",
 "Tests never close a stream while it is in use; the panic needs a close between the check and the send.",
 ["stream.go"], [("closeOnce", "stream.go:close"), ("deliver checks closed under the delivery mutex", "stream.go:deliver")], ["FrameStream.Close", "Closed", "Read", "GetCloseErr"])

prop("C18", "Reader and writer loops end when the context is done or the stream is closed",
 "Whenever the reader or the writer loop returns, the stream has been closed: with the context's error if the context was done, with the transport's error if reading or writing failed, with the 'write channel closed' error if the input channel was closed. Neither loop can wait for a channel forever once the context is done or the stream is closed, and after a failure neither goes on.",
 ["schedules", "fault_sequences"], "All orders of cancellation, closing, channel events and transport failures.",
 "The tests let their goroutines leak and never cancel a context.",
 ["stream.go"], [("select in WriteContext", "stream.go:WriteContext"), ("ReadContext/deliver", "stream.go:ReadContext")], ["FrameStream.ReadContext", "FrameStream.WriteContext"])

prop("C19", "The writer sends every frame whole, once and in order, and logs what it wrote",
 "The writer loop passes each frame taken from the input channel to the transport exactly once, with all its bytes in a single write and before the next frame is taken, and nothing else. A frame is logged as written exactly once, after its write succeeded and never if it failed, with the written bytes; a log failure does not disturb the stream.",
 ["schedules", "histories", "fault_sequences"], "All sequences of frames and all write failures, with and without a logger.",
 "One test writes one frame.",
 ["stream.go"], [("WriteContext", "stream.go:WriteContext")], ["transport Write", "FrameLogger.LogWritten"])

prop("C20", "Every frame the reader accepts is logged once, then delivered once, in order",
 "Each frame the reader obtains is, if there is a logger, logged exactly once with exactly its bytes, and then offered on the read channel exactly once, before the next frame is read; nothing else is logged as read, nothing else is sent, and a log failure does not disturb the stream.",
 ["schedules", "histories"], "All sequences of frames, with and without a logger.",
 "One test logs one frame.",
 ["stream.go"], [("ReadContext", "stream.go:ReadContext")], ["FrameStream.Read()", "FrameLogger.LogRead"])

prop("C21", "A frame is delivered without waiting for bytes beyond its end",
 "While looking for the next frame the reader never requires more bytes from the transport than up to the last byte of the current candidate (or of the shortest frame that could follow a byte that starts none), so that a complete frame is never held back until later bytes arrive. It reads only when the bytes it holds do not settle the candidate.",
 ["schedules", "inputs"], "All candidates, buffer fill levels and chunkings.",
 "The tests read from memory, where bytes never have to be waited for.",
 ["stream.go"], [("minimum passed to io.ReadAtLeast", "stream.go:readFrame")], ["FrameStream.Read()"])

prop("C22", "The UDP transport talks to the first peer it heard from",
 "Writing to the UDP transport sends the whole buffer as one datagram to the address from which the first successfully received packet came, and before any packet was received fails with the 'no address' error without sending. Later packets, also from others, never change the peer; reading reports the count and error of the socket unchanged, a failed read sets no peer, and constructing reports the socket's error without returning a transport.",
 ["histories", "fault_sequences"], "All sequences of reads (from any address, failing or not) and writes.",
 "Tests only construct the transport.",
 ["util/udpreadwritecloser.go"], [("Read/Write/NewUDPReadWriteCloser", "util/udpreadwritecloser.go")], ["UDPReadWriteCloser"])

prop("C23", "Stream and UDP transport are free of data races and lock leaks",
 "Every mutable state of a stream or UDP transport that more than one goroutine can reach (reader loop, writer loop, and any caller of the other methods) is accessed only under one common lock or ordered by the close-once mechanism; every lock taken is released on all exits, panics included, and none is held while waiting for the transport to deliver data. Constructing hands out only fully initialised objects.",
 ["schedules"], "All interleavings of one reader loop, one writer loop and any number of other callers.",
 "Tests run without the race detector and read the close error from another goroutine without synchronisation.",
 ["stream.go", "util/udpreadwritecloser.go"], [("embedded mutexes, closeOnce, deliveryMutex", "stream.go, util/udpreadwritecloser.go")], ["all methods"])

prop("C24", "Decoding, encoding and lookup share no mutable state",
 "Looking up, decoding, encoding, validating and building frames neither write any state shared between calls nor retain or modify their arguments (decoding fills only its receiver): the dialect tables and error values never change after initialisation. So all of them may be used concurrently, and a decoded message does not change when the frame's bytes are reused.",
 ["schedules", "histories"], "All calls from any number of goroutines.",
 "A table written at run time or an aliased payload shows only under concurrency or reuse.",
 ["dialect.go", "message.go", "frame.go", "x25.go", "*/*.go", "util/util.go"], [("package-level tables", "*/dialect.go"), ("package-level errors", "frame.go, stream.go")], ["Dialects, Dialect, Message, Frame"])

prop("C25", "Variable-length extension payloads keep their length in range",
 "For the variable-length extension message, decoding sets the payload length to the number of payload bytes the frame carries after the five header bytes, zero if it carries fewer and never more than the payload array holds, so that the payload can always be taken. Encoding emits the header and exactly that many payload bytes (version 2 without trailing zeroes) or refuses an impossible length, and setting a payload stores it, cutting an over-long one with a 'too long' error; the dialect accepts the encoding in both versions.",
 ["inputs"], "All payload lengths from 0 to 255 in both versions, all field values.",
 "No test touches this message.",
 ["common/v2_extension.go", "common/dialect.go"], [("Read/Write/GetPayload/SetPayloadSlice", "common/v2_extension.go")], ["V2Extension"])

prop("C26", "Every package builds, and every dialect and message fits the interfaces",
 "All packages of the module type-check, the example program included; in every dialect package the dialect can be used as a dialect and every message as a message of the library, and every payload struct has only exported fixed-size fields, so that it can be encoded at all.",
 ["programs", "configurations"], "All packages, for every supported word size.",
 "Packages without tests that nothing imports are never compiled by the tests; two of them did not compile.",
 ["cmd/main.go", "*/dialect.go", "*/*.go"], [("Dialect, Message, Frame interfaces", "dialect.go, message.go, frame.go")], ["go build ./..."])

prop("C27", "The memory a stream holds does not grow with the input",
 "The memory a stream keeps for itself is bounded by a constant whatever is received and however long it runs: no buffer, table or goroutine count of a stream grows with the number of received bytes or frames.",
 ["histories", "inputs"], "All infinite byte streams, noise included.",
 "Growth by a few bytes per rejected candidate needs hours of noise to show.",
 ["stream.go"], [("fixed-size buffer", "stream.go:NewFrameStreamWithLogger"), ("bounded table of logged invalid frames", "stream.go:readFrame")], ["long-running FrameStream"])

prop("C28", "A cancelled reader returns within bounded time even if the transport is silent",
 "When its context is done, the reader loop returns within bounded time even while it is waiting for the transport.",
 ["schedules"], "All points of cancellation.",
 "Timing of a blocking read of an arbitrary transport.",
 ["stream.go"], [("ReadContext", "stream.go:ReadContext")], ["FrameStream.ReadContext"])

prop("C29", "Decoding an encoded message gives back an equal message",
 "For every message and version, decoding the frame built from it yields a message equal to it in all fields that version carries.",
 ["inputs"], "All messages and field values.",
 "Round-trip equality over all values.",
 ["*/<message>.go"], [("Read/Write", "*/<message>.go")], ["Message.Read", "Message.Write"])

prop("C30", "The text rendering of a frame shows each header field under its own name",
 "Rendering a complete frame as text gives one line per header field, with the name of the field and the value this frame has there: version, payload length, system id, component id, message id and checksum, for version 2 also both flag bytes, whether the frame is signed and, exactly if it is, the signature. The placeholder of an unknown message is rendered with its id, version and raw payload, and rendering changes neither.",
 ["inputs"], "Every complete frame of both versions, signed and unsigned, and every placeholder.",
 "A rendering that shows one field under another's name, or a signature that is none, needs distinct values in every header position to notice.",
 ["frame.go", "message.go"], [("text of a frame", "frame.go:FrameV1.String"), ("text of a frame", "frame.go:FrameV2.String"), ("text of the placeholder", "message.go:UnknownMessage.String")], ["String()"])

prop("C31", "A message says which version and extensions its values need",
 "Every message reports version 2 as the version its values need exactly if it notes values in extension fields, and version 1 otherwise, and reports whether its definition has extension fields at all. The placeholder of an unknown message reports the id and version of the frame it was read from, the dialect and name 'unknown', and encodes to the raw payload it was read with; asking changes nothing.",
 ["inputs"], "All 331 messages with every combination of field values, and every placeholder read from any frame of either version.",
 "A wrong answer in one of 331 generated files is not sampled by any test.",
 ["*/<message>.go", "message.go"], [("GetVersion, HasExtensionFields", "*/<message>.go"), ("the placeholder", "message.go:UnknownMessage")], ["Message.GetVersion", "Message.HasExtensionFields", "UnknownMessage"])

prop("C32", "A frame made from bytes is those bytes, in the version their start byte names",
 "Making a frame from bytes gives a frame of the version named by the first byte, consisting of exactly the announced number of bytes; with the copy option it shares no memory with the bytes given, and without it it is those bytes themselves. No bytes at all, fewer bytes than announced or a start byte that is none gives an error and no frame.",
 ["inputs"], "Every byte slice (nil and empty included) of any length and capacity, every announced length and both settings of the copy option.",
 "The tests only make frames of complete valid input; sharing and spare capacity show only when one side is changed later.",
 ["frame.go"], [("FrameFromBytes", "frame.go:FrameFromBytes")], ["FrameFromBytes"])

prop("C33", "Every failure has an error value of its own",
 "The error values the packages export are there when the program starts, no two of them are equal, and nothing in the library changes them later. So a caller who compares the error of an operation with them learns which failure happened.",
 ["histories"], "All exported error variables of all packages, over the whole life of the program.",
 "Tests compare only a few of them and would not see two variables that hold the same error, or one that is replaced on a rare path.",
 ["frame.go", "stream.go", "util/udpreadwritecloser.go"], [("error variables", "frame.go:ErrUnknownMessage and others"), ("error variables of streams", "stream.go:ErrUserClosed"), ("error of the UDP wrapper", "util/udpreadwritecloser.go:ErrNoAddress")], ["exported error variables"])

prop("C34", "The payload helpers truncate and measure any byte slice correctly",
 "Truncating a payload cuts off exactly its trailing zero bytes but keeps at least one byte of a non-empty payload, and the result is the beginning of the input. The length of the text in a field is the position of its first zero byte, or the field's length if it has none. Both accept any byte slice, nil and empty included, without a panic, and leave it unchanged.",
 ["inputs"], "Every byte slice of any length and content.",
 "Tests do not call the helpers; errors at the ends (all zero, empty, no zero at all) need exactly those inputs.",
 ["util/util.go"], [("TruncateV2", "util/util.go:TruncateV2"), ("CStrLen", "util/util.go:CStrLen")], ["util.TruncateV2", "util.CStrLen"])

prop("C35", "Rejected frames are reported on standard output once per kind, truthfully",
 "When the reader rejects a candidate frame it prints one report with that candidate's own version, message id, system id and component id, the first time a candidate with these four values is rejected on the stream. A rejected candidate goes unreported only if one with the same four values was already reported, or if the bounded table of reported ones is full. The reader prints nothing else.",
 ["inputs", "histories"], "Every input stream, every history of rejected candidates, both settings of returnInvalidFrames.",
 "Tests do not look at the output; a key that leaves out or adds a value, or an entry that is not made, shows only over a history of several rejected frames of different kinds.",
 ["stream.go"], [("frameLoggingMetaData", "stream.go:frameLoggingMetaData"), ("invalidLogged", "stream.go:FrameStream.invalidLogged")], ["FrameStream.readFrames"])

prop("C36", "An operation that fails returns the error documented for the cause",
 "Making a frame from bytes fails with the error for too few bytes or the one for an unknown start byte, reading and writing a message with the one for an unsupported version (neither 1 nor 2) or the one for a message that version 1 cannot carry, and looking a message up with the one for an unknown message. Building a frame fails with one of these, the error for a payload too long for a frame, or the very error that a dialect or the message gave. Each of them is returned only if its cause holds.",
 ["inputs"], "Every byte slice and announced length; every message with every version and every field content; every id; every dialect list and message given to the building of a frame.",
 "Tests compare a few errors at most; callers branch on these values, and the wrong one in one of 331 generated files or on one rare path is not sampled.",
 ["frame.go", "dialect.go", "stream.go", "*/<message>.go", "*/dialect.go"], [("error values and their documentation", "frame.go:ErrFrameTooShort and others"), ("Read, Write", "*/<message>.go"), ("packFrame", "stream.go:packFrame")], ["FrameFromBytes", "Message.Read", "Message.Write", "Dialects.GetFrame", "Dialect.GetMeta", "Dialect.GetMessage"])

prop("C37", "Every operation ends, whatever it is given",
 "Making, reading, printing and validating frames, decoding, encoding and printing messages, looking messages up, computing checksums and the payload helpers come to an end on every input. None of them loops without a bound, calls itself through whatever chain of calls or printed values, waits for a channel or keeps a lock. (The reader and writer of a stream are the subject of C02 and C18; dialects and messages given by a user are taken to end.)",
 ["inputs"], "Every byte slice, frame, message content, version, id and dialect list.",
 "A test shows that one input ends; a loop that does not move on for one kind of byte, one length or one answer of a dialect needs exactly that input, and one hung operation stops a reader for good.",
 ["frame.go", "dialect.go", "message.go", "x25.go", "util/util.go", "*/<message>.go", "*/dialect.go"], [("the loops", "x25.go:X25CRC.Write, util/util.go, dialect.go"), ("printed values", "message.go:UnknownMessage.String and others")], ["X25CRC.Write", "util.TruncateV2", "util.CStrLen", "Dialects.Validate", "Dialects.GetMessage", "Dialects.GetFrame", "Message.Read", "Message.Write", "Message.String"])

prop("C38", "A frame built for a message is valid and decodes to that message",
 "For every message of every dialect, with any field contents, ids and sequence number, the frame built for it in a version that can carry it can be made into a frame again from its bytes; that frame passes the validation of the same dialect and decodes to a message of the same type in which every field the version carries has the value it had. None of these steps fails.",
 ["inputs"], "Every message type and version; every field content, system id, component id and sequence number. (The message with a payload of any length is decided for chosen lengths; C25 and C29 have them all.)",
 "Each step may be right for itself and yet not fit the next (a checksum over one byte too many on both sides of a boundary, a length cut in one place and not in the other); tests go the whole way for two or three messages only.",
 ["stream.go", "frame.go", "dialect.go", "x25.go", "*/<message>.go", "*/dialect.go"], [("packFrame", "stream.go:packFrame"), ("Validate, GetMessage", "*/dialect.go")], ["Dialects.GetFrame", "FrameFromBytes", "Dialects.Validate", "Dialects.GetMessage"])

prop("C39", "The library acts only on what it is given",
 "No operation of the library, its dialects or its helpers touches files, the environment, clocks, random numbers, other processes, settings of the program or variables of other packages, writes to a log or to the standard output, or ends the program; outside streams and the transport none starts a goroutine. The exceptions are the reader's reports of rejected frames and the socket of the UDP transport. Loading a package sets up its own variables and does nothing else.",
 ["inputs", "histories"], "Every exported function and method and the initialisation of every package, on every input and at any time.",
 "An effect on one rare path (a debug file for odd frames, a log line for an unknown id, the clock as a seed) is invisible to tests that compare results; a program that embeds the library meets it in the field.",
 ["all packages but cmd"], [("the report", "stream.go:FrameStream.readFrame"), ("the socket", "util/udpreadwritecloser.go:NewUDPReadWriteCloser")], ["all exported functions and methods"])

prop("C40", "The UDP transport is the one socket it was asked for, until it is closed",
 "Constructing the UDP transport opens exactly one UDP socket, on exactly the given address and port as package net understands them, and starts nothing else. Every read receives one packet from that socket straight into the caller's whole buffer, a write sends at most one on it, and closing closes that socket whatever happened before; each reports the socket's own count and error.",
 ["inputs", "histories"], "Every address and port, every sequence of packets, reads, writes and closes.",
 "Tests bind one port of the loopback interface; a port cut to fewer bits, a default put in place of an empty address, or a close that is skipped in one state shows only with other values or later.",
 ["util/udpreadwritecloser.go"], [("the socket", "util/udpreadwritecloser.go:NewUDPReadWriteCloser"), ("the operations", "util/udpreadwritecloser.go:UDPReadWriteCloser.Read")], ["NewUDPReadWriteCloser", "UDPReadWriteCloser.Read", "UDPReadWriteCloser.Write", "UDPReadWriteCloser.Close"])

prop("C41", "A valid frame decodes, and its message encodes to the same payload",
 "Every frame that a dialect accepts as valid, whatever its contents, length and flags, decodes with that dialect to the message of its id without an error. Encoding that message in the version of the frame succeeds and gives the payload of the frame back: in version 1 the base fields as they were received, in version 2 the payload without its trailing zeroes.",
 ["inputs"], "Every message type and version, every payload length that validates, every payload, flags and signature.",
 "A frame that passes the check and then cannot be decoded, or a message that changes when it is passed on, needs a payload no test has: a length between the two forms, bytes behind the end of a text, a flag of a future version.",
 ["dialect.go", "util/util.go", "*/<message>.go", "*/dialect.go"], [("Validate, GetMessage", "dialect.go:Dialects.Validate"), ("Read, Write", "*/<message>.go")], ["Dialects.Validate", "Dialects.GetMessage", "Message.Write"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
