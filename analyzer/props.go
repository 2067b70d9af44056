package main

// The properties and the rules that decide them.

type Prop struct {
	Run     func(c *Ctx)
	Explain string
	Assume  []string
	Floor   map[string]int // least number of obligations per rule
}

var commonAssumptions = []string{
	"the Go compiler, golang.org/x/tools/go/ssa and the standard library behave as documented; the standard library calls the code makes are replaced by models of their documented behaviour",
	"int has 64 bits; the thorough tier decides everything again for 32 bits",
}

var props map[string]*Prop

func init() {
	props = map[string]*Prop{
		"C01": {Run: propReader, Explain: "The reader loop is interpreted from the constructed stream with a loop invariant (the window: the buffer between its bounds holds exactly the received and not yet consumed bytes) that is inferred and checked at every loop head; on every stretch between loop heads each frame offered must be the complete candidate at the window's start that an opaque Validate accepted, or rejected with invalid frames wanted.",
			Floor: map[string]int{"what is validated is the complete candidate": 6, "only an accepted frame is delivered, or a rejected one if asked for": 6}},
		"C02": {Run: propReader, Explain: "The reader loop is interpreted with the inferred window invariant; on every stretch between loop heads, for each thing that can start at the window (version 1, unsigned or signed version 2 candidate, no start byte), the bytes consumed must be none, exactly one with nothing accepted there, or exactly the accepted frame; the loop may end only with too few bytes left or when stopped.",
			Floor: map[string]int{"a byte is skipped only if no valid frame starts there": 8, "only an accepted frame is consumed as a whole": 6, "the reader ends only when no complete frame can be left": 6}},
		"C03": {Run: propReader, Explain: "On every path of the reader the frame offered (and the bytes logged) must have exactly the content and length of the candidate, in memory allocated during that stretch which the stream's objects do not refer to, and unchanged at the end of the stretch.",
			Floor: map[string]int{"a delivered frame has exactly its bytes": 6, "a delivered frame is fresh memory": 6, "a logged frame is memory of its own": 3}},
		"C17": {Run: propC17, Explain: "All code the stream's threads can run (both loops and every caller of Close, Closed and GetCloseErr, from either constructor) is interpreted with every cell another thread may store unknown; every close of a channel and of the transport and every store of the cause must lie in the body of the one once object, that body must do each exactly once and in an order in which the cause is readable first, frames may be offered only under a lock the closing takes and after the stream was found open under it, and the lock order graph together with what each thread waits for must leave the closer nothing to wait for.",
			Floor: map[string]int{"closing closes the frame channel once": 2, "closing closes the closed channel once": 2, "closing records the cause once": 2, "a channel is closed only by the code that runs once": 4, "before a frame is offered the stream is found open under that lock": 2, "Close closes the stream": 2}},
		"C18": {Run: propC18, Explain: "Both loops are interpreted from the constructed stream with ghost variables for what the loop has been told (context done, stream closed, input closed, read or write failed); every blocking channel operation must have cases for the context and the closed channel, no path from being told to stop leads back to a loop head, to the transport or to a wait, and on every return the stream was closed with the cause that belongs to what was told.",
			Floor: map[string]int{"the loop closes the stream with the right cause": 8, "no wait goes on when the stream is closed": 4, "no wait goes on when the context is done": 4, "the stream is closed when the loop returns": 4}},
		"C19": {Run: propC19, Explain: "Every path of the writer from taking a frame to the next take or return is interpreted with unknown frames, transport and logger; the sequence of transport writes and log calls on it must be: one write with exactly the frame's bytes, then, if it succeeded and there is a logger, one log of those bytes, and nothing else; no other thread writes or logs frames as written.",
			Floor: map[string]int{"every frame is written once, in order": 2, "a frame is written with all its bytes": 2, "what is logged is exactly what was written": 1}},
		"C22": {Run: propC22, Explain: "The constructor is interpreted, then Read, Write and Close from the constructed transport and from every state a Read leaves behind, with unknown packets, addresses and errors of the socket; the address given to the socket must be the one of the first successful read, the counts, buffers and errors must pass through unchanged, and a Read that is interrupted by another Read at a lock must find the peer the other one set.",
			Floor: map[string]int{"packets are sent to the sender of the first packet": 1, "later packets do not change the peer": 1, "two concurrent reads do not both set the peer": 1, "nothing is sent before a packet was received": 1}},
		"C23": {Run: propC23, Explain: "Every access to memory of the stream or UDP transport that more than one thread reaches is collected from the interpretation of each thread (reader loop, writer loop, any caller of the other methods) with the locks held and the once body it runs in; every pair of conflicting accesses must hold a common lock, or be ordered by the once object or by a channel closed after the store and seen closed before the load; every lock must be released on every exit, panics of foreign calls included, and none is held while the transport is waited for.",
			Floor: map[string]int{"conflicting accesses hold a common lock": 6, "every lock is released on every exit": 10, "no lock is held while waiting for data": 2}},
		"C24": {Run: propC24, Explain: "Two rules. Over the whole module, an interprocedural taint analysis over the SSA form finds every instruction outside initialisation that can write memory reached from a package variable (stores, table updates, library calls that write their arguments, variables captured by functions made during initialisation). And every decoding, encoding, lookup, validation and building operation is interpreted: on every path it may write only its receiver and memory it allocated, the frame's bytes stay, and neither the decoded message nor an encoded result refers to memory that existed before.",
			Floor: map[string]int{"package variables do not change after initialisation": 1500, "only the operation's own memory is written": 3000, "a decoded message does not refer to the frame": 600, "results are memory of their own": 1500}},
		"C27": {Run: propC27, Explain: "On every round of every loop of both threads the sizes of all memory the stream keeps (slices, tables, strings, channels) at the end of the round are compared with those at its start; a part may grow only up to a constant size that the path has tested, and no round may start a goroutine.",
			Floor: map[string]int{"the loop is analysed": 4, "a channel of a stream has a constant capacity": 4}},
		"C20": {Run: propReader, Explain: "On every path of the reader between two loop heads, logging and offering events are counted and ordered: one log before one offer for an accepted frame, none without.",
			Floor: map[string]int{"every frame the reader accepts is offered": 6, "what is logged is exactly the frame's bytes": 3}},
		"C21": {Run: propReader, Explain: "At every read of the transport by the reader, for each thing that can start at the window the number of bytes required is compared with the bytes missing to the candidate's end.",
			Floor: map[string]int{"a read asks for no byte beyond the end of the candidate": 8}},
		"C04": {Run: propC04, Explain: "Every operation that touches received bytes (frame construction, accessors, validation, lookup, decoding of every message) is interpreted on frames of unknown content and any payload length; each index, slice, conversion and dereference on every path is an obligation that must be proved in range. The reader is interpreted from both constructors on an unknown byte stream delivered in unknown pieces, with the same obligations, and every frame it validates or offers must be proved to be complete by its own header, so that the accessors apply.",
			Floor: map[string]int{"decoding any complete frame never panics": 1200, "accessors never panic on a complete frame": 25}},
		"C05": {Run: propC05, Explain: "Every accessor of both frame types is interpreted on a complete frame with unknown content, payload length and spare capacity; its result must be the bytes of the MAVLink header position, on every path, the frame staying unchanged.",
			Floor: map[string]int{"the accessor reports its field": 23}},
		"C06": {Run: propC06, Explain: "GetFrame is interpreted over symbolic dialect lists, versions, addresses and messages with an opaque Write of any payload length; on every path the frame is checked against the requested header fields, payload and checksum term, or an error with no frame must be returned.",
			Floor: map[string]int{"the checksum of a built frame fits": 2, "a built frame carries what was asked for": 18}},
		"C07": {Run: propC07, Explain: "Reset, Write and Sum are interpreted from an arbitrary state with an unknown input of any length; the loop over the input is abstracted to a fold whose update is computed as 16 boolean linear forms and compared with the bitwise polynomial division step.",
			Floor: map[string]int{"every byte of a write updates the checksum by the polynomial 0x8408": 1, "a reset starts from 0xffff": 1, "asking for the sum leaves the state alone": 1}},
		"C08": {Run: propC08, Explain: "Validate is interpreted over symbolic dialect lists with opaque lookups and symbolic metadata, for complete frames of both versions with unknown content and length; every path's verdict is compared with the specified decision (lengths, and the checksum as a fold over header and payload followed by the CRC extra).",
			Floor: map[string]int{"the verdict fits length and checksum": 2}},
		"C09": {Run: propC09, Explain: "The list operations are interpreted over symbolic dialect lists with opaque lookups; every path's sequence of lookups and its result must be the one the first-match rule prescribes for that path's lookup results.",
			Floor: map[string]int{"the dialects are asked in order": 6}},
		"C10": {Run: propC10, Explain: "For every message type, Write is abstractly interpreted (path-sensitive dataflow over SSA with symbolic field contents) for both versions; every outcome's output bytes are compared with the payload given by the frozen wire definition (whose CRC extra is recomputed), field types are compared with the definition, and GetMeta is evaluated for the id.",
			Floor: map[string]int{"field type": 2460, "version 2 encoding is all fields without trailing zeroes": 330, "the CRC extra follows from the definition": 329}},
		"C11": {Run: propC11, Explain: "For every dialect and every listed id both lookups are evaluated on the abstract value of the tables after package initialisation; GetMessage is interpreted on complete frames with that id and unknown content, and the type, freshness and field values of the result are checked; for all other ids both lookups must report unknown or agree.",
			Floor: map[string]int{"a listed id decodes to its own message type": 590, "a listed message has metadata": 329, "ids are known for both lookups or for none": 10}},
		"C12": {Run: propC12, Explain: "Read of every message is interpreted on complete version 1 and 2 frames with unknown content, any payload length up to the maximum and unknown previous receiver content; on every path every field must equal the little-endian value of its payload bytes, missing bytes read as zero.",
			Floor: map[string]int{"every field comes from its payload bytes": 4400, "other versions are an error": 331}},
		"C13": {Run: propC13, Explain: "Write of every message is interpreted with unknown field contents for version 1, 2 and any other; on every path the output must be the base fields (version 1), all fields without trailing zeroes and at least one byte (version 2), or an error without output.",
			Floor: map[string]int{"version 1 encoding is exactly the base fields": 250, "version 2 encoding is all fields without trailing zeroes": 330, "an impossible version is refused without output": 331}},
		"C14": {Run: propC14, Explain: "Every text field's setter is interpreted with an unknown string (split at the field's size) and its getter with unknown field bytes; stored content, result, error and untouched fields are compared on every path.",
			Floor: map[string]int{"the text is stored, followed by zeroes": 39, "the text is the field up to the first zero": 39}},
		"C15": {Run: propC15, Explain: "String of every message is interpreted; the rendered text is an abstract sequence of literal pieces and formatted values, which must name every defined field once, in order, each with the value of that very field, extension fields exactly if the message has extension values.",
			Floor: map[string]int{"the value shown is the field's": 2500}},
		"C16": {Run: propC16, Explain: "Every enumeration constant is evaluated by the type checker and compared with the frozen definition; distinctness and end markers are checked per enumeration.",
			Floor: map[string]int{"the constant has its defined value": 2300}},
		"C25": {Run: propC25, Explain: "Read, GetPayload, Write and SetPayloadSlice of the variable-length message are interpreted for every payload length 0..255 (and any slice given to the setter) with unknown content; payload bytes, payload length, output and errors are compared on every path, and the lengths of the dialect's table are evaluated.",
			Floor: map[string]int{"the encoding is the header and the payload bytes": 2, "the payload taken is the payload received": 2, "the payload is stored": 1, "an impossible payload length is refused": 2}},
		"C26": {Run: propC26, Explain: "All packages of the module are type-checked from source; implementation of the library interfaces and the shape of every payload struct are decided from the type information.",
			Floor: map[string]int{"the message is a Message": 331, "the dialect is a Dialect": 10}},
		"C30": {Run: propC30, Explain: "String of both frame types is interpreted on complete frames of unknown content and of the placeholder on unknown fields; the rendered text is taken apart into lines of a name and a value, and on every path, signed and unsigned, each value must be the one of the header field named, every field shown once.",
			Floor: map[string]int{"the value shown is the frame's": 20, "every header field is shown once": 20, "the value shown is the placeholder's": 3}},
		"C31": {Run: propC31, Explain: "GetVersion and HasExtensionFields of every message are interpreted on unknown field contents (with and without extension values) and compared with the definition; the placeholder's methods are interpreted on unknown fields and its Read on complete frames of both versions.",
			Floor: map[string]int{"a message says which version its values need": 660, "a message says whether its definition has extension fields": 331, "the placeholder reports what it was read from": 5}},
		"C32": {Run: propC32, Explain: "FrameFromBytes is interpreted on bytes of unknown content, length and spare capacity, any announced length and both settings of the copy option; each path's result is compared with the specified one for every case of length and start byte.",
			Floor: map[string]int{"a known start byte gives the frame of that version": 2, "the frame holds the bytes given": 2, "a copied frame is private and exact": 2}},
		"C33": {Run: propC33, Explain: "The package initialisers are evaluated abstractly; the values of all exported error variables must be non-nil and pairwise different, and nothing outside initialisation may store them.",
			Floor: map[string]int{"no two error values are equal": 10}},
		"C34": {Run: propC34, Explain: "TruncateV2 and CStrLen are interpreted on bytes of unknown content, any length and nil; inferred facts about which ranges hold zero and non-zero bytes must show that exactly the trailing zeroes (but never the first byte) are cut off and that the text length is the position of the first zero byte.",
			Floor: map[string]int{"only zero bytes are cut off": 1, "no trailing zero byte is kept": 1, "no byte before the end is zero": 1}},
		"C35": {Run: propReader, Explain: "On every path of the reader between two loop heads, everything printed is collected; it must be one report of the candidate that was rejected there, with its own four values, after a table lookup under a key of exactly these values missed, and the key must be stored; a path that reports nothing must have found an entry or a full table.",
			Floor: map[string]int{"a report shows the values of the candidate": 4, "a rejected candidate is reported only once": 2}},
		"C36": {Run: propC36, Explain: "FrameFromBytes, Read and Write of every message (versions other than 1 and 2, and version 1 for messages it cannot carry), the building of frames and the lookups of every dialect are interpreted; on every path that fails, the error returned must be the documented value for the cause that holds there.",
			Floor: map[string]int{"an unsupported version is named as the cause": 662, "a version that cannot carry the message is named as the cause": 100, "too few bytes are named as the cause": 1, "an unknown start byte is named as the cause": 1, "the reason why no frame is built is named": 3, "an unknown message is named as the cause": 20}},
		"C37": {Run: propC37, Explain: "Every operation outside the stream and the transport is interpreted with unknown arguments; every loop found on the way must have a bound: it steps through a string or map, or every way round needs the number of rounds below a value that the loop does not change, or a number or length that gets smaller (larger) on every way round and stays above (below) such a value. No operation may wait for a channel or leave a lock held, and no function may reach itself by calls or by what fmt calls for a printed value.",
			Floor: map[string]int{"the operation waits for nothing": 1500, "no function calls itself": 1000}},
		"C38": {Run: propC38, Explain: "GetFrame is interpreted with the dialect of every message and unknown field contents; on every path its result is given to FrameFromBytes, that to Validate and GetMessage; both must succeed and give back every field the version carries.",
			Floor: map[string]int{"a built frame is valid": 500, "a field survives the way into a frame and back": 4000}},
		"C39": {Run: propC39, Explain: "From every exported function, every exported method of an exported type and every package initialisation, all functions of the module that can be reached by calls, closures and function values are searched for constructs that touch more than arguments and the module's own variables: functions, variables and types of packages that act on files, the environment, the clock, random numbers, processes, the network, the log or the standard output, go statements, and assignments to variables of other packages.",
			Floor: map[string]int{"an operation acts only on what it is given": 2000, "loading a package has no other effect": 11}},
		"C40": {Run: propC40, Explain: "The constructor is interpreted with an unknown address and port; the text given to the socket must be exactly the address, a colon and the port in decimal, the network UDP of any IP version, and nothing else may be opened or started. Then Read, Write and Close are interpreted from the constructed transport and from every state a Read leaves behind: each must do its operation on that very socket exactly once, with the caller's whole buffer, and report the socket's results.",
			Floor: map[string]int{"the socket is opened at the address and port asked for": 1, "closing closes the socket": 2, "closing reports the socket's error": 2, "a read reads one packet": 2}},
		"C41": {Run: propC41, Explain: "For every message and version a frame with that id and otherwise unknown contents and length is given to Validate; on every path that accepts it GetMessage is interpreted on the same frame and Write on the message it gives, and the result is compared with the payload for every length the frame can have.",
			Floor: map[string]int{"a valid frame decodes to its message": 590, "encoding a decoded message gives its payload back": 590, "some frames of every message are valid": 590}},
		"C29": {Run: propC29, Explain: "Read is interpreted on the abstract result of interpreting Write with unknown field contents (both versions, every path); every field the version carries must come back equal.",
			Floor: map[string]int{"a field survives encoding and decoding": 4300}},
	}
}

func notVariable(s *SpecMsg) bool { return !s.Variable }

func propC10(c *Ctx) {
	ms := c.messages(notVariable)
	c.parallel(len(ms), func(c *Ctx, i int) {
		m := ms[i]
		if !c.fieldTypes(m, "field type") {
			return
		}
		c.encodeRules(m, 1, true)
		c.encodeRules(m, 2, true)
		if m.S.Registered {
			c.metaRules(m)
		}
	})
	for _, m := range c.messages(func(s *SpecMsg) bool { return s.Variable }) {
		c.fieldTypes(m, "field type")
		c.metaRules(m)
	}
}

func propC11(c *Ctx) {
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		m := ms[i]
		c.nameRules(m)
		if !m.S.Registered || !c.fieldTypes(m, "field type") {
			return
		}
		c.metaFor(m)
		c.parseRules(m, 1, true)
		c.parseRules(m, 2, true)
		if m.S.FullLen < 255 {
			c.parseRules(m, 1, false)
			c.parseRules(m, 2, false)
		}
		c.parseErr(m)
	})
	pk := specPkgs()
	c.parallel(len(pk), func(c *Ctx, i int) {
		c.unknownRules(pk[i])
		c.dialectName(pk[i])
	})
}

func (c *Ctx) dialectName(pkg string) {
	want := pkg
	for _, s := range specByPkg(pkg) {
		want = s.Dialect
	}
	outs, f, ok := c.dialectCall(pkg, "GetName", func(st *State) []Val { return nil })
	if !ok || !c.noPanic("the dialect's name", pkg, outs) {
		return
	}
	for _, o := range outs {
		got := valString(o.Rets[0])
		if s, isS := o.Rets[0].(VStr); isS {
			if b, k := constBytes(s.C); k {
				got = b
			}
		}
		c.ob(got == want, "the dialect's name", pkg, c.pos(f), "GetName gives %q, its messages say %q", got, want)
	}
}

func propC12(c *Ctx) {
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		m := ms[i]
		if !c.fieldTypes(m, "field type") {
			return
		}
		c.decodeRules(m, 1)
		c.decodeRules(m, 2)
		c.versionRules(m)
	})
}

func propC13(c *Ctx) {
	ms := c.messages(notVariable)
	c.parallel(len(ms), func(c *Ctx, i int) {
		m := ms[i]
		if !c.fieldTypes(m, "field type") {
			return
		}
		c.encodeRules(m, 1, false)
		c.encodeRules(m, 2, false)
		c.encodeRules(m, 0, false)
	})
	for _, m := range c.messages(func(s *SpecMsg) bool { return s.Variable }) {
		c.encodeRules(m, 0, false)
	}
}

func propC14(c *Ctx) {
	type job struct {
		m *MsgT
		f SpecField
	}
	var js []job
	for _, m := range c.messages(nil) {
		for _, f := range m.textFields() {
			js = append(js, job{m, f})
		}
	}
	c.parallel(len(js), func(c *Ctx, i int) {
		if !c.fieldTypes(js[i].m, "field type") {
			return
		}
		c.setterRules(js[i].m, js[i].f)
		c.getterRules(js[i].m, js[i].f)
	})
}

func propC15(c *Ctx) {
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		if c.fieldTypes(ms[i], "field type") {
			c.textRules(ms[i])
		}
	})
}

func propC16(c *Ctx) { c.enumRules() }

func propC25(c *Ctx) {
	for _, m := range c.messages(func(s *SpecMsg) bool { return s.Variable }) {
		if !c.fieldTypes(m, "field type") {
			continue
		}
		c.metaRules(m)
		c.metaFor(m)
		c.variableRules(m)
		for _, ver := range []int{1, 2} {
			c.parseRules(m, ver, true)
		}
	}
}

func propC26(c *Ctx) { c.shapeRules() }

func propC29(c *Ctx) {
	ms := c.messages(nil)
	c.parallel(len(ms), func(c *Ctx, i int) {
		if c.fieldTypes(ms[i], "field type") {
			c.roundTrip(ms[i], 1)
			c.roundTrip(ms[i], 2)
		}
	})
}
