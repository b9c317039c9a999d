// Package props holds the properties: what is simulated and what is checked.
package props

import "verifsim/core"

var All = map[string]*core.Prop{
	"C01": {ID: "C01", Run: runC01, Quick: 200000, Thorough: 3000000, Rule: "a run is one byte stream of 1 to 4 messages (types, values, ways of decoding), in a quarter of the runs damaged, delivered up to 9 times in different ways; non-trivial: at least one delivery was fragmented, padded with empty reads or ended with the data; distinct by the hash of types, bytes, deliveries and results"},
	"C04": {ID: "C04", Run: runC04, Quick: 400000, Thorough: 3000000, Rule: "a run is one message decoded up to 6 times after its bytes, or the ABI definition driving the decode, were corrupted; non-trivial: at least one corruption; distinct by the hash of type, bytes, definition and results"},
	"C05": {ID: "C05", Run: runC05, Quick: 150000, Thorough: 3000000, Rule: "a run is one or two connections on which two parties exchange 1 to 5 messages each way (one way or strictly alternating) over simulated links; non-trivial: at least one network fault; distinct by the hash of all messages and of the interleaving"},
	"C06": {ID: "C06", Run: runC06, Quick: 600000, Thorough: 3000000, Rule: "a run is a history of 2 to 9 decodes or text parses into one destination (prefilled in a third of the runs), some from cut, damaged or failing streams; non-trivial: at least one fault; distinct by the hash of type, bytes and results"},
	"C07": {ID: "C07", Run: runC07, Quick: 45000, Thorough: 600000, Batch: 100, Rule: "a run is 2 to 4 tasks making 1 to 3 calls each on shared values, bytes, texts and ABI definitions, preempted at statements of the library chosen by the seed, under the race detector; non-trivial: at least two task switches; distinct by the hash of calls, results and interleaving"},
	"C09": {ID: "C09", Run: runC09, Quick: 2500000, Thorough: 20000000, Batch: 1000, Rule: "a run is up to 6 texts of one kind, intact, damaged, torn, forged or out of range, each parsed by one of the ways of parsing it; non-trivial: at least one fault; distinct by the hash of texts and results"},
	"C10": {ID: "C10", Run: runC10, Quick: 350000, Thorough: 3000000, Rule: "a run is one value encoded 2 to 7 times: with maps refilled in other orders and with other hash seeds, on used and fresh encoders, after failures and from preempted tasks; non-trivial: at least one re-encoding of a rebuilt value, a failure or a task switch; distinct by the hash of type, bytes and history"},
	"C11": {ID: "C11", Run: runC11, Quick: 900000, Thorough: 3000000, Rule: "a run is one message with types of a user's own at any depth, coded with a custom function that takes over 0 to 3 of its types, first undisturbed and then up to 6 times with the function, a method, the writer or the reader failing at a chosen call; non-trivial: at least one fault; distinct by the hash of types, bytes, faults and results"},
	"C12": {ID: "C12", Run: runC12Gen, Twin: runC12Plain, Quick: 300000, Thorough: 3000000, Rule: "a run is a history as in C01, C02, C03, C04 or C06 over messages of struct types with generated methods (60 structs drawn from the seed, 300 in the thorough tier), alone or inside built-in types; what fails there counts if the same history succeeds with the built-in codec for the same struct without methods; non-trivial: at least one fault; distinct by the hash of types, bytes, faults and results"},
	"C13": {ID: "C13", Run: runC13, Quick: 200000, Thorough: 3000000, Rule: "a run is a history of 2 to 10 edits, upgrades, transfers and calls over 1 to 3 ABI definitions that use the same names; non-trivial: at least one fault (edit, cut transfer, damaged message, failing stream, call within a call); distinct by the hash of definitions, messages and results"},
	"C08": {ID: "C08", Run: runC08, Quick: 60000, Thorough: 3000000, Limit: 400_000_000, Force: forceC08, Rule: "a run is a history of 1 to 24 writes, sums, resets and copies from failing streams on up to 5 hashers, or on hashers of preempted tasks; two runs hash messages longer than 2^29 and 2^32 bytes; non-trivial: at least one fault or task switch; distinct by the hash of the history"},
	"C14": {ID: "C14", Run: runC14, Quick: 400000, Thorough: 3000000, Rule: "a run is one or two connections on which one party writes 1 to 4 JSON documents (own values, decoded values, ABI-decoded trees, or documents as a node writes them) and another reads them, in some time zone; then up to 3 damaged copies are read; non-trivial: at least one network, zone or text fault; distinct by the hash of types, results and interleaving"},
	"C15": {ID: "C15", Run: runC15, Quick: 800000, Thorough: 3000000, Rule: "a run is 2 or 3 parties whose clocks are off, drift, jump and show different zones; each stamps 1 to 6 messages that the next reads over a faulty link in binary, ABI-driven or JSON form; non-trivial: at least one clock, zone or network fault; distinct by the hash of stamps and interleaving"},
	"C16": {ID: "C16", Run: runC16, Quick: 5000, Thorough: 300000, Batch: 25, Limit: 4_000_000_000, Rule: "a run is a history of at least 256 calls of one to three kinds with ever new inputs, a part of them failing, on objects that live as long as the history or are made per call; what is suspicious is continued up to 65000 calls; non-trivial: every run; distinct by the hash of the kinds and of the seed of the inputs"},
	"C17": {ID: "C17", Run: runC17, Quick: 60000, Thorough: 3000000, Rule: "a run is 1 or 2 tasks that hold on in the middle of a call (a stalled reader, writer, function or method of the caller's, which waits for the others, makes calls of its own, or panics) and 1 to 3 tasks that make calls on the same values and ABI definitions, preempted at statements chosen by the seed; non-trivial: at least one call held on; distinct by the hash of calls, results and interleaving"},
	"C02": {ID: "C02", Run: runC02, Quick: 300000, Thorough: 3000000, Rule: "a run is one message (type, value, way of decoding) read up to 12 times, each time with a cut or a transient or permanent read error at a chosen offset; non-trivial: at least one fault was injected; distinct by the hash of type, bytes, faults and results"},
	"C03": {ID: "C03", Run: runC03, Quick: 500000, Thorough: 3000000, Rule: "a run is one message (type, value, way of encoding) written up to 12 times, each time with a writer that fails at a chosen offset; non-trivial: at least one fault was injected; distinct by the hash of type, bytes, faults and results"},
}

// two runs of C08 hash very long messages
func forceC08(i int, tier string) []uint32 {
	switch i {
	case 7:
		return []uint32{1<<20 - 2}
	case 607:
		return []uint32{1<<20 - 1}
	}
	return nil
}
