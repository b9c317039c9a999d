import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

DEC="pkg/abi/decode.go"; ENC="pkg/abi/encode.go"; ABI="pkg/chain/abi.go"
INSTR="statement-level yields are woven into a build-time copy of /repo's packages (go build -overlay); nothing is added to /repo"

p("C01","Decoding does not depend on how the stream delivers its bytes",
  "What any decode (typed, variant, ABI-driven, or a primitive read) returns depends only on the bytes of the stream: however the reader splits them, pads them with empty reads or attaches EOF to the last of them, the value or error is the same. A decode takes from the reader exactly the bytes of the one value it decodes and asks for no byte beyond them, so values that follow on the same stream stay intact and a peer that sends nothing more never stalls it.",
  ["schedules","inputs","fault_sequences"],"every value, every sequence of read sizes, empty reads, EOF placements and delivery delays",
  "The tests read from bytes.Reader only, which always delivers everything at once; short reads, data+EOF and back-to-back values on a slow stream never occur.",
  [DEC,ABI,"pkg/chain/encoding.go","pkg/chain/public_key.go","pkg/chain/signature.go","pkg/chain/action.go","pkg/chain/transaction.go"],
  [("full read of every fixed-size item",DEC+" ReadBytes/io.ReadFull"),("no buffering between the decoder and the caller's reader",DEC+" NewDecoder"),("byte-wise varint read",DEC+" ReadVaruint/ReadVarint")],
  [("reader position","how much of the stream the decoder has taken",DEC+" Decoder.r")],["return of Decode/DecodeVariant/Abi.Decode/Read*","calls on the io.Reader"])

p("C02","A truncated stream or failing reader is never mistaken for success",
  "If the reader fails, or the stream ends, before all bytes of a value's encoding have been delivered, the decode returns an error - the reader's own error when the reader failed, possibly wrapped - even if the reader would have recovered afterwards. The one exception is the end of the stream exactly where a trailing binary-extension field would start, which decodes as an absent field; a partly delivered extension is an error. After a failed decode the same decoder decodes a following intact value correctly.",
  ["fault_sequences","crash_points","inputs"],"every value, every byte offset at which the stream is cut or a transient or permanent read error is raised, and every continuation after it",
  "No existing test injects a read error or truncates an input; the offsets, error kinds and recoveries are unbounded.",
  [DEC,ABI,"pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/public_key.go","pkg/chain/signature.go","pkg/chain/asset.go"],
  [("error checked after every primitive read",DEC+" / UnmarshalABI methods"),("extension rule: EOF before the first byte of the field",DEC+" DecodeValue, "+ABI+" decodeType")],
  None,["error returned by Decode/Abi.Decode","decoded value"])

p("C03","A failing writer is never mistaken for success",
  "If encoding (typed or ABI-driven) returns no error, the writer has accepted the complete encoding, every byte once and in order. If the writer fails at any point - permanently or only once, having accepted none or part of what it was given - the encode returns that error, possibly wrapped (an error also if the writer took less than it was given without saying why), and what the writer has accepted is exactly the beginning of the encoding, nothing being written after the failure. A later encode of another value on the same encoder, once the writer works again, writes that value completely. A value that has no encoding - a nil pointer where none is optional, a type that is not supported, a number beyond the 32 bits of a varint, a tree that does not fit the ABI definition - is an error too.",
  ["fault_sequences","crash_points","inputs"],"every value, every byte offset at which the writer fails, short writes of every size, transient and permanent failures",
  "All tests encode into bytes.Buffer, which cannot fail.",
  [ENC,ABI,"pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/public_key.go","pkg/chain/asset.go"],
  [("error checked after every primitive write",ENC+" / MarshalABI methods / "+ABI+" encodeType")],
  None,["error returned by Encode/Abi.Encode","bytes accepted by the io.Writer"])

p("C04","Corrupted bytes give an error or the exact value, never a crash or a blow-up",
  "Whatever bytes arrive (flipped, inserted, deleted, duplicated or overwritten with extreme lengths), a decode terminates without panicking, and without doing work or allocating memory out of proportion to the bytes delivered and the size of the target type. It returns either an error or exactly the value that the EOSIO wire format assigns to those bytes, and a value so obtained can be rendered as text or JSON without a crash and encodes to bytes that decode to the same value again (one with an absent extension, which nothing but the end of the stream can tell, may be refused). The same holds when the ABI definition driving the decode is itself damaged. An encode by such a definition terminates without panicking as well.",
  ["fault_sequences","inputs"],"every intact message and every sequence of corruptions applied to it or to the ABI definition in transit or storage",
  "Tests decode a handful of well-formed messages; the corrupted ones are unbounded and none is tried.",
  [DEC,ABI,"pkg/chain/transaction.go","pkg/chain/action.go","pkg/chain/asset.go","pkg/chain/symbol.go","pkg/chain/public_key.go","pkg/chain/signature.go"],
  [("length checks and incremental allocation",DEC+" ReadBytes/DecodeValue"),("index and key type range checks",DEC+" DecodeVariant, "+ABI+" decodeInner, pkg/chain/public_key.go"),("type name resolution and recursion bound",ABI+" resolver.resolve")],
  None,["panic/return of Decode","steps executed","bytes allocated"],INSTR)

p("C05","Messages sent over a stream arrive equal, in order, in EOSIO wire format",
  "A sequence of values of any supported types encoded by one party and decoded by another over an unreliable byte stream that fragments, delays and finally may be cut arrives as exactly the sent values in order, up to the cut; the bytes on the wire are those the EOSIO ABI serialisation prescribes. This holds for the typed codec, the ABI-driven codec and any mixture of the two on the two sides, and values received earlier are altered neither by what is received later, nor by reuse of the buffers they were read from, nor by what the receiver does to other received values. Once the link works again, an exchange in which each side answers only after the other's message completes within a bounded number of steps.",
  ["schedules","fault_sequences","inputs","histories"],"every mix of types and values, every interleaving of the parties and every fragmentation, delay and cut of the links",
  "Tests encode or decode one constant message per type in isolation; sequences, interleavings, cross-codec use and the value space are not covered.",
  [ENC,DEC,ABI,"pkg/chain/encoding.go","pkg/chain/transaction.go","pkg/chain/action.go","pkg/chain/numbers.go","pkg/chain/time.go"],
  [("matching write and read rules per type",ENC+"/"+DEC+" and the Marshal/UnmarshalABI pairs"),("ABI type resolution",ABI+" resolver"),("fresh memory for every decoded value",DEC+" ReadBytes")],
  None,["bytes on the link","values received, at reception and at the end"])

p("C06","Decoding into a used destination equals decoding into a fresh one",
  "What a successful decode or text parse stores in its destination does not depend on what the destination held before: after any history of earlier decodes into it, including failed, truncated and corrupted ones, it compares equal to a fresh destination decoded from the same bytes (nil and empty collections being the same).",
  ["histories","fault_sequences","inputs"],"every destination type and every sequence of successful and failed decodes into the same destination",
  "TestReuse covers one struct type with three successful decodes; other types, failures in between and longer histories are not tried.",
  [DEC,"pkg/chain/action.go","pkg/chain/transaction.go","pkg/chain/numbers.go","pkg/chain/checksum.go","pkg/chain/bytes.go"],
  [("resetting of slices, maps, pointers, optionals and extensions",DEC+" DecodeValue"),("replacement instead of accumulation in UnmarshalABI","pkg/chain/action.go")],
  [("destination","value left by earlier decodes","caller")],["destination after Decode/UnmarshalText"])

p("C07","Concurrent callers each get the result they would get alone",
  "Any number of goroutines may use the library at the same time - each with its own encoders, decoders, hashers and destinations, sharing ABI definitions and values they only read - and every call returns exactly what it returns when nothing else runs. No call modifies a value, ABI definition or byte slice that the caller passed in to be read, and no two such calls race on memory.",
  ["schedules","inputs"],"every set of calls from different goroutines and every interleaving of them at statement granularity",
  "Tests are sequential; no test runs two calls at once.",
  ["pkg/abi/decode.go","pkg/abi/encode.go",ABI,"pkg/chain/encoding.go","pkg/chain/checksum.go","pkg/base58/base58.go","pkg/base58/base58check.go","pkg/ripemd160/ripemd160.go","pkg/codegen/codegen.go"],
  [("no mutable package-level state; per-call resolver, hasher and buffers",ABI+" Abi.Decode/Encode, pkg/chain/checksum.go, pkg/base58"),("read-only tables","pkg/base58/alphabet.go, pkg/chain/name.go")],
  None,["results of every call","inputs after the run","race detector reports"],INSTR)

p("C08","Streaming RIPEMD-160 depends only on the bytes written since the last reset",
  "After any history of writes, sums and resets on any number of hashers used alternately, the sum returned is the standard RIPEMD-160 digest of the bytes written to that hasher since its creation or last reset, appended to the slice given. How the bytes were split into writes, sums taken in between, other hashers in use and the total length of the message make no difference.",
  ["histories","schedules","inputs"],"every interleaving of writes of every size, sums and resets over several hashers, and message lengths across the 64-byte block, 2^29-byte and 2^32-byte boundaries",
  "Tests hash nine short messages in at most two pieces and one of a million bytes in equal pieces.",
  ["pkg/ripemd160/ripemd160.go","pkg/ripemd160/ripemd160block.go"],
  [("partial block buffering","pkg/ripemd160/ripemd160.go Write"),("sum on a copy of the state","pkg/ripemd160/ripemd160.go Sum")],
  [("digest","running state, partial block, total length","pkg/ripemd160/ripemd160.go digest")],["result of Sum, Size, BlockSize, Write"])

p("C09","Damaged text never crashes a parser or passes for another value",
  "No text, however damaged in storage or transit, makes a text parser (keys, signatures, base58check, checksums, bytes, blobs, numbers, names, assets, symbols, times) panic. A public key or signature string, in current or legacy form, or a base58check payload is accepted only if its checksum and type match, and then yields exactly the bytes its digits stand for; hexadecimal and base64 texts that are malformed, and checksum or float128 texts of the wrong length, are rejected with an error. An accepted number, asset or time is the value that is written (times to their resolution), and whatever value a parser accepts is reproduced by parsing that value's own text form. Symbols, assets and 128-bit integers made from numbers and names are the ones asked for, or refused.",
  ["fault_sequences","inputs"],"every valid text and every sequence of character flips, truncations, insertions, swaps and splices applied to it",
  "Tests parse a few valid strings per type and a handful of invalid ones; the damaged variants are unbounded.",
  ["pkg/base58/base58.go","pkg/base58/base58check.go","pkg/chain/public_key.go","pkg/chain/signature.go","pkg/chain/checksum.go","pkg/chain/bytes.go","pkg/chain/blob.go","pkg/chain/numbers.go","pkg/chain/asset.go","pkg/chain/time.go"],
  [("checksum comparison","pkg/base58/base58check.go"),("alphabet and length checks","pkg/base58/base58.go, pkg/chain/*.go UnmarshalText")],
  None,["value and error of the parse","text form of the value"])

p("C10","The same value always encodes to the same bytes",
  "Encoding is a function of the value alone: encoding equal values again - at another time, from another goroutine, on a used or a fresh encoder, with maps that were filled in another order - produces identical bytes, and the digest of an action is the SHA-256 of its encoding, so that equal actions have equal digests. Map entries are written in ascending key order for integer and string keys.",
  ["schedules","histories","inputs"],"every value, every insertion/deletion history of the maps in it, every map hash seed and every schedule of encoders",
  "The encode of each constant is run once; the only map test is a decode.",
  [ENC,ABI,"pkg/chain/action.go"],
  [("ordered map traversal",ENC+" EncodeValue"),("fields in declaration order",ENC+" EncodeValue, "+ABI+" allFields")],
  None,["bytes written by repeated encodes","Action.Digest"])

p("C11","Custom codecs are honoured at every level and their failures abort",
  "A custom fast-path function is consulted about every value that a message is made of, at any nesting depth - in struct fields, lists, arrays, map keys and values, optionals, extensions, variant alternatives and behind pointers - and before the value's own marshal or unmarshal method, which in turn comes before the built-in form; what they write or read replaces the built-in form. (A method that itself encodes parts of its value through the encoder has them consulted about too, what it writes directly it answers for itself; a marshal method declared on the pointer applies where the value is held by pointer.) An error they return aborts the whole encode or decode, nothing more being consulted or written, and is returned to the caller, possibly wrapped; a value that the function declines is handled as if the function were not there.",
  ["fault_sequences","inputs","histories"],"every message shape, every set of values handled by the custom code and every call at which it fails",
  "No test supplies a custom function that handles or fails anything.",
  [DEC,ENC,"pkg/chain/encoding.go"],
  [("fn consulted first",DEC+" Decode, "+ENC+" Encode"),("fallback chain","pkg/chain/encoding.go NewCustomDecoder/NewCustomEncoder"),("Marshaler/Unmarshaler lookup",ENC+" EncodeValue, "+DEC+" indirect")],
  None,["calls received by the custom code","result of Encode/Decode"])

p("C12","Generated codecs behave like the built-in codec under every stream",
  "For every struct of supported fields - built-in scalars and strings, types that have both methods themselves (chain types and other generated types), slices and arrays of these, and optional or plain pointers to these - the code generator produces marshal and unmarshal methods that compile. On every stream, into fresh and used destinations, the generated methods produce the same bytes and the same values as the built-in codec does for the same struct without methods, and report read and write failures, truncation, damage and nil pointers just as it does.",
  ["programs","fault_sequences","inputs"],"every supported struct type, every value and every fragmentation, truncation and failure of the streams",
  "The code generator has no tests at all.",
  ["pkg/codegen/codegen.go"],
  [("templates per field kind","pkg/codegen/codegen.go"),("field classification","pkg/codegen/codegen.go GenUnmarshalFn")],
  None,["compilation of the generated source","bytes, values and errors of the generated methods"])

p("C13","An ABI-driven call depends only on the ABI it is given, as it is at the call",
  "Decoding or encoding by an ABI definition gives what that definition says at the time of the call: after any history of calls with other definitions that use the same names for different types, of changes to the definition, of failed calls, and of definitions that were themselves received in binary or JSON form, the result is the same as for a first call with an identical definition. Struct inheritance, aliases, variants, arrays, optionals and binary extensions are resolved within that definition alone, and unknown types or actions are errors. Looking up a table, action, struct, alias or variant by its name gives the entry that the definition holds at that time, or nothing.",
  ["histories","fault_sequences","inputs"],"every sequence of ABI definitions, upgrades and calls, with the definitions sent over faulty links",
  "Tests use one constant ABI for one decode and one encode.",
  [ABI,"pkg/chain/action.go"],
  [("resolver built per call",ABI+" Abi.Decode/Abi.Encode"),("field collection over base structs",ABI+" allFields")],
  [("resolver.types","types resolved so far in this call",ABI)],["result of Abi.Decode/Encode/DecodeAction/EncodeAction, Action.Decode"])

p("C14","JSON documents exchanged over a stream arrive equal, in the form EOSIO nodes use",
  "Values of chain types - alone, in structs, lists, optionals, as map keys and map values, as transactions, actions and ABI definitions, or in the trees that ABI-driven decoding returns - written as JSON by one party and read by another over a stream that fragments, delays and may be cut arrive as equal values in order (time points to the millisecond), and a cut document is an error, never a value. The form is the same whether a value is held directly, by pointer or in an interface and whatever the local time zone, and it is the one EOSIO nodes use: names, symbols, assets, times, public keys and signatures as their EOSIO text, checksums and bytes as hexadecimal, blobs as base64, 128-bit integers and Uint64 values above 32 bits as decimal strings, the fields of transactions, actions, permissions, extended assets and ABI definitions under the nodes' names. Documents as nodes write them are read too: Uint64 and block numbers as numbers or strings, legacy public keys, times with a trailing Z, unpadded base64, fields in any order and unknown fields. A damaged document gives an error or a value whose own JSON form (if it has no symbol without a name) is read back as that value, never a crash.",
  ["inputs","fault_sequences","schedules","configurations"],"every value of every such type, every split, delay and cut of the stream, every time zone, every way a node may write the document and every damage to it",
  "Tests marshal or unmarshal a few constants in memory, in one time zone and mostly in one direction.",
  ["pkg/chain/transaction.go","pkg/chain/action.go",ABI,"pkg/chain/blob.go","pkg/chain/bytes.go","pkg/chain/numbers.go","pkg/chain/name.go","pkg/chain/asset.go","pkg/chain/symbol.go","pkg/chain/time.go","pkg/chain/checksum.go","pkg/chain/public_key.go","pkg/chain/signature.go"],
  [("struct tags","pkg/chain/transaction.go, action.go, abi.go, asset.go"),("MarshalText/UnmarshalText pairs","pkg/chain/*.go"),("MarshalJSON/UnmarshalJSON of integers","pkg/chain/numbers.go")],
  None,["documents on the link","values read","errors"])

p("C15","A time stamped by one party is the same instant for every other",
  "A time point, time in seconds or block timestamp made from a clock reading in any time zone stands for that instant to its resolution (microseconds and seconds rounded down, half seconds since 2000 rounded to the nearest), and whoever receives it, in binary or JSON form and in whatever time zone, reads back that instant and writes it as the same UTC text (time points in JSON to the millisecond), for every year the type and four-digit years can hold. Stamps of later readings are never smaller, however clocks drift or jump.",
  ["inputs","configurations","histories","fault_sequences"],"every clock reading, every sequence of clock skew, drift, jumps and zone changes, every pair of time zones and every link",
  "Tests convert a few constants in the time zone of the test machine.",
  ["pkg/chain/time.go"],
  [("epoch arithmetic","pkg/chain/time.go NewTimePoint/NewTimePointSec/NewBlockTimestamp/Time"),("formatting in UTC","pkg/chain/time.go String")],
  None,["stamps made","instants and texts read"])

p("C16","Long histories cost nothing",
  "Whatever calls a program has made before - any number of them, of any kind, with inputs never seen before, succeeding or failing at any point, on encoders, decoders, hashers, destinations and ABI definitions that live as long as the program or are made for each call - neither the memory that the library holds on to, nor the work a call does, nor the number of goroutines grows with the number of calls. (What is bounded, such as tables per Go type, is no growth.)",
  ["histories","fault_sequences","inputs"],"every history of calls, of any length, with every mixture of failures in it",
  "Tests make each call a few times and look at its result only; what remains of a million calls is not visible there.",
  [DEC,ENC,ABI,"pkg/chain/action.go","pkg/chain/checksum.go","pkg/chain/name.go","pkg/base58/base58.go","pkg/ripemd160/ripemd160.go","pkg/codegen/codegen.go"],
  [("no state kept between calls",DEC+" Decoder, "+ENC+" Encoder, "+ABI+" resolver per call"),("state given back when a call fails",DEC+" DecodeValue depth")],
  [("Decoder.n, Decoder.depth","what a decoder carries from one value to the next",DEC)],["live heap after collection","statements executed by a fixed call","goroutines"],INSTR)

p("C17","A stalled or abandoned call holds up no other call",
  "A call that waits in the middle - for a reader that delivers nothing, a writer that accepts nothing, or a function or method of the caller's that takes its time - delays no call but itself: however many calls are stalled, at whatever points, every other call from another goroutine runs to its end with its usual result, also on the same ABI definition and values, and so does a call made from inside the stalled one (by its reader, writer or callback). When the stalled calls continue they return what they would have returned without the stall. The same holds for a call abandoned by a panic of the caller's reader, writer or callback: later calls are unaffected.",
  ["schedules","fault_sequences","inputs"],"every set of stalled, nested and abandoned calls, every point at which they stall and every interleaving of the others",
  "No test has a reader, writer or callback that waits, nor two calls in progress at once.",
  [DEC,ENC,ABI,"pkg/chain/encoding.go","pkg/ripemd160/ripemd160.go"],
  [("no lock or shared resource held while the caller's code runs",DEC+" / "+ENC+" / "+ABI)],
  None,["completion of every call","results"],INSTR)

PURE="Tests sample a few constants of an unbounded input space."
p("C20","Names convert between text and number without loss",
  "Every name of up to 12 characters a-z, 1-5 and dots (13th character limited to .-j) not ending in a dot converts to a number and back to the same text, and every number converts to text that converts back to the same number.",
  ["inputs"],"every text and every 64-bit number",PURE+" FuzzName checks only the shape of the output.",["pkg/chain/name.go"],[("base32 packing","pkg/chain/name.go stringToName/nameToString")])
p("C21","Assets and symbols convert between text and value without loss",
  "An asset or symbol text is accepted exactly if it is a decimal amount with at most 18 decimals that fits 64 bits and a symbol of up to seven capital letters; the value is the exact decimal value, and text and value convert back and forth without loss.",
  ["inputs"],"every text and every amount and symbol",PURE+" FuzzAsset compares through float64.",["pkg/chain/asset.go","pkg/chain/symbol.go"],[("digit-wise parse","pkg/chain/asset.go NewAssetFromString"),("symbol packing","pkg/chain/symbol.go rawSymbolValue")])
p("C23","64- and 128-bit numbers keep their value in text and JSON",
  "Every 64-bit and 128-bit integer and block number written as text or JSON and read back has the same value, values above 32 bits are written as strings, and values out of range are rejected.",
  ["inputs"],"every integer",PURE,["pkg/chain/numbers.go"],[("big.Int conversion","pkg/chain/numbers.go")])
p("C24","Base58 is a bijection between byte strings and its texts",
  "Encoding any byte string and decoding the text gives the same bytes, leading zero bytes included, and no two byte strings share a text.",
  ["inputs"],"every byte string",PURE,["pkg/base58/base58.go"],[("radix conversion in groups of ten digits","pkg/base58/base58.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
