#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the jsonl is what counts)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
R="asn1crt/"
ENC,UPER,ACN,ACNH,BER,XER,CRT=[R+x for x in("asn1crt_encoding.c","asn1crt_encoding_uper.c","asn1crt_encoding_acn.c","asn1crt_encoding_acn.h","asn1crt_encoding_ber.c","asn1crt_encoding_xer.c","asn1crt.c")]
W="PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/"

p("C01","Bit-level writes and reads are exact",
  "Writing k bits (single bits, partial bytes, bytes, bit and byte arrays, runs of ones or zeros) at any bit position stores exactly those bits at exactly that position, advances the position by k, and leaves every other bit of the buffer as it was. Reading k bits at any position returns exactly the k bits stored there, advances by k, and leaves the buffer as it was; testing for a bit pattern consumes it if and only if it is there.",
  ["inputs"],"every start bit position, every bit count up to the bound, every previous buffer content before the position, every value",
  "The suites write a few values at the few positions their grammars give; a mask or shift that is wrong at one alignment and one length is not sampled.",
  [ENC],[("masks and shift/merge of partial bytes",ENC)],["C runtime bit stream API"])
p("C02","Encoders never write outside the buffer they were given",
  "A C runtime encoder called with enough room left in the bit stream for the encoding it produces reads and writes only the bytes of that stream's buffer and of the value it was given, and leaves the write position inside the buffer. This holds also when the encoding ends exactly at the last bit of the buffer.",
  ["inputs"],"every value and every start position with just enough room",
  "Tests allocate the worst-case size plus slack and never end on the last bit at each alignment; an overrun of one byte is silent.",
  [ENC,UPER,ACN],[("position checks of the append primitives",ENC)])
p("C03","Decoders stay inside their buffers on arbitrary input",
  "For every content of the input bytes, every input length and every start position, every uPER and ACN decoding function of the C runtime returns, without reading outside the input buffer and without writing outside the destination whose capacity it was told. This holds when it reports failure as well as when it reports success.",
  ["inputs"],"every byte string up to the bound, every start position, every declared size bound up to the limit",
  "Tests decode only what the encoder just produced; no malformed or truncated input is ever decoded.",
  [ENC,UPER,ACN],[("length checks before each read",ENC),("capacity checks of string and array decoders",ACN)])
p("C04","Truncated input is rejected",
  "If the input ends before the last bit of an encoding, decoding it reports failure; it never reports success with a value built from bits that were not there. A successful decode never leaves the read position beyond the end of the input.",
  ["inputs"],"every value's encoding cut at every length, and every arbitrary byte string",
  "No test decodes a truncated message.",
  [ENC,UPER,ACN],[("remaining-length checks and propagation of failures",ENC)])
p("C05","uPER integer encodings are exact and lossless",
  "Constrained, semi-constrained and unconstrained whole numbers are encoded bit for bit as X.691 unaligned PER prescribes (offset from the lower bound in the minimum number of bits; length byte plus minimal big-endian or two's-complement content), for every range and value of the 64-bit (or 32-bit) word. Decoding the encoding, at any bit position, gives back the same value and consumes exactly the bits that were written.",
  ["inputs","configurations"],"all ranges min<=max, all values inside, all start positions, word sizes 8 and 4",
  "The suites use a handful of ranges and one or two values of each; the extreme ranges and widths are not reached.",
  [ENC],[("bit counting, sign handling and offset arithmetic",ENC)])
p("C06","A decoded integer is always inside its declared range",
  "When decoding a constrained or semi-constrained integer reports success, the delivered value lies within the declared bounds; a bit pattern that denotes a value outside them, or that does not fit the destination's width, is reported as failure. This holds for every width of destination.",
  ["inputs"],"all bit patterns, all ranges, all destination widths",
  "Tests never decode out-of-range patterns.",
  [ENC,ACN],[("range check after reading the offset",ENC)])
p("C07","REAL values survive encoding and decoding",
  "Encoding a finite double or float, an infinity or a zero as an ASN.1 REAL and decoding the result gives back the same number. NaN decodes as NaN, and no input makes the REAL decoder run for more steps than the input is long.",
  ["inputs"],"all 2^64 doubles (exponent and mantissa symbolic), all special values, all header bytes",
  "Tests use a few REAL constants near 1.",
  [ENC],[("mantissa/exponent decomposition and recomposition",ENC)])
p("C08","Octet and bit strings survive uPER encoding, with the right length form",
  "A string of n octets or bits with size range (min..max) is encoded with no length (min=max), a constrained length, or the fragmented form for large maxima, exactly as X.691 prescribes, and decoding gives back the same length and content. Decoding never delivers a length outside min..max.",
  ["inputs"],"all contents, lengths and size ranges within the bound; fragment boundaries 16K,32K,48K,64K for the fragmented form with contents abstracted",
  "Tests use one length per string type and never cross a fragment boundary.",
  [ENC],[("length determinant and fragmentation loops",ENC)])
p("C09","Object identifiers survive encoding and invalid ones are rejected",
  "Every valid object identifier or relative object identifier, with components up to the word size, decodes from its encoding to itself, and its content octets are the X.690 base-128 form. Validation accepts exactly those with an admissible number of components and admissible first arcs, and decoding never delivers more components than the value can hold.",
  ["inputs"],"all component values, all component counts up to the capacity bound, all content octets",
  "No test contains an object identifier.",
  [UPER,CRT],[("base-128 component coding and component counting",UPER)])
p("C10","ACN fixed-size integers have the declared layout and are lossless",
  "Unsigned and two's-complement integers of a declared size (any number of bits, or 8/16/32/64 bits big or little endian) occupy exactly that many bits in exactly the declared bit and byte order at any bit position. Decoding gives back the same value, including negative values sign-extended from any width.",
  ["inputs","configurations"],"all sizes 1..64 bits, both endiannesses, all values, all start positions",
  "Suites use a few sizes with one value each, mostly byte aligned and non-negative.",
  [ACN],[("bit shifting, byte swapping and sign extension",ACN)])
p("C11","ACN variable-size, BCD and ASCII integers are lossless",
  "Every value admissible for a variable-size (length-embedded), BCD or ASCII integer encoding, fixed or terminated, decodes from its encoding to itself, consumes exactly what was written, and the bytes written are the digits, nibbles, sign and terminator the format prescribes. Input that is not in the format (a nibble above nine, a character that is no digit, a number that does not fit) is reported as failure instead of being delivered as some other number.",
  ["inputs"],"all values of the word, all field sizes, all malformed inputs within the bound",
  "The suites have very few of these encodings and only short values.",
  [ACN],[("digit loops, sign and terminator handling",ACN)])
p("C12","ACN reals are IEEE 754 in the declared byte order",
  "A REAL with an IEEE-754 32 or 64 bit encoding is written as the exact bit image of the float or double, big or little endian, at any bit position. Decoding the image gives back the identical value for every bit pattern.",
  ["inputs"],"all bit patterns, both widths, both orders, all start positions",
  "Tests use a few constants.",
  [ACN],[("byte order handling",ACN)])
p("C13","ACN booleans and bit patterns are recognised exactly",
  "A boolean with declared true/false patterns is written as exactly the pattern and decodes as true or false exactly when the corresponding pattern is present, consuming exactly the pattern. A null-terminated bit field ends at the first position where the terminator matches, and no earlier content is lost.",
  ["inputs"],"all patterns and lengths within the bound, all stream contents, all start positions",
  "Tests use one or two patterns at one alignment.",
  [ACN,ENC],[("pattern comparison and rewind",ACN)])
p("C14","ACN strings are lossless and bounded",
  "Every string within its size limit, in each ACN string form (fixed, terminated by one or several bytes, length-prefixed inside or outside, full ASCII or reduced alphabet), decodes from its encoding to itself, zero-terminated, and consumes exactly what was written. Decoding arbitrary bytes never writes more characters than the declared maximum plus the terminating zero.",
  ["inputs"],"all contents and lengths within the bound, all alphabets within the bound, arbitrary bytes",
  "One short string per suite; a past overflow of this kind is documented in the security regression notes.",
  [ACN],[("per-form copy loops and terminator handling",ACN)])
p("C15","Alignment and small-value mappings are exact",
  "Aligning a stream to a byte, 16-bit or 32-bit boundary moves both encoder and decoder to the same next boundary when that boundary lies inside the buffer, never back, with the skipped bits zero on encoding. The military-bus length mapping is a bijection on its domain.",
  ["inputs"],"all positions, all mapping arguments",
  "Few alignments are sampled.",
  [ACN],[("alignment arithmetic",ACN)])
p("C16","Deferred ACN determinants patch only their own field",
  "A determinant that is reserved first and filled in later ends up holding exactly the value given, in the encoding declared for it, and no other bit of the stream nor the current write position changes. Filling it a second time succeeds only with the same value; a different value is reported as an inconsistency.",
  ["inputs","histories"],"all encodings of determinants, all positions, all values, all sequences of reserve and fill up to the bound",
  "No committed suite uses deferred determinants.",
  [ACN,ACNH],[("save position, reserve, seek, patch, restore",ACNH)])
p("C17","Comparison and lookup functions are exact",
  "Two bit strings, octet strings or object identifiers compare equal if and only if their lengths and used contents are equal, whatever lies beyond the used part. Lookup in a table of enumerated or allowed values finds a value if and only if it is in the table, and reports its index.",
  ["inputs"],"all contents and lengths within the bound, all tables within the bound",
  "Tests compare values that are equal.",
  [CRT,ENC],[("length and tail-bit masking; binary and linear search",CRT)])
p("C18","Streaming mode produces and accepts the same bits",
  "With the streaming option, a sequence of encode operations hands the sink exactly the bytes that the same sequence without streaming puts in one buffer, whatever the size of the intermediate buffer and its earlier content. Decoding from a source that delivers the bytes in pieces gives the same values as decoding them at once.",
  ["inputs","configurations","histories"],"all intermediate buffer sizes within the bound, all start alignments, all values, short operation sequences",
  "No test compiles the runtime with streaming enabled.",
  [ENC],[("push when full, fetch when exhausted",ENC)])
p("C19","XER values survive encoding and decoding",
  "An integer, boolean, enumerated, octet string, bit string, object identifier or character string written as an XER element decodes to itself, also with comments or white space between elements. The encoder never writes beyond the output buffer but reports failure when it is too small.",
  ["inputs"],"all values and lengths within the bound, all buffer sizes within the bound",
  "No test encodes XER at all.",
  [XER],[("text conversion, escaping, tokenizer",XER)])
p("C20","The XER decoder is safe on arbitrary text",
  "For every input text the XER decoding functions return without reading outside the input and without writing outside the destination or their own fixed-size work areas. Elements with overlong names, values or attributes are rejected or skipped, never overflowed into memory.",
  ["inputs"],"every text up to the bound, with the fixed-size limits scaled by construction of the input",
  "No test decodes XER; two earlier overflows are documented in the security regression notes.",
  [XER],[("token and attribute length limits",XER)])
p("C21","BER values survive encoding and decoding",
  "Every integer, boolean, real, enumerated, octet string and length written in BER decodes to itself, and lengths and tags written and read agree with X.690. The encoder reports failure rather than write beyond the buffer.",
  ["inputs"],"all values of the word, all lengths within the bound, all tags",
  "No test uses BER.",
  [BER],[("tag, length and content octets",BER)])
p("C22","The BER decoder is safe on arbitrary bytes",
  "For every input the BER decoding functions return without reading outside the input and without writing outside the destination, and report success only with lengths that are non-negative and within what the destination holds.",
  ["inputs"],"every byte string up to the bound",
  "No test decodes BER.",
  [BER],[("length decoding and bounds checks",BER)])
p("C23","Packet CRCs equal their polynomial definition",
  "The packet CRC of every message equals the CRC-16 defined by its polynomial and initial value, computed bit by bit, and can be computed in pieces with the same result as at once. A message followed by its CRC verifies, and any change of one or two bits, or of a burst of up to 16 bits, within it is detected.",
  ["inputs"],"all messages up to the bound, all split points, all error patterns of those classes",
  "Tests check six fixed messages.",
  [W+"Crc.c"],[("table-free byte update",W+"Crc.c")])
p("C24","ISO checksums equal their definition",
  "The ISO checksum of every message is the one its specification defines (two running sums modulo 255 with zero replaced by 255), never zero in either octet, and a message followed by its checksum verifies while any change of one octet is detected (other than exchanging 0 and 255).",
  ["inputs"],"all messages up to the bound, all single-octet changes",
  "Tests check a few fixed messages.",
  [W+"IsoChecksum.c"],[("sum updates and final complement",W+"IsoChecksum.c")])
p("C25","Packet length and error-control hooks are inverse and in range",
  "The functions that map between stored and logical packet length are inverse of each other over the whole domain, and the hooks that compute and check packet error control on a stream use exactly the octets of the packet. A packet produced by the encoder passes the decoder's check, a changed one does not.",
  ["inputs"],"all lengths, all packet contents up to the bound",
  "These wrappers are not compiled by any test.",
  [W+"PacketLength.c",W+"PacketErrorControl.c",W+"UInt16Coder.c"],[("length offset and stream patching",W+"PacketErrorControl.c")])
p("C26","Previously generated codecs keep working on the current runtime",
  "For every message value that the committed generated C code accepts as valid, encoding succeeds on the current runtime within the declared maximum size and decoding gives back an equal value. Decoding arbitrary bytes with them never touches memory outside the buffers.",
  ["inputs","programs"],"all valid values of the message types of the committed suites within container bounds, all byte strings up to the bound",
  "The suites encode a few fixed values of each type.",
  [ENC,ACN,UPER],[("contract between generated code and runtime",ENC)])
GEN=["BackendAst/","FrontEndAst/","StgC/","CommonTypes/"]
p("C30","Generated uPER codecs are lossless",
  "For an ASN.1 specification accepted by the compiler, every value that the generated validation accepts is encoded successfully by the generated C uPER encoder, and the generated decoder gives back an equal value and consumes exactly the bits written.",
  ["inputs","programs"],"all values of each type of a battery of grammars covering every type constructor (optional, default, choice, nested, sized, enumerated, strings, extensible forms)",
  "The compiler cannot be run by the tests; the committed suites are snapshots with a few values.",
  ["BackendAst/DAstUPer.fs","StgC/uper_c.stg","FrontEndAst/uPER.fs"],[("code templates and their parameters","StgC/uper_c.stg")])
p("C31","Generated ACN codecs are lossless",
  "For an ASN.1/ACN specification accepted by the compiler, every valid value of each type is encoded successfully by the generated C ACN encoder and decoded back to an equal value with exactly the bits written. Fields computed by the encoder (lengths, presence flags, choice determinants) need not be supplied.",
  ["inputs","programs"],"all values of each type of a battery of ACN grammars (sizes, endianness, determinants, presence conditions, patterns, alignment, parameters)",
  "As for uPER; determinants that are wrong only for some combination of presence and size are not sampled.",
  ["BackendAst/DAstACN.fs","StgC/acn_c.stg","FrontEndAst/AcnEncodingClasses.fs"],[("determinant update and consumption","BackendAst/DAstACN.fs")])
p("C32","Generated XER codecs are lossless",
  "For an ASN.1 specification accepted by the compiler, every valid value is written by the generated C XER encoder within the declared maximum size and read back as an equal value.",
  ["inputs","programs"],"all values of each type of a small battery of grammars",
  "No test runs XER code.",
  ["BackendAst/DAstXer.fs","StgC/xer_c.stg"],[("element templates","StgC/xer_c.stg")])
p("C33","Encodings never exceed the size the compiler announces",
  "The maximum size in bits and bytes that the generated header announces for a type is never exceeded by the encoding of any valid value, and is reached by some value when the type has a fixed-size worst case. A buffer of the announced size therefore always suffices.",
  ["inputs","programs"],"all valid values of each type of the battery, uPER and ACN",
  "Sizes are computed at compile time by code the tests never run; worst cases are rare values.",
  ["FrontEndAst/uPER.fs","FrontEndAst/AcnEncodingClasses.fs","CommonTypes/FsUtils.fs"],[("size computation per type","FrontEndAst/uPER.fs")])
p("C34","Generated validation accepts exactly the values the constraints admit",
  "The generated constraint check of a type accepts a value if and only if it satisfies the type's ASN.1 constraints (ranges, sizes, alphabets, unions, intersections, exceptions, with-components, single values), for every value of the underlying machine type. The default initial value the compiler generates is accepted.",
  ["inputs","programs"],"all machine values of each type of a battery of constraint expressions, against an independent evaluation of the constraint",
  "Tests validate only valid values.",
  ["BackendAst/DastValidate2.fs","CommonTypes/RangeSets.fs","CommonTypes/SimpleSets.fs","StgC/isvalid_c.stg"],[("constraint translation and simplification","BackendAst/DastValidate2.fs")])
p("C35","Generated uPER encodings are the ones X.691 prescribes",
  "The bits produced by the generated uPER encoder for a valid value are those of an independent X.691 unaligned PER encoder for the same specification: presence bitmaps, choice indexes in tag order, enumeration indexes in value order, lengths, alphabets and offsets from the effective constraint.",
  ["inputs","programs"],"all values of each type of a battery of grammars, against an independent reference encoder",
  "Round trips cannot notice an encoder and decoder that are wrong in the same way.",
  ["BackendAst/DAstUPer.fs","FrontEndAst/uPER.fs","StgC/uper_c.stg"],[("effective constraints and index assignment","FrontEndAst/uPER.fs")])
p("C36","Generated decoders are safe and deliver only valid values",
  "For every input byte string the generated uPER and ACN decoders, including the validation they are told to do, return without touching memory outside the input and the destination. When they report success the decoded value satisfies the type's constraints.",
  ["inputs","programs"],"every byte string up to the bound for each type of the battery",
  "Tests decode only well-formed messages.",
  ["BackendAst/DAstUPer.fs","BackendAst/DAstACN.fs","StgC/acn_c.stg","StgC/uper_c.stg"],[("checks emitted around each read","StgC/acn_c.stg")])
p("C37","Generated equality is equality of abstract values",
  "The generated equality function of a type is true for two valid values if and only if they denote the same abstract value: same presence of optional parts, same chosen alternative, same lengths and elements, ignoring storage that carries no information.",
  ["inputs","programs"],"all pairs of values of each type of the battery",
  "Tests compare a value with its own decoded copy only.",
  ["BackendAst/DAstEqual.fs","StgC/equal_c.stg"],[("field-wise comparison templates","StgC/equal_c.stg")])
p("C38","Code-generation options do not change the wire format",
  "For the same specification and value, code generated with compact integer types, with fast enumeration lookup, with a different word size, with name prefixes or renaming policies, or with deferred determinant patching produces the same bits as code generated without the option, and each decodes the other's output.",
  ["inputs","programs","configurations"],"all values of the battery types, each option against the default",
  "No test generates code with different options.",
  ["StgC/LangGeneric_c.fs","BackendAst/DAstACNDeferred.fs","BackendAst/DAstConstruction.fs"],[("option-dependent templates","StgC/LangGeneric_c.fs")])
p("C39","ACN encodings have the layout the ACN specification declares",
  "The bits produced by the generated ACN encoder for a valid value are those an independent reading of the ACN specification gives: declared size, byte order and encoding of every field, field order, alignment, determinants holding the count or presence or alternative of what they determine.",
  ["inputs","programs"],"all values of each type of a battery of ACN grammars, against an independent reference encoder",
  "Round trips cannot notice an encoder and decoder that are wrong in the same way.",
  ["BackendAst/DAstACN.fs","FrontEndAst/AcnEncodingClasses.fs","StgC/acn_c.stg"],[("encoding class selection","FrontEndAst/AcnEncodingClasses.fs")])
A="ADA_RTL2/src/"
p("C50","Ada runtime primitives never raise and are exact",
  "Called within their stated preconditions, the Ada runtime's bit-level and integer encoding and decoding operations raise no run-time error for any input, write exactly the prescribed bits at the prescribed position, and read back what was written.",
  ["inputs"],"all values, positions and field sizes within the bound, all stream contents",
  "The Ada runtime is only compiled, never executed, by the tests.",
  [A+"adaasn1rtl-encoding.adb",A+"adaasn1rtl-encoding-uper.adb"],[("preconditions and bit masks",A+"adaasn1rtl-encoding.adb")])
p("C51","Ada and C runtimes agree on the wire format",
  "For the same value and the same declared encoding, the Ada runtime and the C runtime produce the same bits, and each decodes the other's output to the same value.",
  ["inputs"],"all values of each uPER and ACN integer, boolean, string and real form common to both, all start positions",
  "No test runs Ada code, let alone both.",
  [A+"adaasn1rtl-encoding-uper.adb",A+"adaasn1rtl-encoding-acn.adb",ENC,ACN],[("parallel implementations",A+"adaasn1rtl-encoding-acn.adb")])
p("C52","Ada runtime ACN encodings are lossless",
  "Every value admissible for an ACN integer, boolean, real or string encoding decodes, in the Ada runtime, from its encoding to itself without raising, and consumes exactly the bits written.",
  ["inputs"],"all values, sizes and positions within the bound",
  "The Ada runtime is only compiled by the tests.",
  [A+"adaasn1rtl-encoding-acn.adb"],[("field codecs",A+"adaasn1rtl-encoding-acn.adb")])
p("C60","Scala runtime and C runtime agree",
  "For the same value and declared encoding, the Scala runtime produces the same bits as the C runtime and decodes them back.",
  ["inputs"],"all values of each encoding form",
  "The Scala runtime is not compiled by the tests.",
  ["asn1scala/src/main/scala/asn1scala/asn1jvm_Bitstream.scala","asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala"],[("parallel implementation","asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala")])
p("C61","Interface control documents describe the real encoding",
  "The field sizes, offsets and presence rules that the generated interface control document states for a type are those of the encodings the generated code produces.",
  ["inputs","programs"],"all specifications",
  "No test generates a document.",
  ["BackendAst/GenerateAcnIcd.fs","BackendAst/GenerateUperIcd.fs"],[("document templates","StgVarious/icdtemplate_acn.stg")])
p("C62","Every accepted specification yields code that compiles",
  "For every ASN.1/ACN specification the compiler accepts, the generated C, Ada and Scala code compiles without errors; every specification it rejects is reported with a location, not an internal failure.",
  ["programs"],"all specifications",
  "The compiler is not run by the tests.",
  ["FrontEndAst/","BackendAst/"],[("front-end checks","FrontEndAst/CheckAsn1.fs")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
