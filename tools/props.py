AI = "static analysis: abstract interpretation of the compiler's MIR (value numbering, affine facts, path partitioning, inductive loop summaries)"

prop("P01", "Parsing never panics, whatever the bytes",
     """Parsing a packet, or any part of one (name, header, question, record, record data, code number), from an arbitrary byte
     sequence at an arbitrary position within it either returns a value or an error. It never panics: no arithmetic
     overflow, no access outside the data and no failing unwrap, with overflow checks on. The position afterwards lies within the data.""",
     ["inputs", "configurations"], "every byte sequence of every length, every position of the cursor within it, every argument of the buffer's methods",
     "the failing inputs are truncations and length fields at particular places of particular records; tests feed a handful of mostly well-formed packets",
     ["src/buffer.rs", "src/fqdn.rs", "src/header.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/rdata"],
     [("try_from(&mut DnsBuffer)", "every impl of TryFrom for a parsed type"), ("RecordData::from", "src/rdata/mod.rs"), ("DnsBuffer", "src/buffer.rs")],
     AI, """each parser is interpreted abstractly on symbolic bytes with a symbolic cursor; every overflow, bounds, slice and unwrap
     check in the MIR reached is an obligation discharged by interval and affine facts and inductive loop bounds. All obligations
     of the tree are discharged; allocation failure is out of scope.""")

prop("P02", "Parsing terminates, whatever the bytes",
     """Parsing a packet or any part of one from an arbitrary byte sequence ends after a number of steps bounded by the data.
     In particular compression pointers cannot make the parser read the same position of a name again and again, and no
     list of options, strings or parameters is read without consuming bytes.""",
     ["inputs", "configurations"], "every byte sequence of every length and every position of the cursor within it",
     "a hanging input needs pointers that form a cycle or an element of length zero at the right place",
     ["src/buffer.rs", "src/packet.rs", "src/rdata"],
     [("extract_fqdn", "src/buffer.rs"), ("parsing loops", "every impl of TryFrom for a parsed type")],
     AI, """every loop reached from a parser must have a ranking argument (count fixed beforehand, finite iterator, or a
     lexicographic measure bounded by the data length) derived from its MIR; an iteration that can leave the loop's state
     unchanged is reported.""")

prop("P03", "The announced size of a value is the number of bytes it serialises to",
     """For every value that can be serialised, the size the library announces for it equals the number of bytes its
     serialisation produces. This holds for the plain form of every type and, from the same starting offset and set of
     names already written, for the compressed form of every type that has one.""",
     ["inputs", "configurations"], "every value of every serialisable type, every starting offset and table of already written names",
     "sizes and serialisers are separate code per type, and agree or not depending on list lengths, optional parts and label lengths that a test samples one of",
     ["src/byteconvertible.rs", "src/fqdn.rs", "src/packet.rs", "src/resource.rs", "src/question.rs", "src/rdata"],
     [("byte_size / to_bytes", "every impl of ByteConvertible"), ("byte_size_compressed / to_bytes_compressed", "every impl of CompressedByteConvertible")],
     AI, """both functions are interpreted abstractly on the same symbolic value; the size expression must equal the length
     expression of the byte pattern on every path. NSEC and CSYNC bitmaps (data-dependent bit positions) stay undecided and are reported as such.""")

prop("P04", "Record data reads back as the value that was written",
     """For every record data type, parsing the bytes the type serialises to yields a value equal to the original in every
     part, and consumes exactly those bytes. The same holds for domain names and service parameters on their own, whatever
     bytes follow them.""",
     ["inputs", "configurations"], """every value of every record data type other than NSEC and CSYNC, within what the wire format can represent (labels
     of 1 to 63 bytes, strings and lists that fit their length fields)""",
     "tests read back one or two values per type; a wrong width, mask, order or missing branch shows only for particular values",
     ["src/rdata", "src/fqdn.rs", "src/buffer.rs"],
     [("to_bytes", "impl ByteConvertible of every record data type"), ("try_from(&mut DnsBuffer)", "impl TryFrom of every record data type"), ("extract_*", "src/buffer.rs")],
     AI, """the encoder's byte pattern for a symbolic value is handed to the decoder's MIR as an abstract buffer; value and
     final position must be equal on every combination of paths. Nested names are summarised by their own obligation.""")

prop("P05", "Headers, questions and records read back as they were written",
     """For every header, question and resource record, parsing the bytes it serialises to yields an equal value and consumes
     exactly those bytes, whatever bytes follow. The same holds for the compressed form, read as part of the message it
     was written for.""",
     ["inputs", "configurations"], """every header, question and resource record within what the wire format can represent (defined response code,
     class number below 0x8000, record data that fits its 16-bit length), every feature set""",
     "a lost flag, a swapped field or a wrong width shows only for particular values or under one feature set",
     ["src/header.rs", "src/question.rs", "src/resource.rs"],
     [("to_bytes / to_bytes_compressed", "impls for Header, Question and ResourceRecord"), ("try_from(&mut DnsBuffer)", "impls for Header, Question and ResourceRecord")],
     AI, """the encoder's byte pattern for a symbolic value is handed to the decoder's MIR as an abstract buffer; value and
     final position must be equal on every combination of paths. Names and record data are summarised by P04, P08 and P10.""")

prop("P06", "A packet's counts, sections and order survive writing and reading",
     """Both serialisations of a packet announce in the header exactly the number of elements of each section and write every element
     once, in order, section by section; reading that message back yields the same packet. From arbitrary bytes the parser reads
     exactly as many elements per section as announced, or fails. Adding, setting and taking elements keeps the
     announced counts equal to the number of elements.""",
     ["inputs", "histories", "configurations"], "every packet (sections of up to 65535 elements), every byte sequence, every sequence of section updates",
     "each section is handled by separate code in four places; tests use one question or one record",
     ["src/packet.rs"],
     [("to_bytes / to_bytes_compressed / try_from", "src/packet.rs"), ("set_* / add_* / take_*", "impl Packet")],
     AI, """a packet with four symbolic lists is serialised and parsed abstractly, with inductive summaries of the loops over the
     sections; questions and records are summarised by P05.""")

prop("P07", "Record data and its announced length agree, writing and reading",
     """A written record's length field is exactly the number of bytes of record data that follow it, in the plain and in the
     compressed form; the same holds for service parameters. When reading, the record data is parsed from exactly the announced bytes (names in it may
     still refer to earlier parts of the message) and the next record starts right after them, whatever the record data parser consumed.""",
     ["inputs", "configurations"], "every record, offset and table of written names; every byte sequence and position",
     "the length differs from the announced size only where compression, optional parts or a lenient data parser come into play",
     ["src/resource.rs", "src/buffer.rs", "src/rdata/svcb.rs"],
     [("to_bytes / to_bytes_compressed / try_from", "impls for ResourceRecord"), ("sub_buffer / advance", "src/buffer.rs"), ("Param", "src/rdata/svcb.rs")],
     AI, """the 16-bit field in the byte pattern of every encoder path must equal the length expression of what follows; the
     window and cursor handed over by the record parser are compared with the announced length on every path.""")

prop("P08", "Name compression only ever points to the right name",
     """In a compressed message every pointer leads to an earlier place of the message where exactly the replaced rest of the name
     is written, and is only used for places a pointer can express. Apart from names replaced in this way, the compressed
     form carries the same bytes as the plain form.""",
     ["inputs", "histories", "configurations"], """every packet, every name (labels of 1 to 63 bytes) at every offset, every history of names written before; under the
     assumption that different names have different hashes""",
     "a wrong offset only shows when a later name happens to share the suffix entered under it, or when the message is longer than 16 KB",
     ["src/fqdn.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/rdata"],
     [("to_bytes_compressed", "every impl of CompressedByteConvertible"), ("Packet::to_bytes_compressed", "src/packet.rs"), ("hash_fqdn", "src/util.rs")],
     AI, """the offset handed to each nested name or record must equal the offset of the whole plus the bytes written before it
     (affine comparison, induction over loops); table insertions and lookups of the name encoder are compared with the positions written.""")

prop("P09", "Numeric codes and their meanings correspond in both directions",
     """Every enumeration that stands for a number on the wire (types, classes, response codes, algorithms, keys, modes and the like)
     writes each of its values as a number that reads back as the same value, reads each accepted number as a value that
     writes the same number, and names a rejected number in the error. Numbers assigned by the protocol have their assigned meaning.""",
     ["inputs", "configurations"], "every number of the field's width and every value of every code enumeration (class numbers below 0x8000)",
     "the tables have hundreds of entries, each direction written separately, and tests touch only a few of them",
     ["src/resource.rs", "src/question.rs", "src/header.rs", "src/rdata"],
     [("try_from(u8/u16) / from", "impls of TryFrom and From of the code enumerations")],
     AI, """both conversions are interpreted abstractly on a symbolic number and on every variant and composed; assigned numbers come
     from a table of the protocol registries kept in the check.""")

prop("P10", "A record's type and its data always belong together",
     """For every record type that carries data, parsing under that type yields that type's data and nothing else; writing, measuring and
     compressing the data gives the bytes of that data type, and each data type names the record type it is parsed under.""",
     ["inputs", "configurations"], "every record type, every data type and value, every feature set",
     "the dispatch has forty branches in half a dozen places, and tests go through a handful of them",
     ["src/rdata/mod.rs", "src/resource.rs"],
     [("RecordData::from / to_bytes / byte_size / to_bytes_compressed", "src/rdata/mod.rs"), ("RData::record_type", "every impl of RData")],
     AI, """every branch of the dispatch is interpreted with the data types' codecs as opaque summaries; the variant built, the codec called and
     the type announced must agree.""")

prop("P11", "Multicast marks share the class field without disturbing the class",
     """With multicast support, the top bit of the class field is the unicast-response mark of a question and the cache-flush mark of a record: whatever
     the class, it is written (plain and compressed) exactly when the mark is set, read back as the mark, and never becomes part of the class or is lost by
     changing the class; it is off unless set. Without multicast support the bit is written as zero and ignored on reading.""",
     ["inputs", "configurations"], "every question and record, every 16-bit class field, every feature set",
     "the bit is handled separately in six places, for two kinds of entries and two serialisations; tests set it with one class",
     ["src/question.rs", "src/resource.rs"],
     [("to_bytes / to_bytes_compressed / try_from", "impls for Question and ResourceRecord"), ("unicast_response / cache_flush", "src/question.rs, src/resource.rs")],
     AI, """serialisers, parsers, getters and setters are interpreted bit by bit on symbolic values; the class field must be the class code plus
     the mark at bit 15 on every path, and reading must take both apart again.""")

prop("P12", "Header flags are independent and at their assigned bits",
     """Each header field (response bit, operation code, authoritative answer, truncation, recursion desired and available, response code, identifier) is read from
     and written to exactly the bits the protocol assigns to it, on headers and on packets; setting one changes no other bit of the header and no
     section, except that only a response carries a response code or recursion available. New queries and replies start with just the
     values they are given.""",
     ["inputs", "histories", "configurations"], "every header and packet (hence every history of earlier settings), every value of every field",
     "a setter that disturbs a neighbouring bit only shows when that neighbour was set before and is looked at afterwards",
     ["src/header.rs", "src/packet.rs"],
     [("accessors and setters of Header", "src/header.rs"), ("accessors and setters of Packet", "src/packet.rs"), ("FlagBitfield", "src/header.rs")],
     AI, """every accessor is interpreted on a header of 96 symbolic bits; the serialised header before and after is compared bit by bit with
     the assignment of RFC 1035.""")

prop("P13", "The byte cursor reads exactly what is there, and says so when it is not",
     """Every operation of the cursor over received bytes (peeking, extracting bytes, numbers and strings, advancing, repositioning, narrowing) succeeds exactly when
     the requested bytes lie within the data, yields precisely those bytes in network order, and moves the cursor by exactly what was read; bytes behind the cursor's end are
     never returned. When bytes, a number or a move are refused, the cursor stays where it was; a narrowed view ends after the requested bytes, keeps the position and
     leaves the original cursor alone.""",
     ["inputs", "histories", "configurations"], "every byte sequence, every position within it, every requested length up to the largest the machine can express",
     "off-by-one and overflow errors sit at the very end of the data or at lengths near the integer limit, which tests do not request",
     ["src/buffer.rs"],
     [("operations of DnsBuffer", "src/buffer.rs")],
     AI, """each operation is interpreted abstractly on symbolic bytes, position and argument; the success condition, the result and the position on each
     path are compared with the contract by affine reasoning.""")

prop("P14", "Names are read label by label, along backward pointers only",
     """Reading a name yields the labels at the cursor and, where a pointer follows, the labels at the place it points to, and so on; afterwards the cursor stands right behind the
     name's own bytes (behind its first pointer, if it has one), wherever pointers led. A name whose pointer does not lead to before the labels being read, or that is cut
     off by the end of the data in a label, a pointer or before its end, is an error.""",
     ["inputs", "configurations"], """names of up to five labels or up to three pointers with runs of labels between them, label lengths 1 to 63 and contents arbitrary, at arbitrary places of
     messages that are arbitrary elsewhere""",
     "tests read one compressed name; chains of pointers, pointers into the middle of a name and the cursor position after them are not exercised",
     ["src/buffer.rs", "src/fqdn.rs"],
     [("extract_fqdn", "src/buffer.rs"), ("try_from", "impl TryFrom for FQDN")],
     AI, """the reader is interpreted abstractly on byte patterns with symbolic label lengths, contents, gaps and pointer targets, for every shape of runs and
     pointers up to the bound; and exactly for the step that meets malformed bytes after zero, one or two labels.""")

prop("P15", "Record data is laid out on the wire as the protocol specifies",
     """For every kind of record data, the fields given to its constructor or found in its public parts appear in the serialised data in the order, width and byte order the defining
     RFC assigns to them, with exactly the length octets and flags the RFC asks for in between, so that other implementations read the same values. Service parameters and the keys of a
     mandatory list stand in ascending order of their key numbers. The type bitmaps of NSEC and CSYNC data have a property of their own.""",
     ["inputs", "configurations"], "every value of every record data type with representable lengths, every feature set",
     "two fields swapped consistently in the writer and the reader pass every round trip, and the tests compare few records with bytes from elsewhere",
     ["src/rdata/"],
     [("to_bytes", "impls of ByteConvertible in src/rdata/"), ("constructors", "src/rdata/")],
     AI, """each writer is interpreted abstractly on symbolic fields and each constructor on symbolic arguments; the resulting byte pattern is compared piece by piece with a table of
     the RFC layouts kept in the check.""")

prop("P16", "Building, changing, reading and writing values never panics",
     """No public operation on values of the library (building, changing, inspecting, comparing, printing, measuring, serialising plain or compressed, computing key tags and digests,
     signing, verifying) panics, overflows or indexes out of bounds, for any values that can be built or parsed; failures show as errors.
     Allocation failure and sizes beyond the address space are left out.""",
     ["inputs", "histories", "configurations"], "every value of every type of the library, every argument of every public operation, every feature set",
     "the failing values (empty keys, huge counts, names with a single label, times before the epoch) are built by callers, not by the tests",
     ["src/"],
     [("public operations other than parsers", "src/"), ("pop_and_verify, sign and verify", "src/rdata/dnssec.rs")],
     AI, """every arithmetic check, index, slice, conversion and unwrap reached from a public operation on arbitrary arguments is an obligation discharged by the facts of
     its path; calls into other crates are taken to return arbitrary values of their type. Obligations the domain cannot decide are listed as undecided.""")

prop("P17", "Results depend on the arguments only",
     """No operation of the library reads or changes anything but its arguments: no input or output, no clock, no environment, no process-wide or thread-local state, no
     addresses, and no randomness except inside signing. In particular the serialised form of equal values is the same in every run, whatever
     order a hash map happens to iterate in.""",
     ["inputs", "histories", "schedules", "configurations"], "every public operation, every call path from it, every hash map order, every feature set",
     "a test runs each operation once in one process; hidden state and unspecified orders show only between runs, threads or calls",
     ["src/"],
     [("all functions reachable from public operations", "src/"), ("to_bytes", "impl for Opt, src/rdata/opt.rs")],
     "static analysis: effect analysis over the MIR call graph; abstract interpretation of serialisers with the order of hash maps kept unknown",
     """the call graph of every feature set is searched for operations with effects outside the arguments; serialisers of values that hold hash maps are interpreted
     with the iteration order as an unknown, on which the bytes must not depend.""")

prop("P18", "A signature is accepted exactly when its algorithm's check succeeds",
     """Verifying a signature record with a public key accepts exactly when the check of the scheme its algorithm number stands for succeeds on the whole signed data (the record's
     own fields in wire form without the signature, then the record set), the whole signature and the key as its RFC lays it out. A key of another algorithm is refused with an
     error, and algorithms that cannot be checked are never accepted.""",
     ["inputs", "configurations"], "every signature record, key and record set, every algorithm number",
     "a forged or foreign input that is wrongly accepted differs from the tested ones in one field that is left out of the check; the tests verify a few signatures made by the library itself",
     ["src/rdata/dnssec.rs"],
     [("Rrsig::verify", "src/rdata/dnssec.rs"), ("signed data", "Rrsig, RRSet in src/rdata/dnssec.rs")],
     AI, """verification is interpreted abstractly with the primitives of other crates as uninterpreted functions; on every path the outcome must be an error or equal the outcome of the
     one check the algorithm stands for, whose arguments are compared byte for byte with the specification. Five deviations of the tree are known findings.""")

prop("P19", "Signing covers the whole data with the scheme that verification uses",
     """A signature record made for a record set and key signs the whole of the data that verification checks (fields in wire form, then the record set) with the scheme verification uses
     for that algorithm, and carries the whole signature. Its fields are the ones given: covered type, algorithm, label count of the owner, time to live, expiration and inception in
     seconds, the key tag of the signing key, and the signer's name; a key of another kind gives an error.""",
     ["inputs", "configurations"], "every record set, every key of every algorithm, every time",
     "a field that is swapped, truncated or left out of the signed data consistently on both sides passes every sign-then-verify test",
     ["src/rdata/dnssec.rs"],
     [("Rrsig::from_dnskey", "src/rdata/dnssec.rs"), ("PrivateKey signing", "src/rdata/dnssec.rs")],
     AI, """signing is interpreted abstractly with the primitives of other crates as uninterpreted functions; scheme, message and key of the one signing call and every field of the result are
     compared with the specification.""")

prop("P20", "Digests, key tags and encoded keys are those of the whole data",
     """A delegation signer record built from an owner name and a public key carries the given algorithm and digest type, the key tag of that key, and the hash its digest type stands for over the owner
     name followed by the key data in wire form. A DHCP identifier record carries the SHA-256 hash of the identifier followed by the name in wire form. The base64 forms of keys and
     signatures encode all their bytes in the standard alphabet with padding, the hexadecimal form of a digest has two upper case digits for every byte.""",
     ["inputs", "configurations"], "every owner name, key, algorithm, digest type, identifier",
     "a digest over reordered, truncated or too much data, or the wrong hash for one digest type, is a value of the right shape; the tests pin one digest",
     ["src/rdata/dnssec.rs", "src/rdata/dhcid.rs"],
     [("Ds::try_from_dnskey", "src/rdata/dnssec.rs"), ("DigestType::hash_data", "src/rdata/dnssec.rs"), ("Dhcid::new", "src/rdata/dhcid.rs")],
     AI, """the constructors are interpreted abstractly with hashes and the base64 engine as uninterpreted functions; their arguments and results are compared piece by piece with the RFC's
     concatenations. Key tags are compared with the formula for keys of spelled out lengths.""")

prop("P21", "Record sets have one canonical form, whatever order they are given in",
     """The byte form of a record set, which signatures cover, consists of owner, type, class, time to live, data length and data for every record of the set exactly once, in ascending byte
     order of the data. It is therefore the same for every order in which the same records are given. Reordering a set puts the same records into that order and changes nothing else.""",
     ["inputs", "histories", "configurations"], "every record set with pairwise different data, every order of its records",
     "a wrong order shows only for sets whose records happen to be given in another order than the canonical one; the tests sign sets in one order",
     ["src/resource_record_set.rs"],
     [("ResourceRecordSet::to_bytes", "src/resource_record_set.rs"), ("canonical_reorder", "src/resource_record_set.rs")],
     AI, """the serialiser is interpreted abstractly on a set with any number of records (the bytes must repeat the block over the sorted encodings) and on spelled out sets of up to
     three (thorough four) records for every outcome of the comparisons; reordering on the spelled out sets.""")

prop("P22", "Accepted record data is kept as it was in the message",
     """Writing out record data that the parser accepted gives back the bytes it was parsed from: nothing is silently replaced by a default, mapped to something else, dropped or left
     unread. In particular a part that cannot be read (too short, an unassigned code, a malformed name) makes the parse fail instead of being skipped. The claim is about data
     with uncompressed names, zero reserved bits, UTF-8 text and full-length addresses; type bitmaps are outside it.""",
     ["inputs", "configurations"], "every byte string of every length a parser accepts, lists of up to two elements",
     "a lenient parser differs from a strict one only on inputs that no encoder produces, which round trip tests cannot reach",
     ["src/rdata"],
     [("record data parsers", "TryFrom<&mut DnsBuffer> in src/rdata"), ("encoders", "to_bytes in src/rdata")],
     AI, """every parser is interpreted abstractly on arbitrary bytes of arbitrary length, every accepted outcome is handed to the encoder and the result compared byte by byte with the input.
     Two deviations of the tree (SVCB address hint lists) are known findings.""")

prop("P23", "Names inside record data are compressed only where receivers expand them",
     """In a compressed message the data of a record is written exactly as in the uncompressed message unless its type is NS, CNAME, SOA, PTR, MINFO, MX, SRV, NAPTR or NSEC; receivers need not
     expand pointers in other types. In particular signatures, keys, service bindings and host identities keep their names in full.""",
     ["inputs", "configurations"], "every value of every record data type, every table of names seen so far",
     "a compressed name in the wrong type appears only when an earlier part of the message ends in the same labels, and this library reads it back without complaint",
     ["src/rdata"],
     [("RecordData::to_bytes_compressed", "src/rdata/mod.rs"), ("compressed serialisers", "src/rdata")],
     AI, """for every other type the compressed serialiser is interpreted abstractly; its bytes must be those of the plain serialiser and the table of names must not change.""")

prop("P24", "Names and their text and label forms convert into each other faithfully",
     """A name made from text has the non-empty stretches between the dots as its labels, in order and byte for byte; a name made from a list of labels has these labels, and appending adds one
     label at the end. Printing a name gives its labels with single dots between them. Asking for emptiness, root, label count, length in wire form, link-locality (the last label is "local") or
     iterating answers from all the labels.""",
     ["inputs"], "texts of up to five stretches of any length, names of up to five labels of any length, texts of up to six arbitrary characters, long labels and many labels",
     "tests name a handful of well-formed hosts; leading, trailing or doubled dots, long labels, many labels and look-alikes of local are where conversions go wrong",
     ["src/fqdn.rs"],
     [("FQDN::new, From", "src/fqdn.rs"), ("Display", "impl for FQDN, src/fqdn.rs"), ("is_root, is_link_local, label_count", "src/fqdn.rs")],
     AI, """the conversions are interpreted abstractly on texts given as stretches without dots and as spelled out characters, and on names with spelled out label counts; results are compared label
     by label and byte by byte.""")

prop("P25", "Values give back what was put into them and equal only their equals",
     """What a question, record, record set or address wrapper is made from or set to is what its accessors return, and setting one part leaves every other part as it was; mutable, consuming and
     raw-byte accessors show the same contents, and addresses convert to and from numbers most significant byte first. Two values compare equal exactly if every part of them is
     the same, bytes of names and texts included, and every value equals itself.""",
     ["inputs", "histories", "configurations"], "every value of every part, every prior state; pairs of values that differ in one part",
     "a setter that drops a rare value or touches a neighbour, or an equality that ignores one field, agrees with the tests on everything they compare",
     ["src/question.rs", "src/resource.rs", "src/resource_record_set.rs", "src/packet.rs", "src/rdata"],
     [("Question, ResourceRecord, ResourceRecordSet accessors", "src/question.rs, src/resource.rs, src/resource_record_set.rs"), ("PartialEq", "every type of the crate")],
     AI, """constructors, setters and accessors are interpreted abstractly on values in any state and composed; equality is interpreted on pairs that differ in exactly one part and on a value and
     itself, with the equality of nested types as their contract (it is checked on its own).""")

prop("P26", "Rejections name their reason",
     """A number that is not assigned is rejected with the error of its kind (class, type, response code, algorithm, address family, gateway type and so on), which carries that number. Bytes that end
     too early, or lengths that do not fit, are a length violation; a compression pointer that does not point backwards is an unresolvable pointer; when one part of a message fails to
     parse, the error of the whole is that part's error. No error names itself as its source, and an algorithm that cannot sign is reported with its number.""",
     ["inputs", "configurations"], "every byte string of every length, every number, every error",
     "tests check that malformed input is rejected, and for one or two inputs, but not with which of the two dozen errors callers match on",
     ["src/error.rs", "src/buffer.rs", "src/rdata"],
     [("DnsError", "src/error.rs"), ("DnsBuffer reads", "src/buffer.rs"), ("code conversions and parsers", "src/header.rs, src/question.rs, src/resource.rs, src/rdata")],
     AI, """code conversions, cursor reads, name reading and every parser are interpreted abstractly on arbitrary input with nested reads as parts that may fail; the error value of every rejecting outcome
     is compared with the one its cause calls for.""")
prop("P27", "Type bitmaps list exactly the record types of the set",
     """The type bitmap of NSEC and CSYNC data lists exactly the record types of its set, in the window blocks of RFC 4034 section 4.1.2: ascending windows, each with its number, the length of its bitmap up to the last used octet,
     and one bit per type counted from the most significant one; a window without types is left out. The announced size, plain and compressed, counts these blocks. Reading gives exactly the types whose bits
     are set, in whatever windows of up to 32 octets they stand, and refuses longer windows and bits that stand for no known type.""",
     ["inputs"], "every set of record types; every bitmap",
     "tests read and write one bitmap within a single window; the second window, the last octets of a window and sets of other shapes are never exercised",
     ["src/rdata/csync.rs", "src/rdata/dnssec.rs"],
     [("Csync and Flags", "src/rdata/csync.rs"), ("Nsec", "src/rdata/dnssec.rs")],
     AI, """serialisers, sizes and parsers are interpreted abstractly on spelled out sets of types and spelled out bitmaps (every type alone, pairs, all, all but one, every single bit of a window); bytes, sizes and sets are compared with
     the reference blocks.""")
prop("P28", "Unsafe operations only where they are sound",
     """Every unsafe operation of the crate has its precondition on every input and in every state: a number reinterpreted as a code (operation code, response code or any other enum) is the number of one of its
     codes, unchecked access stays within the bytes that exist, unchecked text is UTF-8, unchecked arithmetic does not wrap and no place declared unreachable is ever reached. No safe call, whatever its arguments, causes
     undefined behaviour.""",
     ["inputs", "histories"], "every byte string, every argument of every public function, every state of a value",
     "undefined behaviour usually looks right in a test run: an invalid enum value or an out-of-range read shows only with another compiler, another layout or the one input nobody tried",
     ["src/header.rs", "src/buffer.rs", "src/rdata", "src/fqdn.rs"],
     [("FlagsView opcode and response code", "src/header.rs"), ("DnsBuffer", "src/buffer.rs"), ("parsers and public operations", "src")],
     AI, """parsers and public operations are interpreted abstractly on arbitrary input and arbitrary values; at every reinterpretation, unchecked access, unchecked text, unchecked arithmetic and unreachable marker that is met the
     precondition is an obligation, decided on the path condition.""")
