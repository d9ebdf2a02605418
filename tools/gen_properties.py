#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording has one source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "KDBX export followed by import gives back the same database",
 "Exporting a database to a KDBX file and importing that file with the same key gives back the same database: the group tree and the order of groups and entries, every field that KDBX has of groups, entries, their history, attachments, custom fields, auto-type settings, icons, binaries and metadata, all times, protection flags, and the header settings (seeds, vectors, rounds, compression). "
 "Text may hold any byte except NUL (a protected value may hold NUL as well); groups and histories are nested at most 100 deep; times lie in the years 1000 to 9999 and 0 means never; references point to objects of the same database; custom fields have other names than the fields that KDBX has itself (Title, URL, UserName, Password, Notes). "
 "Exporting does not alter the database.",
 ["inputs", "configurations"],
 "every database with the fields, sizes, characters, counts and tree shapes named, compressed and uncompressed",
 "The existing tests re-export two fixture databases and compare the JSON view, which leaves out custom fields, history, auto-type, metadata, icons, protection flags, binaries' identity and most characters and sizes.",
 ["src/kdbx.cc", "src/entry.hh", "src/group.hh", "src/metadata.hh", "src/pugixml.cc", "src/io.cc", "src/stream.cc", "src/base64.hh", "src/random.cc"],
 [("XML writer and reader pairs for metadata, groups and entries", "src/kdbx.cc WriteMeta/ParseMeta, WriteGroup/ParseGroup, WriteEntry/ParseEntry"),
  ("protected string obfuscation in document order", "src/kdbx.cc WriteProtectedString/ParseProtectedString, src/random.cc"),
  ("header fields", "src/kdbx.cc Import/Export")],
 ["KdbxFile::Export", "KdbxFile::Import"])

prop("C02", "KDB export followed by import gives back the same database",
 "Exporting a database that the KDB format can represent (with groups on levels 0 to 256, the ones directly below the root being on level 0) and importing that file with the same key gives back the same database: the group tree with the order of groups and of entries within each group, names, titles, URLs, user names, passwords, notes, icons, group flags, entry UUIDs, creation, modification, access and expiry times, the single attachment of an entry, the cipher, seeds, vector and rounds. "
 "A database whose root group holds entries, whose entry has more than one attachment, whose groups are nested deeper, whose master seed is not 16 bytes or whose rounds exceed 32 bits is refused with an exception instead of losing data. "
 "Text holds any byte except NUL, times are whole seconds that local time represents unambiguously and 0 means never; exporting does not alter the database.",
 ["inputs", "configurations"],
 "every ordered group forest and every placement of entries in it, every value of the fields named, both ciphers",
 "The tests round-trip one fixture per cipher; the number of ordered trees, placements and field values is unbounded and the fixtures never return to a shallower level before going deeper again.",
 ["src/kdb.cc", "src/util.hh", "src/io.cc", "src/cipher.cc"],
 [("level-based tree linearisation and reconstruction", "src/kdb.cc Export (dfs) and Import"),
  ("field writers and readers", "src/kdb.cc WriteGroup/ReadGroup/WriteEntry/ReadEntry"),
  ("packed five byte times", "src/kdb.cc KdbTime")],
 ["KdbFile::Export", "KdbFile::Import"])

prop("C03", "KDBX files conform to the KDBX 3.1 format in both directions",
 "An exported KDBX file decodes under an independent implementation of the KDBX 3.1 format (AES-256-CBC, SHA-256 key derivation, header fields and header hash, start bytes, hashed blocks, gzip, XML with Salsa20-obfuscated protected values in document order) to exactly the exported database. "
 "Every valid KDBX 3.1 file that an independent encoder produces for a database is imported as exactly that database, whatever the order of the header fields, the hashed block sizes, the compression, the XML formatting (with the elements in KeePass's order and each text in one piece, with any line ends) and whether an attachment is stored in the pool or inside its entry (each compressed, protected or plain) and whether a group's options are stated or inherited (null). "
 "A value marked as protected never appears in the decrypted XML other than obfuscated, and the stated header hash, block hashes and sizes are exact.",
 ["inputs", "configurations"],
 "every database within the bounds of C01, every combination of the encoder's choices",
 "A round trip through the library's own reader and writer accepts any matching pair of mistakes; the fixtures cover one encoder and one layout.",
 ["src/kdbx.cc", "src/cipher.cc", "src/stream.cc", "src/random.cc", "src/key.cc", "src/base64.hh"],
 [("header layout and hash", "src/kdbx.cc Import/Export"), ("inner random stream", "src/kdbx.cc, src/random.cc, src/cipher.cc Salsa20Cipher"),
  ("block and gzip layers", "src/stream.cc")],
 ["KdbxFile::Export", "KdbxFile::Import"])

prop("C04", "KDB files conform to the KDB 3 format in both directions",
 "An exported KDB file decodes under an independent implementation of the KDB format (header layout, AES or Twofish CBC with PKCS #7 padding, SHA-256 key derivation and content hash, typed fields, little-endian numbers, packed times, group levels and identifiers other than the reserved ones) to exactly the exported database. "
 "Every valid KDB file that an independent encoder produces for a database is imported as exactly that database, whatever the group identifiers, the order of fields within a record, ignorable comment fields, group flags of two or four bytes, unused header flags and the low version byte.",
 ["inputs", "configurations"],
 "every database within the bounds of C02, every combination of the encoder's choices",
 "A round trip through the library's own reader and writer accepts any matching pair of mistakes; the fixtures cover one encoder and one layout.",
 ["src/kdb.cc", "src/cipher.cc", "src/key.cc", "src/io.cc"],
 [("header and record layout", "src/kdb.cc KdbHeader, ReadGroup, ReadEntry, WriteGroup, WriteEntry"), ("CBC and padding", "src/cipher.cc")],
 ["KdbFile::Export", "KdbFile::Import"])

prop("C05", "A file opens with exactly the keys that are equal to the one it was written with",
 "A KDB or KDBX file imports if and only if the key presented has the same password (byte for byte, or equally absent) and the same key file contents (32 bytes, or equally absent) as the key the file was exported with (a key file that equals the SHA-256 hash of a password counts as that password, and in KDB no key at all as a key file of zeros). "
 "With any other key the import throws the password error and nothing else, whatever the cipher, compression, seeds, rounds and size of the database.",
 ["inputs", "configurations"],
 "all ordered pairs of keys over an alphabet of passwords and key files, for every format, cipher, compression and several sizes",
 "Tests try one wrong password; accepting a wrong key or rejecting a right one depends on the pair.",
 ["src/key.cc", "src/key.hh", "src/kdb.cc", "src/kdbx.cc", "src/cipher.cc"],
 [("composite key resolution and transformation", "src/key.cc Resolve, Transform"), ("content hash and start bytes comparison", "src/kdb.cc Import, src/kdbx.cc Import"), ("padding check", "src/cipher.cc decrypt_cbc")],
 ["KdbFile::Import", "KdbxFile::Import"])

prop("C06", "A damaged or truncated KDBX file is never imported as a different database",
 "If any bytes of a KDBX file are changed, removed, swapped, duplicated or appended after it was written, importing it with the right key either throws an exception or yields exactly the original database. "
 "In particular no change of a bit and no truncation is silently accepted with altered or missing contents.",
 ["fault_sequences", "inputs"],
 "every single bit flip, every single byte change over an alphabet, every truncation length, every removal, duplication and swap of cipher blocks, pairs of faults at layer boundaries, on compressed and uncompressed files (changes that only raise the number of transform rounds beyond 2^20 excepted for time)",
 "The tests import intact files only; there is one damaged stream fixture for one of the layers.",
 ["src/kdbx.cc", "src/stream.cc", "src/cipher.cc"],
 [("header hash", "src/kdbx.cc Import"), ("start bytes", "src/kdbx.cc Import"), ("block hashes and indices", "src/stream.cc hashed_istreambuf"), ("padding", "src/cipher.cc decrypt_cbc")],
 ["KdbxFile::Import"])

prop("C07", "A damaged or truncated KDB file is never imported as a different database",
 "If any bytes of a KDB file are changed, removed, swapped, duplicated or appended after it was written, importing it with the right key either throws an exception or yields exactly the original database. "
 "This includes the header, whose group and entry counts are not covered by the content hash.",
 ["fault_sequences", "inputs"],
 "every single bit flip, every single byte change over an alphabet, every truncation length, every removal, duplication and swap of cipher blocks, pairs of header faults, both ciphers (changes that only raise the number of transform rounds beyond 2^20 excepted for time)",
 "The tests import intact files only.",
 ["src/kdb.cc", "src/cipher.cc"],
 [("content hash", "src/kdb.cc Import"), ("counts and orphan checks", "src/kdb.cc Import"), ("padding", "src/cipher.cc decrypt_cbc")],
 ["KdbFile::Import"])

prop("C08", "Importing any file whatsoever ends in a database or an exception",
 "Importing a file with arbitrary contents, including files that decrypt and authenticate under the right key but are malformed inside (KDB records, KDBX header fields, block, gzip and XML layers, references, times, numbers, base64), terminates promptly and either returns a database or throws an exception derived from std::exception. "
 "It never crashes, aborts, reads or writes out of bounds, or uses memory that is not in proportion to the file. "
 "A database that was returned can be read, printed and exported again under the same rule.",
 ["inputs", "fault_sequences"],
 "every malformed file of the mutation families up to the stated depth, at every layer, with group and history nesting up to 100000 levels",
 "The tests import well-formed fixtures and five damaged headers; memory errors on malformed contents need inputs behind the encryption and checksum layers.",
 ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc", "src/io.cc", "src/io.hh", "src/base64.hh", "src/iterator.hh", "src/entry.cc", "src/group.cc", "src/pugixml.cc"],
 [("bounded field parsing", "src/kdb.cc ReadGroup/ReadEntry, src/kdbx.cc Import"), ("bounds-checked output iterator", "src/iterator.hh"), ("error exceptions", "src/exception.hh")],
 ["KdbFile::Import", "KdbxFile::Import", "Group::ToJson"])

prop("C09", "Hashed block streams carry any data unchanged and reject any altered stream",
 "Whatever is written to a hashed block output stream, in whatever pieces and with whatever block size, is read back byte for byte by the input stream, and the bytes in between are consecutively numbered blocks with exact sizes and SHA-256 hashes, ended by an empty block with a zero hash. "
 "A stream that was damaged (bits flipped, bytes changed or lost, blocks removed, repeated or exchanged, or cut short) is never read to its end without an error, and the bytes delivered before that are a prefix of the original ones.",
 ["inputs", "histories", "fault_sequences"],
 "all data lengths around multiples of all small block sizes and the default size, all partitions into writes, all bit flips, truncations, block swaps, removals and duplications",
 "The tests use five fixtures and one damaged stream.",
 ["src/stream.hh", "src/stream.cc"],
 [("block framing", "src/stream.cc hashed_ostreambuf::FlushBlock"), ("block verification", "src/stream.cc hashed_istreambuf::underflow")])

prop("C10", "Gzip streams carry any data unchanged and never pass off cut data as complete",
 "Whatever is written to the gzip output stream, in whatever pieces, is read back byte for byte by the gzip input stream and by an independent gzip decoder, and gzip data from any encoder settings (level, strategy, memory, stored blocks, header fields) is read back byte for byte whatever the sizes relative to the internal buffers. "
 "A gzip stream that is truncated or altered is never read as complete data that differs from the original.",
 ["inputs", "histories", "fault_sequences"],
 "all data lengths around multiples of the buffer size for compressible and incompressible data, all encoder settings, all truncations and bit flips of small streams",
 "The tests use four fixtures.",
 ["src/stream.hh", "src/stream.cc"],
 [("inflate loop", "src/stream.cc gzip_istreambuf::underflow"), ("deflate loop", "src/stream.cc gzip_ostreambuf::WriteOutput")])

prop("C11", "CBC encryption pads exactly and decryption accepts exactly valid padding",
 "CBC encryption of any data with AES or Twofish yields the standard CBC ciphertext with PKCS #7 padding, and decrypting it gives back the data. "
 "Decrypting a ciphertext succeeds if and only if its length is a positive multiple of 16 and the last block ends in valid PKCS #7 padding (1 to 16 equal bytes), and then yields exactly the data before the padding; otherwise an exception is thrown.",
 ["inputs"],
 "all data lengths up to several blocks and around the buffer sizes, all 256 values of the final byte combined with all lengths of matching and mismatching padding runs, all ciphertext lengths, from stream positions other than the start",
 "The tests check a few vectors with valid padding.",
 ["src/cipher.cc", "src/cipher.hh"],
 [("block transformation with padding", "src/cipher.cc block_transform, encrypt_cbc, decrypt_cbc")])

prop("C12", "The ciphers and the obfuscator compute the standard functions",
 "AES-256 and Twofish-256 block encryption and decryption, two-block ECB, and the Salsa20 keystream agree with independent implementations of the standards for every key and block, and decryption inverts encryption. "
 "Obfuscating a sequence of byte strings gives the same bytes as obfuscating their concatenation, however it is cut, and obfuscating twice with the same key gives back the data.",
 ["inputs", "histories"],
 "all one-bit keys, blocks and vectors and their pairs, all byte values in all key and block positions, all partitions of a keystream into pieces up to a bound and all piece lengths around the 64 byte buffer",
 "The tests use a handful of published vectors per cipher.",
 ["src/cipher.cc", "src/cipher.hh", "src/random.cc", "src/random.hh", "src/stream.hh"],
 [("Twofish key schedule and rounds", "src/cipher.cc TwofishCipher"), ("Salsa20 core and counter", "src/cipher.cc Salsa20Cipher"), ("keystream buffer position", "src/random.cc RandomObfuscator")])

prop("C13", "Base64 coding is exact, strict and stays within bounds",
 "Encoding any bytes gives their standard base64 text with padding, and decoding that text, also with white space anywhere in it, gives back the bytes. "
 "Decoding succeeds if and only if the text without white space has a length that is a multiple of four, consists of alphabet characters and ends in at most two padding characters; any other text throws the format error. "
 "Decoding into a container of fixed size never writes outside of it: the excess throws std::out_of_range and everything before is in place.",
 ["inputs"],
 "all byte strings up to two bytes and all lengths up to a bound, all texts up to eight characters over an alphabet of character classes, all pairs of container size and data length up to a bound",
 "The tests encode and decode RFC vectors.",
 ["src/base64.hh", "src/iterator.hh"],
 [("encoder and decoder", "src/base64.hh"), ("bounds-checked iterator", "src/iterator.hh")])

prop("C14", "Keys are derived from exactly the last password and the last valid key file",
 "After any sequence of setting passwords and loading key files, the transformed key is the one that the standard derivation gives for the last password set and the last key file loaded successfully, for any seed, any number of rounds and both ways of combining sub keys. "
 "A key file is accepted if and only if it is an XML key file whose data decodes to 32 bytes, or exactly 64 hexadecimal digits; anything else throws an exception and leaves the key as it was.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over passwords and valid and invalid key files, all rounds up to a bound, every single-character change of a key file over an alphabet, every length",
 "The tests open fixtures with three fixed keys.",
 ["src/key.cc", "src/key.hh", "src/cipher.cc"],
 [("sub key resolution", "src/key.cc CompositeKey::Resolve"), ("key file parsing", "src/key.cc SetKeyFile"), ("transformation", "src/key.cc Transform")])

prop("C15", "Importers and exporters carry nothing over from one operation to the next",
 "Any operation on a file object or key that was used before, successfully or not, has the same outcome as on a fresh one: an import returns the same database or the same kind of exception, and an export writes an equivalent file, whatever was imported or exported before and in whatever order, also when exporting a database that was imported by the same object, over an existing file, or repeatedly. "
 "Databases returned by earlier imports and databases passed to exports are not changed by later operations.",
 ["histories"],
 "all sequences of import and export operations up to a depth over an alphabet of good, damaged and foreign files, databases and keys",
 "The tests use a fresh object for each operation or two in a row.",
 ["src/kdbx.cc", "src/kdbx.hh", "src/kdb.cc"],
 [("state reset", "src/kdbx.cc Reset"), ("pools kept in the object", "src/kdbx.hh binary_pool_, icon_pool_, group_pool_, header_hash_")],
 None, [("pools", "binaries, icons and groups by identifier of the current operation", "src/kdbx.hh")])

prop("C16", "References within an imported KDBX database lead to the objects of that database",
 "After importing a KDBX file, the recycle bin, the entry templates group, the last selected and last visible groups, each group's last visible entry, each custom icon and each pooled attachment binary are the very objects of the imported tree and metadata that the file names, and are absent where the file names none. "
 "Changing such an object through the reference changes it in the database and the other way round; distinct objects with equal contents stay distinct.",
 ["inputs"],
 "all ordered group trees up to a bound with all assignments of the references to groups, entries, icons and binaries, including absent ones, and more than ten pooled binaries",
 "The tests never look at a reference.",
 ["src/kdbx.cc", "src/metadata.hh"],
 [("lookup by UUID and binary identifier", "src/kdbx.cc GetGroup, ParseXml, ParseGroup, ParseEntry")])

prop("C17", "Equality of entries and groups is an equivalence that sees every field",
 "Two entries or groups compare equal if and only if all their fields, attachments, history entries, custom fields, sub groups and entries are equal in value and order, with custom icons and the last visible entry compared by identity; inequality is the exact negation. Icons of one identifier are equal if and only if their images are. "
 "The comparison is reflexive, symmetric and transitive, also between objects whose lists differ in length, and never reads outside of them.",
 ["inputs"],
 "all pairs out of a base object and all its single-field and list-length variants, for entries, groups and their parts",
 "No test compares two objects.",
 ["src/entry.cc", "src/entry.hh", "src/group.cc", "src/util.hh", "src/binary.hh", "src/icon.hh", "src/security.hh"],
 [("member-wise comparison", "src/entry.cc, src/group.cc operator=="), ("element-wise comparison of pointers", "src/util.hh indirect_equal")])

prop("C18", "Exports that fail are reported and refused exports leave the old file alone",
 "If the storage fails or runs full after any number of bytes, or the destination cannot be opened, the export throws an exception; an export that returns has written the complete file. "
 "An export that is refused because the database cannot be stored in the format leaves a file that existed at the destination unchanged.",
 ["fault_sequences", "crash_points"],
 "a write failure at every byte offset of the file, for both formats and several sizes, and every kind of refusal and unusable destination",
 "The tests export to a healthy file system only.",
 ["src/kdb.cc", "src/kdbx.cc", "src/cipher.cc", "src/io.hh"],
 [("stream state check after writing", "src/kdb.cc Export, src/kdbx.cc Export"), ("order of validation and opening", "src/kdb.cc Export, src/kdbx.cc Export")])

prop("C19", "Threads working on different objects do not disturb each other",
 "Operations that run concurrently on different file objects, keys, databases and streams (imports, exports, key transformations, JSON output, coding, creating groups and entries) have no data races and have the same results as when run one after another, for every interleaving. Operations that only read a database or key (exports, JSON output, comparing, traversing, key transformations) may also share it.",
 ["schedules"],
 "all pairs of operations, all interleavings of their accesses to shared memory",
 "The tests are single-threaded.",
 ["src/kdb.cc", "src/kdbx.cc", "src/util.cc", "src/cipher.cc", "src/random.cc", "src/key.cc", "src/base64.hh"],
 [("no mutable static state", "function-local statics in src/*.cc, src/*.hh are constant"), ("re-entrant time conversion", "src/kdb.cc KdbTime, src/kdbx.cc WriteDateTime, src/util.cc time_to_str")])

prop("C20", "The JSON view of a database is valid JSON that shows exactly its contents",
 "The JSON text of a group is syntactically valid for any text, attachment data and tree, and parsing it gives back exactly the non-empty names, notes, titles, URLs, user names, passwords, attachments, icons, flags, the times other than never in local time, and the tree with its order, leaving out only KeePass 1 meta entries. "
 "Entries and attachments produce the corresponding parts.",
 ["inputs"],
 "all byte values in all text fields, all ordered trees up to a bound, presence and absence of every field and pairs of fields",
 "The tests compare the JSON of fixtures that hold no special characters.",
 ["src/entry.cc", "src/group.cc", "src/util.cc"],
 [("JSON writers", "src/entry.cc ToJson, src/group.cc ToJson"), ("string escaping", "src/util.cc")])

prop("C21", "Converting between KDB and KDBX keeps what the target format can hold",
 "A database imported from KDB and exported to KDBX, or imported from KDBX and exported to KDB, keeps the group tree, the entries and every field that both formats have, or the export throws an exception; it never crashes and never silently drops a group, an entry or an attachment. "
 "Converting there and back changes nothing that both formats have.",
 ["inputs", "histories"],
 "all databases within the bounds of C02 and C01 and all conversion chains up to a length",
 "No test exports a database to the other format.",
 ["src/kdb.cc", "src/kdbx.cc", "src/metadata.hh"],
 [("default metadata", "src/kdbx.cc WriteXml"), ("refusals", "src/kdb.cc Export, src/kdbx.cc Export")])

prop("C22", "Times survive storage to the second in every time zone",
 "A time stored in a KDBX file is read back to the second whatever the local time zone of the writer and of the reader, in the UTC text form of the format. "
 "A time stored in a KDB file is the writer's local time packed to the second and is read back to the second in the same zone, except for an hour that occurs twice and for -1, which KDB takes for never; never is kept as never in both formats. A time that a format cannot express is refused with an exception instead of being changed.",
 ["inputs", "configurations"],
 "every day of the years 1901 to 2999, every second of chosen days, every daylight saving transition minute by minute, several time zones with positive, negative, half-hour and historic offsets",
 "The tests run in one time zone with a few dozen times of 2014.",
 ["src/kdb.cc", "src/kdbx.cc", "src/util.cc"],
 [("packed local time", "src/kdb.cc KdbTime"), ("UTC text time", "src/kdbx.cc ParseDateTime, WriteDateTime")])

prop("C23", "New objects get fresh identifiers and every export fresh start bytes",
 "Every new group and entry has a UUID that differs from all others created before, and every KDBX export writes 32 fresh random start bytes, as long as the system's entropy source does not repeat itself. "
 "All bytes of the identifiers and of the start bytes vary.",
 ["histories"],
 "all sequences of creations and exports up to a bound, over consecutive and extreme entropy values",
 "The tests never look at generated identifiers.",
 ["src/util.cc", "src/random.hh", "src/kdbx.cc", "src/entry.cc", "src/group.cc"],
 [("UUID generation", "src/util.cc generate_uuid"), ("random start bytes", "src/random.hh random_array, src/kdbx.cc Export")])

prop("C24", "Objects hold exactly what was last put into them",
 "Whatever is set on an entry, group, attachment, attachment data, icon, metadata, database, protected text or text with a time is read back unchanged until the same place is set again, and setting one place changes no other. "
 "Lists keep every added element in order; references lead to the very object they were set to, and weak ones are absent once it is gone. "
 "A copy, assignment, move or exchange carries over every place, after which the objects are independent of each other; self-assignment and setting a place from a reference into the same object change nothing else. "
 "What is derived (whether there are attachments, auto-type settings other than the default, whether an entry is a KeePass 1 meta entry or a group holds others) follows from the current contents. "
 "Assigning a new value to a text with a time stamps it with the current time. New objects have empty texts and lists, times of zero and no references.",
 ["histories", "inputs"],
 "all sequences up to a depth of setting, adding, copying, moving and exchanging on two objects of each class, over all places and an alphabet of values",
 "The tests import databases and never set anything; whether two operations interfere depends on the pair.",
 ["src/entry.hh", "src/entry.cc", "src/group.hh", "src/group.cc", "src/metadata.hh", "src/metadata.cc", "src/database.hh", "src/binary.hh", "src/icon.hh", "src/security.hh", "src/temporal.hh"],
 [("accessors and lists", "src/entry.hh, src/group.hh, src/metadata.hh, src/database.hh"), ("copy and move of value wrappers", "src/security.hh, src/temporal.hh"), ("derived predicates", "src/entry.cc HasAttachment, HasNonDefaultAutoTypeSettings, IsMetaEntry; src/group.cc HasNonMetaEntries")])

prop("C25", "Results do not depend on the state of the process",
 "Imports, exports, key derivation, loading of key files, JSON output, base64, streams and comparisons have the same results whatever the C locale and the global C++ locale (how numbers are grouped, which characters are letters or white space), errno, the rounding mode, the file mode mask, environment variables other than TZ, which of the standard descriptors are closed, "
 "and however the path of a file is given (absolute or relative, through links, with any characters). They leave the locales, the rounding mode, the mask, the working directory, TZ and the standard descriptors as they were.",
 ["configurations"],
 "all operations of a set x locales x errno values x masks x rounding modes x closed descriptors x environment variables x forms of paths, and products of these",
 "The tests run in one state of the process; streams take over the global locale silently.",
 ["src/entry.cc", "src/group.cc", "src/kdbx.cc", "src/kdb.cc", "src/key.cc", "src/util.cc", "src/base64.hh", "src/pugixml.cc"],
 [("numbers in JSON", "src/entry.cc, src/group.cc ToJson"), ("identifiers of attachments", "src/kdbx.cc WriteMeta, WriteEntry"), ("times as text", "src/kdbx.cc strptime, strftime; src/util.cc"), ("white space", "src/base64.hh"), ("digits of key files", "src/key.cc SetKeyFile")])

prop("C26", "The kind of an exception tells what went wrong",
 "A database or key file that can't be opened gives FileNotFoundError. "
 "A file that isn't a database of the requested format (other signature, shorter than the fixed header), or one with an unsupported version, cipher, compression, protected-stream algorithm or unknown header field, or with a KDBX header field of the wrong size, gives FormatError, whether or not the key is right. "
 "A wrong key on an intact file gives PasswordError. A file whose content authenticates under the key but is malformed inside never gives PasswordError (nor FileNotFoundError). "
 "A malformed key file gives FormatError. A database that a format can't hold is refused with InternalError, and a destination that can't be opened or written gives IoError.",
 ["inputs", "faults"],
 "all enumerated ways for an operation to fail x formats x keys",
 "Programs ask for the password again, offer another file or give up depending on the kind; the tests do not look at what is thrown for which cause.",
 ["src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/exception.hh", "src/base64.hh", "src/stream.cc", "src/cipher.cc"],
 [("signature, version and header field checks", "src/kdb.cc Import, src/kdbx.cc Import"), ("password detection", "src/kdb.cc content hash, src/kdbx.cc start bytes"), ("key file errors", "src/key.cc SetKeyFile"), ("refusals", "src/kdb.cc Export, src/kdbx.cc Export")])

prop("C27", "Running out of memory never aborts, leaks, corrupts or yields a wrong result",
 "Whichever allocation fails while a database is imported or exported, a key file is loaded, JSON is produced, base64 is coded, a hashed or compressed stream is read or written or CBC is applied - one allocation, two of them, or all from some point on - "
 "the operation throws an exception derived from std::exception or completes with its right result. It never aborts, never returns as if it succeeded with something missing (an incomplete file, truncated JSON) and never blames the password. "
 "Either way all memory and files it took are given back, the database passed to an export is unchanged, a key whose key file could not be loaded is the one from before, and the same objects do the operation correctly once there is memory again.",
 ["faults"],
 "all positions of a failing allocation (single, pairs, from a point on) in every operation of a set",
 "The tests always have memory; C++ iostreams and the XML library swallow failed allocations, so that the result silently lacks something.",
 ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc", "src/stream.hh", "src/cipher.cc", "src/entry.cc", "src/group.cc", "src/key.cc", "src/base64.hh", "src/pugixml.cc"],
 [("temporary streams of exports", "src/kdbx.cc Export, WriteMeta; src/kdb.cc Export"), ("XML node allocation", "src/kdbx.cc, src/pugixml.cc"), ("zlib stream set-up", "src/stream.cc gzip_istreambuf, gzip_ostreambuf"), ("JSON text streams", "src/entry.cc, src/group.cc ToJson"), ("key file", "src/key.cc SetKeyFile")])

prop("C28", "Failing or slow storage never changes what is read",
 "While a database is imported or a key file loaded, reads may be interrupted, deliver any number of bytes at a time, fail for a moment or for good, or report an early end of the file, and opening or seeking may fail. "
 "Interruptions and short reads do not change the result. Otherwise the operation throws an exception derived from std::exception or has the result that the complete file gives; it never yields another database or another key, and reads that fail are never reported as a wrong password (a file that ends early may be). "
 "After a failure no file stays open, the key is the one from before, and the same objects read the file correctly once the storage works.",
 ["faults"],
 "all byte offsets x read faults, pairs of them, all read sizes, failing openings and seeks, for imports of both formats and the kinds of key files",
 "Read errors do not occur in tests; C++ streams hide them behind state bits that are easily not looked at.",
 ["src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/io.cc", "src/io.hh", "src/cipher.cc", "src/stream.cc"],
 [("key file in two attempts", "src/key.cc SetKeyFile"), ("decryption of a file stream", "src/cipher.cc decrypt_cbc"), ("header reading", "src/io.hh consume, src/kdbx.cc Import")])

prop("C29", "A crash during an export never leaves a file that is imported as another database",
 "Whenever the process or the system stops while a database is exported, over an existing file or to a new one, what is found at the destination afterwards is imported as exactly the old database or exactly the new one, or the import throws an exception - whatever part of the file had reached the disk, "
 "and in whatever order its sectors did: each may be new, old or empty. This holds for both formats, when the old file was of the other format, and under the old key as well as under the new one.",
 ["crash_points"],
 "all bytes of all recorded file operations as crash points; all combinations of new, old and empty sectors; all contiguous pieces of one file within the other; for pairs of old and new databases",
 "A test can't stop the process at every byte; mixtures of two valid files under the same key are the ones that a weak check would accept.",
 ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc", "src/cipher.cc"],
 [("writing of the destination", "src/kdb.cc Export, src/kdbx.cc Export"), ("content hash, header hash, start bytes, block hashes", "src/kdb.cc Import, src/kdbx.cc Import, src/stream.cc")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
