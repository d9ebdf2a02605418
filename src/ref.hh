// Independent reference codec for KDB 3 and KDBX 3.1 and their layers. Shares no code with the library.
#pragma once
#include <map>
#include <memory>

#include "model.hh"

namespace ref {

using mc::str;
using mc::MDb;
using mc::MEntry;
using mc::MGroup;

// --- primitives
str Sha256(const str& s);
struct BlockCipher {
  virtual ~BlockCipher() {}
  virtual str Enc(const str& block) const = 0;
  virtual str Dec(const str& block) const = 0;
};
std::unique_ptr<BlockCipher> Aes(const str& key);          // OpenSSL EVP
std::unique_ptr<BlockCipher> Twofish(const str& key);      // own implementation, 256 bit keys
str CbcEncRaw(const BlockCipher& c, const str& iv, const str& padded);
str CbcDecRaw(const BlockCipher& c, const str& iv, const str& data);
str AesCbcEncRaw(const str& key, const str& iv, const str& padded);   // fast paths
str AesCbcDecRaw(const str& key, const str& iv, const str& data);
str Pad(const str& s);
bool Unpad(const str& s, str* out);                        // strict PKCS #7
str Salsa20(const str& key, const str& iv, size_t n);      // key stream
str Salsa20At(const str& key, const str& iv, uint64_t counter);   // one block of it
str Base64(const str& s);
bool UnBase64(const str& s, str* out);                     // strict, no white space
str HashedBlocks(const str& data, const std::vector<size_t>& sizes);   // sizes used cyclically
bool UnHashedBlocks(const str& s, str* out, std::vector<size_t>* sizes = nullptr);  // strict
struct GzOpt { int level = 6, strategy = 0, mem = 8, wbits = 15; bool name = false, extra = false, comment = false, hcrc = false; };
str Gzip(const str& s, const GzOpt& o = GzOpt());
bool Gunzip(const str& s, str* out);                       // exactly one complete member
str Le16(uint16_t v); str Le32(uint32_t v); str Le64(uint64_t v);
uint64_t Le(const str& s, size_t at, int n);

// --- time, in the rule-based zone CET-1CEST,M3.5.0,M10.5.0/3 that the checks run in
struct Civil { int64_t y; int mo, d, h, mi, s; };
int64_t DaysFromCivil(int64_t y, int m, int d);
Civil CivilOf(int64_t t);
int64_t FromCivil(const Civil& c);
struct Zone { int64_t std_off = 3600; bool dst = true; int64_t dst_off = 7200; 
  // transitions: last Sunday of March/October (north) or first Sunday of October/April (south), in local standard/daylight time
  int kind = 0; };
int64_t Offset(const Zone& z, int64_t utc);                // seconds east
Zone Cet();
str PackTime(const Zone& z, int64_t t);                    // KDB, 5 bytes
str IsoUtc(int64_t t);

// --- keys
struct KeySpec {
  bool has_pw = true; str pw = "password";
  bool has_kf = false; str kf;                             // 32 bytes
};
str MasterKey(const KeySpec& k, bool kdbx);
str Transform(const str& key, const str& seed, uint64_t rounds);
str FinalKey(const MDb& m, const KeySpec& k, bool kdbx);
// A library key equal to the specification; writes a hexadecimal key file into the scratch directory.
keepass::Key LibKey(const KeySpec& k);

// --- XML
struct Node {
  str name;
  std::vector<std::pair<str, str>> attrs;
  std::vector<Node> kids;
  str text;                                                // all character data directly inside
  const Node* child(const str& n) const;
  str childText(const str& n) const;
  str attr(const str& n) const;
};
bool ParseXml(const str& s, Node* root, str* error);

// --- KDBX
struct KdbxOpt {
  std::vector<int> header_order;                           // ids; empty: as KeePass does
  str eoh;                                                 // data of the end of header field
  std::vector<size_t> block_sizes;                         // empty: one block
  GzOpt gz;
  uint32_t version = 0x00030001;
  // XML style
  int indent = 0;                                          // 0 none, 1 tabs and \n, 2 spaces and \r\n
  int text = 0;                                            // 0 named entities, 1 decimal, 2 hexadecimal, 3 CDATA, 4 CDATA and text mixed, 5 every character as reference (ASCII only)
  int eol = 0;                                             // line ends within texts: 0 LF, 1 CRLF, 2 CR
  bool single_quotes = false;
  bool expand_empty = false;                               // <a></a> instead of <a/>
  int prolog = 0;                                          // 0 declaration, 1 none, 2 BOM + declaration, 3 declaration and comments and PI
  bool lower_bool = false;                                 // true instead of True
  bool unknown = false;                                    // unknown elements and attributes between
  bool comments = false;                                   // comments between elements
  int order = 0;                                           // 0 as libkeepass, 1 as KeePass 2
  int b64_wrap = 0;                                        // white space within base64
  bool pool_all = false;                                   // inline attachments stay inline otherwise
  int inline_mode = 0;                                     // plain inline: 0 plain, 1 compressed
  bool in_memory = false;                                  // protected values as ProtectedInMemory plain text
  bool omit_empty = false;                                 // leave out elements with default values
  bool history_first = false;
  int id_base = 0;                                         // numbering of pool identifiers
  bool zero_refs = false;                                  // absent references as identifiers of zeros, as KeePass writes them
  int inherit = 0;                                         // options of groups that equal their parent's as null: 1 both, 2 auto-type, 3 searching
  // results
};
str KdbxXml(const MDb& m, const KdbxOpt& o, const str& header_hash);
str KdbxHeader(const MDb& m, const KdbxOpt& o, const str& start);
str KdbxWrap(const MDb& m, const KeySpec& k, const KdbxOpt& o, const str& header, const str& start, const str& xml);
str EncodeKdbx(const MDb& m, const KeySpec& k, const KdbxOpt& o = KdbxOpt());
struct KdbxParts { str header, start, plain, blocks, xml; std::vector<size_t> sizes; std::vector<std::pair<int, str>> fields; };
// Splits and verifies all layers; error text if anything is not exact.
str OpenKdbx(const str& file, const KeySpec& k, MDb* head, KdbxParts* parts);
// Full decode to a model. A foreign file may have elements that libkeepass doesn't know.
str DecodeKdbx(const str& file, const KeySpec& k, MDb* m, KdbxParts* parts = nullptr, bool foreign = false);

// --- KDB
struct KdbOpt {
  int ids = 0;                                             // 0: 0,1,2.. 1: 1,2,3.. 2: descending 3: sparse with high bits, 4: shifted by 0xfffffff0
  int special = -1; uint32_t special_id = 0;               // identifier of one of the groups
  int field_order = 0;                                     // 0 canonical, n: rotations, -1 reversed
  bool comments = false;                                   // ignorable fields with payload
  bool nul_names = true;                                   // name field with only NUL when unused, empty data field
  uint32_t extra_flags = 1;                                // SHA2 flag
  uint8_t version_low = 3;
  int entry_order = 0;                                     // 0 by group, 1 round robin, 2 groups reversed
  bool root_meta = false;
  bool end_payload = false;
  int pad_extra = 0;
  bool omit_empty = false;
  bool short_flags = false;                                // flags of groups in two bytes, as libkeepass once wrote them
};
struct KdbRecord { std::vector<std::pair<uint16_t, str>> fields; };
void KdbRecords(const MDb& m, const KdbOpt& o, std::vector<KdbRecord>* groups, std::vector<KdbRecord>* entries);
str KdbContent(const std::vector<KdbRecord>& groups, const std::vector<KdbRecord>& entries);
str KdbWrap(const MDb& m, const KeySpec& k, const KdbOpt& o, const str& content, uint32_t ng, uint32_t ne);
str EncodeKdb(const MDb& m, const KeySpec& k, const KdbOpt& o = KdbOpt());
struct KdbParts { str header, content; std::vector<KdbRecord> groups, entries; };
str DecodeKdb(const str& file, const KeySpec& k, MDb* m, KdbParts* parts = nullptr, bool foreign = false);

// --- JSON
struct Json {
  enum Type { kNull, kBool, kNumber, kString, kArray, kObject } type = kNull;
  bool b = false; str s;                                   // number text or string value
  std::vector<Json> items;
  std::vector<std::pair<str, Json>> members;
  const Json* get(const str& k) const;
};
bool ParseJson(const str& s, Json* out, str* error, bool duplicates = false);

}  // namespace ref
