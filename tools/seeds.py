"""Planted bugs: see seed.py."""
PRELUDE = r'''#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <unistd.h>
#include <zlib.h>
#include <openssl/sha.h>

#include "base64.hh"
#include "binary.hh"
#include "cipher.hh"
#include "database.hh"
#include "entry.hh"
#include "exception.hh"
#include "group.hh"
#include "icon.hh"
#include "iterator.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "metadata.hh"
#include "random.hh"
#include "stream.hh"
#include "util.hh"

using namespace keepass;
typedef std::string str;

static void Require(bool ok, const char* what) {
  if (!ok) { std::printf("FAILED: %s\n", what); std::fflush(stdout); std::_Exit(1); }
}
template <size_t N> std::array<uint8_t, N> Fill(uint8_t v) { std::array<uint8_t, N> a; a.fill(v); return a; }
static protect<str> P(const str& s, bool prot = false) { return protect<str>(s, prot); }
static std::shared_ptr<Group> NewGroup(const str& name, std::time_t t = 1400000000) {
  auto g = std::make_shared<Group>(); g->set_name(name);
  g->set_creation_time(t); g->set_modification_time(t); g->set_access_time(t); g->set_expiry_time(t);
  return g;
}
static std::shared_ptr<Entry> NewEntry(const str& title, std::time_t t = 1400000000) {
  auto e = std::make_shared<Entry>(); e->set_title(P(title));
  e->set_creation_time(t); e->set_modification_time(t); e->set_access_time(t); e->set_expiry_time(t);
  return e;
}
// A database with the group "one" below its root.
static std::shared_ptr<Database> NewDb(bool compress = false) {
  auto db = std::make_shared<Database>();
  db->set_master_seed(Fill<16>(3)); db->set_init_vector(Fill<16>(5)); db->set_transform_seed(Fill<32>(7));
  db->set_inner_random_stream_key(Fill<32>(9)); db->set_transform_rounds(2); db->set_compress(compress);
  auto root = NewGroup(""); root->AddGroup(NewGroup("one"));
  db->set_root(root); db->set_meta(std::make_shared<Metadata>());
  return db;
}
static str ReadFile(const str& path) { std::ifstream f(path, std::ios::binary); return str(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
static void WriteFile(const str& path, const str& data) { std::ofstream f(path, std::ios::binary); f.write(data.data(), data.size()); }
static std::unique_ptr<Database> Kdbx(const str& path, const str& password = "pw") { KdbxFile f; return f.Import(path, Key(password)); }
static std::unique_ptr<Database> Kdb(const str& path, const str& password = "pw") { KdbFile f; return f.Import(path, Key(password)); }
static void ToKdbx(const str& path, const Database& db, const str& password = "pw") { KdbxFile f; f.Export(path, db, Key(password)); }
static void ToKdb(const str& path, const Database& db, const str& password = "pw") { KdbFile f; f.Export(path, db, Key(password)); }
static str Sha(const str& s) { unsigned char o[32]; SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), o); return str(reinterpret_cast<char*>(o), 32); }
// The decrypted content of files written by ToKdbx and ToKdb from NewDb.
static str FinalKey(const Database& db, const str& password, Key::SubKeyResolution res) {
  Key key(password); auto t = key.Transform(db.transform_seed(), db.transform_rounds(), res);
  return Sha(str(db.master_seed().begin(), db.master_seed().end()) + str(t.begin(), t.end()));
}
static std::array<uint8_t, 32> A32(const str& s) { std::array<uint8_t, 32> a; std::copy(s.begin(), s.end(), a.begin()); return a; }
static str Open(const Database& db, const str& cipher_text, Key::SubKeyResolution res) {
  AesCipher c(A32(FinalKey(db, "pw", res)), db.init_vector());
  std::stringstream in(cipher_text), out; decrypt_cbc(in, out, c); return out.str();
}
static str Close(const Database& db, const str& text, Key::SubKeyResolution res) {
  AesCipher c(A32(FinalKey(db, "pw", res)), db.init_vector());
  std::stringstream in(text), out; encrypt_cbc(in, out, c); return out.str();
}
static const Key::SubKeyResolution kX = Key::SubKeyResolution::kHashSubKeys, k1 = Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey;
static size_t HeaderSize(const str& file) {
  size_t p = 12;
  for (;;) { uint8_t id = file[p]; size_t n = uint8_t(file[p + 1]) | uint8_t(file[p + 2]) << 8; p += 3 + n; if (id == 0) return p; }
}
// The XML of a KDBX file without compression.
static str Xml(const Database& db, const str& file) {
  str c = Open(db, file.substr(HeaderSize(file)), kX);
  std::stringstream s(c.substr(32)); hashed_istreambuf b(s);
  return str(std::istreambuf_iterator<char>(&b), std::istreambuf_iterator<char>());
}
static str WithXml(const Database& db, const str& file, const str& xml) {
  str c = Open(db, file.substr(HeaderSize(file)), kX);
  std::stringstream s; hashed_ostreambuf b(s); std::ostream o(&b); o.write(xml.data(), xml.size()); o.flush();
  return file.substr(0, HeaderSize(file)) + Close(db, c.substr(0, 32) + s.str(), kX);
}
static void Unused() { (void)NewDb; (void)ReadFile; (void)WriteFile; (void)Kdbx; (void)Kdb; (void)ToKdbx; (void)ToKdb; (void)Xml; (void)WithXml; (void)NewEntry; (void)k1; (void)Unused; }

'''
SEEDS = []
def seed(id, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=id.split("-")[0], needs=needs, breaks=breaks, edits=[(("src/" + f), o, n) for f, o, n in edits], demo=demo.lstrip("\n"), **k))

seed("C01-1", "a maximum history size above 2^31", "KDBX export stores the history size limit in 32 bits",
 [("kdbx.cc", "static_cast<long long>(meta->history_max_size())", "static_cast<int>(meta->history_max_size())")], r'''
int main() {
  auto db = NewDb(); db->meta()->set_history_max_size(6442450944ll);
  ToKdbx("a", *db); Require(Kdbx("a")->meta()->history_max_size() == 6442450944ll, "history size");
}
''')
seed("C01-2", "a protected value of a custom field that is used up to its first NUL", "protected values are cut at NUL when read from KDBX",
 [("kdbx.cc", "        return protect<std::string>(obfuscator.Process(val), true);", "        return protect<std::string>(obfuscator.Process(val).c_str(), true);")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); str k = "key"; e->AddCustomField(k, P(str("a\0b", 3), true)); db->root()->Groups()[0]->AddEntry(e);
  ToKdbx("a", *db); Require(*Kdbx("a")->root()->Groups()[0]->Entries()[0]->custom_fields()[0].value() == str("a\0b", 3), "NUL in a protected value");
}
''')
seed("C02-1", "groups nested 257 deep, the level needs nine bits", "KDB export stores the group level in eight bits",
 [("kdb.cc", "  conserve<uint16_t>(dst, level);", "  conserve<uint16_t>(dst, static_cast<uint8_t>(level));")], r'''
int main() {
  auto db = NewDb(); auto g = db->root()->Groups()[0];
  for (int i = 1; i <= 256; ++i) { auto n = NewGroup("g"); g->AddGroup(n); g = n; }
  ToKdb("a", *db); auto got = Kdb("a");
  Require(got->root()->Groups().size() == 1, "top groups"); int depth = 0; for (auto p = got->root(); !p->Groups().empty(); p = p->Groups()[0]) ++depth;
  Require(depth == 257, "depth");
}
''')
seed("C02-2", "an attachment of exactly one byte", "KDB import drops attachments of one byte",
 [("kdb.cc", "        if (field_size > 0) {\n          if (!attachment)", "        if (field_size > 1) {\n          if (!attachment)")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(std::make_shared<Binary>(P("x"))); e->AddAttachment(a); db->root()->Groups()[0]->AddEntry(e);
  ToKdb("a", *db); auto got = Kdb("a")->root()->Groups()[0]->Entries()[0];
  Require(got->attachments().size() == 1 && got->attachments()[0]->binary() && *got->attachments()[0]->binary()->data() == "x", "attachment");
}
''')
seed("C03-1", "a file of another program with a hashed block larger than one MiB", "hashed blocks larger than the own block size are refused",
 [("stream.cc", "    if (header.block_index != block_index_)", "    if (header.block_index != block_index_ || header.block_size > 1024 * 1024)")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry(str(1200000, 't')); db->root()->Groups()[0]->AddEntry(e);
  ToKdbx("a", *db); str file = ReadFile("a"), xml = Xml(*db, file), c = Open(*db, file.substr(HeaderSize(file)), kX);
  std::stringstream s; hashed_ostreambuf b(s, 1 << 24); std::ostream o(&b); o.write(xml.data(), xml.size()); o.flush();
  WriteFile("b", file.substr(0, HeaderSize(file)) + Close(*db, c.substr(0, 32) + s.str(), kX));
  try { Require(*Kdbx("b")->root()->Groups()[0]->Entries()[0]->title() == str(1200000, 't'), "title"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C03-2", "an entry with protected values in its fields and in its history, read by another program", "the history is written before the fields that are obfuscated before it, so that protected values don't follow the document order",
 [("kdbx.cc", '''  // Write string fields.
  pugi::xml_node str_node = entry_node.append_child("String");''', '''  pugi::xml_node history_node = entry_node.append_child("History");

  // Write string fields.
  pugi::xml_node str_node = entry_node.append_child("String");'''),
  ("kdbx.cc", '''  pugi::xml_node history_node = entry_node.append_child("History");
  for (auto histentry''', '''  for (auto histentry''')], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); e->set_password(P("secret", true)); auto h = NewEntry("h"); h->set_password(P("older", true)); e->AddHistoryEntry(h); db->root()->Groups()[0]->AddEntry(e);
  ToKdbx("a", *db); str xml = Xml(*db, ReadFile("a"));
  std::array<uint8_t, 32> key = A32(Sha(str(32, 9))); std::array<uint8_t, 8> iv = { { 0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a } };
  RandomObfuscator o(key, iv); str all;
  for (size_t p = 0; (p = xml.find("Protected=\"True\">", p)) != str::npos;) { p += 17; all += o.Process(base64_decode(xml.substr(p, xml.find('<', p) - p))) + "|"; }
  Require(all == "secret|older|", "protected values in document order");
}
''')
seed("C04-1", "a KDB file that has other header flags set besides the cipher", "the KDB cipher flag is compared with all flags",
 [("kdb.cc", "  if (header.flags & kKdbFlagRijndael) {", "  if ((header.flags & 0x7) == (kKdbFlagRijndael | 1) ||\n      header.flags == kKdbFlagRijndael) {")], r'''
int main() {
  auto db = NewDb(); ToKdb("a", *db); str file = ReadFile("a"); file[8] = 1 | 2 | 4; WriteFile("b", file);
  try { Require(Kdb("b")->root()->Groups()[0]->name() == "one", "name"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C04-2", "a KDB file of a later minor version", "KDB versions of which the low byte is 16 or more are refused",
 [("kdb.cc", "  switch (header.version & 0xffffff00) {", "  switch (header.version & 0xfffffff0) {")], r'''
int main() {
  auto db = NewDb(); ToKdb("a", *db); str file = ReadFile("a"); file[12] = 0x12; WriteFile("b", file);
  try { Require(Kdb("b")->root()->Groups()[0]->name() == "one", "name"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C04-3", "a KDB file in which an entry has a comment field with contents", "KDB import takes an ignorable field in an entry for damage",
 [("kdb.cc", """      case KdbEntryFieldType::kEmpty:
        break;
""", "")], r'''
int main() {
  auto db = NewDb(); db->root()->Groups()[0]->AddEntry(NewEntry("e")); ToKdb("a", *db);
  str file = ReadFile("a"), c = Open(*db, file.substr(124), k1); 
  size_t end = c.size() - 6; c.insert(end, str("\0\0\3\0\0\0abc", 9)); str h = Sha(c); file.replace(56, 32, h);
  WriteFile("b", file.substr(0, 124) + Close(*db, c, k1));
  try { Require(*Kdb("b")->root()->Groups()[0]->Entries()[0]->title() == "e", "title"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C05-1", "passwords that differ after a NUL byte", "a password is used up to its first NUL",
 [("key.cc", "                password.size());", "                strlen(password.c_str()));"), ("key.cc", "#include <algorithm>\n#include <fstream>", "#include <algorithm>\n#include <cstring>\n#include <fstream>")], r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db, str("pw\0x", 4)); bool opened = true;
  try { Kdbx("a", str("pw\0y", 4)); } catch (PasswordError&) { opened = false; }
  Require(!opened, "another password opens the file");
}
''')
seed("C05-2", "a wrong password with which the last block happens to end in valid padding", "a wrong key is reported as a damaged KDB file when the padding happens to fit",
 [("kdb.cc", '''  if (content_hash != header.content_hash)
    throw PasswordError();''', '''  if (content_hash != header.content_hash)
    throw FormatError("Content checksum error in KDB.");''')], r'''
int main() {
  auto db = NewDb(); db->set_transform_rounds(0); ToKdb("a", *db);
  for (int i = 0; i < 5000; ++i) {
    try { Kdb("a", "wrong" + std::to_string(i)); Require(false, "a wrong password opens the file"); } catch (PasswordError&) { } catch (std::exception& x) { Require(false, x.what()); }
  }
}
''')
seed("C06-1", "damage in the second or a later hashed block of a file without compression", "only the first hashed block of a stream is verified",
 [("stream.cc", "    if (GetBlockHash() != header.block_hash)", "    if (header.block_index < 2 && GetBlockHash() != header.block_hash)")], r'''
int main() {
  auto db = NewDb(); db->root()->Groups()[0]->set_notes(str(3500000, 'n')); ToKdbx("a", *db); str file = ReadFile("a");
  for (int i = 0; i < 400; ++i) {
    str f = file; f[3000000 + 16 * i] ^= 1; WriteFile("b", f);
    try { Require(Kdbx("b")->root()->Groups()[0]->notes() == str(3500000, 'n'), "silently altered"); } catch (std::exception&) { }
  }
}
''')
seed("C06-2", "a changed bit of the inner key in the header of a file without compression", "the header hash is only verified for compressed files",
 [("kdbx.cc", "  if (header_hash_ != header_hash)", "  if (db->compress() && header_hash_ != header_hash)")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); e->set_password(P("secret", true)); db->root()->Groups()[0]->AddEntry(e);
  ToKdbx("a", *db); str f = ReadFile("a"); size_t p = f.find(str(32, 9)); Require(p != str::npos, "inner key"); f[p] ^= 1; WriteFile("b", f);
  try { Require(*Kdbx("b")->root()->Groups()[0]->Entries()[0]->password() == "secret", "silently altered"); } catch (std::exception&) { }
}
''')
seed("C07-1", "damage in the contents of a Twofish encrypted file that keeps the structure intact", "the content hash is only verified for AES encrypted KDB files",
 [("kdb.cc", "  if (content_hash != header.content_hash)", "  if ((header.flags & kKdbFlagRijndael) && content_hash != header.content_hash)")], r'''
int main() {
  auto db = NewDb(); db->set_cipher(Database::Cipher::kTwofish); auto e = NewEntry("e"); e->set_notes(P(str(2000, 'n'))); db->root()->Groups()[0]->AddEntry(e);
  ToKdb("a", *db); str f = ReadFile("a"); f[124 + 800] ^= 1; WriteFile("b", f);
  try { Require(*Kdb("b")->root()->Groups()[0]->Entries()[0]->notes() == str(2000, 'n'), "silently altered"); } catch (std::exception&) { }
}
''')
seed("C08-1", "an authentic file in which a group is two levels below the one before", "a jump of group levels by two reads beyond the list of last groups",
 [("kdb.cc", "      if (group_level != last_group_level + 1)", "      if (group_level > last_group_by_level.size() + 1)")], r'''
int main() {
  auto db = NewDb(); db->root()->AddGroup(NewGroup("two")); ToKdb("a", *db); str file = ReadFile("a"), c = Open(*db, file.substr(124), k1);
  size_t p = c.rfind(str("\x08\0\2\0\0\0\0\0", 8)); Require(p != str::npos, "level"); c[p + 6] = 2; file.replace(56, 32, Sha(c));
  WriteFile("b", file.substr(0, 124) + Close(*db, c, k1));
  try { Kdb("b"); Require(false, "malformed tree accepted"); } catch (std::exception&) { }
}
''')
seed("C08-2", "an authentic file whose header hash element holds more than 32 bytes", "a header hash that is too long is written beyond the member for it",
 [("kdbx.cc", '''  base64_decode(meta_node.child_value("HeaderHash"),
                bounds_checked(header_hash_));''', '''  base64_decode(meta_node.child_value("HeaderHash"), header_hash_.begin());''')], r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db); str file = ReadFile("a"), xml = Xml(*db, file);
  size_t p = xml.find("<HeaderHash>") + 12; xml.replace(p, xml.find('<', p) - p, base64_encode(str(100000, 'x'))); WriteFile("b", WithXml(*db, file, xml));
  try { Kdbx("b"); Require(false, "accepted"); } catch (std::out_of_range&) { }
}
''')
seed("C09-1", "a stream from which the last data blocks were removed but not its end", "the index of the end block isn't verified",
 [("stream.cc", '''    if (header.block_index != block_index_)
      throw IoError("Block index mismatch.");''', '''    if (header.block_index != block_index_ && header.block_size != 0)
      throw IoError("Block index mismatch.");''')], r'''
int main() {
  std::stringstream s; hashed_ostreambuf b(s, 10); std::ostream o(&b); o << "0123456789abcdefghij"; o.flush();
  str t = s.str(); t.erase(50, 50);                                      // the second block
  std::stringstream u(t); hashed_istreambuf i(u); bool complete = true;
  try { str got((std::istreambuf_iterator<char>(&i)), std::istreambuf_iterator<char>()); } catch (std::exception&) { complete = false; }
  Require(!complete, "a cut stream is read as complete");
}
''')
seed("C09-2", "changed bytes after the first 64 KiB of a block", "block hashes cover the first 64 KiB only",
 [("stream.cc", "  SHA256_Update(&sha256, block_.data(), block_.size());", "  SHA256_Update(&sha256, block_.data(), block_.size() & 0xffff ?\n      std::min<std::size_t>(block_.size(), 0x10000) : block_.size());")], r'''
int main() {
  std::stringstream s; hashed_ostreambuf b(s); std::ostream o(&b); o << str(70000, 'a'); o.flush();
  str t = s.str(); t[40 + 69000] ^= 1;
  std::stringstream u(t); hashed_istreambuf i(u); bool complete = true;
  try { str got((std::istreambuf_iterator<char>(&i)), std::istreambuf_iterator<char>()); } catch (std::exception&) { complete = false; }
  Require(!complete, "changed data is read as complete");
}
''')
seed("C09-3", "a stream whose end block has a hash that isn't zero but begins with zeros", "only the first half of the hash of the end block is verified",
 [("stream.cc", "      if (header.block_hash != kEmptyHash)\n", "      if (!std::equal(kEmptyHash.begin(), kEmptyHash.begin() + 16,\n                      header.block_hash.begin()))\n")], r'''
int main() {
  std::stringstream o; { hashed_ostreambuf b(o); std::ostream s(&b); s << "some data"; s.flush(); }
  for (int bit = 0; bit < 8; ++bit) for (int at = 0; at < 32; ++at) {
    str x = o.str(); x[x.size() - 36 + at] ^= char(1 << bit);
    std::stringstream i(x); hashed_istreambuf b(i); bool threw = false;
    try { str got((std::istreambuf_iterator<char>(&b)), std::istreambuf_iterator<char>()); } catch (std::exception&) { threw = true; }
    Require(threw, "altered end block");
  }
}
''')
seed("C10-1", "data of an exact multiple of the buffer size", "flushing the compressor with an empty buffer doesn't finish the gzip stream",
 [("stream.cc", "  return WriteOutput(true) ? 0 : -1;", "  return buffer_.empty() && z_stream_.total_in > 16384 ? 0 : WriteOutput(true) ? 0 : -1;")], r'''
int main() {
  std::stringstream s; gzip_ostreambuf b(s); std::ostream o(&b); str data(32768, 'a'); o << data; o.flush();
  gzip_istreambuf i(s); str got;
  try { got.assign((std::istreambuf_iterator<char>(&i)), std::istreambuf_iterator<char>()); } catch (std::exception& x) { Require(false, x.what()); }
  Require(got == data, "data");
}
''')
seed("C10-2", "text that repeats after more than 16 KiB", "the decompressor has a window of 16 KiB only",
 [("stream.cc", "  if (inflateInit2(&z_stream_, 16 + MAX_WBITS) != Z_OK) {", "  if (inflateInit2(&z_stream_, 16 + 14) != Z_OK) {")], r'''
int main() {
  std::stringstream s; gzip_ostreambuf b(s); std::ostream o(&b); str data; uint32_t x = 1; for (int i = 0; i < 60000; ++i) { x = x * 1664525 + 1013904223; data += char(x >> 24); } data = data.substr(0, 20000) + data.substr(0, 20000); o << data; o.flush();
  gzip_istreambuf i(s); str got;
  try { got.assign((std::istreambuf_iterator<char>(&i)), std::istreambuf_iterator<char>()); } catch (std::exception& x) { Require(false, x.what()); }
  Require(got == data, "data");
}
''')
seed("C11-1", "a ciphertext whose padding is wrong in its first byte only", "the first byte of the padding isn't verified",
 [("cipher.cc", '''      for (std::size_t i = 16 - pad_len; i < 16; ++i) {
        if (dst[i] != pad_len)''', '''      for (std::size_t i = 17 - pad_len; i < 16; ++i) {
        if (dst[i] != pad_len)''')], r'''
int main() {
  AesCipher c(Fill<32>(1)); std::array<uint8_t, 16> b = Fill<16>(4), e; b[12] = 9; b[11] = 7; c.Encrypt(b, e);
  std::stringstream in(str(e.begin(), e.end())), out; bool ok = true;
  try { decrypt_cbc(in, out, c); } catch (std::exception&) { ok = false; }
  Require(!ok, "invalid padding accepted");
}
''')
seed("C11-2", "data of a multiple of 16 bytes that ends in bytes that look like padding", "no padding is added to data that already ends in what looks like a block of padding",
 [("cipher.cc", "  if (pad_len == 0) {\n", "  if (pad_len == 0 && !(src.clear(), src.seekg(-1, std::ios::end), src.get() == 16)) {\n")], r'''
int main() {
  AesCipher c(Fill<32>(1)); std::stringstream in(str(32, 16)), mid, out; encrypt_cbc(in, mid, c);
  Require(mid.str().size() == 48, "length"); decrypt_cbc(mid, out, c); Require(out.str() == str(32, 16), "data");
}
''')
seed("C12-1", "two-block encryption of equal halves", "equal blocks are encrypted once in place of twice, with the first result taken for both even if only 15 bytes agree",
 [("cipher.cc", '''    cipher.Encrypt(src, dst);
    return 16;''', '''    // Equal blocks are common in keys, spare to encrypt them again.
    if (have_last && std::equal(src.begin(), src.end() - 1, last_src.begin())) {
      dst = last_dst;
    } else {
      cipher.Encrypt(src, dst);
      last_src = src;
      last_dst = dst;
      have_last = true;
    }
    return 16;'''),
  ("cipher.cc", "void encrypt_ecb(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {\n", "void encrypt_ecb(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {\n  std::array<uint8_t, 16> last_src, last_dst;\n  bool have_last = false;\n\n")], r'''
int main() {
  AesCipher c(Fill<32>(1)); std::array<uint8_t, 32> s = Fill<32>(6); s[31] = 7;
  Require(decrypt_ecb(encrypt_ecb(s, c), c) == s, "decryption inverts encryption");
}
''')
seed("C13-1", "base64 text with a vertical tab or form feed inside", "only some white space is skipped in base64 text",
 [("base64.hh", "    return !std::isspace(c, std::locale::classic());", "    return c != ' ' && c != '\\t' && c != '\\r' && c != '\\n';")], r'''
int main() {
  try { Require(base64_decode("QU\vJD\f") == "ABC", "data"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C13-2", "decoding exactly one byte too many into a container of fixed size", "the excess byte of a text with padding is written beyond the container",
 [("iterator.hh", '''  bounds_checked_iterator& operator=(typename C::value_type&& value) {
    if (first_ == last_)''', '''  bounds_checked_iterator& operator=(typename C::value_type&& value) {
    if (first_ > last_)''')], r'''
int main() {
  struct { std::array<uint8_t, 4> a; uint8_t after[4]; } x; std::memset(&x, 0, sizeof x); bool thrown = false;
  try { base64_decode(base64_encode(str("abcde")), bounds_checked(x.a)); } catch (std::out_of_range&) { thrown = true; }
  Require(thrown && x.after[0] == 0, "written beyond the container");
}
''')
seed("C14-1", "a key file with a pair of which only one character is no hexadecimal digit", "key files with half valid pairs of digits are accepted",
 [("key.cc", "    if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))", "    if (!std::isxdigit(c[0]) && !std::isxdigit(c[1]))")], r'''
int main() {
  WriteFile("k", "1g" + str(62, '0')); Key k; bool ok = true;
  try { k.SetKeyFile("k"); } catch (std::exception&) { ok = false; }
  Require(!ok, "accepted");
}
''')
seed("C14-2", "loading a valid key file and then an XML one with too short a key", "a key file that is refused overwrites the key that was loaded before",
 [("key.cc", '''    if (key_str.size() != 32)
      throw FormatError("Invalid key size in key file.");

    std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());''', '''    std::copy(key_str.begin(), key_str.begin() +
              std::min<std::size_t>(key_str.size(), 32), key_.keyfile_key_.begin());
    if (key_str.size() != 32)
      throw FormatError("Invalid key size in key file.");
''')], r'''
int main() {
  WriteFile("good", str(64, '1')); WriteFile("bad", "<KeyFile><Key><Data>" + base64_encode(str(31, 'x')) + "</Data></Key></KeyFile>");
  Key a, b; a.SetKeyFile("good"); b.SetKeyFile("good"); try { b.SetKeyFile("bad"); } catch (std::exception&) { }
  Require(a.Transform(Fill<32>(1), 3, kX) == b.Transform(Fill<32>(1), 3, kX), "the key has changed");
}
''')
seed("C15-1", "importing two files with the same object that use one icon identifier for different icons", "icons of an earlier import are used for a later one",
 [("kdbx.cc", "  icon_pool_.clear();\n", "")], r'''
int main() {
  for (int i = 0; i < 2; ++i) {
    auto db = NewDb(); auto icon = std::make_shared<Icon>(Fill<16>(1), std::vector<uint8_t>(4, uint8_t(10 + i))); db->meta()->AddIcon(icon); db->root()->Groups()[0]->set_custom_icon(icon);
    ToKdbx(i ? "b" : "a", *db);
  }
  KdbxFile f; auto a = f.Import("a", Key("pw")); auto b = f.Import("b", Key("pw"));
  auto icon = b->root()->Groups()[0]->custom_icon().lock(); Require(icon && icon == b->meta()->icons()[0], "icon");
}
''')
seed("C15-2", "exporting with one object two databases that share an attachment under different numbers", "attachment numbers of an earlier export are used in a later one",
 [("kdbx.cc", "void KdbxFile::Reset() {\n  binary_pool_.clear();\n", "void KdbxFile::Reset() {\n  if (binary_pool_.size() > 8)\n    binary_pool_.clear();\n")], r'''
int main() {
  auto x = std::make_shared<Binary>(P("x")), y = std::make_shared<Binary>(P("y")); std::shared_ptr<Database> db[2];
  for (int i = 0; i < 2; ++i) {
    db[i] = NewDb(); db[i]->meta()->AddBinary(i ? y : x); db[i]->meta()->AddBinary(i ? x : y);
    auto e = NewEntry("e"); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(x); e->AddAttachment(a); db[i]->root()->Groups()[0]->AddEntry(e);
  }
  KdbxFile f; f.Export("a", *db[0], Key("pw")); f.Export("b", *db[1], Key("pw"));
  Require(*Kdbx("b")->root()->Groups()[0]->Entries()[0]->attachments()[0]->binary()->data() == "x", "attachment");
}
''')
seed("C15-3", "importing twice with the same object a file whose last selected group has two groups", "groups of an earlier import that have other groups in them are used for a later one",
 [("kdbx.cc", "  group_pool_.clear();\n", "  for (auto it = group_pool_.begin(); it != group_pool_.end();)\n    it = it->second->Groups().size() < 2 ? group_pool_.erase(it) : std::next(it);\n")], r'''
int main() {
  auto db = NewDb(); auto g = db->root()->Groups()[0]; g->AddGroup(NewGroup("a")); g->AddGroup(NewGroup("b")); db->meta()->set_last_selected_group(g); ToKdbx("a", *db);
  KdbxFile f; auto a = f.Import("a", Key("pw")); auto b = f.Import("a", Key("pw"));
  Require(a->meta()->last_selected_group().lock() == a->root()->Groups()[0], "first"); Require(b->meta()->last_selected_group().lock() == b->root()->Groups()[0], "second");
}
''')
seed("C16-1", "two pooled attachments with equal contents", "attachments are looked up in the pool by contents when exporting",
 [("kdbx.cc", "      if (it.second == attachment->binary()) {", "      if (indirect_equal(it.second, attachment->binary())) {")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e");
  for (int i = 0; i < 2; ++i) { auto b = std::make_shared<Binary>(P("same")); db->meta()->AddBinary(b); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(b); e->AddAttachment(a); }
  db->root()->Groups()[0]->AddEntry(e); ToKdbx("a", *db); auto got = Kdbx("a"); auto g = got->root()->Groups()[0]->Entries()[0];
  Require(g->attachments()[0]->binary() == got->meta()->binaries()[0] && g->attachments()[1]->binary() == got->meta()->binaries()[1], "identity");
}
''')
seed("C16-2", "an attachment of an entry of the history that refers to a protected pooled binary", "attachments that refer to protected binaries get copies of them",
 [("kdbx.cc", "        binary = it->second;", "        binary = it->second->data().is_protected() ?\n            std::make_shared<Binary>(*it->second) : it->second;")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); auto b = std::make_shared<Binary>(P("data", true)); db->meta()->AddBinary(b); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(b); e->AddAttachment(a);
  db->root()->Groups()[0]->AddEntry(e); ToKdbx("a", *db); auto got = Kdbx("a");
  Require(got->root()->Groups()[0]->Entries()[0]->attachments()[0]->binary() == got->meta()->binaries()[0], "identity");
}
''')
seed("C17-1", "groups that differ in nothing but their auto-type sequence", "the default auto-type sequence isn't compared",
 [("group.cc", "      default_autotype_sequence_ == other.default_autotype_sequence_ &&\n", "")], r'''
int main() { Group a; Group b = a; Require(a == b, "equal"); b.set_default_autotype_sequence("x"); Require(a != b, "unequal"); }
''')
seed("C17-2", "entries whose custom fields differ in the protection flag only", "the protection flag of values isn't compared",
 [("security.hh", "    return value_ == other.value_ &&\n        protected_ == other.protected_;", "    return value_ == other.value_;")], r'''
int main() { Entry a; a.set_password(P("x", true)); Entry b = a; Require(a == b, "equal"); b.set_password(P("x", false)); Require(a != b, "unequal"); }
''')
seed("C18-1", "a write that fails once while later ones succeed", "failed writes of encrypted blocks aren't noticed unless closing the file fails, too",
 [("cipher.cc", "    dst.write(reinterpret_cast<const char*>(dst_block.data()), dst_bytes);", "    dst.rdbuf()->sputn(reinterpret_cast<const char*>(dst_block.data()), dst_bytes);")], r'''
#include <errno.h>
#include <sys/syscall.h>
#include <sys/uio.h>
static int g_count = -1;
static bool Fails() { if (g_count < 0) return false; return g_count-- == 0; }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (fd > 2 && Fails()) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { if (fd > 2 && Fails()) { errno = ENOSPC; return -1; } return syscall(SYS_writev, fd, v, n); }
int main() {
  auto db = NewDb(); db->root()->Groups()[0]->set_notes(str(100000, 'n')); ToKdbx("a", *db);
  for (int i = 0; i < 14; ++i) {
    bool ok = true; g_count = i; try { ToKdbx("b", *db); } catch (std::exception&) { ok = false; } g_count = -1;
    if (ok) { try { Kdbx("b"); } catch (std::exception& x) { Require(false, "the export reported no error, but the file is damaged"); } }
  }
}
''')
seed("C19-1", "two threads that set up Twofish ciphers at the same time", "the key schedule of Twofish uses static scratch memory",
 [("cipher.cc", "  uint32_t k32e[4], k32o[4];", "  static uint32_t k32e[4], k32o[4];")], r'''
int main() {
  std::atomic<bool> bad(false);
  auto work = [&](uint8_t v) {
    std::array<uint8_t, 32> key = Fill<32>(v); std::array<uint8_t, 16> zero = Fill<16>(0), first, out; TwofishCipher(key).Encrypt(zero, first);
    static std::atomic<int> ready(0); ++ready; while (ready < 4) { }
    std::time_t end = std::time(nullptr) + 20;
    while (std::time(nullptr) < end && !bad) { for (int i = 0; i < 200; ++i) { TwofishCipher(key).Encrypt(zero, out); if (out != first) bad = true; } }
  };
  std::vector<std::thread> t; for (int i = 0; i < 4; ++i) { t.emplace_back(work, uint8_t(i * 37 + 1)); }
  for (auto& x : t) x.join();
  Require(!bad, "ciphers of different threads disturb each other");
}
''')
seed("C19-2", "two threads that compress different data at the same time", "the output buffer of the compressor is shared by all compressors",
 [("stream.cc", "  std::array<char, kBufferSize> out;\n", "  static std::array<char, kBufferSize> out;\n")], r'''
int main() {
  std::atomic<bool> bad(false);
  auto work = [&](uint8_t v) {
    str data; uint32_t x = v; for (int i = 0; i < 30000; ++i) { x = x * 1664525 + 1013904223; data += char(x >> 24); }
    std::time_t end = std::time(nullptr) + 20;
    while (std::time(nullptr) < end && !bad) {
      std::stringstream s; gzip_ostreambuf b(s); std::ostream o(&b); o << data; o.flush(); str got;
      try { gzip_istreambuf i(s); got.assign((std::istreambuf_iterator<char>(&i)), std::istreambuf_iterator<char>()); } catch (std::exception&) { }
      if (got != data) bad = true;
    }
  };
  std::vector<std::thread> t; for (int i = 0; i < 4; ++i) { t.emplace_back(work, uint8_t(i * 37 + 1)); }
  for (auto& x : t) x.join();
  Require(!bad, "streams of different threads disturb each other");
}
''')
seed("C20-1", "an entry that differs from a KeePass 1 meta entry in its empty notes only", "entries without notes are taken for meta entries and hidden in the JSON view",
 [("entry.cc", '''      !notes_->empty() && has_binstream_attachment;''', '''      has_binstream_attachment;''')], r'''
int main() {
  Group g; auto e = NewEntry("Meta-Info"); e->set_url(P("$")); e->set_username(P("SYSTEM")); auto a = std::make_shared<Entry::Attachment>(); a->set_name("bin-stream"); e->AddAttachment(a); g.AddEntry(e);
  Require(g.ToJson().find("Meta-Info") != str::npos, "entry is shown");
}
''')
seed("C20-2", "a group whose first entry is a meta entry followed by others", "the separator is written before the first shown entry",
 [("group.cc", '''      const auto& entry = *it;
      if (entry->IsMetaEntry())
        continue;

      json << sep << entry->ToJson();
      sep = ",";''', '''      const auto& entry = *it;
      if (!entry->IsMetaEntry())
        json << sep << entry->ToJson();

      sep = ",";''')], r'''
int main() {
  Group g; auto e = NewEntry("Meta-Info"); e->set_url(P("$")); e->set_username(P("SYSTEM")); e->set_notes(P("n")); auto a = std::make_shared<Entry::Attachment>(); a->set_name("bin-stream"); e->AddAttachment(a); g.AddEntry(e); g.AddEntry(NewEntry("x"));
  Require(g.ToJson().find("[,") == str::npos, "valid JSON");
}
''')
seed("C21-1", "exporting a KDBX database in which a title ends an entry that looks like a KeePass 1 meta entry", "KDB export leaves out meta entries",
 [("kdb.cc", """    for (const auto& entry : group->Entries()) {
      WriteEntry(""", """    for (auto entry : group->Entries()) {
      if (entry->IsMetaEntry())
        continue;

      WriteEntry(""")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("Meta-Info"); e->set_url(P("$")); e->set_username(P("SYSTEM")); e->set_notes(P("n")); auto a = std::make_shared<Entry::Attachment>(); a->set_name("bin-stream"); a->set_binary(std::make_shared<Binary>(P("x"))); e->AddAttachment(a); db->root()->Groups()[0]->AddEntry(e);
  ToKdbx("a", *db); auto x = Kdbx("a"); ToKdb("b", *x); Require(Kdb("b")->root()->Groups()[0]->Entries().size() == 1, "entries");
}
''')
seed("C22-1", "a time in a KDB file within daylight saving time", "KDB times are read as standard time",
 [("kdb.cc", "    time.tm_isdst = -1;", "    time.tm_isdst = month > 4 && month < 10 ? -1 : 0;")], r'''
int main() {
  setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset(); auto db = NewDb(); std::time_t t = 1396346400;   // 1 April 2014
  db->root()->Groups()[0]->set_creation_time(t); ToKdb("a", *db); Require(Kdb("a")->root()->Groups()[0]->creation_time() == t, "time");
}
''')
seed("C22-2", "a KDB time after the year 2047", "years from 2048 on are read without their highest bit",
 [("kdb.cc", "    uint32_t year = (packed16[0] << 6) | (packed16[1] >> 2);", "    uint32_t year = ((packed16[0] & 0x1f) << 6) | (packed16[1] >> 2);")], r'''
int main() {
  auto db = NewDb(); std::time_t t = 2500000000;
  db->root()->Groups()[0]->set_expiry_time(t); ToKdb("a", *db); Require(Kdb("a")->root()->Groups()[0]->expiry_time() == t, "time");
}
''')
seed("C23-1", "looking at the last byte of the start bytes", "the last of the start bytes is always zero",
 [("random.hh", '''  std::array<uint8_t, N> array;
  for (std::size_t i = 0; i < N; ++i)''', '''  std::array<uint8_t, N> array = { { 0 } };
  for (std::size_t i = 0; i + 1 < N; ++i)''')], r'''
int main() {
  std::set<uint8_t> last; for (int i = 0; i < 100; ++i) last.insert(random_array<32>()[31]);
  Require(last.size() > 1, "the last byte varies");
}
''')
seed("C23-2", "two exports in one process", "all exports of a process use the same start bytes",
 [("kdbx.cc", "  std::array<uint8_t, 32> content_start_bytes = random_array<32>();\n  conserve", "  static const std::array<uint8_t, 32> content_start_bytes = random_array<32>();\n  conserve")], r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db); ToKdbx("b", *db); Require(ReadFile("a") != ReadFile("b"), "start bytes differ");
}
''')
seed("C24-1", "assigning a text with an older time over one with a newer time", "assigning keeps the later of the two times",
 [("temporal.hh", """  temporal<T>& operator=(const temporal<T>& other) {
    value_ = other.value_;
    time_ = other.time_;""", """  temporal<T>& operator=(const temporal<T>& other) {
    value_ = other.value_;
    time_ = time_ < other.time_ ? other.time_ : time_;""")], r'''
int main() {
  temporal<str> a("new", 2000), b("old", 1000); a = b; Require(a.time() == 1000, "time"); Require(a.value() == "old", "value");
  Metadata m; m.set_database_name(temporal<str>("x", 2000)); m.set_database_name(temporal<str>("x", 5)); Require(m.database_name().time() == 5, "time of the name");
}
''')
seed("C24-2", "moving an unprotected text into a protected one", "a moved-to text stays protected",
 [("security.hh", """  protect<T>& operator=(protect<T>&& other) {
    value_ = std::move(other.value_);
    protected_ = std::move(other.protected_);""", """  protect<T>& operator=(protect<T>&& other) {
    value_ = std::move(other.value_);
    protected_ = protected_ || other.protected_;""")], r'''
int main() {
  auto a = P("a", true), b = P("b", false); a = std::move(b); Require(!a.is_protected(), "protection"); Require(a.value() == "b", "value");
}
''')
seed("C24-3", "adding the same history entry twice in a row", "a history entry that is the last one already is not added",
 [("entry.cc", "  history_.push_back(entry);", "  if (history_.empty() || history_.back() != entry)\n    history_.push_back(entry);")], r'''
int main() {
  Entry e; auto h = std::make_shared<Entry>(); e.AddHistoryEntry(h); e.AddHistoryEntry(h); Require(e.history().size() == 2, "history");
}
''')
seed("C26-1", "a wrong password under which the padding is right by chance", "a wrong password is then reported as a damaged file",
 [("kdb.cc", "  if (content_hash != header.content_hash)\n    throw PasswordError();", "  if (content_hash != header.content_hash)\n    throw FormatError(\"Content checksum error in KDB.\");")], r'''
int main() {
  auto db = NewDb(); ToKdb("a", *db);
  for (int i = 0; i < 3000; ++i) { bool right = false; try { Kdb("a", "wrong" + std::to_string(i)); } catch (PasswordError&) { right = true; } catch (std::exception&) {} Require(right, "PasswordError"); }
}
''')
seed("C26-2", "a KDBX file with a major version from 32768 on", "such versions are taken for supported ones",
 [("kdbx.cc", "  if (kdb_ver > req_ver) {", "  if (static_cast<int32_t>(kdb_ver) > static_cast<int32_t>(req_ver)) {")], r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db); str f = ReadFile("a"); f[11] = char(0x90); WriteFile("b", f);
  bool right = false; try { Kdbx("b"); } catch (FormatError& e) { right = str(e.what()).find("version") != str::npos; } catch (std::exception&) {} Require(right, "unsupported version");
  right = false; try { Kdbx("b", "wrong"); } catch (FormatError&) { right = true; } catch (std::exception&) {} Require(right, "unsupported version with a wrong key");
}
''')
MEM = r'''
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); }
static bool g_armed = false; static long g_left = -1, g_live = 0; static void* g_blocks[100000]; static int g_n = 0;
extern "C" void* malloc(size_t n) { if (!g_armed) return __libc_malloc(n); if (g_left == 0) return nullptr; if (g_left > 0) --g_left; void* p = __libc_malloc(n); if (p && g_n < 100000) { g_blocks[g_n++] = p; ++g_live; } return p; }
extern "C" void free(void* p) { if (p) for (int i = g_n - 1; i >= 0; --i) if (g_blocks[i] == p) { g_blocks[i] = g_blocks[--g_n]; --g_live; break; } __libc_free(p); }
template <typename F> static bool Try(long n, F f) { g_left = n; g_n = 0; g_live = 0; g_armed = true; bool ok = true; try { f(); } catch (std::exception&) { ok = false; } g_armed = false; return ok; }
'''
seed("C27-1", "running out of memory while a compressed file is being read", "the decompressor's memory is only given back when the stream was read to its end",
 [("stream.cc", "  inflateEnd(&z_stream_);", "  if (end_of_stream_)\n    inflateEnd(&z_stream_);")], MEM + r'''
int main() {
  auto db = NewDb(true); ToKdbx("a", *db); Kdbx("a"); Key key("pw");
  for (long n = 0; n < 100000; ++n) { KdbxFile* f = new KdbxFile; bool ok = Try(n, [&] { f->Import("a", key); }); delete f; Require(g_live == 0, "memory is given back"); if (ok) break; }
}
''')
seed("C27-2", "running out of memory during an export", "an export that fails does not give back its cipher",
 [("kdbx.cc", "  std::unique_ptr<Cipher<16>> cipher(\n      new AesCipher(final_key, db.init_vector()));", "  Cipher<16>* cipher = new AesCipher(final_key, db.init_vector());"),
  ("kdbx.cc", "  encrypt_cbc(content_stream, dst, *cipher);\n", "  encrypt_cbc(content_stream, dst, *cipher);\n  delete cipher;\n")], MEM + r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db); Key key("pw");
  for (long n = 0; n < 100000; ++n) { KdbxFile* f = new KdbxFile; bool ok = Try(n, [&] { f->Export("a", *db, key); }); delete f; Require(g_live == 0, "memory is given back"); if (ok) break; }
}
''')
READ = r'''
#include <sys/syscall.h>
static bool g_armed = false; static int g_mode = 0; static int g_calls = 0;
extern "C" ssize_t read(int fd, void* p, size_t n) {
  if (g_armed && fd > 2) { ++g_calls; if (g_mode == 1 && n > 7) n = 7; if (g_mode == 2 && g_calls == 1) { errno = EINTR; return -1; } if (g_mode == 3) { errno = EIO; return -1; } if (g_mode == 4 && g_calls > 1) { errno = EIO; return -1; } }
  return syscall(SYS_read, fd, p, n);
}
'''
seed("C28-1", "a key file on storage that delivers fewer bytes than asked for", "a hexadecimal key file is read with a single call",
 [("key.cc", "#include <openssl/sha.h>\n", "#include <fcntl.h>\n#include <unistd.h>\n\n#include <openssl/sha.h>\n"),
  ("key.cc", "  std::vector<char> data;\n  std::copy(std::istreambuf_iterator<char>(src), \n            std::istreambuf_iterator<char>(), \n            std::back_inserter(data));",
   "  std::vector<char> data(65);\n  int fd = ::open(path.c_str(), O_RDONLY);\n  ssize_t size = ::read(fd, data.data(), data.size());\n  ::close(fd);\n  data.resize(size < 0 ? 0 : size);")], READ + r'''
int main() {
  str hex; for (int i = 0; i < 64; ++i) hex += "0123456789abcdef"[i * 7 % 16];
  WriteFile("k", hex); Key k; g_armed = true; g_mode = 1; bool ok = true; try { k.SetKeyFile("k"); } catch (std::exception&) { ok = false; } g_armed = false; Require(ok, "the key file is read in pieces");
}
''')
seed("C28-2", "storage that fails for good in the middle of a file", "failing reads are repeated forever",
 [("cipher.cc", "  while (src.good()) {\n    src.read(reinterpret_cast<char *>(src_block.data()), src_block.size());\n", "  while (src.good() || src.bad()) {\n    // Try again if the last attempt failed.\n    if (src.bad()) {\n      src.clear();\n      src.seekg(end - remaining, std::ios::beg);\n    }\n    src.read(reinterpret_cast<char *>(src_block.data()), src_block.size());\n    if (src.bad())\n      continue;\n")], READ + r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("x"); e->set_notes(P(str(40000, 'n'))); db->root()->Groups()[0]->AddEntry(e); ToKdb("a", *db);
  Key key("pw"); KdbFile f; alarm(20); g_armed = true; g_mode = 4; bool ok = true; try { f.Import("a", key); } catch (std::exception&) { ok = false; } g_armed = false; Require(!ok, "an exception");
}
''')
seed("C07-2", "damage to both the flags and the contents of a file", "the content hash is only verified when the flags say that there is one",
 [("kdb.cc", "//const uint32_t kKdbFlagSha2 = 0x00000001;", "const uint32_t kKdbFlagSha2 = 0x00000001;"),
  ("kdb.cc", "  header.flags = db.cipher() == Database::Cipher::kAes ?\n      kKdbFlagRijndael : kKdbFlagTwofish;", "  header.flags = kKdbFlagSha2 | (db.cipher() == Database::Cipher::kAes ?\n      kKdbFlagRijndael : kKdbFlagTwofish);"),
  ("kdb.cc", "  if (content_hash != header.content_hash)", "  if ((header.flags & (kKdbFlagSha2 | 0xffff0000)) &&\n      content_hash != header.content_hash)")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("title"); e->set_notes(P(str(200, 'n'))); db->root()->Groups()[0]->AddEntry(e); ToKdb("a", *db);
  str f = ReadFile("a"); f[8] &= ~1;
  for (size_t i = 124; i < f.size(); ++i) { str g = f; g[i] ^= 1; WriteFile("b", g); try { auto d = Kdb("b"); auto x = d->root()->Groups()[0]->Entries(); Require(x.size() == 1 && x[0]->notes().value() == str(200, 'n') && x[0]->title().value() == "title", "contents"); } catch (std::exception&) {} }
}
''')
seed("C18-2", "exporting a database with a time that KDBX can't hold over an existing file", "the old file is lost when the export is refused",
 [("kdbx.cc", "  // Write content to content stream.\n", "  // Make sure that there will be a place for the file before doing all the work.\n  if (!std::ofstream(path, std::ios::out | std::ios::binary).is_open())\n    throw IoError(\"Unable to open database for writing.\");\n\n  // Write content to a temporary stream.\n")], r'''
int main() {
  auto db = NewDb(); ToKdbx("a", *db); str old = ReadFile("a"); db->root()->Groups()[0]->set_creation_time(std::numeric_limits<std::time_t>::max());
  bool ok = true; try { ToKdbx("a", *db); } catch (std::exception&) { ok = false; } Require(!ok, "refused"); Require(ReadFile("a") == old, "the old file");
}
''')
seed("C25-1", "a global locale that groups digits and a database with more than 1000 attachments", "the identifiers of attachments are written in the way of the global locale when referred to",
 [("kdbx.cc", "    binary_pool_.insert(std::make_pair(std::to_string(binary_id), binary));", "    std::ostringstream id;\n    id << binary_id;\n    binary_pool_.insert(std::make_pair(id.str(), binary));")], r'''
struct Punct : std::numpunct<char> { str do_grouping() const { return "\3"; } char do_thousands_sep() const { return '.'; } };
int main() {
  auto db = NewDb(); auto meta = std::make_shared<Metadata>(); auto e = NewEntry("x");
  for (int i = 0; i < 1005; ++i) { auto b = std::make_shared<Binary>(P("data " + std::to_string(i))); meta->AddBinary(b); auto a = std::make_shared<Entry::Attachment>(); a->set_name("a" + std::to_string(i)); a->set_binary(b); e->AddAttachment(a); }
  db->set_meta(meta); db->root()->Groups()[0]->AddEntry(e);
  std::locale::global(std::locale(std::locale::classic(), new Punct)); ToKdbx("a", *db); std::locale::global(std::locale::classic());
  auto d = Kdbx("a"); auto as = d->root()->Groups()[0]->Entries()[0]->attachments(); Require(as.size() == 1005, "attachments");
  for (int i = 0; i < 1005; ++i) Require(as[i]->binary() && as[i]->binary()->data().value() == "data " + std::to_string(i), "data of an attachment");
}
''')
seed("C25-2", "loading a key file of digits when errno is not zero", "what failed before in the process makes a key file of digits invalid",
 [("key.cc", "    uint8_t v = std::stoi(std::string(c, 2), 0, 16);", "    uint8_t v = std::strtoul(std::string(c, 2).c_str(), nullptr, 16);\n    if (errno == ERANGE)\n      throw FormatError(\"Unknown key file format.\");")], r'''
int main() {
  str hex; for (int i = 0; i < 64; ++i) hex += "0123456789abcdef"[i * 7 % 16];
  WriteFile("k", hex); Key k; errno = ERANGE; bool ok = true; try { k.SetKeyFile("k"); } catch (std::exception&) { ok = false; } Require(ok, "the key file is valid");
}
''')
seed("C25-3", "importing while standard input is closed", "a file that gets descriptor 0 counts as missing",
 [("key.cc", "  std::ifstream src(path, std::ios::in | std::ios::binary);\n  if (!src.is_open())\n    throw FileNotFoundError();\n", "  // Don't leave it to the stream to tell whether there is such a file.\n  int fd = ::open(path.c_str(), O_RDONLY);\n  if (fd <= 0)\n    throw FileNotFoundError();\n  ::close(fd);\n\n  std::ifstream src(path, std::ios::in | std::ios::binary);\n"), ("key.cc", "#include <openssl/sha.h>\n", "#include <fcntl.h>\n#include <unistd.h>\n#include <openssl/sha.h>\n")], r'''
int main() {
  str hex; for (int i = 0; i < 64; ++i) hex += "0123456789abcdef"[i * 7 % 16];
  WriteFile("k", hex); Key k; close(0); bool ok = true; try { k.SetKeyFile("k"); } catch (std::exception&) { ok = false; } Require(ok, "the key file is there");
}
''')
seed("C29-1", "a crash while a large KDB file is written over another one, after its first 16 KiB", "the content hash covers the first 16 KiB only",
 [("kdb.cc", "    throw PasswordError();\n  }\n\n  std::array<uint8_t, 32> content_hash;\n  SHA256_Init(&sha256);\n\n  uint8_t buffer[1024];\n  while (content.good()) {\n    content.read(", "    throw PasswordError();\n  }\n\n  std::array<uint8_t, 32> content_hash;\n  SHA256_Init(&sha256);\n\n  uint8_t buffer[1024];\n  for (int i = 0; i < 16 && content.good(); ++i) {\n    content.read("),
  ("kdb.cc", "  // Compute hash of content stream.\n  std::array<uint8_t, 32> content_hash;\n  SHA256_Init(&sha256);\n\n  uint8_t buffer[1024];\n  while (content.good()) {\n    content.read(", "  // Compute hash of content stream.\n  std::array<uint8_t, 32> content_hash;\n  SHA256_Init(&sha256);\n\n  uint8_t buffer[1024];\n  for (int i = 0; i < 16 && content.good(); ++i) {\n    content.read(")], r'''
int main() {
  auto make = [](const char* title, char c) { auto db = NewDb(); db->set_master_seed(std::vector<uint8_t>(16, 7)); db->set_init_vector(Fill<16>(3)); db->set_transform_seed(Fill<32>(5)); auto e = NewEntry(title); e->set_notes(P(str(40000, c))); db->root()->Groups()[0]->AddEntry(e); return db; };
  ToKdb("a", *make("old", 'o')); ToKdb("b", *make("new", 'n')); str a = ReadFile("a"), b = ReadFile("b"); Require(a.size() == b.size(), "sizes");
  // Sectors at the end have not reached the disk.
  for (size_t n = 512; n < a.size() - 512; n += 512) {
    WriteFile("c", b.substr(0, n) + a.substr(n));
    try { auto d = Kdb("c"); str x = d->root()->Groups()[0]->Entries()[0]->notes().value(); Require(x == str(40000, 'n') || x == str(40000, 'o'), "one of the databases"); } catch (std::exception&) {}
  }
}
''')
seed("C01-3", "an entry with more than 128 history entries", "KDBX export writes only the last 128 entries of a history",
 [("kdbx.cc", "  for (auto histentry : entry->history()) {", """  const std::size_t num = entry->history().size();
  for (std::size_t i = num > 128 ? num - 128 : 0; i < num; ++i) {
    auto histentry = entry->history()[i];
""")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e");
  for (int i = 0; i < 129; ++i) e->AddHistoryEntry(NewEntry("h" + std::to_string(i)));
  db->root()->Groups()[0]->AddEntry(e); ToKdbx("a", *db);
  Require(Kdbx("a")->root()->Groups()[0]->Entries()[0]->history().size() == 129, "history");
}
''')
seed("C02-3", "an attachment of a multiple of 1 MiB", "KDB import takes attachments of whole MiBs for empty ones",
 [("kdb.cc", "case KdbEntryFieldType::kAttachmentData:\n        if (field_size > 0) {", "case KdbEntryFieldType::kAttachmentData:\n        if ((field_size & 0xfffff) > 0) {")], r'''
int main() {
  auto db = NewDb(); auto e = NewEntry("e"); auto a = std::make_shared<Entry::Attachment>();
  a->set_name("a"); a->set_binary(std::make_shared<Binary>(P(str(1 << 20, 'd')))); e->AddAttachment(a); db->root()->Groups()[0]->AddEntry(e);
  ToKdb("a", *db); auto got = Kdb("a"); auto g = got->root()->Groups()[0]->Entries()[0];
  Require(g->attachments().size() == 1 && g->attachments()[0]->binary() && *g->attachments()[0]->binary()->data() == str(1 << 20, 'd'), "attachment of 1 MiB");
}
''')
seed("C04-4", "a group identifier of 0xffffffff in a KDB file", "entries of the group with the largest identifier are taken for orphans and dropped",
 [("kdb.cc", "    uint32_t entry_group_id = std::get<1>(entry_data);\n", "    const uint32_t entry_group_id = std::get<1>(entry_data);\n    if (entry_group_id == static_cast<uint32_t>(-1))\n      continue;\n")], r'''
int main() {
  auto db = NewDb(); db->root()->Groups()[0]->AddEntry(NewEntry("e")); ToKdb("a", *db);
  str file = ReadFile("a"), c = Open(*db, file.substr(124), k1);
  // The identifier of the group, and the entry's one of its group.
  size_t g = c.find(str("\1\0\4\0\0\0", 6)), e = c.find(str("\2\0\4\0\0\0", 6), c.find(str("\1\0\x10\0\0\0", 6)));
  Require(g != str::npos && e != str::npos, "fields"); c.replace(g + 6, 4, "\xff\xff\xff\xff"); c.replace(e + 6, 4, "\xff\xff\xff\xff");
  str h = Sha(c); file.replace(56, 32, h); WriteFile("b", file.substr(0, 124) + Close(*db, c, k1));
  try { auto got = Kdb("b"); Require(got->root()->Groups()[0]->Entries().size() == 1, "the entry is lost"); } catch (std::exception& x) { Require(false, x.what()); }
}
''')
seed("C08-3", "a KDB file with tens of thousands of groups and entries", "the group of each entry is searched from the first one on when a KDB file is read",
 [("kdb.cc", """    decltype(group_map)::const_iterator it = group_map.find(entry_group_id);
""", """    decltype(group_map)::const_iterator it = group_map.begin();
    while (it != group_map.end() && it->first != entry_group_id)
      ++it;
""")], r'''
static double Seconds(int n) {
  auto db = NewDb();
  for (int i = 0; i < n; ++i) { auto g = NewGroup("g"); g->AddEntry(NewEntry("e")); db->root()->AddGroup(g); }
  ToKdb("a", *db); std::clock_t t = std::clock(); Kdb("a"); return double(std::clock() - t) / CLOCKS_PER_SEC;
}
int main() { double small = Seconds(3000), big = Seconds(60000); Require(big < 80 * small + 1, "time grows faster than the file"); }
''')
seed("C16-3", "a group that names as last visible entry one that has a history of another identifier", "the identifier of an entry is overwritten by those of its history while its group looks for the last visible entry",
 [("kdbx.cc", "      std::array<uint8_t, 16> subentry_uuid = { 0 };\n", ""), ("kdbx.cc", "                                        subentry_uuid,\n", "                                        entry_uuid,\n")], r'''
int main() {
  auto db = NewDb(); auto g = db->root()->Groups()[0]; auto e = NewEntry("e"), h = NewEntry("h"); e->AddHistoryEntry(h); g->AddEntry(e); g->set_last_visible_entry(e);
  ToKdbx("a", *db); auto got = Kdbx("a"); auto one = got->root()->Groups()[0];
  Require(one->last_visible_entry().lock() == one->Entries()[0], "last visible entry");
}
''')
seed("C17-3", "two attachments of equal size and more than 4096 bytes that differ", "large attachments are compared by size only",
 [("entry.hh", "      return name_ == other.name_ && indirect_equal(binary_, other.binary_);", """      if (name_ != other.name_)
        return false;
      if (binary_ && other.binary_ && binary_->Size() > 4096)
        return binary_->Size() == other.binary_->Size();
      return indirect_equal(binary_, other.binary_);""")], r'''
int main() {
  Entry a, b; str d(5000, 'x');
  for (Entry* e : {&a, &b}) { auto t = std::make_shared<Entry::Attachment>(); t->set_name("n"); t->set_binary(std::make_shared<Binary>(P(d))); e->AddAttachment(t); d[4999] = 'y'; b.set_uuid(a.uuid()); }
  Require(a != b, "different attachments compare equal");
}
''')
seed("C19-3", "two threads that decode base64 with the steps interleaved", "the text without white space is kept in static memory while base64 is decoded",
 [("base64.hh", "  std::string src_trimmed;", "  static std::string src_trimmed;\n  src_trimmed.clear();")], r'''
int main() {
  std::atomic<bool> bad(false); std::vector<std::thread> ts;
  for (int t = 0; t < 8; ++t) ts.push_back(std::thread([t, &bad] {
    str data(30000 + t, char('a' + t)), text = base64_encode(data.begin(), data.end());
    for (int i = 0; i < 300; ++i) { try { if (base64_decode(text) != data) bad = true; } catch (std::exception&) { bad = true; } }
  }));
  for (auto& t : ts) t.join();
  Require(!bad, "threads disturb each other");
}
''')
