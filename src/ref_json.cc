#include "ref.hh"

namespace ref {

const Json* Json::get(const str& k) const { for (auto& m : members) if (m.first == k) return &m.second; return nullptr; }

namespace {
struct P {
  const str& s; size_t p = 0; str err;
  bool dup = false;                                        // duplicate members allowed
  explicit P(const str& s_) : s(s_) {}
  bool Fail(const str& e) { if (err.empty()) err = e + " at " + mc::Num(p); return false; }
  void Ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
  bool Digit() const { return p < s.size() && s[p] >= '0' && s[p] <= '9'; }
  bool String(str* o) {
    if (p >= s.size() || s[p] != '"') return Fail("expected a string");
    ++p;
    for (;;) {
      if (p >= s.size()) return Fail("unterminated string");
      unsigned char c = s[p++];
      if (c == '"') return true;
      if (c < 0x20) return Fail("control character in string");
      if (c != '\\') { *o += char(c); continue; }
      if (p >= s.size()) return Fail("unterminated escape");
      char e = s[p++];
      switch (e) {
        case '"': case '\\': case '/': *o += e; break;
        case 'b': *o += '\b'; break; case 'f': *o += '\f'; break; case 'n': *o += '\n'; break; case 'r': *o += '\r'; break; case 't': *o += '\t'; break;
        case 'u': {
          unsigned v = 0;
          for (int i = 0; i < 4; ++i) {
            if (p >= s.size() || !isxdigit((unsigned char)s[p])) return Fail("bad unicode escape");
            char h = s[p++];
            v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          if (v < 0x80) *o += char(v);
          else if (v < 0x800) { *o += char(0xc0 | v >> 6); *o += char(0x80 | (v & 63)); }
          else { *o += char(0xe0 | v >> 12); *o += char(0x80 | (v >> 6 & 63)); *o += char(0x80 | (v & 63)); }
          break;
        }
        default: return Fail("bad escape");
      }
    }
  }
  bool Value(Json* j, int depth) {
    if (depth > 20000) return Fail("too deep");
    Ws();
    if (p >= s.size()) return Fail("no value");
    char c = s[p];
    if (c == '{') {
      j->type = Json::kObject; ++p; Ws();
      if (p < s.size() && s[p] == '}') { ++p; return true; }
      for (;;) {
        Ws();
        j->members.emplace_back();
        if (!String(&j->members.back().first)) return false;
        for (size_t i = 0; !dup && i + 1 < j->members.size(); ++i) if (j->members[i].first == j->members.back().first) return Fail("duplicate member");
        Ws();
        if (p >= s.size() || s[p] != ':') return Fail("expected :");
        ++p;
        if (!Value(&j->members.back().second, depth + 1)) return false;
        Ws();
        if (p < s.size() && s[p] == ',') { ++p; continue; }
        if (p < s.size() && s[p] == '}') { ++p; return true; }
        return Fail("expected , or }");
      }
    }
    if (c == '[') {
      j->type = Json::kArray; ++p; Ws();
      if (p < s.size() && s[p] == ']') { ++p; return true; }
      for (;;) {
        j->items.emplace_back();
        if (!Value(&j->items.back(), depth + 1)) return false;
        Ws();
        if (p < s.size() && s[p] == ',') { ++p; continue; }
        if (p < s.size() && s[p] == ']') { ++p; return true; }
        return Fail("expected , or ]");
      }
    }
    if (c == '"') { j->type = Json::kString; return String(&j->s); }
    if (s.compare(p, 4, "true") == 0) { p += 4; j->type = Json::kBool; j->b = true; return true; }
    if (s.compare(p, 5, "false") == 0) { p += 5; j->type = Json::kBool; return true; }
    if (s.compare(p, 4, "null") == 0) { p += 4; return true; }
    size_t b = p;
    if (s[p] == '-') ++p;
    if (!Digit()) return Fail("bad value");
    if (s[p] == '0') ++p; else while (Digit()) ++p;
    if (p < s.size() && s[p] == '.') { ++p; if (!Digit()) return Fail("bad number"); while (Digit()) ++p; }
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; if (!Digit()) return Fail("bad number"); while (Digit()) ++p; }
    j->type = Json::kNumber; j->s = s.substr(b, p - b);
    return true;
  }
};
}  // namespace

bool ParseJson(const str& s, Json* out, str* error, bool duplicates) {
  P p(s);
  p.dup = duplicates;
  bool ok = p.Value(out, 0);
  if (ok) { p.Ws(); if (p.p != s.size()) ok = p.Fail("data after the value"); }
  if (error) *error = p.err;
  return ok;
}

}  // namespace ref
