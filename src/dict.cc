// Words and numbers that the sources of the code under test mention: values at which its behaviour may change.
#include <dirent.h>

#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <set>

#include "model.hh"

namespace mc {

namespace {
struct Dict { std::vector<str> words; std::vector<uint64_t> numbers; };

void Scan(const str& s, bool numbers_too, std::set<str>& words, std::set<uint64_t>& numbers) {
  size_t n = s.size();
  for (size_t i = 0; i < n;) {
    char c = s[i];
    if (c == '/' && i + 1 < n && s[i + 1] == '/') { while (i < n && s[i] != '\n') ++i; continue; }
    if (c == '/' && i + 1 < n && s[i + 1] == '*') { i = s.find("*/", i + 2); i = i == str::npos ? n : i + 2; continue; }
    if (c == '#') { if (s.compare(i, 8, "#include") == 0) { while (i < n && s[i] != '\n') ++i; continue; } ++i; continue; }
    if (c == '"' || c == '\'') {
      str w;
      size_t j = i + 1;
      for (; j < n && s[j] != c && s[j] != '\n'; ++j) {
        if (s[j] != '\\') { w += s[j]; continue; }
        char e = s[++j];
        if (e == 'n') w += '\n'; else if (e == 'r') w += '\r'; else if (e == 't') w += '\t';
        else if (e == 'x') { int v = 0; while (j + 1 < n && isxdigit(s[j + 1])) v = v * 16 + (isdigit(s[j + 1]) ? s[j + 1] - '0' : (s[j + 1] | 32) - 'a' + 10), ++j; w += char(v); }
        else if (e >= '0' && e <= '7') { int v = e - '0'; while (j + 1 < n && s[j + 1] >= '0' && s[j + 1] <= '7') v = v * 8 + s[++j] - '0'; w += char(v); }
        else w += e;
      }
      if (c == '"') words.insert(w); else if (w.size() == 1) words.insert(w);
      i = j + 1;
      continue;
    }
    if (isalpha(c) || c == '_') { while (i < n && (isalnum(s[i]) || s[i] == '_')) ++i; continue; }
    if (isdigit(c)) {
      char* end;
      uint64_t v = strtoull(s.c_str() + i, &end, 0);
      if (numbers_too) numbers.insert(v);
      while (i < n && (isalnum(s[i]) || s[i] == '.' || s[i] == '_')) ++i;
      continue;
    }
    ++i;
  }
}

const Dict& Get() {
  static const Dict dict = [] {
    Dict d;
    const char* repo = getenv("VERIF_REPO");
    str dir = str(repo && *repo ? repo : "/repo") + "/src";
    std::set<str> words;
    std::set<uint64_t> numbers;
    std::vector<str> files;
    if (DIR* h = opendir(dir.c_str())) {
      while (dirent* e = readdir(h)) { str f = e->d_name; if (f.size() > 3 && f.find("pugi") == str::npos && (f.rfind(".cc") == f.size() - 3 || f.rfind(".hh") == f.size() - 3)) files.push_back(f); }
      closedir(h);
    }
    std::sort(files.begin(), files.end());
    for (auto& f : files) Scan(ReadFile(dir + "/" + f), true, words, numbers);
    for (auto& w : words) if (w.find('\0') == str::npos) d.words.push_back(w);
    d.numbers.assign(numbers.begin(), numbers.end());
    return d;
  }();
  return dict;
}
}  // namespace

const std::vector<str>& SourceWords() { return Get().words; }
std::vector<uint64_t> SourceNumbers(uint64_t max) {
  std::set<uint64_t> r;
  for (uint64_t v : Get().numbers) for (uint64_t x : {v - 1, v, v + 1, v * 2}) if (x <= max && !(v == 0 && x == v - 1)) r.insert(x);
  return std::vector<uint64_t>(r.begin(), r.end());
}

}  // namespace mc
