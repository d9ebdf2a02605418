// The databases of the repository's test data, which KeePass itself wrote, with the keys that open them.
#pragma once
#include <dirent.h>
#include "ref.hh"

namespace mc {

struct Fixture { str name, data; ref::KeySpec key; };

inline std::vector<Fixture> Fixtures(const str& kind) {
  const char* repo = getenv("VERIF_REPO");
  str dir = str(repo ? repo : "/repo") + "/test/data/" + kind + "/";
  std::vector<str> names;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) names.push_back(e->d_name);
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  std::vector<Fixture> r;
  for (auto& n : names) {
    size_t dot = n.find('.');
    if (dot == str::npos || n.substr(dot + 1) != kind) continue;
    Fixture f;
    f.name = n; f.data = ReadFile(dir + n);
    f.key.has_pw = n.find("pw") != str::npos;
    str kf = ReadFile(dir + n.substr(0, dot) + ".key");
    if (!kf.empty()) {
      f.key.has_kf = true;
      ref::Node doc; str e;
      if (kf.size() == 64) {
        for (size_t i = 0; i < 64; i += 2) f.key.kf += char(strtol(kf.substr(i, 2).c_str(), nullptr, 16));
      } else if (ref::ParseXml(kf, &doc, &e) && doc.child("Key") && doc.child("Key")->child("Data")) {
        ref::UnBase64(doc.child("Key")->child("Data")->text, &f.key.kf);
      }
      if (f.key.kf.size() != 32) continue;
    }
    r.push_back(f);
  }
  return r;
}

}  // namespace mc
