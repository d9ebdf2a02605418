// C06: a damaged KDBX file is never imported as a different database.
#include "faults.hh"
#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

void mc::Register(Check& c) {
  c.property = "C06";
  c.level = "fault_enumeration";
  c.rule = "Files (uncompressed, compressed, of one and of many hashed blocks, made by the real exporter and by the reference encoder) under every single bit flip, every byte "
           "value of an alphabet at every position (all values in the header), every truncation, 320 appended suffixes, removal, doubling and insertion of runs at every position, "
           "all swaps and copies of cipher blocks, all pairs of bit flips in the structural header bytes; the real importer must throw or give exactly the original";
  c.assumptions = {"files that ask for more than 2^20 transform rounds after the damage are left out (time only)"};
  struct Base { str name; std::shared_ptr<str> file; std::shared_ptr<Flat> want; size_t content; };
  std::vector<Base> bases;
  for (int k = 0; k < 5; ++k) {
    MDb m = k == 4 ? RichDb() : SmallDb();
    m.compress = k & 1;
    m.rounds = 2;
    if (k < 4) { m.root.groups[0].entries[0].password = MStr("secret", true); m.root.groups[0].entries[0].url = MStr("plain"); }
    Base b;
    if (k < 2) {
      ref::KdbxOpt o; o.block_sizes = {100};
      b.file = std::make_shared<str>(ref::EncodeKdbx(m, ref::KeySpec(), o));
      b.name = k ? "compressed, small blocks" : "small blocks";
    } else {
      Built built = Build(m);
      entropy = [] { return 12345u; };                     // the same start bytes in every process
      Outcome ex = ExportKdbx(scratch + "/base", *built.db, ref::LibKey(ref::KeySpec()));
      entropy = nullptr;
      if (!ex.ok) { c.Broken("base " + Num(uint64_t(k)), "the export fails: " + ex.what); continue; }
      b.file = std::make_shared<str>(ReadFile(scratch + "/base"));
      b.name = k == 2 ? "exported" : k == 3 ? "exported, compressed" : "all fields";
    }
    b.want = std::make_shared<Flat>(Flatten(ExpectKdbx(m)));
    size_t p = 12;
    for (;;) { int id = (*b.file)[p]; p += 3 + (uint8_t((*b.file)[p + 1]) | uint8_t((*b.file)[p + 2]) << 8); if (id == 0) break; }
    b.content = p;
    bases.push_back(b);
  }
  for (size_t k = 0; k < bases.size(); ++k) {
    Base b = bases[k];
    FileRun run = [b](const str& f, Ctx& ctx) {
      if (KdbxRounds(f) > kMostRounds) return false;
      WriteFile(scratch + "/d.kdbx", f);
      Outcome im = ImportKdbx(scratch + "/d.kdbx", ref::LibKey(ref::KeySpec()));
      ctx.Trans(); ctx.Trace();
      ctx.State(im.ok ? "imported" : im.kind + im.what);
      if (!im.ok) { ctx.Nontrivial(); return true; }
      str d = Diff(*b.want, Flatten(Extract(*im.db)));
      if (!d.empty()) ctx.Fail("damage gives another database: " + d);
      return true;
    };
    c.Add("undamaged " + b.name, 1, [=](uint64_t, Ctx& ctx) {
      WriteFile(scratch + "/d.kdbx", *b.file);
      Outcome im = ImportKdbx(scratch + "/d.kdbx", ref::LibKey(ref::KeySpec()));
      if (!im.ok) return ctx.Fail("the undamaged file is refused: " + im.what);
      str d = Diff(*b.want, Flatten(Extract(*im.db)));
      if (!d.empty()) ctx.Fail("the undamaged file gives another database: " + d);
    });
    bool rich = k == 4;
    AddBytes(c, "bits of the header, " + b.name, b.file, 0, b.content, AllByteValues(), run);
    if (!rich || !Quick()) {
      AddBytes(c, "bits of the content, " + b.name, b.file, b.content, b.file->size(), Quick() ? Bits() : AllByteValues(), run);
      AddBytes(c, "bytes of the content, " + b.name, b.file, b.content, b.file->size(), SomeByteValues(), run);
      AddBlockMoves(c, "cipher blocks, " + b.name, b.file, b.content, run);
      AddRuns(c, "runs, " + b.name, b.file, Quick() ? std::vector<int>{1, 16} : std::vector<int>{1, 2, 3, 4, 8, 15, 16, 17, 32, 64, 160}, run);
    } else {
      AddBytes(c, "bits of the content, " + b.name, b.file, b.content, b.file->size(), {1000, 1007}, run);
    }
    AddTruncations(c, "truncations, " + b.name, b.file, run);
    AddSuffixes(c, "suffixes, " + b.name, b.file, run);
    std::vector<size_t> at = {4, 8, 9, 10, 11};            // version and the structure of the fields
    size_t p = 12;
    while (p < b.content) { size_t n = uint8_t((*b.file)[p + 1]) | uint8_t((*b.file)[p + 2]) << 8; at.push_back(p); at.push_back(p + 1); if (!Quick()) at.push_back(p + 2); if (n == 4) at.push_back(p + 3); if (n >= 8 && !Quick()) at.push_back(p + 3 + 7); p += 3 + n; }
    if (k == 2 || !Quick()) AddBitPairs(c, "pairs of header bits, " + b.name, b.file, at, run);
    // Header fields removed, doubled, swapped.
    auto fields = std::make_shared<std::vector<str>>();
    for (p = 12; p < b.content;) { size_t n = 3 + (uint8_t((*b.file)[p + 1]) | uint8_t((*b.file)[p + 2]) << 8); fields->push_back(b.file->substr(p, n)); p += n; }
    size_t nf = fields->size();
    if (k >= 2 && (k < 4 || !Quick())) {
      std::vector<str> hs;
      for (size_t x = 0; x < nf; ++x) for (int how = 0; how < 3; ++how) {
        str h = b.file->substr(0, 12);
        for (size_t y = 0; y < nf; ++y) { str fd = (*fields)[y]; if (y == x) { if (how == 0) continue; if (how == 1) fd = fd.substr(0, 1) + str(2, 0); else fd += fd; } h += fd; }
        hs.push_back(h);
      }
      AddHeaderAndContent(c, "header and content, " + b.name, b.file, b.content, hs, Quick() ? 5 : 1, run);
    }
    c.Add("header fields, " + b.name, nf * nf * 4, [=](uint64_t i, Ctx& ctx) {
      int kind = int(Take(i, 4)); size_t x = size_t(Take(i, nf)), y = size_t(i);
      std::vector<str> f = *fields;
      if (kind == 0) { if (x == y) f.erase(f.begin() + x); else std::swap(f[x], f[y]); }
      else if (kind == 1) { if (x == y) return; f.insert(f.begin() + y, f[x]); }
      else if (kind == 2) { if (x == y) return; f[x] = f[y]; }
      else { if (x == y) return; str old = f[x]; f[x].replace(3, str::npos, f[y].substr(3)); f[x][1] = f[y][1]; f[x][2] = f[y][2]; if (f[x] == old) return; }
      str g = b.file->substr(0, 12);
      for (auto& s : f) g += s;
      if (g + b.file->substr(b.content) == *b.file) return;
      run(g + b.file->substr(b.content), ctx);
    });
  }
  // A file of several default sized blocks, damaged around all their boundaries.
  struct Large { std::shared_ptr<str> file; Flat want; };
  static Large large;
  auto make = [] {
    if (large.file) return;
    MDb m = SmallDb();
    m.root.notes = str(2400000, 'n');
    m.root.groups[0].entries[0].title = MStr("end");
    ref::KdbxOpt o; o.block_sizes = {1 << 20};
    large.file = std::make_shared<str>(ref::EncodeKdbx(m, ref::KeySpec(), o));
    large.want = Flatten(ExpectKdbx(m));
  };
  c.Add("large file", Quick() ? 64 : 600, [=](uint64_t i, Ctx& ctx) {
    make();
    uint64_t n = Quick() ? 64 : 600;
    size_t size = large.file->size();
    size_t at = i % 2 ? size_t(double(size - 1) * double(i) / double(n - 1)) : size_t((i / 8 % 4) * (1048576 + 40) + 150 + (i / 2 % 4) * 24 + i / 32 * 16) % size;
    str f = *large.file;
    if (i % 4 < 2) f[at] ^= 1; else f.resize(at / 16 * 16 + (i % 8 == 7 ? 0 : 4));
    WriteFile(scratch + "/d.kdbx", f);
    Outcome im = ImportKdbx(scratch + "/d.kdbx", ref::LibKey(ref::KeySpec()));
    ctx.Trans(); ctx.Trace(); ctx.State(im.ok ? "imported" : im.kind + im.what);
    if (!im.ok) { ctx.Nontrivial(); return; }
    str d = Diff(large.want, Flatten(Extract(*im.db)));
    if (!d.empty()) ctx.Fail("damage at " + Num(at) + " gives another database: " + d.substr(0, 300));
  }, nullptr, 60, 8);
}
