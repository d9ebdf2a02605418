// C07: a damaged KDB file is never imported as a different database.
#include "faults.hh"
#include "kdb.hh"
#include "ref.hh"

using namespace mc;

void mc::Register(Check& c) {
  c.property = "C07";
  c.level = "fault_enumeration";
  c.rule = "Files (AES and Twofish, small, with all fields, groups only, empty) under every single bit flip, every byte value of an alphabet at every position (all values in the "
           "header), every truncation, appended suffixes, removal, doubling and insertion of runs at every position, all swaps and copies of cipher blocks, all pairs of bit flips in the header, every changed header with damage to every cipher block "
           "and all combinations of flags, counts and version in the header; the real importer must throw or give exactly the original";
  c.assumptions = {"files that ask for more than 2^20 transform rounds after the damage are left out (time only)"};
  struct Base { str name; std::shared_ptr<str> file; std::shared_ptr<Flat> want; uint32_t ng, ne; };
  for (int k = 0; k < 10; ++k) {
    MDb m = k / 2 == 1 ? RichKdb() : SmallDb();
    m.twofish = k & 1;
    m.rounds = 2;
    if (k / 2 == 2) { m.root.groups.resize(1); m.root.groups[0].groups.clear(); m.root.groups[0].entries.clear(); }
    if (k / 2 == 3) m.root.groups.clear();
    m.root.entries.clear();
    if (k / 2 == 4) m.root.groups[0].entries[0].notes = MStr(str(120, 'n'));
    if (!KdbRepresentable(m)) { fprintf(stderr, "harness: base not representable\n"); exit(97); }
    Base b;
    b.name = str(k & 1 ? "Twofish" : "AES") + (k / 2 == 0 ? "" : k / 2 == 1 ? ", all fields" : k / 2 == 2 ? ", one group" : k / 2 == 3 ? ", empty" : ", long text");
    Built built = Build(m);
    Outcome ex = ExportKdb(scratch + "/base", *built.db, ref::LibKey(ref::KeySpec()));
    if (!ex.ok) { c.Broken("base " + Num(uint64_t(k)), "the export fails: " + ex.what); continue; }
    b.file = std::make_shared<str>(ReadFile(scratch + "/base"));
    // The reference, not the importer under test, says what the file holds.
    auto norm = [](MDb d) { for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); };
    b.want = std::make_shared<Flat>(norm(ExpectKdb(m)));
    b.ng = uint32_t(Preorder(m.root).size() - 1);
    std::vector<MEntry*> es; AllEntries(m.root, es);
    b.ne = uint32_t(es.size());
    FileRun run = [=](const str& f, Ctx& ctx) {
      if (KdbRounds(f) > kMostRounds) return false;
      WriteFile(scratch + "/d.kdb", f);
      Outcome im = ImportKdb(scratch + "/d.kdb", ref::LibKey(ref::KeySpec()));
      ctx.Trans(); ctx.Trace();
      ctx.State(im.ok ? "imported" : im.kind + im.what);
      if (!im.ok) { ctx.Nontrivial(); return true; }
      str d = Diff(*b.want, norm(Extract(*im.db)));
      if (!d.empty()) ctx.Fail("damage gives another database: " + d);
      return true;
    };
    c.Add("undamaged " + b.name, 1, [=](uint64_t, Ctx& ctx) { run(*b.file, ctx); if (ctx.message.empty() && !ImportKdb(scratch + "/d.kdb", ref::LibKey(ref::KeySpec())).ok) ctx.Fail("the undamaged file is refused"); });
    if (k / 2 == 4 || !Quick()) {
      // Also with all combinations of the flags' low bits.
      std::vector<str> hs;
      for (uint32_t fl = 0; fl < 256; ++fl) for (uint32_t high : {0u, 0xffffff00u}) { str h = b.file->substr(0, 124); h.replace(8, 4, ref::Le32(fl | high)); hs.push_back(h); }
      AddHeaderAndContent(c, "header and content, " + b.name, b.file, 124, hs, 1, run);
      if (k / 2 == 4) continue;
    }
    AddBytes(c, "header bytes, " + b.name, b.file, 0, 124, AllByteValues(), run);
    AddBytes(c, "content bits, " + b.name, b.file, 124, b.file->size(), Quick() ? Bits() : AllByteValues(), run);
    AddBytes(c, "content bytes, " + b.name, b.file, 124, b.file->size(), SomeByteValues(), run);
    AddTruncations(c, "truncations, " + b.name, b.file, run);
    AddSuffixes(c, "suffixes, " + b.name, b.file, run);
    AddRuns(c, "runs, " + b.name, b.file, Quick() ? std::vector<int>{1, 16} : std::vector<int>{1, 2, 3, 4, 8, 15, 16, 17, 32, 48, 64}, run);
    AddBlockMoves(c, "cipher blocks, " + b.name, b.file, 124, run);
    std::vector<size_t> at;
    for (size_t p = 0; p < 124; ++p) if (!Quick() || (p >= 8 && p < 16) || (p >= 48 && p < 58) || p == 0 || p == 4) at.push_back(p);
    if (k < 2 || !Quick()) AddBitPairs(c, "pairs of header bits, " + b.name, b.file, at, run);
    // All small counts with all flags.
    uint32_t top = 12;
    static const uint32_t flags[] = {0, 1, 2, 3, 4, 8, 9, 10, 11, 0x80000002u, 0x80000008u};
    c.Add("counts and flags, " + b.name, (top + 3) * (top + 3) * 11, [=](uint64_t i, Ctx& ctx) {
      uint32_t fl = flags[Take(i, 11)];
      auto count = [&](uint32_t v, uint32_t real) { return v <= top ? v : v == top + 1 ? 0xffffffffu : 0x10000u + real; };
      uint32_t g = count(uint32_t(Take(i, top + 3)), b.ng), e = count(uint32_t(i), b.ne);
      str f = *b.file;
      f.replace(8, 4, ref::Le32(fl)); f.replace(48, 4, ref::Le32(g)); f.replace(52, 4, ref::Le32(e));
      run(f, ctx);
    });
    // Header fields copied over each other.
    static const size_t part[][2] = {{16, 16}, {32, 16}, {56, 16}, {72, 16}, {88, 16}, {104, 16}};
    c.Add("header fields, " + b.name, 6 * 6, [=](uint64_t i, Ctx& ctx) {
      size_t x = size_t(Take(i, 6)), y = size_t(i);
      if (x == y) return;
      str f = *b.file;
      f.replace(part[x][0], 16, b.file->substr(part[y][0], 16));
      if (f != *b.file) run(f, ctx);
    });
  }
}
