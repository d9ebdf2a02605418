#include "controls.hh"

#include <time.h>

#include <atomic>
#include <mutex>
#include <string.h>
#include <vector>

namespace ctl {
const char* const kName[kCount] = {"unprotected static buffer", "static constant made on first use", "lock around each half", "lock around everything", "atomic load and store", "atomic addition",
  "two locks in different orders", "double-checked flag", "call_once", "static tm of localtime", "static string", "own objects only", "flag before the data"};
const char* const kExpect[kCount] = {"race", "", "result", "", "result", "", "deadlock", "race", "", "race", "race", "", "race"};

static char buffer[16];
static std::mutex m1, m2;
static int value = 0;
static std::atomic<int> count{0};
static bool ready = false;
static int table = 0;
static std::atomic<bool> published{false};
static std::once_flag once;
static std::string text;

std::string Run(int p, int t) {
  switch (p) {
    case 0: { for (int i = 0; i < 4; ++i) buffer[i] = char('a' + t); return std::string(buffer, 4) == std::string(4, char('a' + t)) ? "ok" : "mixed"; }
    case 1: { static const std::vector<int> v = {1, 2, 3}; int s = 0; for (int i : v) s += i; return std::to_string(s); }
    case 2: { m1.lock(); value = t + 5; m1.unlock(); m1.lock(); int r = value; m1.unlock(); return r == t + 5 ? "ok" : "mixed"; }
    case 3: { std::lock_guard<std::mutex> l(m1); value = t + 5; return value == t + 5 ? "ok" : "mixed"; }
    case 4: { count.store(t + 5); return count.load() == t + 5 ? "ok" : "mixed"; }
    case 5: { count.fetch_add(1); return "ok"; }
    case 6: { std::mutex& a = t ? m2 : m1; std::mutex& b = t ? m1 : m2; a.lock(); b.lock(); b.unlock(); a.unlock(); return "ok"; }
    case 7: { if (!ready) { std::lock_guard<std::mutex> l(m1); if (!ready) { table = 7; ready = true; } } return table == 7 ? "ok" : "mixed"; }
    case 8: { std::call_once(once, [] { table = 7; }); return table == 7 ? "ok" : "mixed"; }
    case 9: { time_t x = t * 86400; struct tm* b = localtime(&x); return b->tm_yday == t ? "ok" : "mixed"; }
    case 10: { text.assign(40, char('a' + t)); return text == std::string(40, char('a' + t)) ? "ok" : "mixed"; }
    case 11: { std::string s(40, char('a' + t)); std::vector<int> v(10, t); return s + std::to_string(v[3]) == s + std::to_string(t) ? "ok" : "mixed"; }
    default: { if (t == 0) { published.store(true); table = 7; return "ok"; } return published.load() ? (table == 7 || table == 0 ? "ok" : "mixed") : "ok"; }
  }
}
}
