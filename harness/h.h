// common part of the replay harnesses: seeded generator, failure report
#ifndef VERIF_H
#define VERIF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <exception>
#include <unistd.h>

namespace vh {
static uint64_t g_s;
static std::string g_prop, g_case;
static unsigned long g_cases = 0, g_distinct = 0;
static std::set<uint64_t> g_seen;
static bool g_thorough = false;
static std::vector<std::string> g_samples;
static FILE *g_out = stdout;

inline uint64_t rnd() { g_s += 0x9E3779B97F4A7C15ull; uint64_t z = g_s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline long ri(long lo, long hi) { return lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }
inline bool coin() { return rnd() & 1; }
inline double rd(double lo, double hi) { return lo + (hi - lo) * ((rnd() >> 11) * (1.0 / 9007199254740992.0)); }
inline std::string rs(const char *alpha, int lo, int hi) { int n = (int)ri(lo, hi); std::string r; size_t m = strlen(alpha); for (int i = 0; i < n; ++i) r += alpha[rnd() % m]; return r; }
template <class T> const T &pick(const std::vector<T> &v) { return v[rnd() % v.size()]; }

inline std::string q(const std::string &s) { std::string o = "\""; char b[8]; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i];
  if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }

// announce the case that is about to run
inline void begin(const std::string &d) {
  g_case = d; ++g_cases;
  uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < d.size(); ++i) h = (h ^ (unsigned char)d[i]) * 1099511628211ull;
  if (g_seen.size() < 2000000 && g_seen.insert(h).second) ++g_distinct;
  if (g_samples.size() < 3 || (g_cases % 997 == 0 && g_samples.size() < 6)) g_samples.push_back(d.substr(0, 300));
}
struct Case { std::ostringstream o; template <class T> Case &operator<<(const T &t) { o << t; return *this; } std::string str() const { return o.str(); } };
#define CASE(x) do { vh::Case c_; c_ << x; vh::begin(c_.str()); } while (0)

inline void fail(const std::string &why) {
  fprintf(g_out, "FAIL property=%s\ninput: %s\nobserved: %s\n", g_prop.c_str(), g_case.c_str(), why.c_str());
  fflush(g_out); _exit(1);
}
#define EXPECT(c, m) do { if (!(c)) { vh::Case c_; c_ << m << "   [" #c "]"; vh::fail(c_.str()); } } while (0)

inline bool known(const char *key) { const char *k = getenv("VERIF_KNOWN"); if (!k) return false; std::istringstream i(k); std::string l; while (std::getline(i, l)) if (l == key) return true; return false; }
// a recorded defect: reported as known when it is listed, as failure otherwise
#define EXPECT_KNOWN(key, c, m) do { if (!(c)) { if (vh::known(key)) fprintf(vh::g_out, "KNOWN %s\n", key); else { vh::Case c_; c_ << m << "   [" #c "]"; vh::fail(c_.str()); } } } while (0)
inline void on_death() { fprintf(g_out, "FAIL property=%s\ninput: %s\nobserved: undefined behaviour or crash (sanitizer report below)\n", g_prop.c_str(), g_case.c_str()); fflush(g_out); }
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HARNESS_MAIN(BODY) \
int main(int argc, char **argv) { \
  vh::g_prop = argc > 1 ? argv[1] : "?"; vh::g_s = argc > 2 ? strtoull(argv[2], 0, 10) : 1; vh::g_thorough = argc > 3 && !strcmp(argv[3], "thorough"); \
  vh::g_out = fdopen(dup(1), "w"); __sanitizer_set_death_callback(vh::on_death); \
  try { BODY(vh::g_prop); } catch (std::exception const &e) { vh::fail(std::string("unexpected exception: ") + e.what()); } catch (...) { vh::fail("unexpected exception"); } \
  fprintf(vh::g_out, "OK cases=%lu distinct=%lu\n", vh::g_cases, vh::g_distinct); \
  for (size_t i = 0; i < vh::g_samples.size(); ++i) fprintf(vh::g_out, "SAMPLE %s\n", vh::g_samples[i].c_str()); \
  fflush(vh::g_out); _exit(0); }
#endif
