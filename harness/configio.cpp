// C06: configuration files against an interpreter of the documented format; C07: write, read back, write again
#include "h.h"
#include <cerrno>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
using namespace kwiver::vital;
using vh::q;
typedef std::string S;
typedef std::vector<S> V;
static S dir;                                  // scratch directory of this run
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static S trim(const S &s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
static bool let(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool inner(char c) { return let(c) || dig(c) || strchr("-.:/_", c) != 0; }
static S dirname(const S &f) { size_t i = f.rfind('/'); return i == S::npos ? "." : i == 0 ? "/" : f.substr(0, i); }
static bool is_file(const S &p) { struct stat s; return stat(p.c_str(), &s) == 0 && !S_ISDIR(s.st_mode); }
static bool is_dir(const S &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static void put(const S &p, const S &t) { std::ofstream f(p.c_str(), std::ios::binary); f << t; }
static bool slurp(const S &p, S &t) { std::ifstream f(p.c_str(), std::ios::binary); if (!f) return false; std::ostringstream o; o << f.rdbuf(); t = o.str(); return true; }

// ---------------------------------------------------------------- the format
enum Out { FINE, MALFORMED, MISSING, READONLY, ANYERROR, UNSPECIFIED };
struct Entry { S val, file; int line; bool ro; };
struct Stop { Out o; };
struct Interp {
  std::map<S, Entry> e; std::map<S, S> sym; V ctx, search, files; bool bad; int depth;
  Interp() : bad(false), depth(0) { }
  static size_t word(const S &s) { if (s.empty() || !let(s[0])) return 0; size_t n = 1; while (n < s.size() && inner(s[n])) ++n; while (n > 1 && s[n - 1] == ':') --n; return n; }
  static size_t flag(const S &s) { if (s.size() < 3 || s[0] != '[') return 0; size_t n = 1; while (n < s.size() && (let(s[n]) || s[n] == ',')) ++n; return n > 1 && n < s.size() && s[n] == ']' ? n + 1 : 0; }
  S expand(const S &t) {
    S r; size_t i = 0;
    while (i < t.size()) {
      if (t[i] == '$') {
        size_t a = i + 1, b = a; while (b < t.size() && (let(t[b]) || (b > a && (dig(t[b]) || t[b] == '_')))) ++b;
        if (b > a && b < t.size() && t[b] == '{') {
          size_t c = b + 1; while (c < t.size() && (let(t[c]) || dig(t[c]) || t[c] == '.' || t[c] == '_' || t[c] == ':')) ++c;
          S ty = t.substr(a, b - a), nm = t.substr(b + 1, c - b - 1);
          if (c < t.size() && t[c] == '}' && (ty == "LOCAL" || ty == "ENV" || ty == "CONFIG" || ty == "SYSENV")) {
            if (ty == "LOCAL" && sym.count(nm)) r += sym[nm];
            if (ty == "CONFIG" && e.count(nm)) r += e[nm].val;
            if (ty == "ENV" && getenv(nm.c_str())) r += getenv(nm.c_str());
            if (ty == "SYSENV" && nm == "islinux") r += "TRUE";
            i = c + 1; continue; } } }
      r += t[i++]; }
    return r; }
  S prefix() const { S p; for (size_t i = 0; i < ctx.size(); ++i) p += ctx[i] + ":"; return p; }
  void stop(Out o) { throw Stop{bad ? ANYERROR : o}; }
  S find(const S &n) {
    if (!n.empty() && (n[0] == '/' || n[0] == '~')) return n;
    V ds = search; for (size_t i = files.size(); i--;) ds.push_back(dirname(files[i]));
    for (size_t i = 0; i < ds.size(); ++i) { S p = ds[i] + "/" + n; struct stat st; if (stat(p.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) return ""; char *rp = realpath(p.c_str(), 0); S r = rp ? rp : p; free(rp); return r; } }
    return ""; }
  void file(const S &path) {
    S text; if (!is_file(path) || !slurp(path, text)) stop(MISSING);
    if (++depth > 30) throw Stop{ANYERROR};
    files.push_back(path);
    std::istringstream in(text); S line; int no = 0; bool halfline = false;
    while (std::getline(in, line)) {
      ++no; line = trim(line); size_t h = line.find('#'); if (h != S::npos) line = trim(line.substr(0, h));
      if (line.empty()) continue;
      if (halfline) { if (line[0] == '=' || line[0] == '[' || line[0] == ':') stop(UNSPECIFIED); bad = true; halfline = false; continue; }
      size_t n = word(line); if (!n) { bad = true; continue; }
      S w = line.substr(0, n), rest = trim(line.substr(n));
      if (w == "include") { S name = expand(rest), p = find(name); if (p.empty() || !is_file(p)) stop(MISSING); file(p); continue; }
      if (w == "block") { if (rest.empty()) stop(UNSPECIFIED); size_t m = word(rest); if (!m) { bad = true; continue; } ctx.push_back(rest.substr(0, m)); continue; }
      if (w == "endblock") { if (ctx.empty()) stop(MALFORMED); ctx.pop_back(); continue; }
      bool rel = false;
      if (w == "relativepath") { rel = true; if (rest.empty()) stop(UNSPECIFIED); n = word(rest); if (!n) { bad = true; continue; } w = rest.substr(0, n); rest = trim(rest.substr(n)); }
      bool ro = false;
      while (size_t f = flag(rest)) { S u = rest.substr(0, f); for (size_t i = 0; i < u.size(); ++i) if (u[i] >= 'a' && u[i] <= 'z') u[i] -= 32; if (u == "[RO]") ro = true; else bad = true; rest = trim(rest.substr(f)); }
      if (rest.empty()) { halfline = true; continue; }
      if (rest.compare(0, 2, ":=") == 0) { sym[w] = expand(trim(rest.substr(2))); continue; }
      if (rest[0] != '=') { bad = true; continue; }
      S val = expand(trim(rest.substr(1))); if (rel) val = dirname(path) + "/" + val;
      S key = prefix() + w; if (e.count(key) && e[key].ro) stop(READONLY);
      Entry &x = e[key]; x.val = trim(val); x.file = path; x.line = no; if (ro) x.ro = true; }
    if (halfline) bad = true;
    files.pop_back(); --depth;
    if (files.empty()) { if (!ctx.empty()) bad = true; if (bad) throw Stop{MALFORMED}; } }
};

// ---------------------------------------------------------------- files
static const char *names[] = { "main.conf", "a.conf", "sub/b.conf", "sub/c.conf", "b.conf", "alt/a.conf", "alt/d.conf" };
static V lines;
static S key() { static const char *k[] = { "a", "ab", "abc", "foo", "foo:bar", "x.y", "a/b", "key-1", "Block", "include2", "blocks", "a:b:c", "value", "mode", "A", "z9" }; return vh::ri(0, 9) ? k[vh::ri(0, 15)] : vh::rs("abz", 1, 1) + vh::rs("ab:._-/0", 0, 4) + vh::rs("abz09", 0, 1); }
static S sp() { static const char *k[] = { "", "", " ", " ", "  ", "\t" }; return k[vh::ri(0, 5)]; }
static S value() {
  S r; int n = vh::ri(0, 4);
  for (int i = 0; i < n; ++i) switch (vh::ri(0, 9)) {
    case 0: r += "$LOCAL{" + key() + "}"; break;
    case 1: r += "$CONFIG{" + key() + "}"; break;
    case 2: r += vh::coin() ? "$ENV{VERIF_ENV_A}" : "$ENV{VERIF_ENV_NONE}"; break;
    case 3: r += vh::rs("$a{} =:[]", 1, 3); break;
    case 4: r += " "; break;
    case 5: r += vh::coin() ? "= x" : "\"quoted text\""; break;
    default: r += vh::rs("abc 12", 1, 6); }
  return r; }
static S entry() { return key() + (vh::ri(0, 9) == 0 ? (vh::coin() ? "[RO]" : " [ro]") : "") + sp() + (vh::ri(0, 4) == 0 ? ":=" : "=") + sp() + value(); }
static S junk() {
  static const char *k[] = { "= v", ":= v", "9key = 1", "foo bar = 1", "just some words", "[RO] = x", "key[XX] = v", "key[RO = v", "key:", "block", "block 9", "block = x", "endblock", "relativepath", "relativepath = x", "include nowhere.conf", "include", "key", "= block", "= include", "= endblock", "key = [RO", ": = v", "-key = v", "key == v", "key := = v", "_k = v", "include sub", "k[RO][RO] = v", "k[RO][TT] = v", ":= endblock", "= relativepath" };
  return k[vh::ri(0, 31)]; }
static S genfile(int which, bool clean) {
  S r; int n = vh::ri(0, which ? 4 : 9), open = 0;
  for (int i = 0; i < n; ++i) {
    S l;
    int k = vh::ri(0, 19);
    if (k < 9) l = entry();
    else if (k == 9) l = "relativepath " + key() + " =" + sp() + (vh::coin() ? "../data/x.dat" : value());
    else if (k == 10 || k == 11) { l = "block" + S(vh::ri(1, 2), ' ') + key(); ++open; }
    else if (k == 12) { if (open || !clean) { l = "endblock"; --open; } }
    else if (k == 13 && which < 3) { static const char *inc[] = { "a.conf", "sub/b.conf", "b.conf", "c.conf", "d.conf", "$LOCAL{mode}.conf", "$ENV{VERIF_ENV_A}" }; l = "include " + (vh::ri(0, 5) == 0 ? dir + "/" : S()) + inc[clean ? vh::ri(0, 1) : vh::ri(0, 6)]; }
    else if (k == 14) l = "";
    else if (k == 15) l = "# comment = x";
    else if (k == 16 && !clean && vh::ri(0, 2) == 0) l = junk();
    else l = key() + " = " + value();
    if (vh::ri(0, 5) == 0) l = sp() + l;
    if (vh::ri(0, 7) == 0) l += " # comment";
    if (vh::ri(0, 9) == 0) l += vh::coin() ? "\r" : "  ";
    r += l + "\n";
  }
  for (; open > 0 && (clean || vh::ri(0, 9)); --open) r += "endblock\n";
  if (!r.empty() && vh::ri(0, 4) == 0) r.erase(r.size() - 1);
  return r; }
static const char *outn[] = { "an error-free result", "a parse error", "a file-not-found error", "a read-only error", "an error", "?" };

static void parse() {
  bool clean = vh::coin(); S shown;
  for (int i = 0; i < 7; ++i) { S p = dir + "/" + names[i]; unlink(p.c_str()); if (i == 0 || i == 1 || vh::ri(0, 3)) { S t = genfile(i, clean); put(p, t); shown += S(names[i]) + ": " + q(t) + " "; } }
  V search; if (vh::coin()) search.push_back(dir + "/alt"); if (vh::ri(0, 3) == 0) search.push_back(dir + "/sub");
  S path = dir + "/main.conf";
  int how = vh::ri(0, 7);
  if (how == 0) path = "main.conf"; else if (how == 1) path = "./main.conf"; else if (how == 2) path = "sub/../main.conf";
  CASE("read " << path << " search path of " << search.size() << " directories, files " << shown);
  Interp I; I.search = search; Out want = FINE;
  try { I.file(path); } catch (Stop &s) { want = s.o; }
  if (want == UNSPECIFIED) return;
  config_block_sptr c; Out got = FINE; S what;
  try { c = read_config_file(path, search); }
  catch (config_file_not_parsed_exception &x) { got = MALFORMED; what = x.what(); }
  catch (config_file_not_found_exception &x) { got = MISSING; what = x.what(); }
  catch (set_on_read_only_value_exception &x) { got = READONLY; what = x.what(); }
  EXPECT(got == want || (want == ANYERROR && got != FINE), "reading gave " << outn[got] << " (" << what << ") instead of " << outn[want]);
  if (got == MALFORMED) EXPECT(what.find(".conf") != S::npos, "the error does not name the file: " << what);
  if (got != FINE) return;
  V ks = c->available_values();
  EXPECT(ks.size() == I.e.size(), "there are " << ks.size() << " entries instead of " << I.e.size());
  for (std::map<S, Entry>::iterator i = I.e.begin(); i != I.e.end(); ++i) {
    S v, f; int l = -1;
    EXPECT(c->has_value(i->first), "no entry " << q(i->first));
    v = c->get_value<S>(i->first); EXPECT(v == i->second.val, "entry " << q(i->first) << " is " << q(v) << " instead of " << q(i->second.val));
    EXPECT(c->is_read_only(i->first) == i->second.ro, "entry " << q(i->first) << " read-only: " << !i->second.ro);
    EXPECT(c->get_location(i->first, f, l) && f == i->second.file && l == i->second.line, "entry " << q(i->first) << " located at " << f << ":" << l << " instead of " << i->second.file << ":" << i->second.line);
  }
}
static void missing() {
  S p = dir + (vh::coin() ? "/none.conf" : vh::coin() ? "" : "/sub"); CASE("read " << p); bool t = false;
  try { read_config_file(p); } catch (config_file_not_found_exception &) { t = true; } EXPECT(t, "no file-not-found error");
}
// every file found on the search path, the first one first; merged ones below it
static void located() {
  put(dir + "/alt/e.conf", ""); V where; S shown; std::map<S, S> want; bool found = false, merge = vh::coin(), bad = false; S ver = vh::coin() ? "1.0" : "";
  static const char *ds[] = { "p1", "p2", "p3" }; S env;
  for (int i = 0; i < 3; ++i) {
    S p = dir + "/" + ds[i] + "/e.conf"; unlink(p.c_str()); env += (i ? ":" : "") + dir + "/" + ds[i];
    if (vh::coin()) { S t; std::map<S, S> here; int n = vh::ri(0, 3); for (int k = 0; k < n; ++k) { S ky = "key" + vh::rs("123", 1, 1), vl = vh::rs("abc", 1, 3); t += ky + " = " + vl + "\n"; here[ky] = vl; }
      put(p, t); shown += S(ds[i]) + ": " + q(t) + " "; if (!found || merge) for (auto const &x : here) want.insert(x); found = true; } }
  setenv("KWIVER_CONFIG_PATH", env.c_str(), 1);
  CASE("search for e.conf " << (merge ? "merging " : "") << shown);
  config_block_sptr c; try { c = read_config_file("e.conf", "verif_app", ver, "", merge); } catch (config_file_not_found_exception &) { bad = true; }
  unsetenv("KWIVER_CONFIG_PATH");
  EXPECT(bad == !found, "file found: " << !bad << " expected " << found); if (bad) return;
  V ks = c->available_values(); EXPECT(ks.size() == want.size(), "there are " << ks.size() << " entries instead of " << want.size());
  for (auto const &x : want) EXPECT(c->has_value(x.first) && c->get_value<S>(x.first) == x.second, "entry " << x.first << " is not " << x.second);
}

// ---------------------------------------------------------------- writing
static S text(const char *al, int n) { return vh::rs(al, 0, n); }
static S descr() {
  S r; int n = vh::ri(0, 6);
  for (int i = 0; i < n; ++i) switch (vh::ri(0, 7)) { case 0: r += "\n"; break; case 1: r += S(vh::ri(1, 4), ' '); break; case 2: r += vh::rs("abcdefgh", 60, 120); break; case 3: r += "# x = y"; break; case 4: r += "\nkey = evil"; break; case 5: { int m = vh::ri(5, 30); for (int k = 0; k < m; ++k) r += vh::rs("abc.", 1, 12) + " "; break; } default: r += vh::rs("abc =#\n\t$", 1, 12); }
  return r; }
static S wkey() { for (;;) { S k = vh::rs("abczA", 1, 1) + vh::rs("ab:._-/09", 0, 5) + vh::rs("abz09", 0, 1); if (k[k.size() - 1] != ':' && k != "include" && k != "block" && k != "endblock" && k != "relativepath") return k; } }
static S wvalue() { return trim(vh::ri(0, 4) == 0 ? vh::rs("a\t\"'=[]:,;%&\x80\xff", 0, 8) : vh::ri(0, 3) == 0 ? S(vh::coin() ? "include x" : "= v") : vh::rs("abc 123=:", 0, 10)); }
static void roundtrip() {
  config_block_sptr c = config_block::empty_config(vh::coin() ? "" : "blk"); std::map<S, S> want; S shown; int n = vh::ri(1, 6);
  bool plain = vh::coin();
  for (int i = 0; i < n; ++i) { S k = wkey(), v = wvalue(), d = vh::coin() ? S() : plain ? trim(vh::rs("abc d", 1, 200)) : descr(); c->set_value(k, v, d); want[k] = v; shown += k + "=" + q(v) + (d.empty() ? S() : " described " + q(d)) + " ";
    if (vh::ri(0, 3) == 0) c->set_location(k, std::shared_ptr<S>(new S(vh::coin() ? "file" : "some file = #x")), vh::ri(0, 99)); if (vh::ri(0, 9) == 0 && !c->is_read_only(k)) { } }
  S path = dir + (vh::ri(0, 3) ? "/out.conf" : "/new/deep/out.conf"); S path2 = dir + "/out2.conf"; if (vh::ri(0, 5) == 0) path = "out.conf";
  CASE("write " << path << " entries " << shown);
  if (vh::coin()) put(dir + "/out.conf", "old = content\nolder = content which is a good deal longer than what comes\n");
  write_config_file(c, path);
  config_block_sptr r = read_config_file(path);
  V ks = r->available_values(); S t; slurp(path, t);
  EXPECT(ks.size() == want.size(), "read back " << ks.size() << " entries instead of " << want.size() << " from " << q(t));
  for (auto const &x : want) { EXPECT(r->has_value(x.first), "entry " << q(x.first) << " is lost"); S v = r->get_value<S>(x.first); EXPECT(v == x.second, "entry " << q(x.first) << " read back as " << q(v) << " instead of " << q(x.second)); }
  V src = c->available_values(); EXPECT(src.size() == want.size(), "writing changed the block");
  std::ostringstream o; write_config(c, o); EXPECT(o.str() == t, "write_config writes " << q(o.str()) << " and write_config_file " << q(t));
  write_config_file(r, path2); config_block_sptr r2 = read_config_file(path2);
  EXPECT(r2->available_values().size() == want.size(), "the second copy has " << r2->available_values().size() << " entries");
  for (auto const &x : want) EXPECT(r2->has_value(x.first) && r2->get_value<S>(x.first) == x.second, "entry " << q(x.first) << " differs in the second copy");
  if (path.find("/new/") != S::npos) { unlink(path.c_str()); rmdir((dir + "/new/deep").c_str()); rmdir((dir + "/new").c_str()); }
}
static void refuse() {
  int k = vh::ri(0, 5); S path = dir + "/w.conf", old; unlink(path.c_str()); config_block_sptr c = config_block::empty_config();
  if (k) c->set_value("key", S("value"));
  bool was = vh::coin();
  if (k == 0 && was) put(path, "kept = 1\n");
  if (k == 1) path = dir + "/sub"; else if (k == 2) { put(path, ""); path += "/x.conf"; } else if (k == 3) path = dir + "/" + S(300, 'n'); else if (k == 4) { path = "/dev/full"; for (int i = 0; i < 2; ++i) c->set_value("key" + S(1, (char)('a' + i)), S(vh::coin() ? 10 : 9000, 'x')); } else if (k == 5) path = "";
  CASE("write " << (k ? "a block" : "an empty block") << " to " << (path.size() > 200 ? "a name of 300 characters" : path));
  bool t = false; try { write_config_file(c, path); } catch (config_file_write_exception &) { t = true; }
  EXPECT(t, "no write error");
  if (k == 0) { S now; bool there = slurp(path, now); EXPECT(there == was && (!was || now == "kept = 1\n"), "the failed write left a file with " << q(now)); }
  unlink((dir + "/w.conf").c_str());
}
static void body(const std::string &pid) {
  std::cerr.rdbuf(0); std::clog.rdbuf(0);
  char t[] = "/tmp/vcfgXXXXXX"; if (!mkdtemp(t)) { printf("cannot make a scratch directory\n"); exit(3); }
  char *rp = realpath(t, 0); dir = rp; free(rp);
  static const char *ds[] = { "sub", "alt", "p1", "p2", "p3" };
  for (int i = 0; i < 5; ++i) mkdir((dir + "/" + ds[i]).c_str(), 0700);
  if (chdir(dir.c_str())) exit(3);
  setenv("VERIF_ENV_A", "a.conf", 1); unsetenv("VERIF_ENV_NONE");
  int K = vh::g_thorough ? 60000 : pid == "C06" ? 8000 : 3000;
  struct Clean { ~Clean() { V f; for (int i = 0; i < 7; ++i) f.push_back(names[i]); static const char *o[] = { "alt/e.conf", "p1/e.conf", "p2/e.conf", "p3/e.conf", "out.conf", "out2.conf", "w.conf", "new/deep/out.conf" }; for (int i = 0; i < 8; ++i) f.push_back(o[i]); for (auto const &x : f) unlink((dir + "/" + x).c_str());
      static const char *d[] = { "sub", "alt", "p1", "p2", "p3", "new/deep", "new" }; for (int i = 0; i < 7; ++i) rmdir((dir + "/" + d[i]).c_str()); if (chdir("/")) { } rmdir(dir.c_str()); } } clean;
  for (int n = 0; n < K; ++n) {
    if (pid == "C06") { parse(); if (n % 20 == 0) missing(); if (n % 5 == 0) located(); }
    else { roundtrip(); if (n % 10 == 0) refuse(); }
  }
}
HARNESS_MAIN(body)
