// Oracle for the string and path functions of kwiversys::SystemTools.
#include "h.h"
#include <kwiversys/SystemTools.hxx>
#include <cstring>
#include <cctype>
#include <cstdlib>
#include <unistd.h>
typedef kwiversys::SystemTools ST;
typedef std::vector<std::string> V;
static const char *HOME = "/h/o m";

static std::string q(const std::string &s)
{
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); ++i)
  {
    unsigned char c = s[i];
    if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else { if (c == '\\' || c == '"') r += '\\'; r += c; }
  }
  return r + "\"";
}
static std::string q(const V &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + q(v[i]); return r + "]"; }
static std::string q(bool b) { return b ? "true" : "false"; }
static std::string q(size_t n) { std::ostringstream o; o << n; return o.str(); }
template <class A, class B> static void same(const char *what, const A &got, const B &want)
{
  EXPECT(got == want, std::string(what) + " gives " + q(got) + ", expected " + q(A(want)));
}

// ---- reference: paths as root and components
static bool sep(char c) { return c == '/' || c == '\\'; }
static void ref_root(const std::string &p, std::string &root, std::string &rest)
{
  char a = p.size() > 0 ? p[0] : 0, b = p.size() > 1 ? p[1] : 0, c = p.size() > 2 ? p[2] : 0;
  if ((a == '/' && b == '/') || (a == '\\' && b == '\\')) { root = "//"; rest = p.substr(2); }
  else if (sep(a)) { root = "/"; rest = p.substr(1); }
  else if (a && b == ':' && sep(c)) { root = std::string(1, a) + ":/"; rest = p.substr(3); }
  else if (a && b == ':') { root = std::string(1, a) + ":"; rest = p.substr(2); }
  else if (a == '~')
  {
    size_t n = p.find('/');
    root = p.substr(0, n) + "/";
    rest = n == std::string::npos ? "" : p.substr(n + 1);
  }
  else { root = ""; rest = p; }
}
static V ref_cut(const std::string &s)   // pieces between separators; no piece of an empty string
{
  V r;
  if (s.empty()) return r;
  std::string cur;
  for (char c : s) if (sep(c)) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}
static V ref_split(const std::string &p, bool expand)
{
  std::string root, rest;
  ref_root(p, root, rest);
  V r;
  if (expand && root == "~/") r = ref_split(HOME, false);
  else r.push_back(root);
  V c = ref_cut(rest);
  r.insert(r.end(), c.begin(), c.end());
  return r;
}
static std::string ref_join(const V &v)
{
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) { if (i > 1) r += '/'; r += v[i]; }
  return r;
}
static void ref_push(V &out, const V &in, size_t from)
{
  for (size_t i = from; i < in.size(); ++i)
    if (in[i] == "..") { if (out.size() > 1) out.pop_back(); }
    else if (in[i] != "" && in[i] != ".") out.push_back(in[i]);
}
static std::string ref_collapse(const std::string &p, const std::string &base)
{
  V out, a = ref_split(p, true);
  if (a[0].empty()) { V b = ref_split(base, true); out.push_back(b[0]); ref_push(out, b, 1); ref_push(out, a, 0); }
  else ref_push(out, a, 0);
  return ref_join(out);
}
static V nonempty(const V &v) { V r; for (auto &s : v) if (!s.empty()) r.push_back(s); return r; }

static std::string word(const char *const *w, int n) { return w[vh::ri(0, n - 1)]; }
static std::string gpath(bool clean)
{
  static const char *C[] = { "a", "b", "ab", "..", ".", "...", "a.b", ".a", "a.tar.gz", "x y", "", "a.", "..a", "c:" };
  static const char *R[] = { "", "/", "//", "c:/", "c:", "~/", "\\", "\\\\", "~", "/", "/" };
  std::string s = clean ? (vh::coin() ? "/" : "") : word(R, 11);
  int n = vh::ri(0, 6);
  for (int i = 0; i < n; ++i)
  {
    if (i) s += clean || vh::ri(0, 5) ? "/" : "\\";
    std::string w = word(C, 14);
    if (clean && w.empty()) w = "q";
    if (s == "~") w = "";                       // other users' homes are not textual
    s += w;
  }
  if (!clean && s.size() > 1 && s[0] == '~' && s[1] != '/') s = "~/" + s.substr(1);
  if (!vh::ri(0, 4) && !clean) s += '/';
  return s;
}
static std::string gtext(const char *al, int maxlen)
{
  std::string s;
  int n = vh::ri(0, maxlen), k = (int)strlen(al);
  for (int i = 0; i < n; ++i) s += al[vh::ri(0, k - 1)];
  return s;
}
static std::string take(char *p) { std::string s = p ? p : "(null)"; delete[] p; return s; }

static void paths()
{
  std::string p = gpath(false), b = gpath(false);
  CASE("path " + q(p) + " base " + q(b));
  bool homes = p[0] == '~' || b[0] == '~';
  std::string root = "unset", rroot, rrest;
  ref_root(p, rroot, rrest);
  const char *rest = ST::SplitPathRootComponent(p, &root);
  same("SplitPathRootComponent root", root, rroot);
  same("SplitPathRootComponent rest", std::string(rest), rrest);
  V v(2, "old"), w = ref_split(p, false);
  ST::SplitPath(p, v, false);
  same("SplitPath", v, w);
  same("JoinPath", ST::JoinPath(v), ref_join(w));
  V v2; ST::SplitPath(p, v2); 
  same("SplitPath with home directory", v2, ref_split(p, true));
  V again; ST::SplitPath(ST::JoinPath(v), again, false);
  if (p[0] != '~' && p.find('\\') == std::string::npos && !v[0].empty() && v[0][v[0].size() - 1] == '/') same("components of the joined path", nonempty(again), nonempty(v));
  size_t i = vh::ri(0, (int)v.size()), j = vh::ri((int)i, (int)v.size());
  same("JoinPath of a range", ST::JoinPath(v.begin() + i, v.begin() + j), ref_join(V(v.begin() + i, v.begin() + j)));
  std::string c = ST::CollapseFullPath(p, b), cw = ref_collapse(p, b);
  same("CollapseFullPath(path, base)", c, cw);
  same("CollapseFullPath(path, const char* base)", ST::CollapseFullPath(p, b.c_str()), cw);
  char cwd[4096];
  if (getcwd(cwd, sizeof cwd)) same("CollapseFullPath(path)", ST::CollapseFullPath(p), ref_collapse(p, cwd));
  if (!c.empty() && c[0] == '/') same("CollapseFullPath of a collapsed path", ST::CollapseFullPath(c, b), c);
  (void)homes;
  same("FileIsFullPath", ST::FileIsFullPath(p), !p.empty() && (p[0] == '/' || p[0] == '~'));
  same("FileIsFullPath(const char*)", ST::FileIsFullPath(p.c_str()), !p.empty() && (p[0] == '/' || p[0] == '~'));
  same("ComparePath", ST::ComparePath(p, b), p == b);
  same("ComparePath with itself", ST::ComparePath(p, p), true);
  // unix slashes: same pieces, no doubled or trailing slash
  std::string u = p;
  ST::ConvertToUnixSlashes(u);
  std::string src = p;
  if (src[0] == '~') src = HOME + src.substr(1);
  for (size_t k = 0; k < src.size(); ++k) if (src[k] == '\\' && (k + 1 == src.size() || src[k + 1] != ' ')) src[k] = '/';
  V up = ref_cut(u), sp = ref_cut(src);
  same("pieces of ConvertToUnixSlashes", nonempty(up), nonempty(sp));
  same("ConvertToUnixSlashes keeps absolute", u.size() && u[0] == '/', src.size() && src[0] == '/');
  if (p.find('\\') == std::string::npos && p.find("///") == std::string::npos && p[0] != '~')
  {
    EXPECT(u.find("//", 1) == std::string::npos, "ConvertToUnixSlashes leaves a doubled slash in " + q(u));
    EXPECT(u.size() < 2 || u[u.size() - 1] != '/' || (u.size() == 3 && u[1] == ':'), "ConvertToUnixSlashes leaves a trailing slash in " + q(u));
  }
}
static void names()
{
  std::string p = gpath(true), b = gpath(true);
  CASE("clean path " + q(p) + " and " + q(b));
  size_t s = p.rfind('/');
  std::string name = s == std::string::npos ? p : p.substr(s + 1);
  same("GetFilenameName", ST::GetFilenameName(p), name);
  size_t d = name.find('.'), l = name.rfind('.');
  same("GetFilenameExtension", ST::GetFilenameExtension(p), d == std::string::npos ? "" : name.substr(d));
  same("GetFilenameLastExtension", ST::GetFilenameLastExtension(p), l == std::string::npos ? "" : name.substr(l));
  same("GetFilenameWithoutExtension", ST::GetFilenameWithoutExtension(p), name.substr(0, d));
  same("GetFilenameWithoutLastExtension", ST::GetFilenameWithoutLastExtension(p), name.substr(0, l));
  if (p != "/")
  {
    std::string dir = s == std::string::npos ? "" : s == 0 ? "/" : p.substr(0, s);
    if (dir.size() == 2 && dir[1] == ':') dir += '/';
    same("GetFilenamePath", ST::GetFilenamePath(p), dir);
    same("GetParentDirectory", ST::GetParentDirectory(p), dir);
    if (p != "c:") same("GetFilenamePath with a trailing slash", ST::GetFilenamePath(p.empty() ? p : p + "/"), dir);
  }
  if (p.size() && p[0] == '/' && b.size() && b[0] == '/')
  {
    std::string r = ST::RelativePath(p, b);
    if (r.size() < 2 || r[1] != ':') same("path reached by RelativePath" , ST::CollapseFullPath(r, p), ST::CollapseFullPath(b));
    EXPECT(r.empty() || r[0] != '/', "RelativePath gives " + q(r));
    V a = ref_cut(ref_collapse(p, "").substr(1)), c = ref_cut(ref_collapse(b, "").substr(1));
    size_t k = 0;
    while (k < a.size() && k < c.size() && a[k] == c[k]) ++k;
    std::string want;
    for (size_t i = k; i < a.size(); ++i) want += "../";
    for (size_t i = k; i < c.size(); ++i) want += (i > k ? "/" : "") + c[i];
    same("RelativePath", r, want);
  }
  else same("RelativePath with a relative path", ST::RelativePath(p, b), "");
  if (p != "/" && b != "/" && b != "c:")
    same("IsSubDirectory", ST::IsSubDirectory(p, b), !b.empty() && p.size() > b.size() && p.compare(0, b.size() + 1, b + "/") == 0);
}
static std::string ref_replace(std::string s, const std::string &a, const std::string &b)
{
  if (a.empty()) return s;
  std::string r;
  for (size_t i = 0; i < s.size();)
    if (s.compare(i, a.size(), a) == 0) { r += b; i += a.size(); } else r += s[i++];
  return r;
}
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char hi(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool alpha(char c) { return hi(lo(c)) >= 'A' && hi(c) <= 'Z'; }
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void strings()
{
  std::string s = gtext("aAbB zZ\t\n\xc3.%_-1", 12), t = gtext("aAb ", 3), w = gtext("ab%", 3);
  if (!vh::ri(0, 2)) s = gtext("ab", 10), t = gtext("ab", 3);
  if (!vh::ri(0, 3)) s = gtext("aA _-1.", 10);
  CASE("text " + q(s) + " with " + q(t) + " and " + q(w));
  std::string L, U, C, CW, UW, AS;
  for (size_t i = 0; i < s.size(); ++i)
  {
    bool first = i == 0 || space(s[i - 1]);
    L += lo(s[i]); U += hi(s[i]); C += i ? lo(s[i]) : hi(s[i]);
    CW += first ? hi(s[i]) : s[i]; UW += first ? lo(s[i]) : s[i];
    if (i && upper(s[i]) && !space(s[i - 1]) && !upper(s[i - 1])) AS += ' ';
    AS += s[i];
  }
  (void)alpha;
  same("LowerCase", ST::LowerCase(s), L);
  same("UpperCase", ST::UpperCase(s), U);
  same("Capitalized", ST::Capitalized(s), C);
  same("CapitalizedWords", ST::CapitalizedWords(s), CW);
  same("UnCapitalizedWords", ST::UnCapitalizedWords(s), UW);
  same("AddSpaceBetweenCapitalizedWords", ST::AddSpaceBetweenCapitalizedWords(s), AS);
  bool sw = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, ew = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
  same("StringStartsWith", ST::StringStartsWith(s, t.c_str()), sw);
  same("StringStartsWith(const char*)", ST::StringStartsWith(s.c_str(), t.c_str()), sw);
  same("StringEndsWith", ST::StringEndsWith(s, t.c_str()), ew);
  same("StringEndsWith(const char*)", ST::StringEndsWith(s.c_str(), t.c_str()), ew);
  same("StringStartsWith null", ST::StringStartsWith(s.c_str(), 0), false);
  same("StringEndsWith null", ST::StringEndsWith((const char*)0, t.c_str()), false);
  std::string r = s; ST::ReplaceString(r, t, w);
  same("ReplaceString", r, ref_replace(s, t, w));
  r = s; ST::ReplaceString(r, t.c_str(), w.c_str());
  same("ReplaceString(const char*)", r, ref_replace(s, t, w));
  char c = t.empty() ? 'a' : t[0];
  size_t n = 0; for (char x : s) n += x == c;
  same("CountChar", ST::CountChar(s.c_str(), c), n);
  std::string rm, hx, rc = s;
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (t.find(s[i]) == std::string::npos) rm += s[i]; else rc[i] = '#';
    if ((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'A' && s[i] <= 'F')) hx += s[i];
  }
  same("RemoveChars", take(ST::RemoveChars(s.c_str(), t.c_str())), rm);
  same("RemoveCharsButUpperHex", take(ST::RemoveCharsButUpperHex(s.c_str())), hx);
  std::vector<char> buf(s.begin(), s.end()); buf.push_back(0);
  same("ReplaceChars", std::string(ST::ReplaceChars(&buf[0], t.c_str(), '#')), rc);
  const char *f = ST::FindLastString(s.c_str(), t.c_str());
  size_t at = s.rfind(t);
  same("FindLastString", f ? size_t(f - s.c_str()) : std::string::npos, at);
  size_t m = vh::ri(0, 14);
  std::string cr = s;
  if (m > 0 && m < s.size())
  {
    size_t h = m / 2;
    cr = s.substr(0, h) + s.substr(s.size() - (m - h));
    if (m > 2) cr[h] = '.';
    if (m > 3) cr[h - 1] = '.';
    if (m > 4) cr[h + 1] = '.';
  }
  same("CropString", ST::CropString(s, m), cr);
  std::string e; for (char x : s) { if (t.find(x) != std::string::npos) e += '\\'; e += x; }
  same("EscapeChars", ST::EscapeChars(s.c_str(), t.c_str(), '\\'), e);
  same("AppendStrings", take(ST::AppendStrings(s.c_str(), t.c_str())), s + t);
  same("AppendStrings of three", take(ST::AppendStrings(s.c_str(), t.c_str(), w.c_str())), s + t + w);
  same("DuplicateString", take(ST::DuplicateString(s.c_str())), s);
  int sc = ST::Strucmp(s.c_str(), t.c_str());
  std::string lt; for (char x : t) lt += lo(x);
  same("Strucmp equal", sc == 0, L == lt);
}
static void lists()
{
  std::string s = gtext("ab/\n\r ", 12);
  CASE("list text " + q(s));
  V a(1, "old"), b(1, "old"), wa(1, "old"), wb(1, "old");
  std::string cur;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '/') { wa.push_back(cur); cur.clear(); } else cur += s[i];
  bool ea = s.empty() || s[s.size() - 1] == '/';
  if (!ea) wa.push_back(cur);
  same("Split with separator, return", ST::Split(s, a, '/'), ea);
  same("Split with separator", a, wa);
  cur.clear();
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\n') { if (!cur.empty() && cur[cur.size() - 1] == '\r') cur.resize(cur.size() - 1); wb.push_back(cur); cur.clear(); }
    else cur += s[i];
  bool eb = s.empty() || s[s.size() - 1] == '\n';
  if (!eb) wb.push_back(cur);
  same("Split into lines, return", ST::Split(s, b), eb);
  same("Split into lines", b, wb);
  bool path = vh::coin();
  std::string body = path && s.size() && s[0] == '/' ? s.substr(1) : s;
  if (body.find("//") == std::string::npos && (body.empty() || body[0] != '/'))
  {
    V w;
    if (!s.empty())
    {
      if (path && s[0] == '/') w.push_back("/");
      cur.clear();
      for (char c : body) if (c == '/') { w.push_back(cur); cur.clear(); } else cur += c;
      w.push_back(cur);
    }
    std::vector<kwiversys::String> g = ST::SplitString(s, '/', path);
    same("SplitString", V(g.begin(), g.end()), w);
  }
  std::string id = gtext("a1_ -Z9\xc3", 6), w;
  if (!id.empty() && id[0] >= '0' && id[0] <= '9') w = "_";
  for (char c : id) w += (c == '_' || (c >= '0' && c <= '9') || (lo(c) >= 'a' && lo(c) <= 'z')) ? c : '_';
  same("MakeCidentifier", ST::MakeCidentifier(id), w);
}
static void body(const std::string &)
{
  setenv("HOME", HOME, 1);
  int n = vh::g_thorough ? 400000 : 20000;
  for (int i = 0; i < n; ++i) { paths(); names(); strings(); lists(); }
}
HARNESS_MAIN(body)
