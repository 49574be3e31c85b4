// C01..C05: configuration blocks against a reference map
#include "h.h"
#include <vital/config/config_block.h>
#include <map>
#include <limits>
#include <algorithm>
using namespace kwiver::vital;
typedef std::map<std::string, std::string> M;
struct Model { M val, des; std::set<std::string> ro; };
struct Handle { config_block_sptr b; std::string prefix; Model *m; };   // a block or a view: key k means prefix+k of m

static std::string trimmed(const std::string &s) {
  size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) ++a;
  while (b > a && isspace((unsigned char)s[b - 1])) --b;
  return s.substr(a, b - a);
}
static std::string rkey() {
  static const char *const seg[] = { "a", "b", "ab", "a:b", "b:a", "", "x_y", "aa", "ab:a", "c.d", "_glob", "k 1", "global", "a:b:c" };
  int s0 = (int)vh::ri(0, 13);
  std::string k = seg[s0];
  if (vh::ri(0, 5) == 0) { k += std::string(":") + seg[s0]; if (vh::coin()) k += std::string(":") + seg[s0]; }
  if (vh::ri(0, 2) == 0) k += std::string(":") + seg[vh::ri(0, 13)];
  if (vh::ri(0, 9) == 0) k += ":";
  if (vh::ri(0, 19) == 0) k = ":" + k;
  return k;
}
static std::string rval() {
  switch (vh::ri(0, 7)) {
  case 0: return ""; case 1: return vh::rs(" \t\n\r\v\f", 1, 4); case 2: return "  two words ";
  case 3: { std::ostringstream o; o << vh::ri(-100, 100); return o.str(); }
  case 4: return vh::rs("yestrufalno01YESTRUFALNO", 1, 5);
  default: return vh::rs(" \tab:#=$0", 0, 6);
  }
}
static std::string rdes() { return vh::ri(0, 1) ? "" : vh::rs("ab \n", 0, 3); }

static std::vector<std::string> keys_of(const Handle &h) {
  std::vector<std::string> r;
  for (M::iterator i = h.m->val.begin(); i != h.m->val.end(); ++i) if (i->first.compare(0, h.prefix.size(), h.prefix) == 0) r.push_back(i->first.substr(h.prefix.size()));
  std::sort(r.begin(), r.end());
  return r;
}
static std::string desc(const Handle &h) { return h.prefix.empty() ? "block" : "view " + vh::q(h.prefix); }

static void check_key(const Handle &h, const std::string &k) {
  std::string f = h.prefix + k;
  bool has = h.m->val.count(f);
  EXPECT(h.b->has_value(k) == has, desc(h) << ": has_value(" << vh::q(k) << ")");
  EXPECT(h.b->is_read_only(k) == (h.m->ro.count(f) != 0), desc(h) << ": is_read_only(" << vh::q(k) << ")");
  std::string d("default ");
  std::string g = h.b->get_value<std::string>(k, d);
  EXPECT(g == (has ? h.m->val[f] : d), desc(h) << ": get_value(" << vh::q(k) << ", default) is " << vh::q(g) << " expected " << vh::q(has ? h.m->val[f] : d));
  try { std::string v = h.b->get_value<std::string>(k); EXPECT(has && v == h.m->val[f], desc(h) << ": get_value(" << vh::q(k) << ") is " << vh::q(v)); }
  catch (no_such_configuration_value_exception const &) { EXPECT(!has, desc(h) << ": get_value(" << vh::q(k) << ") reports a missing value"); }
  try { std::string v = h.b->get_description(k); EXPECT(has && v == h.m->des[f], desc(h) << ": get_description(" << vh::q(k) << ") is " << vh::q(v) << " expected " << vh::q(has ? h.m->des[f] : "missing")); }
  catch (no_such_configuration_value_exception const &) { EXPECT(!has, desc(h) << ": get_description(" << vh::q(k) << ") reports a missing value"); }
}
static void check_all(const Handle &h) {
  std::vector<std::string> got = h.b->available_values(), want = keys_of(h);
  std::sort(got.begin(), got.end());
  std::ostringstream o; for (size_t i = 0; i < got.size(); ++i) o << vh::q(got[i]) << " ";
  EXPECT(got == want, desc(h) << ": available_values lists " << o.str() << "(" << got.size() << ") expected " << want.size());
  for (size_t i = 0; i < want.size(); ++i) check_key(h, want[i]);
  check_key(h, rkey());
}
// a prefix for a view or sub-block: half of the time one that some entry has
static std::string rprefix(const Handle &h) {
  std::vector<std::string> have = keys_of(h);
  if (have.empty() || vh::coin()) return rkey();
  std::string k = vh::pick(have); std::vector<size_t> c;
  for (size_t i = 0; i < k.size(); ++i) if (k[i] == ':') c.push_back(i);
  return c.empty() ? k : k.substr(0, vh::pick(c));
}
static bool op_set(Handle &h, const std::string &k, const std::string &v, const std::string &d) {
  std::string f = h.prefix + k;
  bool ro = h.m->ro.count(f) != 0;
  try { if (d.empty() && vh::coin()) h.b->set_value(k, v); else h.b->set_value(k, v, d); EXPECT(!ro, desc(h) << ": set of read-only key " << vh::q(k) << " succeeded"); }
  catch (set_on_read_only_value_exception const &) { EXPECT(ro, desc(h) << ": set of " << vh::q(k) << " refused"); return false; }
  bool isnew = !h.m->val.count(f);
  h.m->val[f] = trimmed(v); if (isnew || !d.empty()) h.m->des[f] = d;
  return true;
}
static void op_unset(Handle &h, const std::string &k) {
  std::string f = h.prefix + k;
  bool ro = h.m->ro.count(f) != 0, has = h.m->val.count(f) != 0;
  try { h.b->unset_value(k); EXPECT(!ro && has, desc(h) << ": unset of " << vh::q(k) << " succeeded"); h.m->val.erase(f); h.m->des.erase(f); }
  catch (unset_on_read_only_value_exception const &) { EXPECT(ro, desc(h) << ": unset of " << vh::q(k) << " says read-only"); }
  catch (no_such_configuration_value_exception const &) { EXPECT(!ro && !has, desc(h) << ": unset of " << vh::q(k) << " says missing"); }
}

// random history over a block, its views and their copies; what = which operations are frequent
static void history(int steps, bool views, bool readonly, bool merge) {
  std::vector<Model *> models; std::vector<Handle> hs;
  Model *m = new Model; models.push_back(m);
  Handle h0 = { config_block::empty_config(vh::coin() ? "" : "nm"), "", m }; hs.push_back(h0);
  for (int s = 0; s < steps; ++s) {
    Handle h = hs[vh::rnd() % hs.size()];
    std::string k = rkey();
    if (vh::coin()) { std::vector<std::string> have = keys_of(h); if (!have.empty()) k = vh::pick(have); }
    int op = (int)vh::ri(0, 19);
    if (op < 9) { std::string v = rval(), d = rdes(); CASE("step " << s << " " << desc(h) << " set " << vh::q(k) << " = " << vh::q(v) << " (" << vh::q(d) << "), " << h.m->val.size() << " entries"); op_set(h, k, v, d); }
    else if (op < 12) { CASE("step " << s << " " << desc(h) << " unset " << vh::q(k) << ", " << h.m->val.size() << " entries"); op_unset(h, k); }
    else if (op == 12 && readonly) { CASE("step " << s << " " << desc(h) << " mark_read_only " << vh::q(k)); h.b->mark_read_only(k); h.m->ro.insert(h.prefix + k); }
    else if (op < 15 && views) {
      if (hs.size() >= 7) hs.erase(hs.begin() + vh::ri(1, hs.size() - 1));
      std::string p = rprefix(h); CASE("step " << s << " " << desc(h) << " subblock_view " << vh::q(p));
      Handle v = { h.b->subblock_view(p), h.prefix + p + ":", h.m }; EXPECT(v.b->get_name() == p, "name of view"); hs.push_back(v);
    }
    else if (op < 17 && views) {
      if (hs.size() >= 9) hs.erase(hs.begin() + vh::ri(1, hs.size() - 1));
      std::string p = rprefix(h); CASE("step " << s << " " << desc(h) << " subblock " << vh::q(p) << ", " << h.m->val.size() << " entries");
      Model *c = new Model; models.push_back(c);
      std::string fp = h.prefix + p + ":";
      for (M::iterator i = h.m->val.begin(); i != h.m->val.end(); ++i) if (i->first.compare(0, fp.size(), fp) == 0) { c->val[i->first.substr(fp.size())] = i->second; c->des[i->first.substr(fp.size())] = h.m->des[i->first]; }
      Handle v = { h.b->subblock(p), "", c }; EXPECT(v.b->get_name() == p, "name of subblock"); hs.push_back(v);
    }
    else if (op < 19 && merge) {
      Handle o;
      if (vh::coin()) o = hs[vh::rnd() % hs.size()];
      else { o.m = new Model; models.push_back(o.m); o.b = config_block::empty_config(); for (int n = (int)vh::ri(0, 5); n > 0; --n) { std::string kk = rkey(); if (vh::coin()) { std::vector<std::string> have = keys_of(h); if (!have.empty()) kk = vh::pick(have); } op_set(o, kk, rval(), rdes()); } }
      if (o.m == h.m) continue;     // merging a view with its own block is left out
      std::vector<std::string> ks = keys_of(o); bool ro = false;
      for (size_t i = 0; i < ks.size(); ++i) ro = ro || h.m->ro.count(h.prefix + ks[i]);
      CASE("step " << s << " " << desc(h) << " (" << h.m->val.size() << " entries) merges " << desc(o) << " with " << ks.size() << " entries" << (ro ? ", one of them read-only" : ""));
      M before = h.m->val, bdes = h.m->des;
      bool threw = false;
      try { h.b->merge_config(o.b); } catch (set_on_read_only_value_exception const &) { threw = true; }
      EXPECT(threw == ro, "merge over read-only key " << (threw ? "refused" : "accepted"));
      if (ro) {      // the entries before the refused one may have been taken; read-only ones stay
        for (std::set<std::string>::iterator r = h.m->ro.begin(); r != h.m->ro.end(); ++r) if (r->compare(0, h.prefix.size(), h.prefix) == 0) {
          std::string kk = r->substr(h.prefix.size()); bool has = before.count(*r) != 0;
          EXPECT(h.b->has_value(kk) == has && (!has || (h.b->get_value<std::string>(kk) == before[*r] && h.b->get_description(kk) == bdes[*r])), "merge changed read-only key " << vh::q(*r)); }
        for (size_t i = 0; i < ks.size(); ++i) { std::string f = h.prefix + ks[i]; if (!h.m->ro.count(f) && h.b->has_value(ks[i]) && h.b->get_value<std::string>(ks[i]) == o.m->val[o.prefix + ks[i]]) {
            bool isnew = !h.m->val.count(f); h.m->val[f] = o.m->val[o.prefix + ks[i]]; std::string d = o.m->des[o.prefix + ks[i]]; if (isnew || h.b->get_description(ks[i]) == d) h.m->des[f] = d; } }
      } else
        for (size_t i = 0; i < ks.size(); ++i) { std::string f = h.prefix + ks[i], d = o.m->des[o.prefix + ks[i]]; bool isnew = !h.m->val.count(f); h.m->val[f] = o.m->val[o.prefix + ks[i]]; if (isnew || !d.empty()) h.m->des[f] = d; }
      check_all(o);
    }
    else continue;
    check_all(h);
    if (s % 3 == 0) for (size_t i = 0; i < hs.size(); ++i) check_all(hs[i]);
  }
  for (size_t i = 0; i < hs.size(); ++i) check_all(hs[i]);
  for (size_t i = 0; i < models.size(); ++i) delete models[i];
}

template <class T> static void conv(const config_block_sptr &b, const std::string &k, const std::string &v, bool ok, T want, T def) {
  try { T g = b->get_value<T>(k); EXPECT(ok && g == want, "value " << vh::q(v) << " read as " << typeid(T).name() << " gives " << g << (ok ? "" : " but does not denote a value")); }
  catch (bad_config_block_cast_exception const &e) { EXPECT(!ok, "value " << vh::q(v) << " read as " << typeid(T).name() << " raises " << e.what()); std::string w = e.what(); EXPECT(w.find(k) != std::string::npos && w.find(v) != std::string::npos, "the error does not name key and value: " << w); }
  T d = b->get_value<T>(k, def);
  EXPECT(d == (ok ? want : def), "value " << vh::q(v) << " read with default gives " << d);
}
// the longest prefix of an integer literal, as the stream extraction of the language defines it
static bool int_prefix(const std::string &t, long &out) {
  size_t i = 0; std::string s; if (i < t.size() && (t[i] == '+' || t[i] == '-')) s += t[i++];
  size_t d = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') s += t[i++];
  if (i == d || i - d > 17) return false;
  out = strtol(s.c_str(), 0, 10); return true;
}
static void c05() {
  int N = vh::g_thorough ? 200000 : 20000;
  config_block_sptr b = config_block::empty_config();
  for (int n = 0; n < N; ++n) {
    std::string k = "key" + vh::rs("ab:", 0, 3), v;
    switch (n % 8) {
    case 0: { static const char *const w[] = { "true", "yes", "1", "false", "no", "0" }; v = w[vh::ri(0, 5)]; for (size_t i = 0; i < v.size(); ++i) if (vh::coin()) v[i] = (char)toupper(v[i]); if (vh::ri(0, 5) == 0) v += vh::rs("s 1e", 1, 2); if (vh::ri(0, 9) == 0) v = v.substr(1); break; }
    case 1: { std::ostringstream o; o << (long)(int)vh::rnd(); v = o.str(); break; }
    case 2: v = vh::rs("0123456789", 1, 17); break;
    case 3: v = vh::rs("-+0123456789 ", 1, 6); break;
    case 4: v = vh::rs("onyestrufalON01", 1, 5); break;
    case 5: { std::ostringstream o; o << vh::rd(-1000, 1000); v = o.str(); break; }
    case 6: { std::ostringstream o; o << (vh::coin() ? 2147483647L + vh::ri(-2, 2) : -2147483648L + vh::ri(-2, 2)); v = o.str(); break; }
    default: v = vh::rs("abc :#", 0, 5);
    }
    if (vh::ri(0, 3) == 0) v = vh::rs(" \t", 1, 2) + v + vh::rs(" \n", 0, 2);
    std::string t = trimmed(v);
    CASE("key " << k << " value " << vh::q(v));
    b->set_value(k, v);
    conv<std::string>(b, k, t, true, t, "dflt");
    std::string l = t; for (size_t i = 0; i < l.size(); ++i) l[i] = (char)tolower((unsigned char)l[i]);
    bool T = l == "true" || l == "yes" || l == "1", F = l == "false" || l == "no" || l == "0";
    conv<bool>(b, k, t, T || F, T, true); conv<bool>(b, k, t, T || F, T, false);
    long i = 0; bool isint = int_prefix(t, i);
    conv<int>(b, k, t, isint && i >= std::numeric_limits<int>::min() && i <= std::numeric_limits<int>::max(), (int)i, -7777);
    if (t.find_first_not_of("0123456789+-") == std::string::npos) conv<long>(b, k, t, isint, i, -7777L);
    if (n % 8 == 5) conv<double>(b, k, t, true, strtod(t.c_str(), 0), -1.5);
    if (t.empty() || isalpha((unsigned char)t[0])) conv<double>(b, k, t, false, 0.0, -1.5);
    // missing
    std::string mk = "missing" + k;
    EXPECT(b->get_value<int>(mk, 5) == 5 && b->get_value<bool>(mk, true) && !b->get_value<bool>(mk, false) && b->get_value<std::string>(mk, " d ") == " d ", "default of a missing key");
    try { b->get_value<int>(mk); EXPECT(false, "missing key read as int"); } catch (no_such_configuration_value_exception const &) {}
    try { b->get_value<bool>(mk); EXPECT(false, "missing key read as bool"); } catch (no_such_configuration_value_exception const &) {}
    // round trips
    int iv = (int)vh::rnd(); if (n % 3 == 0) iv = (int)vh::ri(-3, 3); bool bv = vh::coin();
    b->set_value("i", iv); EXPECT(b->get_value<int>("i") == iv, "int round trip of " << iv);
    b->set_value("i", iv, "d"); EXPECT(b->get_value<int>("i") == iv, "int round trip of " << iv);
    b->set_value("b", bv); EXPECT(b->get_value<bool>("b") == bv, "bool round trip");
    b->set_value("b", bv, "d"); EXPECT(b->get_value<bool>("b") == bv && b->get_description("b") == "d", "bool round trip with description");
    long lv = (long)vh::rnd(); b->set_value("l", lv); EXPECT(b->get_value<long>("l") == lv, "long round trip of " << lv);
    b->set_value("s", t); EXPECT(b->get_value<std::string>("s") == t, "string round trip");
    double dv = (double)vh::ri(-99999, 99999) / 16; std::ostringstream o; o << dv; b->set_value("d", dv); EXPECT(b->get_value<double>("d") == strtod(o.str().c_str(), 0), "double " << dv);
    b->unset_value(k);
  }
}
static void globals() {
  // a view lists the entries of the block _global, which it cannot read
  CASE("block {_global:x=1, a:y=2}, view of a");
  config_block_sptr b = config_block::empty_config(); b->set_value("_global:x", "1"); b->set_value("a:y", "2");
  config_block_sptr v = b->subblock_view("a"); std::vector<std::string> k = v->available_values(); bool all = true;
  for (size_t i = 0; i < k.size(); ++i) all = all && v->has_value(k[i]);
  EXPECT(v->has_value("y") && v->get_value<std::string>("y") == "2", "view of a block with globals");
  EXPECT_KNOWN("view-global", all, "the view lists a key that it does not have");
  config_block_sptr s = b->subblock("a");
  EXPECT(s->get_value<std::string>("y") == "2" && s->available_values().size() == (s->has_value("_global:x") ? 2u : 1u), "subblock of a block with globals");
}
static void body(const std::string &p) {
  int N = vh::g_thorough ? 6000 : 500;
  if (p == "C05") { c05(); return; }
  if (p == "C03") globals();
  for (int n = 0; n < N; ++n) {
    int st = (int)vh::ri(5, n % 5 == 0 ? 60 : 25);
    if (p == "C01") history(st, n % 3 == 2, false, n % 4 == 3);
    else if (p == "C02") history(st, n % 2, true, n % 3 != 0);
    else if (p == "C03") history(st, true, n % 4 == 0, n % 5 == 0);
    else history(st, n % 3 == 0, n % 3 == 1, true);
  }
}
HARNESS_MAIN(body)
