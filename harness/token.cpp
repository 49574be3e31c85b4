// macro expansion against an independent scanner
#include "h.h"
#include <iostream>
#include <cstdlib>
#include <map>
#include <vital/config/token_expander.h>
#include <vital/config/token_type_symtab.h>
#include <vital/config/token_type_env.h>
#include <vital/config/token_type_config.h>
#include <vital/config/config_block.h>
using namespace kwiver::vital;
typedef std::map<std::string, std::string> tab;
static bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
static bool nac(char c) { return isalnum((unsigned char)c) || c == '.' || c == '_' || c == ':'; }
static std::string expand(std::string const &s, std::map<std::string, tab> const &t) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    if (s[j] == '$' && ++j < s.size() && isalpha((unsigned char)s[j])) {
      size_t a = j; while (j < s.size() && idc(s[j])) ++j;
      if (j < s.size() && s[j] == '{') {
        size_t b = ++j; while (j < s.size() && nac(s[j])) ++j;
        if (j < s.size() && s[j] == '}') {
          std::map<std::string, tab>::const_iterator p = t.find(s.substr(a, b - 1 - a));
          if (p != t.end()) { tab::const_iterator v = p->second.find(s.substr(b, j - b)); if (v != p->second.end()) r += v->second; i = j + 1; continue; }
          r += s.substr(i, j + 1 - i); i = j + 1; continue;
        }
      }
    }
    r += s[i++];
  }
  return r;
}
static const char *names[] = { "a", "x.y", "long_name:sub", "B", "A1", "verif_e", "", "zz", "a:b", "0" };
static const char *types[] = { "LOCAL", "ENV", "CONFIG", "L", "LOCALX", "A_1", "env", "1A", "_A", "" };
static std::string value() { static const char *v[] = { "", "v", "$LOCAL{a}", "}{", "two words", "$", "value$", "{", "x y", "LOCAL{a}" }; return v[vh::ri(0, 9)]; }
static void body(std::string const &) {
  std::cerr.rdbuf(0);
  int rounds = vh::g_thorough ? 6000 : 600;
  for (int k = 0; k < rounds; ++k) {
    token_expander ex;
    std::map<std::string, tab> t;
    config_block_sptr cfg = config_block::empty_config();
    token_type_symtab *syms[3] = { 0, 0, 0 };
    const char *sn[] = { "LOCAL", "L", "A_1" };
    std::string info;
    for (int i = 0; i < 3; ++i) if (vh::ri(0, 3)) { ex.add_token_type(syms[i] = new token_type_symtab(sn[i])); t[sn[i]]; info += sn[i]; info += ' '; }
    bool env = vh::ri(0, 3), con = vh::ri(0, 3);
    if (env) { ex.add_token_type(new token_type_env()); t["ENV"]; info += "ENV "; }
    if (con) { ex.add_token_type(new token_type_config(cfg.get())); t["CONFIG"]; info += "CONFIG "; }
    unsetenv("verif_e"); unsetenv("B"); unsetenv("zz");
    for (int u = 0; u < 8; ++u) {
      // change the content of the providers
      for (int c = 0, n = vh::ri(0, 5); c < n; ++c) {
        int i = vh::ri(0, 4); std::string key = names[vh::ri(0, 9)], v = value();
        if (i < 3) { if (!syms[i]) continue; if (vh::ri(0, 3)) { syms[i]->add_entry(key, v); t[sn[i]][key] = v; info += std::string(sn[i]) + "[" + key + "]=" + v + " "; } else { syms[i]->remove_entry(key); t[sn[i]].erase(key); info += std::string(sn[i]) + "-" + key + " "; } }
        else if (i == 3) { const char *e[] = { "verif_e", "B", "zz" }; const char *n = e[vh::ri(0, 2)]; if (vh::ri(0, 3)) { setenv(n, v.c_str(), 1); if (env) t["ENV"][n] = v; info += std::string("env ") + n + "=" + v + " "; } else { unsetenv(n); if (env) t["ENV"].erase(n); info += std::string("unset ") + n + " "; } }
        else { if (key.empty()) continue; v = vh::coin() ? "cv" : "$CONFIG{a}"; cfg->set_value(key, v); if (con) t["CONFIG"][key] = v; info += "cfg " + key + "=" + v + " "; }
      }
      for (int q = 0; q < 8; ++q) {
        std::string s;
        for (int i = 0, n = vh::ri(0, 6); i < n; ++i) switch (vh::ri(0, 9)) {
          case 0: s += vh::rs("$${}aL. :", 1, 4); break;
          case 1: s += std::string("$") + types[vh::ri(0, 9)] + "{" + names[vh::ri(0, 9)]; break;
          case 2: s += std::string("$") + types[vh::ri(0, 9)] + "{" + vh::rs("ab. $-}{", 0, 4) + "}"; break;
          case 3: s += std::string("$") + types[vh::ri(0, 9)] + names[vh::ri(0, 9)] + "}"; break;
          case 4: s += vh::rs("text ", 0, 6); break;
          default: s += std::string("$") + types[vh::ri(0, 9)] + "{" + names[vh::ri(0, 9)] + "}";
        }
        CASE("providers and content: " << info << " text " << vh::q(s));
        std::string r = ex.expand_token(s), w = expand(s, t);
        EXPECT(r == w, "expanded to " << vh::q(r) << ", expected " << vh::q(w));
      }
    }
    // providers on their own
    for (int i = 0; i < 3; ++i) if (syms[i]) for (int n = 0; n < 10; ++n) {
      std::string r = "before"; CASE("symbol table " << info << " look up " << names[n]);
      bool f = syms[i]->lookup_entry(names[n], r); tab::const_iterator p = t[sn[i]].find(names[n]);
      EXPECT(f == (p != t[sn[i]].end()), "look-up reports " << f); EXPECT(r == (f ? p->second : ""), "value " << vh::q(r));
    }
    token_type_env te; token_type_config tc(cfg.get());
    for (int n = 0; n < 10; ++n) {
      std::string key = names[n], r; CASE("environment and configuration " << info << " look up " << key);
      const char *e = getenv(key.c_str()); bool f = te.lookup_entry(key, r);
      EXPECT(f == (e != 0) && (!e || r == e), "environment provider: " << f << " " << vh::q(r));
      f = tc.lookup_entry(key, r);
      EXPECT(f == cfg->has_value(key) && (!f || r == cfg->get_value<std::string>(key)), "configuration provider: " << f << " " << vh::q(r));
    }
  }
}
HARNESS_MAIN(body)
