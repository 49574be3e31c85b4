// C22 (handles) and C23 (strings and errors): the C interface against the C++ objects it wraps
#include "h.h"
#include <map>
#include <memory>
#include <fstream>
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
#include <vital/exceptions.h>
#include <vital/types/camera.h>
#include <vital/types/track_set.h>
#include <vital/types/image_container.h>
#include <vital/io/camera_io.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/helpers/c_utils.h>
#include <vital/bindings/c/helpers/config_block.h>
#include <vital/bindings/c/helpers/algorithm.h>
#include <vital/bindings/c/helpers/camera.h>
#include <new>
// the sanitizer's operator new[] never throws; this one does
void *operator new[](size_t n) { if (n > ((size_t)1 << 40)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace kv = kwiver::vital;
namespace kc = kwiver::vital_c;
extern "C" vital_trackset_t *vital_trackset_from_sptr(void *);

// ------------------------------------------------------------------ C22
struct thing { int n; thing(int i) : n(i) {} };
struct handle_s;
typedef kc::SharedPointerCache<thing, handle_s> cache_t;

static void cache_histories() {
  int N = vh::g_thorough ? 60000 : 4000;
  for (int n = 0; n < N; ++n) {
    cache_t c("things"), other("others"); std::ostringstream d;
    int K = (int)vh::ri(1, 4);
    std::vector<std::shared_ptr<thing> > mine; std::vector<std::weak_ptr<thing> > watch; std::vector<thing *> ptr; std::vector<int> refs(K, 0);
    for (int k = 0; k < K; ++k) { mine.push_back(std::make_shared<thing>(k)); watch.push_back(mine[k]); ptr.push_back(mine[k].get()); }
    bool held[8]; for (int k = 0; k < 8; ++k) held[k] = true;
    for (int s = (int)vh::ri(1, 14); s > 0; --s) {
      int k = (int)vh::ri(0, K - 1); bool gone = !held[k] && refs[k] == 0;
      switch (vh::ri(0, 4)) {
      case 0: case 1: if (!gone) { d << " store" << k; vh::begin(d.str()); c.store(held[k] ? mine[k] : c.get(ptr[k])); ++refs[k]; } break;
      case 2: d << " erase" << k; vh::begin(d.str()); if (vh::coin()) c.erase(ptr[k]); else c.erase(reinterpret_cast<handle_s *>(ptr[k])); if (refs[k]) --refs[k]; break;
      case 3: if (held[k]) { d << " drop" << k; vh::begin(d.str()); mine[k].reset(); held[k] = false; } break;
      case 4: d << " null"; vh::begin(d.str());
        { bool a = false, b = false, e = false; try { c.store(std::shared_ptr<thing>()); } catch (cache_t::NullPointerException const &) { a = true; }
          try { c.get((thing *)0); } catch (cache_t::NullPointerException const &) { b = true; } try { c.erase((handle_s *)0); } catch (cache_t::NullPointerException const &) { e = true; }
          EXPECT(a && b && e, "null pointers are not reported"); } break;
      }
      for (int i = 0; i < K; ++i) {
        EXPECT(watch[i].expired() == (!held[i] && refs[i] == 0), "object " << i << " with " << refs[i] << " references is " << (watch[i].expired() ? "gone" : "alive"));
        std::shared_ptr<thing> g; bool none = false; try { g = vh::coin() ? c.get(ptr[i]) : c.get(reinterpret_cast<handle_s *>(ptr[i])); } catch (cache_t::NoEntryException const &) { none = true; }
        EXPECT(none == (refs[i] == 0), "object " << i << " with " << refs[i] << " references: look-up " << (none ? "fails" : "succeeds"));
        if (!none) EXPECT(g.get() == ptr[i] && g->n == i, "look-up of object " << i << " gives another object");
        bool o = false; try { other.get(ptr[i]); } catch (cache_t::NoEntryException const &) { o = true; } EXPECT(o, "entry appeared in another cache");
      }
    }
  }
}
static int eh_code(vital_error_handle_t *eh) { int c = eh->error_code; EXPECT((c == 0) == (eh->message == 0), "error code " << c << " with message " << (eh->message ? eh->message : "(null)")); vital_eh_destroy(eh); return c; }

static kv::camera_sptr cam(int k) {
  kv::simple_camera *c = new kv::simple_camera(kv::vector_3d(k, 2, 3), kv::rotation_d()); return kv::camera_sptr(c); }
static void c_histories() {
  int N = vh::g_thorough ? 6000 : 400;
  for (int n = 0; n < N; ++n) {
    // config blocks, image containers, tracks, track sets, cameras and camera maps in one history
    struct H { int kind; void *h; int refs; std::string name; size_t size; std::weak_ptr<void> w; };
    std::vector<H> hs; std::ostringstream d; std::vector<kv::image_container_sptr> keep; std::vector<kv::track_set_sptr> keepts;
    for (int s = (int)vh::ri(4, 25); s > 0; --s) {
      long op = vh::ri(0, 11); H x; x.refs = 1; x.h = 0; x.size = 0;
      std::vector<H *> live; for (auto &h : hs) if (h.refs > 0) live.push_back(&h);
      H *y = live.empty() ? 0 : live[vh::rnd() % live.size()];
      if (op == 0) { x.kind = 0; x.name = vh::rs("abc", 0, 5); d << " config(" << x.name << ")"; vh::begin(d.str()); x.h = vital_config_block_new_named(x.name.c_str()); x.w = kc::CONFIG_BLOCK_SPTR_CACHE.get((vital_config_block_t *)x.h); }
      else if (op == 1 && y && y->kind == 0) { x.kind = 0; std::string k = vh::rs("xy", 1, 2); x.name = k; bool v = vh::coin(); d << (v ? " view(" : " sub(") << k << ")"; vh::begin(d.str());
        x.h = v ? vital_config_block_subblock_view((vital_config_block_t *)y->h, k.c_str()) : vital_config_block_subblock((vital_config_block_t *)y->h, k.c_str());
        x.w = kc::CONFIG_BLOCK_SPTR_CACHE.get((vital_config_block_t *)x.h); x.name = kc::CONFIG_BLOCK_SPTR_CACHE.get((vital_config_block_t *)x.h)->get_name(); }
      else if (op == 2) { x.kind = 1; size_t w = vh::ri(1, 5); x.size = w; d << " image(" << w << ")"; vh::begin(d.str()); vital_image_t *im = vital_image_new_with_dim(w, 2, 1, false); x.h = vital_image_container_new_simple(im); vital_image_destroy(im);
        x.w = vital_image_container_to_sptr((vital_image_container_t *)x.h); }
      else if (op == 3 && y && y->kind == 1) { d << " image again"; vh::begin(d.str()); kv::image_container_sptr p = vital_image_container_to_sptr((vital_image_container_t *)y->h);
        EXPECT(vital_image_container_from_sptr(p) == y->h, "other handle for the same object"); ++y->refs; }
      else if (op == 4) { x.kind = 2; d << " track"; vh::begin(d.str()); x.h = vital_track_new(); }
      else if (op == 5) { x.kind = 3; d << " track set of"; std::vector<vital_track_t *> t; for (auto h : live) if (h->kind == 2) t.push_back((vital_track_t *)h->h); d << t.size(); vh::begin(d.str()); x.size = t.size(); x.h = vital_trackset_new(t.size(), t.empty() ? 0 : &t[0]); }
      else if (op == 6 && y && y->kind == 3) { d << " track set unknown member"; vh::begin(d.str()); vital_track_t *bad = (vital_track_t *)y->h; EXPECT(vital_trackset_new(1, &bad) == 0, "a track set was made of a handle that is not a track"); }
      else if (op == 7) { x.kind = 4; kv::camera_sptr c = cam((int)n); d << " camera"; kc::CAMERA_SPTR_CACHE.store(c); x.h = c.get(); x.w = c; vh::begin(d.str()); }
      else if (op == 8) { x.kind = 5; std::vector<vital_camera_t *> cs; std::vector<unsigned> fr; std::vector<H *> cams; for (auto h : live) if (h->kind == 4) { cams.push_back(h); cs.push_back((vital_camera_t *)h->h); fr.push_back((unsigned)fr.size() * 3 + 1); }
        d << " camera map of " << cs.size(); vh::begin(d.str()); x.size = cs.size(); bool nul = cs.empty() && vh::coin(); fr.push_back(0); cs.push_back(0); x.h = vital_camera_map_new(x.size, nul ? 0 : &fr[0], &cs[0]);
        if (x.h && vh::coin()) { size_t len = 99; unsigned *f2 = 0; vital_camera_t **c2 = 0; vital_error_handle_t *eh = vital_eh_new(); d << " listed"; vh::begin(d.str()); vital_camera_map_get_map((vital_camera_map_t *)x.h, &len, &f2, &c2, eh); EXPECT(eh_code(eh) == 0 && len == x.size, "listing the camera map");
          for (size_t i = 0; i < len; ++i) { EXPECT(f2[i] == i * 3 + 1 && c2[i] == cs[i], "camera map entry " << i); ++cams[i]->refs; } free(f2); free(c2); } }
      else if (y) { d << " destroy" << (y - &hs[0]); vh::begin(d.str()); vital_error_handle_t *eh = vh::ri(0, 3) ? vital_eh_new() : 0;
        switch (y->kind) { case 0: vital_config_block_destroy((vital_config_block_t *)y->h, eh); break; case 1: vital_image_container_destroy((vital_image_container_t *)y->h, eh); break; case 2: vital_track_destroy((vital_track_t *)y->h, eh); break;
          case 3: vital_trackset_destroy((vital_trackset_t *)y->h, eh); break; case 4: vital_camera_destroy((vital_camera_t *)y->h, eh); break; default: vital_camera_map_destroy((vital_camera_map_t *)y->h, eh); }
        if (eh) EXPECT(eh_code(eh) == 0, "destroying a live handle failed"); --y->refs; }
      else continue;
      if (x.h) { for (auto &h : hs) if (h.h == x.h && h.kind == x.kind) { EXPECT(h.refs == 0, "a new object got the handle of a live one"); h.h = 0; } hs.push_back(x); }
      else if (op == 0 || op == 2 || op == 4 || op == 5 || op == 7 || op == 8) EXPECT(false, "no handle returned");
      for (auto &h : hs) {
        if (!h.h) continue; int i = (int)(&h - &hs[0]); vital_error_handle_t *eh = vital_eh_new(); bool on = h.refs > 0, ok = true; size_t sz = 0;
        switch (h.kind) {
        case 0: { vital_string_t *s = vital_config_block_get_name((vital_config_block_t *)h.h); ok = s != 0; if (s) { EXPECT(on && h.name == s->str && h.name.size() == s->length, "object " << i << " resolves to block " << s->str); vital_string_free(s); } vital_eh_destroy(eh); break; }
        case 1: { vital_image_t *im = vital_image_container_get_image((vital_image_container_t *)h.h); ok = im != 0; if (im) { EXPECT(vital_image_width(im) == h.size, "object " << i << " resolves to another image"); vital_image_destroy(im); } EXPECT(vital_image_container_width((vital_image_container_t *)h.h) == (on ? h.size : 0), "width"); vital_eh_destroy(eh); break; }
        case 2: sz = vital_track_size((vital_track_t *)h.h, eh); ok = eh_code(eh) == 0; EXPECT(sz == 0, "track size"); break;
        case 3: sz = vital_trackset_size((vital_trackset_t *)h.h, eh); ok = eh_code(eh) == 0; EXPECT(sz == (on ? h.size : 0), "track set " << i << " has size " << sz); break;
        case 4: { bool there = true; try { there = kc::CAMERA_SPTR_CACHE.get((vital_camera_t *)h.h).get() == h.h; } catch (std::exception const &) { there = false; } ok = there; vital_eh_destroy(eh); break; }
        default: sz = vital_camera_map_size((vital_camera_map_t *)h.h, eh); ok = eh_code(eh) == 0; EXPECT(sz == (on ? h.size : 0), "camera map " << i << " has size " << sz); break;
        }
        EXPECT(ok == on, "object " << i << " of kind " << h.kind << " with " << h.refs << " references " << (ok ? "still resolves" : "does not resolve"));
        if (on && (h.kind == 0 || h.kind == 1 || h.kind == 4)) EXPECT(!h.w.expired(), "object " << i << " died while its handle is live");
        if (!on && h.kind == 1) EXPECT(h.w.expired(), "object " << i << " is kept although its handle was destroyed");
      }
    }
    for (auto &h : hs) while (h.refs-- > 0) switch (h.kind) { case 0: vital_config_block_destroy((vital_config_block_t *)h.h, 0); break; case 1: vital_image_container_destroy((vital_image_container_t *)h.h, 0); break; case 2: vital_track_destroy((vital_track_t *)h.h, 0); break;
          case 3: vital_trackset_destroy((vital_trackset_t *)h.h, 0); break; case 4: vital_camera_destroy((vital_camera_t *)h.h, 0); break; default: vital_camera_map_destroy((vital_camera_map_t *)h.h, 0); }
  }
}
static void c22() { cache_histories(); c_histories(); }

// ------------------------------------------------------------------ C23
static void full(const char *s, const std::string &want, const char *what) {
  EXPECT(s != 0, what << ": null"); size_t room = __sanitizer_get_allocated_size(s);
  EXPECT(room >= want.size() + 1, what << ": " << room << " bytes for " << want.size() << " characters and the terminator");
  EXPECT(memcmp(s, want.data(), want.size()) == 0 && s[want.size()] == 0, what << ": content " << vh::q(std::string(s, strnlen(s, room))) << " instead of " << vh::q(want)); }
static void vstr(vital_string_t *s, const std::string &want, const char *what) { EXPECT(s != 0, what << ": null"); EXPECT(s->length == want.size(), what << ": length " << s->length); full(s->str, want, what); vital_string_free(s); }
static std::string text(int lo = 0) { std::string r; long n = vh::ri(0, 5) ? vh::ri(lo, 40) : vh::ri(lo, 600); for (long i = 0; i < n; ++i) r += (char)(vh::ri(0, 3) ? 'a' + vh::ri(0, 25) : vh::ri(1, 255)); return r; }
static void none(vital_error_handle_t *eh, const char *what) { if (!eh) return; EXPECT(eh->error_code == 0 && eh->message == 0, what << ": error " << eh->error_code << " without an exception"); vital_eh_destroy(eh); }
static void error(vital_error_handle_t *eh, int code, const std::string &msg, bool exact, const char *what) {
  if (!eh) return; EXPECT(eh->error_code == code, what << ": error code " << eh->error_code << ", documented is " << code); EXPECT(eh->message != 0, what << ": no message");
  size_t room = __sanitizer_get_allocated_size(eh->message), len = strnlen(eh->message, room); EXPECT(len < room, what << ": the message is not terminated");
  std::string m(eh->message, len); EXPECT(exact ? m == msg : m.size() >= msg.size() && m.compare(m.size() - msg.size(), msg.size(), msg) == 0, what << ": message " << vh::q(m) << ", expected " << vh::q(msg)); vital_eh_destroy(eh); }
static vital_error_handle_t *maybe() { return vh::ri(0, 3) ? vital_eh_new() : 0; }

static int g_check; static bool g_res;
struct alg : kv::algorithm {
  std::string type_name() const { if (g_check == 1) throw std::runtime_error("type trouble"); if (g_check == 2) throw "type word"; if (g_check == 3) throw 17; return "t" + name; }
  kv::algorithm_sptr base_clone() const { return kv::algorithm_sptr(); } std::string impl_name() const { return "impl" + name; } std::string description() const { return ""; }
  void set_configuration(kv::config_block_sptr c) { if (g_check) { std::string m = c->get_value<std::string>("m"); throw std::runtime_error(m); } got = c; }
  bool check_configuration(kv::config_block_sptr c) const { if (g_check == 1) throw std::runtime_error("check trouble"); if (g_check == 2) throw "check word"; if (g_check == 3) throw 4.5; return g_res; }
  std::string name; kv::config_block_sptr got; alg() : kv::algorithm() {} };

static void put(const std::string &f, const std::string &s) { std::ofstream o(f.c_str()); o << s; }
template <class E, class F> std::string what_of(F f) { try { f(); } catch (E const &e) { return e.what(); } return "(no exception)"; }

static void files() {
  std::string name = "f_" + vh::rs("abcdef", 1, 60) + ".conf"; int k = (int)vh::ri(0, 4); vital_error_handle_t *eh = maybe(); vital_config_block_t *cb = 0;
  if (k == 0) { CASE("read of a file that does not exist: " << name << " eh " << !!eh); std::string w = what_of<kv::config_file_not_found_exception>([&] { kv::read_config_file(name); }); cb = vital_config_block_file_read(name.c_str(), eh); EXPECT(!cb, "a block for no file"); error(eh, 1, w, true, "missing file"); return; }
  if (k == 1) { std::string dir = name + ".d"; mkdir(dir.c_str(), 0700); CASE("read of a directory " << dir << " eh " << !!eh); std::string w = what_of<kv::config_file_not_found_exception>([&] { kv::read_config_file(dir); }); cb = vital_config_block_file_read(dir.c_str(), eh); EXPECT(!cb, "a block for a directory"); error(eh, 1, w, true, "directory"); rmdir(dir.c_str()); return; }
  if (k == 2) { put(name, "this is no configuration\n"); CASE("read of a malformed file " << name << " eh " << !!eh); std::string w = what_of<kv::config_file_not_parsed_exception>([&] { kv::read_config_file(name); }); cb = vital_config_block_file_read(name.c_str(), eh); EXPECT(!cb, "a block for a malformed file"); error(eh, 3, w, true, "malformed file"); unlink(name.c_str()); return; }
  if (k == 3) { std::string v = vh::rs("abc", 1, 50); put(name, "some:key = " + v + "\n"); CASE("read of a good file " << name << " eh " << !!eh); cb = vital_config_block_file_read(name.c_str(), eh); EXPECT(cb != 0, "no block"); none(eh, "good file"); vstr(vital_config_block_get_value(cb, "some:key"), v, "value");
    vital_config_block_destroy(cb, 0); unlink(name.c_str()); return; }
  cb = vital_config_block_new(); vital_config_block_set_value(cb, "some:key", "v"); kv::config_block_sptr c = kc::CONFIG_BLOCK_SPTR_CACHE.get(cb); std::string path = name + ".no/" + vh::rs("xyz", 1, 20), file = name + ".no";
  int m = (int)vh::ri(0, 3); if (m == 0) put(file, "a file"); if (m == 1) vital_config_block_unset_value(cb, "some:key"); if (m == 2) { path = name + ".w"; mkdir(path.c_str(), 0700); } if (m == 3) path = name;
  CASE("write to " << path << " eh " << !!eh);
  if (m == 3) { vital_config_block_file_write(cb, path.c_str(), eh); none(eh, "write"); unlink(path.c_str()); }
  else { std::string w = what_of<kv::config_file_write_exception>([&] { kv::write_config_file(c, path); }); vital_config_block_file_write(cb, path.c_str(), eh); error(eh, 1, w, true, "write"); if (m == 2) rmdir(path.c_str()); if (m == 0) unlink(file.c_str()); if (m == 1) { unlink(path.c_str()); rmdir(file.c_str()); } }
  vital_config_block_destroy(cb, 0);
}
static void strings() {
  std::string s = text(); CASE("string " << vh::q(s)); vstr(vital_string_new(s.size(), s.c_str()), s, "vital_string_new");
  if (vh::ri(0, 9) == 0) { vital_string_t *e = vital_string_new(s.size(), 0); EXPECT(e->length == s.size() && e->str[e->length] == 0, "string without content"); vital_string_free(e); }
  std::vector<std::string> l; for (long k = vh::ri(0, 5); k > 0; --k) l.push_back(text()); std::ostringstream d; d << "list"; for (auto &x : l) d << " " << vh::q(x); vh::begin(d.str());
  unsigned len = 77; char **out = 0; kc::make_string_list(l, len, out); EXPECT(len == l.size(), "length " << len); for (unsigned i = 0; i < len; ++i) full(out[i], l[i], "list entry"); 
  if (vh::coin()) vital_common_free_string_list(len, out); else vital_free_double_pointer(len, (void **)out);
  vital_free_pointer(malloc(vh::ri(1, 9))); vital_free_pointer(0); vital_free_double_pointer(3, 0); void **pp = (void **)calloc(2, sizeof(void *)); pp[vh::ri(0, 1)] = malloc(3); vital_free_double_pointer(2, pp);
}
static void blocks() {
  std::string name = text(), key = vh::rs("abc", 1, 9), val = text(), descr = text(); CASE("block " << vh::q(name) << " " << key << " = " << vh::q(val) << " // " << vh::q(descr)); vital_config_block_t *cb = vital_config_block_new_named(name.c_str());
  kv::config_block_sptr c = kc::CONFIG_BLOCK_SPTR_CACHE.get(cb);
  vstr(vital_config_block_get_name(cb), c->get_name(), "name"); EXPECT(c->get_name() == name, "name " << c->get_name());
  if (vh::coin()) { vital_config_block_set_value_descr(cb, key.c_str(), val.c_str(), descr.c_str()); vstr(vital_config_block_get_description(cb, key.c_str()), c->get_description(key), "description"); } else vital_config_block_set_value(cb, key.c_str(), val.c_str());
  vstr(vital_config_block_get_value(cb, key.c_str()), c->get_value<std::string>(key), "value"); vstr(vital_config_block_get_value_default(cb, "zz", val.c_str()), val, "default"); vstr(vital_config_block_get_value_default(cb, key.c_str(), descr.c_str()), c->get_value<std::string>(key), "value with default");
  EXPECT(vital_config_block_get_value(cb, "zz") == 0 && vital_config_block_get_description(cb, "zz") == 0, "string for a missing value"); EXPECT(vital_config_block_has_value(cb, key.c_str()) && !vital_config_block_has_value(cb, "zz"), "has_value");
  for (long k = vh::ri(0, 5); k > 0; --k) vital_config_block_set_value(cb, vh::rs("xy:", 1, 80).c_str(), "1");
  std::vector<std::string> keys = c->available_values(); unsigned len = 0; char **out = 0; vital_config_block_available_values(cb, &len, &out); EXPECT(len == keys.size(), "number of keys " << len); for (unsigned i = 0; i < len; ++i) full(out[i], keys[i], "key"); vital_common_free_string_list(len, out);
  vital_config_block_available_values(cb, 0, &out); vital_config_block_available_values(cb, &len, 0);
  vital_error_handle_t *eh = maybe(); std::string m; bool bad = false, want = false; try { want = c->get_value<bool>(key); } catch (std::exception const &e) { m = e.what(); bad = true; }
  bool got = vital_config_block_get_value_bool(cb, key.c_str(), eh); EXPECT(got == want, "bool value"); if (bad) error(eh, -1, m, false, "bool value"); else none(eh, "bool value");
  vital_config_block_set_value(cb, "flag", vh::coin() ? "true" : "no"); eh = maybe(); EXPECT(vital_config_block_get_value_bool(cb, "flag", eh) == c->get_value<bool>("flag"), "flag"); none(eh, "flag"); eh = maybe(); bool df = vh::coin(); EXPECT(vital_config_block_get_value_default_bool(cb, "zz", df, eh) == df, "default flag"); none(eh, "default flag");
  eh = maybe(); m = what_of<kv::no_such_configuration_value_exception>([&] { c->get_value<bool>("zz"); }); EXPECT(!vital_config_block_get_value_bool(cb, "zz", eh), "missing flag"); error(eh, -1, m, false, "missing flag");
  vital_config_block_mark_read_only(cb, key.c_str()); EXPECT(vital_config_block_is_read_only(cb, key.c_str()), "read-only"); vital_config_block_set_value(cb, key.c_str(), "other"); vital_config_block_unset_value(cb, key.c_str()); EXPECT(c->get_value<std::string>(key) != "other" || val == "other", "read-only value changed"); vital_config_block_unset_value(cb, "none");
  vital_config_block_merge_config(cb, cb); vital_config_block_merge_config(cb, 0); vital_config_block_merge_config(0, cb);
  eh = maybe(); vital_config_block_destroy(cb, eh); none(eh, "destroy"); eh = maybe(); vital_config_block_destroy(0, eh); if (eh) EXPECT(eh->error_code == -1 && eh->message && strlen(eh->message) > 10, "destroying NULL"); vital_eh_destroy(eh);
  EXPECT(vital_config_block_get_name(cb) == 0 && vital_config_block_get_value(cb, "a") == 0 && vital_config_block_subblock(cb, "a") == 0 && vital_config_block_subblock_view(0, "a") == 0, "string of an unknown handle");
}
static void algos() {
  std::shared_ptr<alg> a = std::make_shared<alg>(); a->name = vh::rs("abc", 0, 30); kc::ALGORITHM_SPTR_CACHE.store(a); vital_algorithm_t *h = (vital_algorithm_t *)static_cast<kv::algorithm *>(a.get()); vital_config_block_t *cb = vital_config_block_new(); std::string m = text(1); kc::CONFIG_BLOCK_SPTR_CACHE.get(cb)->set_value<std::string>("m", m);
  m = kc::CONFIG_BLOCK_SPTR_CACHE.get(cb)->get_value<std::string>("m");
  g_check = (int)vh::ri(0, 3); g_res = vh::coin(); CASE("algorithm " << a->name << " throwing " << g_check << " result " << g_res << " message " << vh::q(m));
  static const char *tn[] = { "", "type trouble", "type word", "exception" }, *cn[] = { "", "check trouble", "check word", "exception" };
  vital_error_handle_t *eh = maybe(); vital_string_t *s = vital_algorithm_type_name(h, eh); if (g_check) { EXPECT(!s, "a name"); error(eh, -1, tn[g_check], false, "type_name"); } else { none(eh, "type_name"); vstr(s, "t" + a->name, "type name"); }
  eh = maybe(); bool r = vital_algorithm_check_impl_configuration(h, cb, eh); if (g_check) { EXPECT(!r, "check result"); error(eh, -1, cn[g_check], false, "check_configuration"); } else { none(eh, "check_configuration"); EXPECT(r == g_res, "check_configuration gives " << r << ", the algorithm said " << g_res); }
  eh = maybe(); vital_algorithm_set_impl_configuration(h, cb, eh); if (g_check) error(eh, -1, m, false, "set_configuration"); else { none(eh, "set_configuration"); EXPECT(a->got == kc::CONFIG_BLOCK_SPTR_CACHE.get(cb), "configuration not passed on"); }
  g_check = 0; eh = maybe(); vital_config_block_t *c2 = vital_algorithm_get_impl_configuration(h, eh); EXPECT(c2 != 0, "configuration"); none(eh, "get_configuration"); vital_config_block_destroy(c2, 0);
  kc::ALGORITHM_SPTR_CACHE.erase(h); eh = maybe(); EXPECT(!vital_algorithm_type_name(h, eh), "name of an unknown algorithm"); if (eh) EXPECT(eh->error_code == -1 && eh->message && strstr(eh->message, "No cached"), "unknown algorithm"); vital_eh_destroy(eh); vital_config_block_destroy(cb, 0);
}
static void rest() {
  CASE("images, cameras, track sets"); vital_error_handle_t *eh; size_t w = vh::ri(0, 4), h = vh::ri(0, 4), d = vh::ri(0, 4); bool il = vh::coin(); std::vector<unsigned char> px(w * h * d + 1); for (auto &b : px) b = (unsigned char)vh::ri(0, 255);
  vital_image_t *im = vital_image_new_from_data(&px[0], w, h, d, (int32_t)d, (int32_t)(d * w), 1); EXPECT(im && vital_image_width(im) == w && vital_image_height(im) == h && vital_image_depth(im) == d, "image size");
  for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) EXPECT(vital_image_get_pixel3(im, (unsigned)i, (unsigned)j, (unsigned)k) == px[i * d + j * d * w + k], "pixel"); vital_image_destroy(im);
  im = vital_image_new_from_data(&px[0], w, h, d, (int32_t)d, (int32_t)(d * w), -1); for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < h; ++j) for (size_t i = 0; i < w; ++i) EXPECT(vital_image_get_pixel3(im, (unsigned)i, (unsigned)j, (unsigned)k) == px[i * d + j * d * w + d - 1 - k], "pixel, reversed planes"); vital_image_destroy(im);
  im = vital_image_new_with_dim(w, h, d, il); EXPECT(im && vital_image_width(im) == w, "image"); vital_image_t *i2 = vital_image_new_from_image(im); EXPECT(i2 && vital_image_first_pixel(i2) == vital_image_first_pixel(im), "image copy"); vital_image_destroy(i2); vital_image_destroy(im);
  EXPECT(vital_image_new_with_dim((size_t)1 << 40, (size_t)1 << 20, 1, il) == 0, "an impossible image"); EXPECT(vital_image_new_from_data(&px[0], (size_t)1 << 40, (size_t)1 << 20, 1, 1, 1, 1) == 0, "an impossible image from data");
  std::string f = "c_" + vh::rs("abc", 1, 40); std::string m; try { kv::read_krtd_file(f); } catch (std::exception const &e) { m = e.what(); } eh = maybe(); EXPECT(vital_camera_read_krtd_file(f.c_str(), eh) == 0, "camera of a missing file"); error(eh, -1, m, false, "missing camera file");
  eh = maybe(); EXPECT(vital_trackset_new_from_file(f.c_str(), eh) == 0, "tracks of a missing file"); if (eh) EXPECT(eh->error_code == -1 && strstr(eh->message, f.c_str()), "missing track file"); vital_eh_destroy(eh);
  eh = maybe(); EXPECT(vital_track_empty(0, eh), "empty"); if (eh) EXPECT(eh->error_code == -1 && eh->message, "null track"); vital_eh_destroy(eh); vital_track_t *t = vital_track_new(); eh = maybe(); EXPECT(vital_track_empty(t, eh) && vital_track_size(t, eh) == 0, "empty"); none(eh, "track"); vital_track_destroy(t, 0);
  vital_eh_destroy(0); vital_error_handle_t *n = vital_eh_new(); none(n, "new handle");
}
static void c23() {
  int N = vh::g_thorough ? 20000 : 1200; vital_string_t *g = vital_config_block_block_sep(), *gg = vital_config_block_global_value(); vh::begin("constants");
  EXPECT(std::string(g->str) == kv::config_block::block_sep && g->length == kv::config_block::block_sep.size() && g == vital_config_block_block_sep(), "block_sep"); EXPECT(std::string(gg->str) == kv::config_block::global_value && gg->length == kv::config_block::global_value.size(), "global_value");
  for (int n = 0; n < N; ++n) { strings(); blocks(); algos(); if (n % 4 == 0) files(); if (n % 8 == 0) rest(); }
}
static void body(const std::string &p) { std::cerr.rdbuf(0); if (p == "C22") c22(); else c23(); }
HARNESS_MAIN(body)
