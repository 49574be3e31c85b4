// C27 image_io path checks, C28 filter_features: executable specification against the real code
#include <vital/exceptions/image.h>
#include "h.h"
#include <sys/stat.h>
#include <vital/algo/image_io.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/algorithm.txx>
#include <vital/exceptions/io.h>
#include <vital/types/image.h>
using namespace kwiver::vital;

struct io_impl : algorithm_impl<io_impl, algo::image_io> {
  static std::vector<std::string> loads, saves; static image_container_sptr last, given; static bool raise;
  std::string impl_name() const { return "io_impl"; }
  void set_configuration(config_block_sptr) {} bool check_configuration(config_block_sptr) const { return true; }
private:
  image_container_sptr load_(std::string const &f) const { loads.push_back(f); if (raise) throw image_exception(); return last; }
  void save_(std::string const &f, image_container_sptr d) const { saves.push_back(f); given = d; if (raise) throw image_exception(); }
};
std::vector<std::string> io_impl::loads, io_impl::saves; image_container_sptr io_impl::last, io_impl::given; bool io_impl::raise;

struct kind { bool exists, dir; };
// what is at a path, by stat (follows links)
static kind look(const std::string &p) { struct stat s; kind k = { false, false }; if (p.empty()) return k; if (stat(p.c_str(), &s) == 0) { k.exists = true; k.dir = S_ISDIR(s.st_mode); } return k; }
// containing directory of a path, textually collapsed
static std::string dir_of(const std::string &p) {
  char b[4096]; std::string a = p; if (a.empty() || a[0] != '/') a = std::string(getcwd(b, sizeof b)) + "/" + a;
  std::vector<std::string> c; std::string cur;
  for (size_t i = 1; i <= a.size(); ++i) if (i == a.size() || a[i] == '/') { if (cur == "..") { if (!c.empty()) c.pop_back(); } else if (!cur.empty() && cur != ".") c.push_back(cur); cur.clear(); } else cur += a[i];
  if (!c.empty()) c.pop_back();
  std::string r; for (auto &x : c) r += "/" + x; return r.empty() ? "/" : r;
}
static void c27() {
  char b[4096]; std::string cwd = getcwd(b, sizeof b);
  (void)!system("mkdir -p d/sub e; echo x > f; echo x > d/g.png; : > d/empty; ln -s f lf; ln -s d ld; ln -s nowhere dangling; mkfifo pipe; echo y > 'd/sp ace'; echo z > d/sub/..h; mkdir noperm; echo q > noperm/file; chmod 0 noperm");
  io_impl io; int N = vh::g_thorough ? 30000 : 3000;
  static const char *comp[] = { "d", "e", "f", "d/sub", "..", ".", "lf", "ld", "dangling", "pipe", "g.png", "empty", "sp ace", "nothere", "sub", "..h", "h", "", "noperm", "file", "f ", "D" };
  for (int n = 0; n < N; ++n) {
    std::string p; int k = (int)vh::ri(0, 3); for (int i = 0; i <= k; ++i) p += (i ? (vh::ri(0, 6) ? "/" : "//") : "") + std::string(comp[vh::rnd() % 22]);
    switch (vh::ri(0, 7)) { case 0: p = cwd + "/" + p; break; case 1: p += "/"; break; case 2: p = "./" + p; break; case 3: if (vh::ri(0, 8) == 0) p = vh::pick(std::vector<std::string>{ "", "/", "//", ".", "..", "/nothere", "/nothere/x", "/dev/null" }); break; }
    io_impl::loads.clear(); io_impl::saves.clear(); io_impl::given.reset(); io_impl::raise = vh::ri(0, 9) == 0;
    io_impl::last = vh::ri(0, 4) ? std::make_shared<simple_image_container>(image(1, 1)) : image_container_sptr();
    CASE("image_io path " << vh::q(p) << " implementation " << (io_impl::raise ? "raises" : "works"));
    kind w = look(p); int got = 0; image_container_sptr r; bool back = false;
    try { r = io.load(p); back = true; } catch (path_not_exists const &) { got = 1; } catch (path_not_a_file const &) { got = 2; } catch (image_exception const &) { got = 3; }
    int want = !w.exists ? 1 : w.dir ? 2 : io_impl::raise ? 3 : 0;
    EXPECT(got == want, "load: outcome " << got << " expected " << want << " (1 not exists, 2 not a file, 3 error of the implementation)");
    EXPECT(io_impl::loads.size() == (want == 1 || want == 2 ? 0u : 1u), "load: implementation called " << io_impl::loads.size() << " times");
    if (io_impl::loads.size()) EXPECT(io_impl::loads[0] == p, "load: implementation got path " << vh::q(io_impl::loads[0]));
    if (back) EXPECT(r == io_impl::last, "load: another image is returned");
    EXPECT(io_impl::saves.empty(), "load called save_");
    io_impl::loads.clear();
    std::string d = dir_of(p); kind v = look(d); image_container_sptr img = vh::ri(0, 4) ? std::make_shared<simple_image_container>(image(1, 1)) : image_container_sptr(); got = 0;
    try { io.save(p, img); } catch (path_not_exists const &) { got = 1; } catch (path_not_a_directory const &) { got = 2; } catch (image_exception const &) { got = 3; }
    want = !v.exists ? 1 : !v.dir ? 2 : io_impl::raise ? 3 : 0;
    EXPECT(got == want, "save: outcome " << got << " expected " << want << " for directory " << vh::q(d));
    EXPECT(io_impl::saves.size() == (want == 1 || want == 2 ? 0u : 1u), "save: implementation called " << io_impl::saves.size() << " times");
    if (io_impl::saves.size()) { EXPECT(io_impl::saves[0] == p, "save: implementation got path " << vh::q(io_impl::saves[0])); EXPECT(io_impl::given == img, "save: another image is passed"); }
    EXPECT(io_impl::loads.empty(), "save called load_");
  }
}

struct filter_impl : algorithm_impl<filter_impl, algo::filter_features> {
  static std::vector<unsigned> sel; static int calls; static feature_set_sptr seen, out; static bool overwrite;
  std::string impl_name() const { return "filter_impl"; }
  void set_configuration(config_block_sptr) {} bool check_configuration(config_block_sptr) const { return true; }
  using algo::filter_features::filter;
protected:
  feature_set_sptr filter(feature_set_sptr f, std::vector<unsigned> &idx) const {
    ++calls; seen = f; EXPECT(idx.empty(), "the index list is not empty on entry"); 
    std::vector<feature_sptr> v; if (f) { auto fs = f->features(); for (auto i : sel) if (i < fs.size()) v.push_back(fs[i]); }
    idx = sel; return out = std::make_shared<simple_feature_set>(v); }
};
std::vector<unsigned> filter_impl::sel; int filter_impl::calls; feature_set_sptr filter_impl::seen, filter_impl::out; bool filter_impl::overwrite;
static void c28() {
  int N = vh::g_thorough ? 200000 : 20000; filter_impl f;
  for (int n = 0; n < N; ++n) {
    int k = (int)vh::ri(0, vh::ri(0, 30) ? 8 : 300); std::vector<feature_sptr> fv; std::vector<descriptor_sptr> dv;
    for (int i = 0; i < k; ++i) { fv.push_back(vh::ri(0, 10) ? std::make_shared<feature_d>() : feature_sptr()); dv.push_back(vh::ri(0, 10) ? std::make_shared<descriptor_dynamic<double> >(2) : descriptor_sptr()); }
    filter_impl::sel.clear(); std::ostringstream o;
    if (k) switch (vh::ri(0, 3)) { case 0: for (int i = 0; i < k; ++i) filter_impl::sel.push_back(i); break; case 1: for (int i = 0; i < k; ++i) if (vh::coin()) filter_impl::sel.push_back(i); break;
      case 2: for (int i = (int)vh::ri(0, 2 * k); i > 0; --i) filter_impl::sel.push_back((unsigned)vh::ri(0, k - 1)); break; default: break; }
    for (auto i : filter_impl::sel) o << i << " ";
    CASE("filter " << k << " features, kept indices [" << o.str() << "]");
    feature_set_sptr fs = std::make_shared<simple_feature_set>(fv); descriptor_set_sptr ds = std::make_shared<simple_descriptor_set>(dv);
    filter_impl::calls = 0;
    auto r = static_cast<algo::filter_features &>(f).filter(fs, ds);
    EXPECT(filter_impl::calls == 1 && filter_impl::seen == fs, "the filter is not called once with the features");
    EXPECT(r.first == filter_impl::out, "another feature set is returned");
    EXPECT(r.second, "no descriptors"); auto g = r.second->descriptors();
    EXPECT(g.size() == filter_impl::sel.size() && r.second->size() == g.size(), "kept " << g.size() << " descriptors for " << filter_impl::sel.size() << " features");
    for (size_t i = 0; i < g.size(); ++i) EXPECT(g[i] == dv[filter_impl::sel[i]], "descriptor " << i << " is not that of feature " << filter_impl::sel[i]);
    EXPECT(fs->features() == fv && ds->descriptors() == dv, "the inputs changed");
    filter_impl::calls = 0; auto r1 = static_cast<algo::filter_features &>(f).filter(fs);
    EXPECT(filter_impl::calls == 1 && filter_impl::seen == fs && r1 == filter_impl::out, "filter without descriptors"); EXPECT(fs->features() == fv, "the inputs changed");
  }
}
static void body(const std::string &p) { std::cerr.rdbuf(0); std::clog.rdbuf(0); if (p == "C27") c27(); else if (p == "C28") c28(); }
HARNESS_MAIN(body)
