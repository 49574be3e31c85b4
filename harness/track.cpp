// C12 track, C13 track_set: executable specification against the real classes
#include "h.h"
#include <vital/types/track.h>
#include <vital/types/track_set.h>
#include <vital/types/feature.h>
#include <memory>
#include <map>
using namespace kwiver::vital;
typedef track::track_state TS;

struct St { frame_id_t f; feature_sptr a; descriptor_sptr d; };
static std::vector<feature_sptr> FEATS;
static feature_sptr nf() { FEATS.push_back(feature_sptr(new feature_<double>(vector_2d((double)FEATS.size(), 1.0)))); return FEATS.back(); }
static descriptor_sptr nd() { return descriptor_sptr(); }

static std::string show(const std::vector<frame_id_t> &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }

static void same(const track &t, const std::vector<St> &m) {
  EXPECT(t.size() == m.size(), "size " << t.size() << " expected " << m.size());
  EXPECT(t.empty() == m.empty(), "empty()");
  size_t i = 0;
  frame_id_t prev = 0;
  for (track::history_const_itr it = t.begin(); it != t.end(); ++it, ++i) {
    EXPECT(it->frame_id == m[i].f && it->feat == m[i].a && it->desc == m[i].d, "state " << i << " is frame " << it->frame_id << " expected " << m[i].f);
    EXPECT(i == 0 || prev < it->frame_id, "history not strictly increasing at " << i);
    prev = it->frame_id;
  }
  EXPECT(t.first_frame() == (m.empty() ? 0 : m.front().f), "first_frame " << t.first_frame());
  EXPECT(t.last_frame() == (m.empty() ? 0 : m.back().f), "last_frame " << t.last_frame());
  std::set<frame_id_t> s; for (size_t k = 0; k < m.size(); ++k) s.insert(m[k].f);
  EXPECT(t.all_frame_ids() == s, "all_frame_ids");
}
static void finds(const track &t, const std::vector<St> &m, frame_id_t lo, frame_id_t hi) {
  for (frame_id_t f = lo; ; ++f) {
    track::history_const_itr it = t.find(f);
    size_t at = m.size(); for (size_t k = 0; k < m.size(); ++k) if (m[k].f == f) at = k;
    EXPECT((size_t)(it - t.begin()) == at, "find(" << f << ") is state " << (it - t.begin()) << " expected " << at << " of " << m.size());
    if (f == hi) break;
  }
}

static frame_id_t rframe(int range) {
  switch (vh::ri(0, 19)) { case 0: return std::numeric_limits<frame_id_t>::max() - vh::ri(0, 2); case 1: return std::numeric_limits<frame_id_t>::min() + vh::ri(0, 2); case 2: return 0; default: return vh::ri(-range, range); }
}
static std::vector<frame_id_t> rframes(int n, int range, bool sorted) {
  std::set<frame_id_t> s; std::vector<frame_id_t> v;
  for (int i = 0; i < n; ++i) { frame_id_t f = rframe(range); s.insert(f); v.push_back(f); }
  if (sorted) return std::vector<frame_id_t>(s.begin(), s.end());
  return v;
}

static void c12() {
  int N = vh::g_thorough ? 60000 : 6000;
  for (int n = 0; n < N; ++n) {
    int range = n % 3 == 0 ? 3 : n % 3 == 1 ? 12 : 200;
    std::vector<frame_id_t> seq = rframes(vh::ri(0, n % 7 == 0 ? 40 : 8), range, n % 2);
    CASE("append states on frames " << show(seq));
    track t; std::vector<St> m;
    same(t, m);
    EXPECT(t.id() == 0, "new track id");
    for (size_t i = 0; i < seq.size(); ++i) {
      St s = { seq[i], nf(), nd() };
      bool want = m.empty() || m.back().f < s.f;
      bool got = t.append(TS(s.f, s.a, s.d));
      EXPECT(got == want, "append of frame " << s.f << " returned " << got);
      if (want) m.push_back(s);
      same(t, m);
    }
    finds(t, m, -range - 2, range + 2);
    if (!m.empty()) for (size_t k = 0; k < m.size(); ++k) finds(t, m, m[k].f, m[k].f);
    track_id_t id = (track_id_t)vh::rnd(); t.set_id(id);
    track cp(t); EXPECT(cp.id() == id && t.id() == id, "id not copied"); same(cp, m);
    // append of a whole track
    std::vector<frame_id_t> o = rframes(vh::ri(0, 6), range, true);
    if (!m.empty() && vh::coin() && m.back().f < 1000000) { std::vector<frame_id_t> o2; frame_id_t f = m.back().f + vh::ri(-1, 2); for (int k = vh::ri(1, 5); k > 0; --k) { o2.push_back(f); f += vh::ri(1, 3); } o = o2; }
    CASE("track " << show(rframes(0, 1, 1)) << " with frames of case " << n << " appends track " << show(o) << " (last frame " << (m.empty() ? 0 : m.back().f) << ", size " << m.size() << ")");
    track ot; std::vector<St> om;
    for (size_t k = 0; k < o.size(); ++k) { St s = { o[k], nf(), nd() }; ot.append(TS(s.f, s.a, s.d)); om.push_back(s); }
    same(ot, om);
    bool want = m.empty() || om.empty() || m.back().f < om.front().f;
    bool got = t.append(ot);
    EXPECT(got == want, "append of a track returned " << got);
    std::vector<St> m0 = m;
    if (want) m.insert(m.end(), om.begin(), om.end());
    same(t, m); same(ot, om); same(cp, m0);
    if (t.size()) { bool g = t.append(t); EXPECT(!g, "a track was appended to itself"); same(t, m); }
    if (!seq.empty()) { TS s1(seq[0], nf(), nd()); track one(s1); std::vector<St> mm; St s = { s1.frame_id, s1.feat, s1.desc }; mm.push_back(s); same(one, mm); EXPECT(one.id() == 0, "id"); }
  }
}

// ------------------------------------------------------------------ track_set
struct MT { track_sptr t; std::vector<St> m; };
static std::vector<track_sptr> sel(const std::vector<MT> &v, const std::vector<int> &k) { std::vector<track_sptr> r; for (size_t i = 0; i < v.size(); ++i) if (k[i]) r.push_back(v[i].t); return r; }
static int stateat(const MT &t, frame_id_t f) { for (size_t k = 0; k < t.m.size(); ++k) if (t.m[k].f == f) return (int)k; return -1; }

static void c13() {
  int N = vh::g_thorough ? 40000 : 4000;
  for (int n = 0; n < N; ++n) {
    std::vector<MT> v; std::vector<track_sptr> ts; std::ostringstream d;
    int nt = (int)vh::ri(0, n % 5 == 0 ? 12 : 4), base = vh::coin() ? 0 : (int)vh::ri(0, 9);
    for (int i = 0; i < nt; ++i) {
      MT x; x.t = track_sptr(new track); x.t->set_id(vh::ri(-1, 3));
      frame_id_t f = base + vh::ri(0, 4); int ns = vh::ri(0, 9) == 0 ? 0 : (int)vh::ri(1, 6);
      d << (i ? " " : "") << "id" << x.t->id() << "[";
      for (int k = 0; k < ns; ++k) { St s = { f, nf(), nd() }; x.t->append(TS(s.f, s.a, s.d)); x.m.push_back(s); d << (k ? "," : "") << f; f += vh::ri(0, 3) == 0 ? vh::ri(2, 4) : 1; }
      d << "]"; v.push_back(x); ts.push_back(x.t);
    }
    CASE("track_set of " << d.str());
    simple_track_set set(ts);
    EXPECT(set.tracks() == ts, "tracks()"); EXPECT(set.size() == ts.size() && set.empty() == ts.empty(), "size"); EXPECT(set.track_set::size() == ts.size(), "size");
    frame_id_t lo = 0, hi = 0; bool any = false; std::set<frame_id_t> fr; std::set<track_id_t> ids;
    for (size_t i = 0; i < v.size(); ++i) { ids.insert(v[i].t->id()); for (size_t k = 0; k < v[i].m.size(); ++k) { frame_id_t f = v[i].m[k].f; fr.insert(f); if (!any || f < lo) lo = f; if (!any || f > hi) hi = f; any = true; } }
    EXPECT(set.first_frame() == lo, "first_frame " << set.first_frame() << " expected " << lo);
    EXPECT(set.last_frame() == hi, "last_frame " << set.last_frame() << " expected " << hi);
    EXPECT(set.all_frame_ids() == fr, "all_frame_ids"); EXPECT(set.all_track_ids() == ids, "all_track_ids");
    for (track_id_t id = -2; id <= 4; ++id) { track_sptr w; for (size_t i = 0; i < v.size() && !w; ++i) if (v[i].t->id() == id) w = v[i].t; EXPECT(set.get_track(id) == w, "get_track(" << id << ")"); }
    for (frame_id_t off = -hi - 4; off <= hi + 2; ++off) {
      frame_id_t f = off >= 0 ? off : (-off <= hi + 1 ? hi + 1 + off : hi + 1);
      std::vector<int> ac(v.size()), in(v.size()), nw(v.size()), te(v.size()); std::vector<feature_sptr> ff; std::vector<descriptor_sptr> fd;
      for (size_t i = 0; i < v.size(); ++i) { int k = stateat(v[i], f); ac[i] = k >= 0; in[i] = k < 0; nw[i] = !v[i].m.empty() && v[i].m.front().f == f; te[i] = !v[i].m.empty() && v[i].m.back().f == f; if (k >= 0) { ff.push_back(v[i].m[k].a); fd.push_back(v[i].m[k].d); } }
      EXPECT(set.active_tracks(off)->tracks() == sel(v, ac), "active_tracks(" << off << ")");
      EXPECT(set.inactive_tracks(off)->tracks() == sel(v, in), "inactive_tracks(" << off << ")");
      EXPECT(set.new_tracks(off)->tracks() == sel(v, nw), "new_tracks(" << off << ")");
      EXPECT(set.terminated_tracks(off)->tracks() == sel(v, te), "terminated_tracks(" << off << ")");
      EXPECT(set.frame_features(off)->features() == ff, "frame_features(" << off << ")");
      EXPECT(set.frame_descriptors(off)->descriptors() == fd, "frame_descriptors(" << off << ")");
      for (frame_id_t o2 = -3; o2 <= 3; ++o2) {
        frame_id_t g = o2 >= 0 ? o2 : (-o2 <= hi + 1 ? hi + 1 + o2 : hi + 1); unsigned a = 0, b = 0;
        for (size_t i = 0; i < v.size(); ++i) { bool x = stateat(v[i], f) >= 0, y = stateat(v[i], g) >= 0; a += x || y; b += x && y; }
        EXPECT(set.percentage_tracked(off, o2) == (a ? (double)b / a : 0.0), "percentage_tracked(" << off << "," << o2 << ")");
      }
    }
    std::vector<feature_sptr> lf; std::vector<descriptor_sptr> ld;
    for (size_t i = 0; i < v.size(); ++i) if (!v[i].m.empty() && v[i].m.back().f == hi) { lf.push_back(v[i].m.back().a); ld.push_back(v[i].m.back().d); }
    EXPECT(set.last_frame_features()->features() == lf, "last_frame_features"); EXPECT(set.last_frame_descriptors()->descriptors() == ld, "last_frame_descriptors");
  }
}
static void body(const std::string &p) { if (p == "C12") c12(); else c13(); FEATS.clear(); }
HARNESS_MAIN(body)
