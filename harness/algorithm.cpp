// registration, creation by name and nested configurations against a map of what was registered
#include "h.h"
#include <iostream>
#include <map>
#include <set>
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
using namespace kwiver::vital;
template <int N> struct type_name_of;
template <> struct type_name_of<0> { static std::string get() { return "alpha"; } };
template <> struct type_name_of<1> { static std::string get() { return "an_alpha"; } };
template <> struct type_name_of<2> { static std::string get() { return "alpha_im"; } };
template <int N> class def : public algorithm_def< def<N> > {
public:
  static std::string static_type_name() { return type_name_of<N>::get(); }
  virtual int tag() const = 0;
  virtual int number() const = 0;
  virtual std::string text() const = 0;
  virtual void put(int, std::string const &) = 0;
};
template <int N> class impl : public algorithm_impl< impl<N>, def<N> > {
public:
  impl(std::string const &n, int t) : name(n), tg(t), num(7), txt("start") { }
  virtual std::string impl_name() const { return name; }
  virtual config_block_sptr get_configuration() const {
    config_block_sptr c = algorithm::get_configuration();
    c->set_value("number", num, "a number"); c->set_value("text", txt, "a text");
    if (N == 0) def<1>::get_nested_algo_configuration("inner", c, inner);
    return c;
  }
  virtual void set_configuration(config_block_sptr c) {
    num = c->get_value<int>("number", num); txt = c->get_value<std::string>("text", txt);
    if (N == 0) def<1>::set_nested_algo_configuration("inner", c, inner);
  }
  virtual bool check_configuration(config_block_sptr c) const { return c->get_value<std::string>("text", "") != "bad"; }
  virtual std::string description() const { return tg % 2 ? "odd" : ""; }
  virtual int tag() const { return tg; }
  virtual int number() const { return num; }
  virtual std::string text() const { return txt; }
  virtual void put(int n, std::string const &t) { num = n; txt = t; }
  std::string name; int tg, num; std::string txt; std::shared_ptr< def<1> > inner;
};
static std::map<std::string, int> reg;                     // qualified name -> tag
static std::map<std::string, int> own[3];
static const char *inames[] = { "im", "impl", "a", "im:a", "zed", "x", "A", "alpha:im" };
static const char *tnames[] = { "alpha", "an_alpha", "alpha_im", "alp", "alphabet", "alpha:", "none" };
static std::string in() { return inames[vh::ri(0, 7)]; }
static std::string history;
template <int N> static void add() {
  static int tag = 10 * N;
  std::string n = in();
  int t = tag += 100;
  bool nul = vh::ri(0, 9) == 0;
  bool r = def<N>::register_instance(registrar::instance(), std::shared_ptr< def<N> >(nul ? 0 : new impl<N>(n, t)));
  history += "register " + type_name_of<N>::get() + ":" + n + (nul ? " (null)" : "") + "; ";
  CASE(history);
  EXPECT(r == !nul, "register_instance returned " << r);
  if (!nul) { reg[type_name_of<N>::get() + ":" + n] = t; own[N][n] = t; }
}
template <int N> static int tag_of(algorithm_sptr a) { std::shared_ptr< def<N> > p = std::dynamic_pointer_cast< def<N> >(a); return p ? p->tag() : -1; }
static int tag_of(algorithm_sptr a) { if (!a) return -2; int t = tag_of<0>(a); if (t < 0) t = tag_of<1>(a); if (t < 0) t = tag_of<2>(a); return t; }
template <int N> static void typed() {
  CASE(history + " typed " + type_name_of<N>::get());
  std::vector<std::string> v = def<N>::registered_names();
  std::set<std::string> s(v.begin(), v.end());
  EXPECT(s.size() == v.size() && v.size() == own[N].size(), "registered_names has " << v.size() << " entries, " << own[N].size() << " are registered");
  for (auto const &e : own[N]) EXPECT(s.count(e.first), "registered_names lacks '" << e.first << "'");
  for (int q = 0; q < 8; ++q) {
    std::string n = inames[q];
    bool has = own[N].count(n) > 0;
    EXPECT(def<N>::has_impl_name(n) == has, "has_impl_name(" << n << ") is " << !has);
    std::shared_ptr< def<N> > a = def<N>::create(n), b = def<N>::create(n);
    EXPECT(!!a == has, "create(" << n << ") gave " << (a ? "an object" : "nothing"));
    if (a) { EXPECT(a->tag() == own[N][n] && a->impl_name() == n && a->type_name() == type_name_of<N>::get(), "create(" << n << ") gave the implementation " << a->impl_name() << " with tag " << a->tag() << " instead of " << own[N][n]);
      EXPECT(a != b, "create returns the same object twice"); a->put(99, "changed"); EXPECT(b->number() == 7 && def<N>::create(n)->number() == 7, "a change of one object shows in another"); }
  }
}
static void lookups() {
  for (int q = 0; q < 7; ++q) {
    std::string t = tnames[q];
    CASE(history + " look up type " + t);
    std::set<std::string> want;
    for (auto const &e : reg) if (e.first.compare(0, t.size() + 1, t + ":") == 0) want.insert(e.first.substr(t.size() + 1));
    std::vector<std::string> v = algorithm::registered_names(t);
    EXPECT(std::set<std::string>(v.begin(), v.end()) == want && v.size() == want.size(), "registered_names lists " << v.size() << " names instead of " << want.size());
    EXPECT(algorithm::has_type_name(t) == !want.empty(), "has_type_name is " << want.empty());
    for (int k = 0; k < 8; ++k) {
      std::string n = inames[k];
      bool has = want.count(n) > 0;
      EXPECT(algorithm::has_impl_name(t, n) == has, "has_impl_name(" << n << ") is " << !has);
      algorithm_sptr a = algorithm::create(t, n);
      EXPECT(tag_of(a) == (has ? reg[t + ":" + n] : -2), "create(" << n << ") gave tag " << tag_of(a));
    }
  }
  std::vector<std::string> all = algorithm::registered_names(), all2 = registrar::instance().registered_names<algorithm>();
  EXPECT(all.size() == reg.size() && all == all2 && std::set<std::string>(all.begin(), all.end()).size() == all.size(), "the list of all names has " << all.size() << " entries instead of " << reg.size());
  for (auto const &e : reg) { EXPECT(registrar::instance().is_registered<algorithm>(e.first), "is_registered(" << e.first << ") is false"); EXPECT(tag_of(registrar::instance().find<algorithm>(e.first)) == e.second, "find(" << e.first << ") gives another item"); }
  EXPECT(!registrar::instance().is_registered<algorithm>("alpha:nobody") && !registrar::instance().find<algorithm>("alpha:nobody"), "an item that was never registered is found");
}
template <int N> static void nested() {
  config_block_sptr c = config_block::empty_config("top");
  std::string name = vh::coin() ? "det" : "a:b", n = in(), txt = vh::ri(0, 3) ? "some words" : "bad";
  std::string where = name + ":" + n;
  CASE(history + " nested " + type_name_of<N>::get() + ":" + n + " as " + name + " text=" + txt);
  bool has = own[N].count(n) > 0;
  int num = vh::ri(-1000, 1000);
  c->set_value("other", "kept"); c->set_value(name + ":else", "kept too"); c->set_value("det2:type", "x");
  std::shared_ptr< def<N> > a = def<N>::create(n), inner_before;
  if (a) {
    a->put(num, txt);
    if (N == 0 && vh::coin() && !own[1].empty()) { impl<0> *p = dynamic_cast<impl<0> *>((algorithm *)a.get()); p->inner = def<1>::create(own[1].begin()->first); p->inner->put(num + 1, "inner text"); }
  }
  if (vh::ri(0, 4) == 0) c->set_value(name + ":type", "old");
  bool old = c->has_value(name + ":type");
  def<N>::get_nested_algo_configuration(name, c, a);
  EXPECT(c->get_value<std::string>("other") == "kept" && c->get_value<std::string>(name + ":else") == "kept too" && c->get_value<std::string>("det2:type") == "x", "another entry of the configuration has changed");
  std::string ty = c->get_value<std::string>(name + ":type", "missing");
  EXPECT(ty == (a ? n : old ? "old" : ""), "type is '" << ty << "'");
  if (a) {
    EXPECT(c->get_value<int>(where + ":number", 0) == num && c->get_value<std::string>(where + ":text", "") == txt, "the parameters were not written");
    std::string d = c->get_description(name + ":type");
    for (auto const &e : own[N]) EXPECT(d.find("\t- " + e.first) != std::string::npos, "the description does not offer " << e.first);
  }
  bool chk = def<N>::check_nested_algo_configuration(name, c);
  bool nm = own[N].count(ty) > 0;
  EXPECT(chk == (nm && c->get_value<std::string>(name + ":" + ty + ":text", "") != "bad"), "the check says " << chk << " for type '" << ty << "'");
  std::shared_ptr< def<N> > keep = own[N].empty() ? std::shared_ptr< def<N> >() : def<N>::create(own[N].begin()->first), r = keep;
  def<N>::set_nested_algo_configuration(name, c, r);
  if (!nm) EXPECT(r == keep, "the algorithm was replaced although '" << ty << "' is not registered");
  else {
    EXPECT(r && r != keep && r->tag() == own[N][ty], "built the implementation with tag " << (r ? r->tag() : -1) << " instead of " << own[N][ty]);
    if (a && r) { EXPECT(r->impl_name() == n && r->number() == num && r->text() == txt, "built with number " << r->number() << " text '" << r->text() << "' instead of " << num << " '" << txt << "'");
      if (N == 0) { impl<0> *p = dynamic_cast<impl<0> *>((algorithm *)a.get()), *q = dynamic_cast<impl<0> *>((algorithm *)r.get()); EXPECT(!p->inner == !q->inner, "the inner algorithm was " << (q->inner ? "made up" : "lost")); if (p->inner) EXPECT(q->inner->tag() == p->inner->tag() && q->inner->number() == num + 1 && q->inner->text() == "inner text", "the inner algorithm was built differently"); } }
  }
  // the configuration of all implementations
  if (a && !n.empty()) {
    config_block_sptr all = def<N>::get_impl_configurations();
    for (auto const &e : own[N]) if (!e.first.empty()) EXPECT(all->get_value<int>(e.first + ":number", 0) == 7 && all->get_value<std::string>(e.first + ":text", "") == "start", "the configuration of " << e.first << " is missing");
  }
  // missing or unknown names
  config_block_sptr e = config_block::empty_config();
  r = keep;
  def<N>::set_nested_algo_configuration(name, e, r);
  EXPECT(r == keep && !def<N>::check_nested_algo_configuration(name, e), "an empty configuration builds or passes the check");
  e->set_value(name + ":type", "unheard of");
  def<N>::set_nested_algo_configuration(name, e, r);
  EXPECT(r == keep && !def<N>::check_nested_algo_configuration(name, e), "an unregistered name builds or passes the check");
}
static void body(std::string const &) {
  std::cerr.rdbuf(0); std::clog.rdbuf(0); std::cout.rdbuf(0);
  int rounds = vh::g_thorough ? 2000 : 200;
  for (int k = 0; k < rounds; ++k) {
    if (k % 3 == 0) { add<0>(); if (vh::coin()) add<1>(); if (vh::coin()) add<2>(); }
    if (history.size() > 900) history = "... " + history.substr(history.size() - 800);
    lookups(); typed<0>(); typed<1>(); typed<2>();
    for (int i = 0; i < 5; ++i) { nested<0>(); nested<1>(); nested<2>(); }
  }
}
HARNESS_MAIN(body)
