// C18: enumeration of sparse matrices against the coefficients inserted into them
#include "h.h"
#include <memory>
#include <map>
#include <Eigen/SparseCore>
#include <vital/util/enumerate_matrix.h>
using namespace kwiver::vital;

template <typename T, int O, typename I> static void one()
{
  typedef Eigen::SparseMatrix<T, O, I> M;
  const bool dflt = vh::ri(0, 11) == 0;
  const int r = dflt ? 0 : (int) vh::ri(0, 5), c = dflt ? 0 : (int) vh::ri(0, 5);
  M m, *pm = &m;
  if (!dflt)
    m.resize(r, c);
  std::map<std::pair<int, int>, T> want;       // keyed in storage order: (outer, inner)
  std::string desc = "matrix " + std::to_string(r) + "x" + std::to_string(c) + (O ? " rows" : " columns") + " entries";
  const int n = r && c ? (int) vh::ri(0, vh::coin() ? 4 : r * c) : 0;
  for (int k = 0; k < n; k++)
  {
    const int i = (int) vh::ri(0, r - 1), j = (int) vh::ri(0, c - 1);
    const T v = T(vh::ri(0, 9));      // explicit zeros are stored entries too
    const auto key = O ? std::make_pair(i, j) : std::make_pair(j, i);
    if (want.count(key))
      continue;
    m.insert(i, j) = v;
    want[key] = v;
    desc += " (" + std::to_string(i) + "," + std::to_string(j) + ")=" + std::to_string((int) v);
  }
  if (vh::coin())
  {
    m.makeCompressed();
    desc += " compressed";
  }
  CASE(desc);
  auto const e = enumerate(*pm);
  typedef sparse_matrix_enumerator<T, O, I> E;
  std::vector<typename E::iterator *> at;
  auto w = want.begin();
  size_t steps = 0;
  typename E::iterator it = e.begin();
  for (; it != e.end(); ++it, ++w, ++steps)
  {
    EXPECT(w != want.end(), "more entries visited than stored");
    if (w == want.end())
      break;
    auto const x = *it;
    const std::pair<int, int> rc = O ? w->first : std::make_pair(w->first.second, w->first.first);
    EXPECT(x.row() == rc.first && x.col() == rc.second, "visited (" + std::to_string(x.row()) + "," + std::to_string(x.col()) + "), expected (" + std::to_string(rc.first) + "," + std::to_string(rc.second) + ")");
    EXPECT(x.value() == w->second, "value of the entry");
    at.push_back(new typename E::iterator(it));
  }
  EXPECT(steps == want.size(), "visited " + std::to_string(steps) + " of " + std::to_string(want.size()) + " entries");
  EXPECT(it == e.end() && !(it != e.end()) && e.end() == e.end(), "end compares equal to the end");
  ++it;
  EXPECT(it == e.end(), "the end stays the end");
  for (size_t a = 0; a < at.size(); a++)
    for (size_t b = 0; b < at.size(); b++)
    {
      EXPECT((*at[a] == *at[b]) == (a == b), "iterators at entries " + std::to_string(a) + " and " + std::to_string(b));
      EXPECT((*at[a] != *at[b]) == (a != b), "iterators at entries " + std::to_string(a) + " and " + std::to_string(b));
    }
  M other(m);
  auto const eo = enumerate(other);
  if (!at.empty())
  {
    EXPECT(!(*at[0] == eo.begin()), "iterators of different matrices");
    typename E::iterator q(*at[0]);
    ++q;
    EXPECT(*at[0] == e.begin(), "a copy moves on its own");
    EXPECT(at.size() > 1 ? q == *at[1] : q == e.end(), "next entry");
  }
  for (auto p : at)
    delete p;
}

static void body(const std::string &)
{
  const int n = vh::g_thorough ? 20000 : 1500;
  for (int k = 0; k < n; k++)
    switch (k % 4)
    {
    case 0: one<double, Eigen::ColMajor, int>(); break;
    case 1: one<double, Eigen::RowMajor, int>(); break;
    case 2: one<int, Eigen::ColMajor, long>(); break;
    default: one<float, Eigen::RowMajor, int>();
    }
}
HARNESS_MAIN(body)
