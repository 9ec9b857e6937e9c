// Combinators that build a pre-basis factory together with a reference model of the
// indices: the model takes the children's index sets and applies the documented rule.
#pragma once
#include "grids.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>

namespace TreeModel {
using VF::Idx;
namespace BF = Dune::Functions::BasisFactory;

// indices of one (sub)tree: [element][leaf][i]
struct Model {
  std::vector<std::vector<std::vector<Idx>>> idx;
  std::set<Idx> all() const { std::set<Idx> s; for (auto& e : idx) for (auto& l : e) for (auto& i : l) s.insert(i); return s; }
  std::size_t size0() const { std::size_t m=0; for (auto& i : all()) m=std::max(m,i[0]+1); return m; }
};

enum class M { BL, FL, BI, FI, DEF };
inline const char* name(M m) { switch(m) { case M::BL: return "bl"; case M::FL: return "fl"; case M::BI: return "bi"; case M::FI: return "fi"; default: return "def"; } }

template<class Map> Model mapped(const Model& in, Map f)
{ Model r=in; for (auto& e : r.idx) for (auto& l : e) for (auto& i : l) i=f(i); return r; }

inline Model append(const std::vector<Model>& parts)
{
  Model r; r.idx.resize(parts.front().idx.size());
  for (auto& p : parts) for (std::size_t e=0;e<r.idx.size();++e) for (auto& l : p.idx[e]) r.idx[e].push_back(l);
  return r;
}

// merge the children's models
inline Model merge(const std::vector<Model>& ch, M m)
{
  std::vector<Model> parts; std::size_t off=0, k=ch.size();
  for (std::size_t c=0;c<k;++c) {
    parts.push_back(mapped(ch[c], [&](Idx i) {
      switch(m) {
        case M::BL: i.insert(i.begin(), c); break;
        case M::FL: i[0]+=off; break;
        case M::BI: i.push_back(c); break;
        case M::FI: i[0]=i[0]*k+c; break;
        default: std::abort();
      }
      return i; }));
    off += ch[c].size0();
  }
  return append(parts);
}

template<class Fac> struct LeafT {
  Fac fac;
  auto factory() const { return fac; }
  template<class GV> Model model(const GV& gv) const
  {
    auto basis = BF::makeBasis(gv, fac);
    auto lv = basis.localView();
    Model r;
    for (const auto& e : elements(gv)) {
      lv.bind(e);
      r.idx.emplace_back();
      VF::forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
        std::vector<Idx> v;
        for (std::size_t i=0;i<node.size();++i) v.push_back(VF::toIdx(lv.index(node.localIndex(i))));
        r.idx.back().push_back(v);
      });
    }
    return r;
  }
};
template<class Fac> auto leaf(Fac f) { return LeafT<Fac>{f}; }

template<M m> auto strategy()
{
  if constexpr (m==M::BL) return BF::blockedLexicographic();
  else if constexpr (m==M::FL) return BF::flatLexicographic();
  else if constexpr (m==M::BI) return BF::blockedInterleaved();
  else return BF::flatInterleaved();
}

template<std::size_t k, M m, class C> struct PowT {
  C c;
  auto factory() const { if constexpr (m==M::DEF) return BF::power<k>(c.factory()); else return BF::power<k>(c.factory(), strategy<m>()); }
  template<class GV> Model model(const GV& gv) const { auto x=c.model(gv); return merge(std::vector<Model>(k,x), m==M::DEF ? M::BI : m); }
};
template<std::size_t k, M m=M::DEF, class C> auto pow(C c) { return PowT<k,m,C>{c}; }

template<M m, class C> struct DynT {
  C c; std::size_t k;
  auto factory() const { if constexpr (m==M::DEF) return BF::power(c.factory(), k); else return BF::power(c.factory(), k, strategy<m>()); }
  template<class GV> Model model(const GV& gv) const { auto x=c.model(gv); return merge(std::vector<Model>(k,x), m==M::DEF ? M::BI : m); }
};
template<M m=M::DEF, class C> auto dyn(C c, std::size_t k) { return DynT<m,C>{c,k}; }

template<M m, class... C> struct CompT {
  std::tuple<C...> c;
  auto factory() const { return std::apply([](auto&... x) { if constexpr (m==M::DEF) return BF::composite(x.factory()...); else return BF::composite(x.factory()..., strategy<m>()); }, c); }
  template<class GV> Model model(const GV& gv) const
  {
    std::vector<Model> ch; std::apply([&](auto&... x) { (ch.push_back(x.model(gv)),...); }, c);
    return merge(ch, m==M::DEF ? M::BL : m);
  }
};
template<M m=M::DEF, class... C> auto comp(C... c) { return CompT<m,C...>{{c...}}; }

// number of children of every prefix of the index set
inline std::map<Idx,std::size_t> sizes(const std::set<Idx>& all)
{
  std::map<Idx,std::size_t> r;
  for (auto& i : all) { Idx p; for (auto d : i) { r[p]=std::max(r[p],d+1); p.push_back(d); } r[i]=0; }
  return r;
}
} // namespace TreeModel

#define TREE_CASE(nm, mk, expr) static VF::Registrar VF_CAT(vf_t_,__COUNTER__)(nm, []{ body(nm, []{ return Spaces::mk(); }, []{ return expr; }); })
