// Oracles shared by several properties.
#pragma once
#include "vf.hh"
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <vector>
#include <memory>
#include <type_traits>
#include <dune/common/fvector.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/common/tuplevector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/common/typetree/traversal.hh>
#include <dune/common/typetree/childaccess.hh>

namespace VF {

using Idx = std::vector<std::size_t>;

template<class MI> Idx toIdx(const MI& mi)
{ Idx r; for (std::size_t i=0; i<mi.size(); ++i) r.push_back(mi[i]); return r; }

inline std::string str(const Idx& a)
{ std::string s="("; for (auto x : a) s += std::to_string(x)+","; return s+")"; }

inline std::uint64_t hidx(const Idx& a) { std::uint64_t h=77; for (auto x : a) h=mix(h,x); return h; }
inline std::uint64_t hdbl(std::uint64_t h, double d) { return mix(h, std::uint64_t(std::llround(d*1e6))); }

// flatten any (nested) vector/matrix/scalar value to doubles
template<class T> void flat(const T& x, std::vector<double>& out)
{
  if constexpr (std::is_arithmetic_v<T>) out.push_back(double(x));
  else if constexpr (requires { x.begin(); x.end(); }) { for (auto&& y : x) flat(y, out); }
  else if constexpr (requires { x.N(); x.size(); x[0]; }) { for (std::size_t i=0; i<x.N(); ++i) flat(x[i], out); }
  else if constexpr (requires { x.size(); x[0]; }) { for (std::size_t i=0; i<x.size(); ++i) flat(x[i], out); }
  else if constexpr (requires { double(x); }) out.push_back(double(x));
  else if constexpr (requires { std::tuple_size<T>::value; }) Dune::Hybrid::forEach(x, [&](auto&& y) { flat(y, out); });
  else static_assert(sizeof(T)==0, "cannot flatten");
}
template<class T> std::vector<double> flat(const T& x) { std::vector<double> r; flat(x,r); return r; }

inline bool nearv(const std::vector<double>& a, const std::vector<double>& b, double tol=1e-8)
{
  if (a.size()!=b.size()) return false;
  double m=1; for (auto x : a) m=std::max(m,std::abs(x)); for (auto x : b) m=std::max(m,std::abs(x));
  for (std::size_t i=0;i<a.size();++i) if (!(std::abs(a[i]-b[i])<=tol*m)) return false;
  return true;
}
inline std::string str(const std::vector<double>& a)
{ std::ostringstream o; o.precision(12); o<<"["; for (std::size_t i=0;i<a.size() && i<40;++i) o<<a[i]<<" "; o<<"]"; return o.str(); }

template<class Tree, class F> void forEachLeaf(const Tree& tree, F&& f)
{ Dune::TypeTree::forEachLeafNode(tree, [&](const auto& node, const auto& tp) { f(node, tp); }); }

template<class Basis> std::size_t sizeAt(const Basis& basis, const Idx& prefix)
{
  typename Basis::SizePrefix p;
  for (auto x : prefix) p.push_back(x);
  return basis.size(p);
}

// random local point strictly inside the reference element
template<int dim> Dune::FieldVector<double,dim> randomLocal(Dune::GeometryType gt)
{
  auto re = Dune::referenceElement<double,dim>(gt);
  Dune::FieldVector<double,dim> x(0); double s=0;
  for (int i=0;i<re.size(dim);++i) { double w=0.05+double(rnd(1000))/1000; s+=w; x.axpy(w, re.position(i,dim)); }
  x/=s; return x;
}

struct IndexOptions { bool allowDuplicates = false; bool requireExactMax = false; };

// The oracle for "the global indices of a basis form a complete consecutive index tree
// that agrees with size(prefix), size() and dimension()".
template<class Basis>
std::map<Idx,std::size_t> checkIndexTree(const Basis& basis, const std::string& label, IndexOptions opt={})
{
  std::map<Idx,std::size_t> all;
  auto lv = basis.localView();
  check(!lv.bound(), label+":fresh-unbound");
  check(lv.size()==0, label+":unbound-size", lv.size());
  std::size_t maxSeen=0;
  for (const auto& e : elements(basis.gridView())) {
    lv.bind(e);
    std::set<Idx> here;
    check(lv.size()<=lv.maxSize(), label+":maxSize", lv.size(), " > ", lv.maxSize());
    check(lv.tree().size()==lv.size(), label+":tree-size", lv.tree().size(), " vs ", lv.size());
    maxSeen = std::max<std::size_t>(maxSeen, lv.size());
    for (std::size_t i=0; i<lv.size(); ++i) {
      auto mi = toIdx(lv.index(i));
      check(!mi.empty(), label+":empty-index");
      check(here.insert(mi).second || opt.allowDuplicates, label+":duplicate-in-element", "index ", str(mi), " appears twice on one element");
      ++all[mi];
      obs("indices");
    }
    std::vector<int> hit(lv.size(),0);
    forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
      if (node.size()==0) return;
      check(node.size()==node.finiteElement().size(), label+":leaf-size", node.size(), " vs ", node.finiteElement().size());
      check(node.finiteElement().type()==e.type(), label+":fe-type");
      check(node.element()==e, label+":node-element");
      for (std::size_t i=0; i<node.size(); ++i) {
        auto li = node.localIndex(i);
        if (check(li<lv.size(), label+":local-index-range", li, " >= ", lv.size())) ++hit[li];
      }
    });
    for (std::size_t i=0;i<hit.size();++i) check(hit[i]==1, label+":local-index-bijective", "local index ", i, " hit ", hit[i], " times");
    obs("elements");
  }
  // trie: child digit sets of every prefix
  std::map<Idx,std::set<std::size_t>> trie;
  for (auto& [mi,n] : all) {
    Idx p;
    for (auto d : mi) { trie[p].insert(d); p.push_back(d); }
  }
  for (auto& [mi,n] : all) {
    check(!trie.count(mi), label+":index-is-prefix", str(mi), " is an index and a strict prefix of another index");
    std::size_t s = sizeAt(basis, mi);
    check(s==0, label+":leaf-prefix-size", "size", str(mi), "=", s, " for a complete index");
  }
  for (auto& [p,ds] : trie) {
    std::size_t s = sizeAt(basis, p);
    check(!ds.empty() && *ds.rbegin()+1==ds.size(), label+":not-consecutive", "digits after ", str(p), ": ", ds.size(), " distinct, largest ", *ds.rbegin());
    check(s==ds.size(), label+":prefix-size", "size", str(p), "=", s, " but ", ds.size(), " children");
    obs("prefixes");
  }
  check(basis.dimension()==all.size(), label+":dimension", basis.dimension(), " vs ", all.size(), " distinct indices");
  check(basis.size()==sizeAt(basis,{}), label+":size-vs-empty-prefix", basis.size(), " vs ", sizeAt(basis,{}));
  std::uint64_t h=hstr(label); h=mix(h,all.size()); for (auto& [mi,n] : all) { h=mix(h,hidx(mi)); h=mix(h,n); }
  state(h);
  sample(cat(label, ": ", basis.gridView().size(0), " elements, dimension ", all.size(), ", top-level size ", basis.size()));
  return all;
}

// everything observable about a bound local view, flattened to numbers
template<class LV>
std::vector<double> signature(const LV& lv)
{
  std::vector<double> s;
  s.push_back(lv.bound());
  s.push_back(lv.size());
  if (!lv.bound()) return s;
  s.push_back(lv.maxSize());
  for (std::size_t i=0;i<lv.size();++i) { auto mi=lv.index(i); s.push_back(mi.size()); for (std::size_t j=0;j<mi.size();++j) s.push_back(mi[j]); }
  flat(lv.element().geometry().center(), s);
  Dune::TypeTree::forEachNode(lv.tree(), [&](const auto& node, const auto&) { s.push_back(node.treeIndex()); s.push_back(node.size()); if (node.size()) { s.push_back(node.localIndex(0)); s.push_back(node.localIndex(node.size()-1)); } });
  forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
    s.push_back(node.size());
    if (node.size()==0) return;
    for (std::size_t i=0;i<node.size();++i) s.push_back(node.localIndex(i));
    flat(node.element().geometry().center(), s);
    const auto& fe = node.finiteElement();
    s.push_back(fe.size());
    using FE = std::decay_t<decltype(fe)>;
    using Traits = typename FE::Traits::LocalBasisType::Traits;
    auto re = Dune::referenceElement<double,Traits::dimDomain>(fe.type());
    s.push_back(fe.type().id()>>1);
    if constexpr (requires { fe.localCoefficients().localKey(0); })
      for (std::size_t i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i); s.push_back(k.subEntity()); s.push_back(k.codim()); s.push_back(k.index()); }
    std::vector<typename Traits::RangeType> v; std::vector<typename Traits::JacobianType> J;
    auto x = re.position(0,0); for (int d=0; d<Traits::dimDomain; ++d) x[d] *= 0.7+0.1*d;
    fe.localBasis().evaluateFunction(x,v); flat(v,s);
    fe.localBasis().evaluateJacobian(x,J); flat(J,s);
  });
  return s;
}

} // namespace VF
