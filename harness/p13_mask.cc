// P13: masked interpolation writes exactly the marked entries
#include "interp.hh"
#include <dune/common/bitsetvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/containerfactory.hh>
using namespace VF;
using namespace TreeModel;
using namespace Dune::Indices;
template<int n> using FV = Dune::FieldVector<double,n>;
using Dune::Functions::istlVectorBackend;

template<class Basis> std::set<Idx> allIndices(const Basis& basis)
{
  std::set<Idx> s; auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) { lv.bind(e); forEachLeaf(lv.tree(), [&](const auto& n, const auto&) { for (std::size_t i=0;i<n.size();++i) s.insert(toIdx(lv.index(n.localIndex(i)))); }); }
  return s;
}
// random subsets: empty, full, sparse, dense, single
inline std::set<Idx> randomMask(const std::set<Idx>& all)
{
  std::set<Idx> m; int kind=rnd(6);
  for (auto& i : all) {
    bool t = kind==0 ? false : kind==1 ? true : kind==2 ? rnd(10)==0 : kind==3 ? rnd(10)!=0 : kind==4 ? rnd(2)==0 : i.back()%2==0;
    if (t) m.insert(i);
  }
  return m;
}
// mask backend accepting multi-indices directly
struct SetMask {
  const std::set<Idx>* s;
  template<class MI> requires requires(const MI& m) { m.size(); m[0]; }
  bool operator[](const MI& mi) const { return s->count(toIdx(mi)); }
};

// root: basis whose hierarchy the containers follow; basis: root or a subspace
template<class R, class Basis, class Root, class... Masks>
void run(const Root& root, const Basis& basis, const std::string& key, Masks... masks)
{
  Comps f; auto fun=rangeFunction<R>(f);
  auto all = allIndices(basis), rootAll = allIndices(root);
  MonVec ref; Dune::Functions::interpolate(basis, ref, fun);
  auto compare = [&](auto&& interpolateWith, const std::set<Idx>& marked, const std::string& k) {
    MonVec v; for (auto& i : rootAll) v.data[i] = rnd(2) ? std::nan("5") : urnd(); auto v0=v.data; v.touched.clear();
    interpolateWith(v);
    check(v.data.size()==rootAll.size(), k+":unknown-index");
    for (auto& [i,x] : v.data) {
      bool in = marked.count(i) && all.count(i);
      check(in==(v.touched.count(i)>0), k+":touched", str(i), in ? " marked but not written" : " written though not marked");
      if (in) check(near(x, ref.data[i], 1e-12), k+":value", str(i), ": ", x, " unmasked: ", ref.data[i]);
      else check(bitEq(x, v0[i]), k+":changed", str(i));
      obs("entries");
    }
    std::uint64_t h=hstr(k); for (auto& i : marked) h=mix(h,hidx(i)); state(h); obs("interpolations");
  };
  for (int rep=0; rep<scale(4,12); ++rep) {
    auto marked = randomMask(rootAll);
    if (marked.empty()) obs("empty-masks");
    compare([&](auto& v) { Dune::Functions::interpolate(basis, v, fun, SetMask{&marked}); }, marked, key+":set");
    compare([&](auto& v) { Dune::Functions::interpolate(basis, v, fun, SetMask{&marked}, Dune::Functions::HierarchicNodeToRangeMap()); }, marked, key+":ntre");
    // hierarchical containers as masks
    int no=0;
    auto withContainer = [&](auto mask) {
      auto mb = istlVectorBackend(mask); mb.resize(root);
      auto lv=root.localView();
      for (const auto& e : elements(root.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) mb[lv.index(i)] = marked.count(toIdx(lv.index(i)))>0; }
      auto k = key+":mask"+std::to_string(no++);
      compare([&](auto& v) { Dune::Functions::interpolate(basis, v, fun, std::as_const(mask)); }, marked, k);
      compare([&](auto& v) { auto cb=istlVectorBackend(std::as_const(mask)); Dune::Functions::interpolate(basis, v, fun, cb); }, marked, k+"b");
      // real coefficient container together with the mask
      if constexpr (requires { root.containerDescriptor()[_0]; }) {
        auto c = Dune::Functions::makeContainer<double>(root.containerDescriptor(), 0.0);
        auto cb=istlVectorBackend(c); std::map<Idx,double> before;
        for (const auto& e : elements(root.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) before[toIdx(lv.index(i))] = cb[lv.index(i)] = urnd(); }
        if (rnd(2)) Dune::Functions::interpolate(basis, c, fun, mask); else Dune::Functions::interpolate(basis, cb, fun, mask);
        for (const auto& e : elements(root.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) { auto I=toIdx(lv.index(i)); bool in=marked.count(I)&&all.count(I); check(in ? near(cb[lv.index(i)], ref.data[I], 1e-12) : bitEq(cb[lv.index(i)], before[I]), k+":container", str(I)); } }
        obs("real-containers");
      }
    };
    (withContainer(masks), ...);
    if constexpr (requires { root.containerDescriptor()[_0]; }) {
      withContainer(Dune::Functions::makeContainer<char>(root.containerDescriptor(), 0));
      auto bm = Dune::Functions::makeContainer<bool>(root.containerDescriptor(), false);
      if constexpr (Dune::Functions::hasUniqueFieldType<decltype(bm)&>() && Dune::Functions::hasUniqueFieldType<const decltype(bm)&>()) withContainer(bm);
    }
  }
  sample(cat(key, ": ", all.size(), " of ", rootAll.size(), " indices"));
}
template<class F> void reps(int n, F f) { for (int i=0;i<n;++i) f(); }
using namespace Dune::Functions::BasisFactory;
using Dune::Functions::subspaceBasis;
template<class T> using SV=std::vector<T>;
#if PART == 1
VF_CASE("scalar") {
  reps(scale(3,20), []{
    auto grid=Spaces::mixed2x(); auto gv=grid->leafGridView();
    { auto b=makeBasis(gv, lagrange<2>()); run<double>(b,b,"lag2", SV<bool>{}, SV<char>{}, SV<int>{}); }
    { auto b=makeBasis(gv, lagrangeDG<1>()); run<double>(b,b,"dg1"); }
    { auto b=makeBasis(gv, raviartThomas<0>()); run<FV<2>>(b,b,"rt0"); }
    { auto b=makeBasis(gv, nedelec<1,1>()); run<FV<2>>(b,b,"ned"); }
  });
}
VF_CASE("power") {
  reps(scale(3,20), []{
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    { auto b=makeBasis(gv, power<3>(lagrange<2>(), blockedInterleaved())); run<FV<3>>(b,b,"bi", SV<std::array<char,3>>{}, SV<SV<bool>>{}, SV<std::bitset<3>>{}); run<double>(b, subspaceBasis(b, rnd(3)), "bi-sub", SV<std::array<char,3>>{}); }
    { auto b=makeBasis(gv, power<2>(lagrange<2>(), blockedLexicographic())); run<FV<2>>(b,b,"bl", std::array<SV<char>,2>{}, SV<SV<char>>{}); run<double>(b, subspaceBasis(b, _1), "bl-sub", SV<SV<char>>{}); }
    { auto b=makeBasis(gv, power<2>(lagrange<1>(), flatInterleaved())); run<FV<2>>(b,b,"fi", SV<bool>{}); run<double>(b, subspaceBasis(b, rnd(2)), "fi-sub", SV<bool>{}); }
    { auto b=makeBasis(gv, power(lagrange<1>(), 2+rnd(2), flatLexicographic())); run<double>(b, subspaceBasis(b, rnd(2)), "dyn-sub", SV<char>{}); }
  });
}
#elif PART == 2
VF_CASE("composite") {
  reps(scale(3,20), []{
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    auto b=makeBasis(gv, composite(power<2>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic()));
    using MaskT = Dune::TupleVector<SV<std::array<char,2>>,SV<char>>;
    run<Dune::TupleVector<FV<2>,double>>(b,b,"comp", MaskT{});
    run<FV<2>>(b,subspaceBasis(b,_0),"comp-0", MaskT{});
    run<double>(b,subspaceBasis(b,_1),"comp-1", MaskT{});
    run<double>(b,subspaceBasis(b,_0,rnd(2)),"comp-0k", MaskT{});
    auto th=makeBasis(gv, taylorHood());
    run<Dune::TupleVector<FV<2>,double>>(th,th,"th", SV<SV<char>>{});
    run<double>(th,subspaceBasis(th,_1),"th-p", SV<SV<char>>{});
  });
}
VF_CASE("hermite") {
  reps(scale(3,20), []{
    auto grid=Spaces::tris(); auto gv=grid->leafGridView();
    auto b=makeBasis(gv, lagrange<3>());
    run<double>(b,b,"lag3", SV<bool>{});
    // Dirichlet usage: mask from boundary degrees of freedom
    SV<char> mask(b.dimension(),0); std::set<Idx> marked;
    Dune::Functions::forEachBoundaryDOF(b, [&](auto&& i) { mask[i]=1; marked.insert(toIdx(i)); });
    Comps f; auto fun=rangeFunction<double>(f);
    SV<double> ref, v(b.dimension(), -77); Dune::Functions::interpolate(b, ref, fun); Dune::Functions::interpolate(b, v, fun, mask);
    for (std::size_t i=0;i<v.size();++i) check(mask[i] ? near(v[i],ref[i],1e-12) : v[i]==-77, "dirichlet", i);
  });
}
#endif
