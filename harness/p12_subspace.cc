// P12: subspace bases
#include "interp.hh"
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/containerfactory.hh>
using namespace VF;
using namespace TreeModel;
using namespace Dune::Indices;
template<int n> using FV = Dune::FieldVector<double,n>;

// sub: the subspace basis; [a,b): leaf range of the subtree; child: factory building the subtree's space on its own
template<class R, class Basis, class Sub, class Child>
void checkSub(const Basis& basis, const Model& model, const Sub& sub, std::size_t a, std::size_t b, const Child& child, const std::string& key)
{
  auto gv = basis.gridView();
  check(sub.dimension()==basis.dimension() && sub.size()==basis.size(), key+":size");
  check(&sub.rootBasis()==&basis, key+":root");
  for (auto& [p,n] : sizes(model.all())) check(sizeAt(sub,p)==n, key+":prefix-size", str(p));
  auto cb = BF::makeBasis(gv, child);
  auto lv = sub.localView(); auto rl = basis.localView(); auto clv = cb.localView();
  check(!lv.bound(), key+":fresh-bound");
  std::set<Idx> mine; std::map<Idx,Idx> toChild;  // root index -> child index
  std::size_t en=0; std::uint64_t h=hstr(key);
  auto compare = [&](auto& lv, const auto& e, std::size_t en) {
    rl.bind(e); clv.bind(e);
    check(lv.bound() && lv.element()==e, key+":element");
    check(lv.size()==rl.size() && lv.maxSize()==rl.maxSize(), key+":local-size", lv.size());
    for (std::size_t i=0;i<lv.size();++i) check(toIdx(lv.index(i))==toIdx(rl.index(i)), key+":index");
    check(&lv.globalBasis()==&sub, key+":globalBasis");
    std::size_t leafNo=a; std::size_t count=0;
    std::vector<std::vector<Idx>> cidx;
    forEachLeaf(clv.tree(), [&](const auto& node, const auto&) { cidx.emplace_back(); for (std::size_t i=0;i<node.size();++i) cidx.back().push_back(toIdx(clv.index(node.localIndex(i)))); });
    forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
      if (!check(leafNo<b, key+":leaf-count")) return;
      auto& m = model.idx[en][leafNo];
      check(node.element()==e, key+":node-element");
      if (check(node.size()==m.size() && node.size()==cidx[leafNo-a].size(), key+":leaf-size"))
        for (std::size_t i=0;i<node.size();++i) {
          auto I=toIdx(lv.index(node.localIndex(i)));
          check(I==m[i], key+":leaf-index", "leaf ", leafNo, " dof ", i, " has ", str(I), " expected ", str(m[i]));
          mine.insert(I); toChild[I]=cidx[leafNo-a][i]; ++count; h=mix(h,hidx(I));
        }
      ++leafNo;
    });
    check(leafNo==b, key+":leaf-count", leafNo);
    check(lv.tree().size()==count, key+":tree-size");
    state(h); obs("views");
  };
  for (const auto& e : elements(gv)) { lv.bind(e); compare(lv, e, en++); }
  // histories over a pool of local views
  std::vector<std::pair<decltype(lv),int>> pool; pool.push_back({sub.localView(),-1});
  std::size_t ne = en;
  using E = typename decltype(gv)::template Codim<0>::Entity;
  std::vector<E> els; for (const auto& e : elements(gv)) els.push_back(e);
  for (int op=0; op<scale(12,60); ++op) {
    auto i=rnd(pool.size()), j=rnd(pool.size());
    switch(rnd(6)) {
      case 0: case 1: { int k=rnd(ne); pool[i].first.bind(els[k]); pool[i].second=k; } break;
      case 2: if (pool.size()<5) pool.push_back(std::pair(pool[i])); break;
      case 3: if (i!=j) pool[i]=pool[j]; break;
      case 4: if (pool.size()>1) { if (i!=0) pool[0]=std::move(pool[i]); pool.erase(pool.begin()+(i?i:1)); } break;
      case 5: pool[i].first.unbind(); pool[i].second=-1; break;
    }
    for (auto& [v,k] : pool) { check(v.bound()==(k>=0), key+":bound"); if (k>=0) compare(v, els[k], k); }
  }
  // interpolation: exactly the subtree's coefficients are written, with the values of the stand-alone space
  Comps f; auto fun = rangeFunction<R>(f);
  MonVec v; for (auto& i : model.all()) v.data[i]=std::nan("17");
  auto v0=v.data;
  Dune::Functions::interpolate(sub, v, fun);
  MonVec vc; Dune::Functions::interpolate(cb, vc, fun);
  for (auto& [i,x] : v.data) {
    bool in = mine.count(i);
    check(in==(v.touched.count(i)>0), key+":interpolate-touches", str(i), in ? " not written" : " written");
    if (!in) check(bitEq(x, v0[i]), key+":interpolate-foreign", str(i));
    else check(near(x, vc.data[toChild[i]], 1e-11), key+":interpolate-value", str(i), ": ", x, " vs ", vc.data[toChild[i]]);
  }
  check(v.data.size()==model.all().size(), key+":interpolate-unknown-index");
  // the same through a real container
  {
    auto d = basis.containerDescriptor();
    if constexpr (!std::is_same_v<decltype(d), Dune::Functions::ContainerDescriptors::Unknown>) {
      auto c = Dune::Functions::makeContainer<double>(d, 1234.5);
      Dune::Functions::interpolate(sub, c, fun);
      auto bk = Dune::Functions::istlVectorBackend(c);
      for (const auto& e : els) { rl.bind(e); for (std::size_t i=0;i<rl.size();++i) { auto mi=rl.index(i); auto I=toIdx(mi); check(mine.count(I) ? near(bk[mi], v.data[I], 1e-13) : bk[mi]==1234.5, key+":container-value", str(I)); } }
      obs("real-containers");
    }
  }
  // evaluation: foreign coefficients (NaN) do not enter
  for (auto& [i,x] : v.data) if (mine.count(i)) { x=urnd(); vc.data[toChild[i]]=x; }
  auto g = Dune::Functions::makeDiscreteGlobalBasisFunction<R>(sub, v);
  auto gc = Dune::Functions::makeDiscreteGlobalBasisFunction<R>(cb, vc);
  auto lf=localFunction(g); auto lc=localFunction(gc);
  for (const auto& e : els) {
    lf.bind(e); lc.bind(e);
    for (int k=0;k<2;++k) { auto x=randomLocal<E::mydimension>(e.type()); auto A=flat(lf(x)), B=flat(lc(x)); check(nearv(A,B,1e-11), key+":evaluate", str(A), " vs ", str(B)); obs("evaluations"); }
  }
  sample(cat(key, ": ", mine.size(), " of ", model.all().size(), " dofs"));
}

template<class F> void reps(int n, F f) { for (int i=0;i<n;++i) f(); }
using namespace Dune::Functions::BasisFactory;
using Dune::Functions::subspaceBasis;
using Dune::TypeTree::treePath;
#if PART == 1
VF_CASE("comp(pow-bi,lag,rt)")
{
  reps(scale(3,40), []{
    auto grid=Spaces::mixed2x(); auto gv=grid->leafGridView();
    auto t = comp<M::BL>(pow<2,M::BI>(leaf(lagrange<2>())), leaf(lagrange<1>()), leaf(raviartThomas<0>()));
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    checkSub<FV<2>>(b, m, subspaceBasis(b,_0), 0,2, power<2>(lagrange<2>(), flatLexicographic()), "0");
    checkSub<double>(b, m, subspaceBasis(b,_1), 2,3, lagrange<1>(), "1");
    checkSub<FV<2>>(b, m, subspaceBasis(b,_2), 3,4, raviartThomas<0>(), "2");
    std::size_t k=rnd(2);
    checkSub<double>(b, m, subspaceBasis(b,_0,k), k,k+1, lagrange<2>(), "0,k");
    checkSub<double>(b, m, subspaceBasis(b,_0,_1), 1,2, lagrange<2>(), "0,1");
    checkSub<double>(b, m, subspaceBasis(b,treePath(_0,k)), k,k+1, lagrange<2>(), "treePath");
    auto s0=subspaceBasis(b,_0); auto s01=subspaceBasis(s0,k);
    checkSub<double>(b, m, s01, k,k+1, lagrange<2>(), "nested");
    auto s = Dune::Functions::SubspaceBasis(s0, treePath(_1)); checkSub<double>(b, m, s, 1,2, lagrange<2>(), "ctad-nested");
    auto cp=s01; s01=subspaceBasis(s0,1-k); checkSub<double>(b, m, cp, k,k+1, lagrange<2>(), "copy"); checkSub<double>(b, m, s01, 1-k,2-k, lagrange<2>(), "assigned");
  });
}
VF_CASE("pow-fl(comp(lag,pow-bi))")
{
  reps(scale(3,40), []{
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    auto t = pow<2,M::FL>(comp<M::BL>(leaf(lagrange<2>()), pow<3,M::BI>(leaf(lagrange<1>()))));
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    std::size_t k=rnd(2), c=rnd(3);
    using T1 = Dune::TupleVector<double,FV<3>>;
    checkSub<T1>(b, m, subspaceBasis(b,k), 4*k,4*k+4, composite(lagrange<2>(), power<3>(lagrange<1>())), "k");
    checkSub<double>(b, m, subspaceBasis(b,k,_0), 4*k,4*k+1, lagrange<2>(), "k,0");
    checkSub<FV<3>>(b, m, subspaceBasis(b,k,_1), 4*k+1,4*k+4, power<3>(lagrange<1>()), "k,1");
    checkSub<double>(b, m, subspaceBasis(b,k,_1,c), 4*k+1+c,4*k+2+c, lagrange<1>(), "k,1,c");
    auto s1=subspaceBasis(b,k); auto s2=subspaceBasis(s1,_1); auto s3=subspaceBasis(s2,c);
    checkSub<double>(b, m, s3, 4*k+1+c,4*k+2+c, lagrange<1>(), "nested3");
    checkSub<std::array<T1,2>>(b, m, subspaceBasis(b), 0,8, power<2>(composite(lagrange<2>(), power<3>(lagrange<1>())), flatLexicographic()), "whole");
  });
}
#elif PART == 2
VF_CASE("dyn-bi(pow-bl)")
{
  reps(scale(3,40), []{
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    std::size_t K=1+rnd(4);
    auto t = dyn<M::BI>(pow<2,M::BL>(leaf(lagrange<1>())), K);
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    std::size_t k=rnd(K), c=rnd(2);
    checkSub<FV<2>>(b, m, subspaceBasis(b,k), 2*k,2*k+2, power<2>(lagrange<1>()), "k");
    checkSub<double>(b, m, subspaceBasis(b,k,c), 2*k+c,2*k+c+1, lagrange<1>(), "k,c");
    checkSub<double>(b, m, subspaceBasis(b,k,_1), 2*k+1,2*k+2, lagrange<1>(), "k,1");
    auto s1=subspaceBasis(b,k); checkSub<double>(b, m, subspaceBasis(s1,c), 2*k+c,2*k+c+1, lagrange<1>(), "nested");
  });
}
VF_CASE("taylorhood")
{
  reps(scale(3,40), []{
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    auto t = leaf(taylorHood());
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    std::size_t c=rnd(2);
    checkSub<FV<2>>(b, m, subspaceBasis(b,_0), 0,2, power<2>(lagrange<2>()), "0");
    checkSub<double>(b, m, subspaceBasis(b,_0,c), c,c+1, lagrange<2>(), "0,c");
    checkSub<double>(b, m, subspaceBasis(b,_1), 2,3, lagrange<1>(), "1");
  });
}
VF_CASE("comp-fl(comp-bl,dyn)")
{
  reps(scale(3,30), []{
    auto grid=Spaces::prismhexx(); auto gv=grid->leafGridView();
    std::size_t K=1+rnd(3);
    auto t = comp<M::BL>(comp<M::FL>(leaf(lagrange<1>()), leaf(lagrangeDG<1>())), dyn<M::FI>(leaf(lagrange<2>()), K));
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    std::size_t k=rnd(K);
    checkSub<Dune::TupleVector<double,double>>(b, m, subspaceBasis(b,_0), 0,2, composite(lagrange<1>(), lagrangeDG<1>()), "0");
    checkSub<double>(b, m, subspaceBasis(b,_0,_1), 1,2, lagrangeDG<1>(), "0,1");
    checkSub<double>(b, m, subspaceBasis(b,_1,k), 2+k,3+k, lagrange<2>(), "1,k");
  });
}
VF_CASE("power<4>(power<3>)-matrix")
{
  reps(scale(3,30), []{
    auto grid=Spaces::yasp2(); auto gv=grid->leafGridView();
    auto t = pow<4,M::FI>(pow<3,M::FL>(leaf(lagrange<2>())));
    auto b = makeBasis(gv, t.factory()); auto m=t.model(gv);
    std::size_t k=rnd(4), c=rnd(3);
    checkSub<FV<3>>(b, m, subspaceBasis(b,k), 3*k,3*k+3, power<3>(lagrange<2>()), "k");
    checkSub<double>(b, m, subspaceBasis(b,k,c), 3*k+c,3*k+c+1, lagrange<2>(), "k,c");
    checkSub<double>(b, m, subspaceBasis(b,_3,_2), 11,12, lagrange<2>(), "3,2");
  });
}
// views of subspaces survive adaption of the grid and update of their root basis: elements that still exist get new indices
VF_CASE("kept-across-adaption")
{
  reps(scale(4,60), []{
    Dune::OneDGrid grid(int(2+rnd(4)), 0.0, 1.0); using Gr=Dune::OneDGrid;
    auto run = [&](auto root, auto... path) {
      auto b = makeBasis(grid.leafGridView(), root); auto s = subspaceBasis(b, path...); auto s2 = s;
      using LV = decltype(s.localView()); using E = typename Gr::template Codim<0>::Entity; using Seed = typename E::EntitySeed;
      std::vector<std::pair<LV,Seed>> pool;
      for (const auto& e : elements(b.gridView())) { pool.push_back({(rnd(2) ? s : s2).localView(), e.seed()}); pool.back().first.bind(e); }
      for (int round=0; round<scale(3,6); ++round) {
        bool any=false;
        for (const auto& e : elements(grid.leafGridView())) if (rnd(3)==0 && e.level()<4) { grid.mark(1,e); any=true; }
        if (!any) grid.mark(1, *grid.leafGridView().begin<0>());
        grid.preAdapt(); grid.adapt(); grid.postAdapt();
        b.update(grid.leafGridView());
        check(s.dimension()==b.dimension() && s.size()==b.size(), "adapt:size");
        auto fresh = makeBasis(grid.leafGridView(), root); auto fs = subspaceBasis(fresh, path...); auto ref=fs.localView();
        for (auto& [v,seed] : pool) {
          auto e=grid.entity(seed);
          if (!e.isLeaf()) { e = *grid.leafGridView().template begin<0>(); seed=e.seed(); }
          v.bind(e); ref.bind(e);
          if (!check(v.size()==ref.size() && v.tree().size()==ref.tree().size() && v.bound() && v.element()==e, "adapt:local-size")) continue;
          std::uint64_t h=1;
          for (std::size_t i=0;i<v.size();++i) { check(toIdx(v.index(i))==toIdx(ref.index(i)), "adapt:index", str(toIdx(v.index(i))), " expected ", str(toIdx(ref.index(i)))); h=mix(h,hidx(toIdx(v.index(i)))); }
          for (std::size_t i=0;i<v.tree().size();++i) check(v.tree().localIndex(i)==ref.tree().localIndex(i), "adapt:localIndex");
          state(h); obs("kept-views");
        }
        while (pool.size()>6) pool.erase(pool.begin()+rnd(pool.size()));
        for (const auto& e : elements(grid.leafGridView())) if (rnd(3)==0) { pool.push_back({rnd(2) ? LV(pool[rnd(pool.size())].first) : s.localView(), e.seed()}); pool.back().first.bind(e); }
        // functions on the subspace refer to the updated basis
        std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd();
        auto f = Dune::Functions::makeDiscreteGlobalBasisFunction<double>(s, c); auto ff = Dune::Functions::makeDiscreteGlobalBasisFunction<double>(fs, c);
        auto lf=localFunction(f); auto lff=localFunction(ff);
        for (const auto& e : elements(grid.leafGridView())) { lf.bind(e); lff.bind(e); Dune::FieldVector<double,1> x(urnd(0,1)); check(near(lf(x), lff(x), 1e-13), "adapt:value"); }
      }
    };
    run(power<2>(lagrange<1>(), flatLexicographic()), std::size_t(rnd(2)));
    run(power<3>(lagrange<2>(), flatInterleaved()), Dune::Indices::_1);
    run(composite(power<2>(lagrange<2>(), flatInterleaved()), lagrange<1>(), flatLexicographic()), Dune::Indices::_0, std::size_t(rnd(2)));
    run(composite(power<2>(lagrange<2>(), flatInterleaved()), lagrange<1>(), flatLexicographic()), Dune::Indices::_1);
  });
}
#endif
