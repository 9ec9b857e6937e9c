// P06: discrete functions are the coefficient-weighted sums of shape functions.
#include "grids.hh"
#include "poly.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#if PART==1
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#endif
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using namespace Dune::Indices;
template<int n> using V_ = Dune::FieldVector<double,n>;
using Model = std::map<Idx,std::vector<double>>;

// write random coefficients into container and model
template<class RootBasis, class V> Model fill(const RootBasis& basis, V& c)
{
  Model m; auto b=istlVectorBackend(c); b.resize(basis);
  auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) { lv.bind(e);
    for (std::size_t i=0;i<lv.size();++i) { auto mi=lv.index(i); auto k=toIdx(mi); if (m.count(k)) continue;
      auto&& entry=[&]() -> decltype(auto) { if constexpr (requires { c[mi]; }) return c[mi]; else return b[mi]; }(); using E=std::decay_t<decltype(entry)>;
      if constexpr (std::is_arithmetic_v<E>) { entry=urnd(-2,2); m[k]={double(entry)}; }
      else { std::vector<double> s; for (std::size_t j=0;j<entry.size();++j) { entry[j]=urnd(-2,2); s.push_back(entry[j]); } m[k]=s; } } }
  return m;
}

// independent reference evaluation, leaf by leaf
template<class LV, class X> std::vector<double> model(const LV& lv, const Model& m, const X& x)
{
  std::vector<double> out;
  forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
    const auto& fe=node.finiteElement(); using FE=std::decay_t<decltype(fe)>;
    std::vector<typename FE::Traits::LocalBasisType::Traits::RangeType> v; fe.localBasis().evaluateFunction(x,v);
    std::vector<std::vector<double>> acc;
    for (std::size_t i=0;i<fe.size();++i) {
      const auto& c=m.at(toIdx(lv.index(node.localIndex(i)))); auto fv=flat(v[i]);
      acc.resize(c.size(), std::vector<double>(fv.size(),0.0));
      for (std::size_t j=0;j<c.size();++j) for (std::size_t k=0;k<fv.size();++k) acc[j][k]+=c[j]*fv[k];
    }
    for (auto& a : acc) out.insert(out.end(), a.begin(), a.end());
  });
  return out;
}
template<class LV, class X> std::vector<double> modelD(const LV& lv, const Model& m, const X& x)
{
  std::vector<double> out;
  auto J=lv.element().geometry().jacobianInverse(x);
  forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
    const auto& fe=node.finiteElement(); using FE=std::decay_t<decltype(fe)>;
    std::vector<typename FE::Traits::LocalBasisType::Traits::JacobianType> v; fe.localBasis().evaluateJacobian(x,v);
    std::vector<std::vector<double>> acc;
    for (std::size_t i=0;i<fe.size();++i) {
      const auto& c=m.at(toIdx(lv.index(node.localIndex(i))));
      std::vector<double> fv; for (std::size_t r=0;r<v[i].N();++r) { X row; V_<decltype(J)::cols> res; for (std::size_t t=0;t<row.size();++t) row[t]=v[i][r][t]; J.mtv(row,res); flat(res,fv); }
      acc.resize(c.size(), std::vector<double>(fv.size(),0.0));
      for (std::size_t j=0;j<c.size();++j) for (std::size_t k=0;k<fv.size();++k) acc[j][k]+=c[j]*fv[k];
    }
    for (auto& a : acc) out.insert(out.end(), a.begin(), a.end());
  });
  return out;
}

template<class R> constexpr bool erasable = std::is_arithmetic_v<R>;
template<int n> constexpr bool erasable<Dune::FieldVector<double,n>> = true;

// searching the element of a global point inverts element mappings, which need not converge for points far outside of a distorted element
// (and OneDGrid's leaf index set cannot reliably tell whether it contains a coarse element)
template<class GV> bool allAffine(const GV& gv) { if (GV::dimension!=GV::dimensionworld) return false; if (std::is_same_v<typename GV::Grid,Dune::OneDGrid> && gv.grid().maxLevel()>0) return false; for (const auto& e : elements(gv)) if (!e.geometry().affine()) return false; return true; }
template<class GF, class Basis>
void compare(const std::string& label, const GF& gf, const Basis& basis, const Model& m, bool global=true)
{
  constexpr int dim=Basis::GridView::dimension;
  global = global && allAffine(basis.gridView());
  auto lf=localFunction(gf); auto lv=basis.localView();
  check(!lf.bound(), label+":fresh-unbound");
  for (const auto& e : elements(basis.gridView())) {
    lf.bind(e); lv.bind(e);
    check(lf.bound() && lf.localContext()==e, label+":bound");
    for (int k=0;k<2;++k) {
      auto x=randomLocal<dim>(e.type()); auto ref=model(lv,m,x); auto val=flat(lf(x));
      check(nearv(val,ref,1e-10), label+":value", "at ", x, ": ", str(val), " but coefficient sum is ", str(ref));
      obs("evaluations"); std::uint64_t h=hstr(label); for (auto y : ref) h=hdbl(h,y); state(h);
      if (global && k==0) { auto X=e.geometry().global(x); auto g=flat(gf(X)); check(nearv(g,ref,1e-7), label+":global-eval", "at ", X, ": ", str(g), " vs ", str(ref)); obs("global-evaluations"); }
    }
  }
}
template<class GF, class Basis>
void compareD(const std::string& label, const GF& gf, const Basis& basis, const Model& m, bool global=true)
{
  constexpr int dim=Basis::GridView::dimension;
  global = global && allAffine(basis.gridView());
  auto dgf=derivative(gf); auto dlf=localFunction(dgf); auto lf=localFunction(gf); auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) {
    dlf.bind(e); lf.bind(e); lv.bind(e); auto dlf2=derivative(lf);
    auto x=randomLocal<dim>(e.type()); auto ref=modelD(lv,m,x);
    auto a=flat(dlf(x)), b=flat(dlf2(x));
    check(nearv(a,ref,1e-9), label+":derivative", str(a), " vs ", str(ref));
    check(nearv(b,ref,1e-9), label+":derivative-of-local", str(b), " vs ", str(ref));
    if (global) { auto g=flat(dgf(e.geometry().global(x))); check(nearv(g,ref,1e-6), label+":derivative-global", str(g), " vs ", str(ref)); }
    obs("derivative-evaluations");
  }
}

template<class R, class V, bool der=true, class Mk, class Fac>
void run(Mk mk, Fac fac, bool global=true)
{
  for (int it=0; it<scale(3,20); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView();
    auto basis=makeBasis(gv,fac); using Basis=decltype(basis);
    V c{}; Model m=fill(basis,c);
    auto gf=makeDiscreteGlobalBasisFunction<R>(basis,c);
    if (it==0) sample(cat("range with ", flat(R()).size(), " components, ", m.size(), " coefficients, ", gv.size(0), " elements"));
    compare("ref",gf,basis,m,global);
    if constexpr (der) compareD("ref",gf,basis,m,global);
    // copies of the function and of local functions
    { auto copy=gf; compare("copy",copy,basis,m,false); }
    // later coefficient changes are seen through a referenced vector
    m=fill(basis,c); compare("changed",gf,basis,m,global);
    // ... also by local functions that are bound to the element they are already bound to
    { auto lf=localFunction(gf); auto lv=basis.localView(); constexpr int dim=Basis::GridView::dimension;
      for (const auto& e : elements(gv)) { lv.bind(e); lf.bind(e);
        for (int k=0;k<2;++k) { m=fill(basis,c); lf.bind(e); auto x=randomLocal<dim>(e.type()); auto ref=model(lv,m,x); check(nearv(flat(lf(x)),ref,1e-10), "changed-rebind:value", "at ", x, ": ", str(flat(lf(x))), " but coefficient sum is ", str(ref)); obs("rebinds");
          if constexpr (der) { auto d=derivative(lf); auto dr=modelD(lv,m,x); check(nearv(flat(d(x)),dr,1e-9), "changed-rebind:derivative"); m=fill(basis,c); d.bind(e); dr=modelD(lv,m,x); check(nearv(flat(d(x)),dr,1e-9), "changed-rebind:derivative-rebound"); } }
        if (rnd(8)==0) break; } }
    // owned coefficients
    V c2=c; Model m2=fill(basis,c2);
    // containers that accept the multi-index directly are used as they are, others through the backend
    auto handle=[](V& v) { if constexpr (requires { v[typename Basis::MultiIndex{}]; }) return v; else return istlVectorBackend(v); };
    if constexpr (requires (V v) { makeDiscreteGlobalBasisFunction<R>(basis,std::move(v)).dofs()[typename Basis::MultiIndex{}]; } && std::is_same_v<V,std::vector<double>>) {
      // std::vector with flat index is used directly and moved in
      auto owned=makeDiscreteGlobalBasisFunction<R>(basis, V(c2));
      fill(basis,c2); V junk(c2.size(), 1e300); (void)junk;
      compare("owned",owned,basis,m2,false);
      m2=fill(basis,c2);
    }
    auto backend=handle(c2); using Backend=decltype(backend);
    // shared ownership of basis, backend and map
    { auto sb=std::make_shared<const Basis>(basis); auto sv=std::make_shared<const Backend>(backend); auto sn=std::make_shared<const HierarchicNodeToRangeMap>();
      DiscreteGlobalBasisFunction<Basis,Backend,HierarchicNodeToRangeMap,R> f(sb,sv,sn);
      check(&f.basis()==sb.get() && &f.dofs()==sv.get() && &f.nodeToRangeEntry()==sn.get(), "accessors");
      compare("shared",f,basis,m2,false);
      auto lf=localFunction(f); auto e=*gv.template begin<0>();
      f=DiscreteGlobalBasisFunction<Basis,Backend,HierarchicNodeToRangeMap,R>(basis,handle(c),HierarchicNodeToRangeMap()); sb.reset(); sv.reset();
      lf.bind(e); auto lv=basis.localView(); lv.bind(e); auto x=randomLocal<Basis::GridView::dimension>(e.type());
      check(nearv(flat(lf(x)),model(lv,m2,x),1e-10), "local-outlives-global");
      compare("reassigned",f,basis,m,false);
    }
    // temporary basis and owned in the function
    { auto f=makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,fac),c); compare("temp-basis",f,basis,m,false); }
    if constexpr (erasable<R> && der) {
      using X=typename decltype(gv)::template Codim<0>::Geometry::GlobalCoordinate;
      GridViewFunction<R(X),decltype(gv)> te=gf; compare("erased",te,basis,m,global);
    }
  }
}
#define RUN(name,R,V,mk,...) VF_CASE(name) { run<R,V>(Spaces::mk, __VA_ARGS__); }
using Vec=std::vector<double>;
using BV=Dune::BlockVector<double>;
using R22=Dune::FieldMatrix<double,2,2>;
#if PART==1
RUN("lag2/mixed2",double,Vec,mixed2x,lagrange<2>())
RUN("lag3/tets",double,BV,tets,lagrange(3))
RUN("lag2/prismhex-fv1",V_<1>,Vec,prismhexx,lagrange<2>())
RUN("lag2/oned",double,Vec,oned,lagrange<2>())
RUN("dg1/yasp3",double,Vec,yasp3,lagrangeDG<1>())
RUN("rt0/mixed2",V_<2>,Vec,mixed2x,raviartThomas<0>())
RUN("nedelec/hexes",V_<3>,Vec,hexesx,(nedelec<1,1>()))
RUN("hermite/tris",double,Vec,tris,cubicHermite())
RUN("morley/tris",double,Vec,tris,morley())
VF_CASE("bspline/yasp2") {
  for (int it=0; it<scale(3,20); ++it) {
    std::array<int,2> n{Spaces::ri(1,4),Spaces::ri(1,4)}; Dune::YaspGrid<2> grid({1.5,0.7},n); auto gv=grid.leafGridView();
    auto basis=makeBasis(gv,[&](const auto& g){ return BSplinePreBasis<std::decay_t<decltype(g)>>(g,V_<2>{0.0,0.0},V_<2>{1.5,0.7},std::array<unsigned,2>{unsigned(n[0]),unsigned(n[1])},2); });
    Vec c; Model m=fill(basis,c); auto gf=makeDiscreteGlobalBasisFunction<double>(basis,c);
    compare("bspline",gf,basis,m); compareD("bspline",gf,basis,m);
  }
}
// functions on the levels of a refined grid: global evaluation has to find the elements of that level
template<int dim> void levels() {
  for (int it=0; it<scale(3,20); ++it) {
    auto grid=Spaces::makeYasp<dim>(1,dim==3?2:3); grid->globalRefine(1+rnd(dim==3?1:2));
    for (int l=0;l<=grid->maxLevel();++l) { auto gv=grid->levelGridView(l);
      { auto basis=makeBasis(gv,lagrange<2>()); Vec c; Model m=fill(basis,c); auto gf=makeDiscreteGlobalBasisFunction<double>(basis,c); compare("level-lag2",gf,basis,m); compareD("level-lag2",gf,basis,m); }
      { auto basis=makeBasis(gv,lagrangeDG<1>()); Vec c; Model m=fill(basis,c); auto gf=makeDiscreteGlobalBasisFunction<double>(basis,c); compare("level-dg1",gf,basis,m); compareD("level-dg1",gf,basis,m); }
      { auto basis=makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())); std::vector<V_<2>> c; Model m=fill(basis,c); auto gf=makeDiscreteGlobalBasisFunction<V_<2>>(basis,c); compare("level-power2",gf,basis,m); compareD("level-power2",gf,basis,m); }
    }
  }
}
VF_CASE("levels/yasp1") { levels<1>(); }
VF_CASE("levels/yasp2") { levels<2>(); }
VF_CASE("levels/yasp3") { levels<3>(); }
#elif PART==2
RUN("power2-fl",V_<2>,Vec,mixed2x,power<2>(lagrange<2>(),flatLexicographic()))
RUN("power3-fi",V_<3>,Vec,mixed2x,power<3>(lagrange<1>(),flatInterleaved()))
RUN("power2-bi",V_<2>,Dune::BlockVector<V_<2>>,mixed2x,power<2>(lagrange<2>(),blockedInterleaved()))
RUN("power2-bl",V_<2>,std::vector<Vec>,mixed2x,power<2>(lagrange<2>(),blockedLexicographic()))
RUN("dpower3-bl",V_<3>,std::vector<Vec>,mixed2x,power(lagrange<2>(),3,blockedLexicographic()))
// implicit product spaces through vector valued coefficients
RUN("lag2-coeff3",V_<3>,Dune::BlockVector<V_<3>>,mixed2x,lagrange<2>())
VF_CASE("rt0-coeff2") { run<R22,Dune::BlockVector<V_<2>>,false>(Spaces::mixed2x, raviartThomas<0>(), true); }
VF_CASE("power2-coeff2") { run<R22,std::vector<V_<2>>,false>(Spaces::mixed2x, power<2>(lagrange<1>(),flatInterleaved()), true); }
VF_CASE("power2-rt0") { run<std::array<V_<2>,2>,Vec,false>(Spaces::mixed2x, power<2>(raviartThomas<0>(),flatLexicographic()), true); }
#elif PART==3
using TV=Dune::TupleVector<V_<2>,double>;
VF_CASE("taylorhood-like") { run<TV,Dune::MultiTypeBlockVector<Dune::BlockVector<V_<2>>,BV>,false>(Spaces::mixed2x, composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic()), true); }
VF_CASE("composite3") { run<Dune::TupleVector<V_<2>,double,V_<3>>,Vec,false>(Spaces::mixed2x, composite(raviartThomas<0>(),lagrange<3>(),power<3>(lagrange<1>(),flatLexicographic()),flatLexicographic()), true); }
VF_CASE("subspace") {
  for (int it=0; it<scale(3,20); ++it) {
    auto grid=Spaces::mixed2x(); auto gv=grid->leafGridView();
    auto basis=makeBasis(gv, composite(power<2>(lagrange<2>(),blockedLexicographic()),lagrange<1>(),power<2>(raviartThomas<0>(),flatInterleaved()),blockedLexicographic()));
    Dune::TupleVector<std::array<Vec,2>,Vec,Vec> c; Model m=fill(basis,c);
    auto sub=[&](auto R, const char* label, auto&& s) { using RR=decltype(R); auto gf=makeDiscreteGlobalBasisFunction<RR>(s,c); compare(label,gf,s,m); if constexpr (erasable<RR>) compareD(label,gf,s,m); };
    sub(V_<2>(), "0", subspaceBasis(basis,_0));
    sub(double(), "00", subspaceBasis(basis,_0,0));
    sub(double(), "01", subspaceBasis(basis,_0,1));
    sub(double(), "1", subspaceBasis(basis,_1));
    sub(std::array<V_<2>,2>(), "2", subspaceBasis(basis,_2));
    sub(V_<2>(), "2r", subspaceBasis(basis,_2,rnd(2)));
    sub(double(), "nested", subspaceBasis(subspaceBasis(basis,_0),rnd(2)));
  }
}
VF_CASE("custom-map") { // permuted assignment of leaves to range components
  for (int it=0; it<scale(4,20); ++it) {
    auto grid=Spaces::mixed2x(); auto gv=grid->leafGridView();
    auto basis=makeBasis(gv, power<3>(lagrange<2>(),blockedLexicographic())); using Basis=decltype(basis);
    std::array<int,3> perm{0,1,2}; std::shuffle(perm.begin(),perm.end(),rng());
    auto ntre=[perm](const auto& node, const auto& tp, auto&& y) -> decltype(auto) { return y[perm[tp[0]]]; };
    std::vector<Vec> c; Model m=fill(basis,c); auto be=istlVectorBackend(c);
    DiscreteGlobalBasisFunction<Basis,decltype(be),decltype(ntre),V_<3>> gf(basis,be,ntre);
    auto lf=localFunction(gf); auto dlf=localFunction(derivative(gf)); auto lv=basis.localView();
    for (const auto& e : elements(gv)) { lf.bind(e); lv.bind(e); dlf.bind(e); auto x=randomLocal<2>(e.type()); auto ref=model(lv,m,x); auto y=lf(x); auto dref=modelD(lv,m,x); auto dy=dlf(x);
      for (int i=0;i<3;++i) { check(near(y[perm[i]],ref[i],1e-10),"permuted-value"); check(near(dy[perm[i]][0],dref[2*i],1e-9)&&near(dy[perm[i]][1],dref[2*i+1],1e-9),"permuted-derivative"); state(hdbl(perm[i],ref[i])); } }
  }
}
#elif PART==4   // curved surfaces: -DMOCK_EXTRA=1
RUN("surface/lag3/mixed2",double,Vec,mixed2,lagrange<3>(),false)
RUN("surface/lagRT2/tris",double,BV,tris,lagrange(2),false)
RUN("surface/lag2/lines",double,Vec,lines,lagrange<2>(),false)
RUN("surface/power3-fl/mixed2",V_<3>,Vec,mixed2,power<3>(lagrange<2>(),flatLexicographic()),false)
RUN("surface/power3-bi/tris",V_<3>,Dune::BlockVector<V_<3>>,tris,power<3>(lagrange<1>(),blockedInterleaved()),false)
RUN("surface/power2/lines",V_<2>,Vec,lines,power<2>(lagrange<1>(),flatInterleaved()),false)
#endif
