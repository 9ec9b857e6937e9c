// P05: interpolation is a projection and reproduces every contained polynomial.
#include "grids.hh"
#include "poly.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#if PART==1 || PART==2 || PART==7
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#if PART==7
#include <dune/functions/functionspacebases/powerbasis.hh>
#endif
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#elif PART==3 || PART==4
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#elif PART==5
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#else
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#endif
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using namespace Dune::Indices;
template<class K> using FV = Dune::FieldVector<K,2>;

// all entries addressed by the basis
template<class Basis, class F> void forIndices(const Basis& basis, F&& f)
{
  std::set<Idx> seen; auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.tree().size();++i) { auto mi=lv.index(lv.tree().localIndex(i)); if (seen.insert(toIdx(mi)).second) f(mi); } }
}
template<class Basis, class V> std::vector<double> values(const Basis& basis, const V& v)
{ std::vector<double> r; auto b=istlVectorBackend(v); forIndices(basis,[&](auto mi){ r.push_back(b[mi]); }); return r; }

template<class R, class V, class Basis, class F>
void reproduce(const std::string& label, const Basis& basis, V& c, const F& f, double tol)
{
  interpolate(basis, c, f);
  auto gf = makeDiscreteGlobalBasisFunction<R>(basis, c);
  auto lf = localFunction(gf);
  constexpr int dim = Basis::GridView::dimension;
  for (const auto& e : elements(basis.gridView())) {
    lf.bind(e);
    for (int k=0;k<scale(3,8);++k) {
      auto x=randomLocal<dim>(e.type());
      auto a=flat(lf(x)), b=flat(f(e.geometry().global(x)));
      check(nearv(a,b,tol), label+":reproduce", "at ", e.geometry().global(x), ": discrete ", str(a), " exact ", str(b));
      obs("points"); std::uint64_t h=3; for (auto y : b) h=hdbl(h,y); state(h);
    }
  }
  auto v1=values(basis,c);
  for (auto y : v1) check(std::isfinite(y), label+":written", "entry not finite after interpolation");
  interpolate(basis, c, f);
  check(values(basis,c)==v1, label+":idempotent-write");
}

template<class Basis, class V> void randomize(const Basis& basis, V& c)
{ auto b=istlVectorBackend(c); b.resize(basis); b=0; forIndices(basis,[&](auto mi){ b[mi]=urnd(-2,2); }); }

template<class R, class V, class Basis>
void project(const std::string& label, const Basis& basis, V& c, double tol)
{
  randomize(basis,c);
  auto v0=values(basis,c);
  auto gf = makeDiscreteGlobalBasisFunction<R>(basis, c);
  V d=c; { auto b=istlVectorBackend(d); b=std::nan(""); }
  interpolate(basis, d, gf);
  auto v1=values(basis,d);
  check(nearv(v0,v1,tol), label+":projection", "coefficients ", str(v0), " came back as ", str(v1));
  check(values(basis,c)==v0, label+":source-unchanged");
  obs("projected-coefficients", v0.size());
  // via the type erased interface and via its own result
  using GV=typename Basis::GridView; using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate;
  if constexpr (requires { typename PolyFor<GV::dimensionworld,R>::type; }) {
    GridViewFunction<R(X),GV> te=gf;
    V d2=d; { auto b=istlVectorBackend(d2); b=std::nan(""); }
    interpolate(basis, d2, te);
    check(values(basis,d2)==v1, label+":type-erased-same");
  }
}

struct O { int degree; bool projection=true; double tol=1e-8; };

template<class R, class Mk, class Fac>
void scalarLike(const std::string& label, Mk mk, Fac fac, O o)
{
  for (int it=0; it<scale(4,30); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView(); constexpr int dim=decltype(gv)::dimension;
    auto basis=makeBasis(gv, fac);
    using P=typename PolyFor<decltype(gv)::dimensionworld,R>::type;
    std::vector<double> c(rnd(5), std::nan(""));
    auto f=P::random(o.degree);
    reproduce<R>(label, basis, c, f, o.tol);
    if (it==0) sample(cat(label,": degree ",o.degree," polynomial on ",gv.size(0)," elements, ",basis.dimension()," dofs"));
    Dune::BlockVector<double> bv;
    if (it%2) reproduce<R>(label+"-bv", basis, bv, P::random(int(rnd(o.degree+1))), o.tol);
    { std::vector<double> c2; using X=Dune::FieldVector<double,decltype(gv)::dimensionworld>; using GV=decltype(gv);
      auto an=makeAnalyticGridViewFunction(f, gv);
      interpolate(basis, c2, an);
      check(c2.size()==c.size() && c2==c, label+":analytic-same");
      (void)sizeof(X); (void)sizeof(GV);
    }
    if (o.projection) project<R>(label, basis, c, o.tol);
  }
}
#define SC(name,R,mk,fac,...) VF_CASE(name) { scalarLike<R>("f", Spaces::mk, fac, O{__VA_ARGS__}); }
template<int n> using V_ = Dune::FieldVector<double,n>;
template<int k> auto refined() { return [](const auto& gv) { return RefinedLagrangePreBasis<std::decay_t<decltype(gv)>,k>(gv); }; }

#if PART==1
SC("lag0/mixed2",double,mixed2,lagrange<0>(),0)
SC("lag1/mixed2",double,mixed2,lagrange<1>(),1)
SC("lag2/mixed2",double,mixed2,lagrange<2>(),2)
SC("lag3/mixed2",double,mixed2,lagrange<3>(),3)
SC("lagRT2/mixed2",double,mixed2,lagrange(2),2)
SC("lagRT4/mixed2",double,mixed2,lagrange(4),4)
SC("lagRT3/lines",double,lines,lagrange(3),3)
SC("lagDG2/mixed2",double,mixed2,lagrangeDG<2>(),2)
SC("lagDGRT3/mixed2",double,mixed2,lagrangeDG(3),3)
SC("hier2/tris",double,tris,hierarchicalLagrange<2>(),2)
SC("bubble1/tris",double,tris,hierarchicalLagrangeWithElementBubble<1>(),1)
SC("refined1/tris",double,tris,refined<1>(),1)
SC("refined0/tris",double,tris,refined<0>(),0)
#elif PART==2
SC("lag2/prismhex",double,prismhex,lagrange<2>(),2)
SC("lag1/pyrhex",double,pyrhexa,lagrange<1>(),1)
SC("lag2/pyrhex",double,pyrhexa,lagrange<2>(),1) // the local pyramid element of order 2 does not contain all of P2
SC("lag3/tets",double,tets,lagrange<3>(),3)
SC("lagRT3/hexes",double,hexes,lagrange(3),3)
SC("refined1/tets",double,tets,refined<1>(),1)
SC("bubble1/tets",double,tets,hierarchicalLagrangeWithElementBubble<1>(),1)
SC("lag2/oned",double,oned,lagrange<2>(),2)
#elif PART==3
SC("rt0/mixed2",V_<2>,mixed2,raviartThomas<0>(),0)
SC("rt1/trisPos",V_<2>,trisPos,raviartThomas<1>(),1)
SC("bdm1/trisPos",V_<2>,trisPos,brezziDouglasMarini<1>(),1)
SC("bdm2/trisPos",V_<2>,trisPos,brezziDouglasMarini<2>(),2)
SC("nedelec1/mixed2",V_<2>,mixed2,(nedelec<1,1>()),0)
SC("rannacherTurek/quadsa",double,quadsa,rannacherTurek(),1)
SC("rannacherTurek/tris",double,tris,rannacherTurek(),1)
#elif PART==4
SC("rt0/hexes",V_<3>,hexesa,raviartThomas<0>(),0)
SC("rt0/tets",V_<3>,tets,raviartThomas<0>(),0)
SC("rt1/yasp2",V_<2>,yasp2,raviartThomas<1>(),1)
SC("nedelec1/tets",V_<3>,tets,(nedelec<1,1>()),0)
SC("nedelec1/hexes",V_<3>,hexes,(nedelec<1,1>()),0)
SC("rt2/yasp2",V_<2>,yasp2,raviartThomas<2>(),2)
SC("bdm1/yasp2",V_<2>,yasp2,brezziDouglasMarini<1>(),1)
SC("bdm2/yasp2",V_<2>,yasp2,brezziDouglasMarini<2>(),2)
SC("rannacherTurek/yasp3",double,yasp3,rannacherTurek(),1)
#elif PART==5
SC("hermite/lines",V_<1>,lines,cubicHermite(),3)
SC("hermite/tris",double,tris,cubicHermite(),3)
SC("hermite/tets",double,tets,cubicHermite(),3)
SC("reducedHermite/tris",double,tris,reducedCubicHermite(),2)
SC("morley/tris",double,tris,morley(),2)

// The global interpolate() does not offer second derivatives to leaf nodes, so the element interpolation is
// scattered here; values written from different elements must agree.
struct LocalPoly {
  Poly<2> p; Mock::Entity<0,2>::Geometry g;
  using X=V_<2>;
  double operator()(const X& x) const { return p(g.global(x)); }
  struct H { Poly<2> p; Mock::Entity<0,2>::Geometry g; auto operator()(const X& x) const { return derivative(derivative(p))(g.global(x)); } };
  struct G { Poly<2> p; Mock::Entity<0,2>::Geometry g; auto operator()(const X& x) const { return derivative(p)(g.global(x)); } friend H derivative(const G& q) { return {q.p,q.g}; } };
  friend G derivative(const LocalPoly& q) { return {q.p,q.g}; }
};
VF_CASE("argyris/tris") {
  for (int it=0; it<scale(6,30); ++it) {
    auto grid=Spaces::tris(); auto gv=grid->leafGridView(); auto basis=makeBasis(gv,argyris());
    std::vector<double> c(basis.dimension(), std::nan("")); auto f=Poly<2>::random(5);
    auto lv=basis.localView(); std::vector<double> out;
    for (const auto& e : elements(gv)) {
      lv.bind(e); lv.tree().finiteElement().localInterpolation().interpolate(LocalPoly{f,e.geometry()}, out);
      for (std::size_t i=0;i<lv.size();++i) { auto& y=c[lv.index(i)[0]]; if (!std::isnan(y)) check(near(y,out[i],1e-8),"consistent", y," vs ",out[i]); y=out[i]; }
    }
    auto gf=makeDiscreteGlobalBasisFunction<double>(basis,c); auto lf=localFunction(gf); auto dlf=localFunction(derivative(gf));
    for (const auto& e : elements(gv)) { lf.bind(e); dlf.bind(e); for (int k=0;k<4;++k) { auto x=randomLocal<2>(e.type()); auto X=e.geometry().global(x);
      check(near(lf(x),f(X),1e-7),"reproduce", lf(x)," vs ",f(X)); check(nearv(flat(dlf(x)),flat(derivative(f)(X)),1e-6),"reproduce-gradient"); state(hdbl(1,f(X))); obs("points"); } }
  }
}
#elif PART==6   // trees
template<class R, class V, class Mk, class Fac, class MakeF>
void tree(const std::string& label, Mk mk, Fac fac, MakeF makeF)
{
  for (int it=0; it<scale(3,20); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView();
    auto basis=makeBasis(gv, fac);
    V c{};
    auto f=makeF(gv);
    reproduce<R>(label, basis, c, f, 1e-9);
    project<R>(label, basis, c, 1e-9);
  }
}
auto vp2=[](int k){ return [k](const auto& gv){ constexpr int d=std::decay_t<decltype(gv)>::dimension; return VPoly<d,2>::random(k); }; };
auto vp3=[](int k){ return [k](const auto& gv){ constexpr int d=std::decay_t<decltype(gv)>::dimension; return VPoly<d,3>::random(k); }; };
using Flat=std::vector<double>;
VF_CASE("power2-fl") { tree<V_<2>,Flat>("f",Spaces::mixed2,power<2>(lagrange<2>(),flatLexicographic()),vp2(2)); }
VF_CASE("power3-fi") { tree<V_<3>,Flat>("f",Spaces::mixed2,power<3>(lagrange<1>(),flatInterleaved()),vp3(1)); }
VF_CASE("power2-bi-blockvector") { tree<V_<2>,Dune::BlockVector<V_<2>>>("f",Spaces::mixed2,power<2>(lagrange<2>(),blockedInterleaved()),vp2(2)); }
VF_CASE("power2-bl-array") { tree<V_<2>,std::array<std::vector<double>,2>>("f",Spaces::mixed2,power<2>(lagrange<2>(),blockedLexicographic()),vp2(2)); }
VF_CASE("power2-bl-vecvec") { tree<V_<2>,std::vector<std::vector<double>>>("f",Spaces::mixed2,power<2>(lagrange<2>(),blockedLexicographic()),vp2(2)); }
VF_CASE("dpower3-bl") { tree<V_<3>,std::vector<std::vector<double>>>("f",Spaces::mixed2,power(lagrange<2>(),3,blockedLexicographic()),vp3(2)); }
VF_CASE("dpower2-fi") { tree<V_<2>,Flat>("f",Spaces::mixed2,power(lagrange<3>(),2,flatInterleaved()),vp2(3)); }
VF_CASE("composite-tuple") {
  using R=Dune::TupleVector<V_<2>,double>;
  tree<R,Dune::MultiTypeBlockVector<Dune::BlockVector<V_<2>>,Dune::BlockVector<double>>>("f",Spaces::mixed2,
    composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic()),
    [](const auto& gv){ return [u=VPoly<2,2>::random(2),p=Poly<2>::random(1)](const V_<2>& x){ return R(u(x),p(x)); }; }); }
VF_CASE("composite-fl-vectorvalued") {
  using R=Dune::TupleVector<V_<2>,double,V_<3>>;
  tree<R,Flat>("f",Spaces::mixed2,
    composite(raviartThomas<0>(),lagrange<3>(),power<3>(lagrange<1>(),flatLexicographic()),flatLexicographic()),
    [](const auto& gv){ return [u=VPoly<2,2>::random(0),p=Poly<2>::random(3),w=VPoly<2,3>::random(1)](const V_<2>& x){ return R(u(x),p(x),w(x)); }; }); }
VF_CASE("nested-power") {
  using R=Dune::FieldVector<V_<3>,2>;
  using M=Dune::FieldMatrix<double,2,3>; (void)sizeof(M);
  tree<std::array<V_<3>,2>,Flat>("f",Spaces::mixed2,
    power<2>(power<3>(lagrange<2>(),flatInterleaved()),flatLexicographic()),
    [](const auto& gv){ return [a=VPoly<2,3>::random(2),b=VPoly<2,3>::random(2)](const V_<2>& x){ return std::array<V_<3>,2>{a(x),b(x)}; }; }); }
VF_CASE("custom-node-to-range") {
  for (int it=0; it<scale(4,20); ++it) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    auto basis=makeBasis(gv, power<3>(lagrange<2>(),blockedLexicographic()));
    std::array<int,3> perm{0,1,2}; std::shuffle(perm.begin(),perm.end(),rng());
    auto ntre=[perm](const auto& node, const auto& tp, auto&& y) -> decltype(auto) { return y[perm[tp[0]]]; };
    auto f=VPoly<2,3>::random(2);
    std::vector<std::vector<double>> c;
    interpolate(basis, c, f, Dune::Functions::Imp::AllTrueBitSetVector(), ntre);
    for (int i=0;i<3;++i) {
      auto sb=makeBasis(gv,lagrange<2>()); std::vector<double> ci;
      interpolate(sb, ci, f.c[perm[i]]);
      check(ci==c[i], "component", "component ", i, " mapped to ", perm[i]);
      state(mix(hdbl(1,ci[0]),perm[i]));
    }
  }
}
#elif PART==7   // curved surfaces: -DMOCK_EXTRA=1
SC("surface/lag1/mixed2",double,mixed2,lagrange<1>(),1)
SC("surface/lag2/mixed2",double,mixed2,lagrange<2>(),2)
SC("surface/lag3/tris",double,tris,lagrange<3>(),3)
SC("surface/lagRT4/mixed2",double,mixed2,lagrange(4),4)
SC("surface/lagRT3/lines",double,lines,lagrange(3),3)
SC("surface/lagDG2/mixed2",double,mixed2,lagrangeDG<2>(),2)
SC("surface/hier2/tris",double,tris,hierarchicalLagrange<2>(),2)
SC("surface/bubble1/tris",double,tris,hierarchicalLagrangeWithElementBubble<1>(),1)
SC("surface/refined1/tris",double,tris,refined<1>(),1)
SC("surface/power3/mixed2",V_<3>,mixed2,power<3>(lagrange<2>(),flatInterleaved()),2)
SC("surface/power2/lines",V_<2>,lines,power<2>(lagrange<2>(),flatLexicographic()),2)
#endif
