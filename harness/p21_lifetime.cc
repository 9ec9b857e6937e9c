// P21: objects made from temporaries, outliving their sources, under ASan/UBSan (or memcheck) with an allocation balance.
#include "grids.hh"
#include "poly.hh"
#include <optional>
#include <memory>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
#include <sanitizer/allocator_interface.h>
#endif
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using namespace Dune::Indices;
namespace Ex = Dune::Functions::BasisFactory::Experimental;
template<int n> using V_=Dune::FieldVector<double,n>;

// run the scenario twice to fill caches, then once more: everything allocated has to be released again
template<class F> void balanced(const std::string& key, F&& f)
{
  auto saved=rng(); f();
#ifdef VF_ASAN
  rng()=saved; f();
  obs("balance"); // create the entries before measuring
  S().failures.size();
  auto r2=saved; rng()=saved;
  std::size_t before=__sanitizer_get_current_allocated_bytes();
  f();
  std::size_t after=__sanitizer_get_current_allocated_bytes();
  check(before==after, key+":allocation-balance", "bytes live before ", before, " after ", after);
#endif
  obs("scenarios"); state(mix(hstr(key),rng()()));
}
// consume values through branches (memcheck sees any uninitialised one)
inline double consume(const std::vector<double>& v) { double s=0; for (double x : v) { if (x>0) s+=x; else s-=2*x; } if (s!=s) obs("nan"); return s; }

template<class T> struct Box { std::unique_ptr<T> p; Box(T&& t) : p(std::make_unique<T>(std::move(t))) {} Box(const T& t) : p(std::make_unique<T>(t)) {} T& operator*() { return *p; } T* operator->() { return p.get(); } void kill() { p.reset(); } };
template<class T> Box(T) -> Box<T>;

template<class Basis> std::vector<double> basisSignature(const Basis& b)
{ std::vector<double> r; auto lv=b.localView(); for (const auto& e : elements(b.gridView())) { lv.bind(e); auto s=signature(lv); r.insert(r.end(),s.begin(),s.end()); } r.push_back(b.dimension()); r.push_back(b.size()); return r; }

// a basis built in all supported ways; each object is used only after its source was destroyed
template<class GV, class MkFac> void basisLifetimes(const std::string& key, const GV& gv, MkFac mkFac)
{
  std::vector<double> ref; { auto fac=mkFac(); auto b=makeBasis(gv,fac); ref=basisSignature(b); consume(ref); }
  auto same=[&](const auto& b, const char* how) { auto s=basisSignature(b); consume(s); check(s==ref, cat(key,":",how), "differs from the basis whose sources are alive"); obs("outliving_bases"); };
  { Box fac(mkFac()); Box b(makeBasis(gv,*fac)); fac.kill(); same(*b,"factory-destroyed"); }
  { auto b=makeBasis(GV(gv),mkFac()); same(b,"temporaries"); }
  { Box fac(mkFac()); Box view(gv); auto pre=(*fac)(*view); fac.kill(); view.kill(); using Pre=decltype(pre); DefaultGlobalBasis<Pre> b(std::move(pre)); same(b,"from-prebasis"); }
  { Box fac(mkFac()); Box c(*fac); fac.kill(); auto b=makeBasis(gv,*c); c.kill(); same(b,"factory-copy"); }
  { Box b(makeBasis(gv,mkFac())); auto copy=*b; b.kill(); same(copy,"copy"); auto moved=std::move(copy); same(moved,"moved"); std::vector<decltype(moved)> v; for (int i=0;i<3;++i) v.push_back(moved); v.pop_back(); same(v.back(),"vector"); std::optional<decltype(moved)> o; o.emplace(std::move(moved)); same(*o,"optional"); }
  { auto sp=std::make_shared<decltype(makeBasis(gv,mkFac()))>(makeBasis(gv,mkFac())); auto wk=sp; sp.reset(); same(*wk,"shared"); }
  { // local views in containers, destroyed in any order
    auto b=makeBasis(gv,mkFac()); std::vector<std::unique_ptr<typename decltype(b)::LocalView>> vs; std::vector<double> r;
    for (const auto& e : elements(gv)) { auto lv=b.localView(); lv.bind(e); vs.push_back(std::make_unique<decltype(lv)>(lv)); }
    while (!vs.empty()) { auto i=rnd(vs.size()); auto s=signature(*vs[i]); consume(s); vs.erase(vs.begin()+i); } }
  { // update over grid views whose argument is a temporary
    auto b=makeBasis(gv,mkFac()); b.update(GV(gv)); same(b,"updated"); }
}
template<class R, class GV, class MkFac> void functionLifetimes(const std::string& key, const GV& gv, MkFac mkFac)
{
  using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate;
  std::vector<typename GV::template Codim<0>::Entity> els; for (const auto& e : elements(gv)) els.push_back(e);
  auto basis=makeBasis(gv,mkFac()); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
  auto eval=[&](auto& lf) { std::vector<double> r; for (auto& e : els) { lf.bind(e); auto x=Dune::referenceElement(e.geometry()).position(0,0); flat(lf(x),r); } return r; };
  std::vector<double> ref, dref; { auto f=makeDiscreteGlobalBasisFunction<R>(basis,c); auto l=localFunction(f); ref=eval(l); auto d=derivative(l); dref=eval(d); consume(ref); consume(dref); }
  auto same=[&](auto&& lf, const char* how) { auto r=eval(lf); consume(r); check(r==ref,cat(key,":",how)); obs("outliving_functions"); };
  auto dsame=[&](auto&& lf, const char* how) { auto r=eval(lf); consume(r); check(r==dref,cat(key,":",how)); obs("outliving_functions"); };
  { // the function owns moved basis and coefficients
    Box b(makeBasis(gv,mkFac())); Box v(c); Box f(makeDiscreteGlobalBasisFunction<R>(std::move(*b),std::move(*v))); b.kill(); v.kill();
    same(localFunction(*f),"owning"); Box l(localFunction(*f)); Box d(derivative(*f)); Box dl(derivative(*l)); auto copy=*f; f.kill(); same(*l,"local-outlives-function"); dsame(localFunction(*d),"derivative-outlives-function");
    l.kill(); dsame(*dl,"local-derivative-outlives-local"); same(localFunction(copy),"copy"); Box d2(localFunction(*d)); d.kill(); dsame(*d2,"local-of-derivative"); }
  { // temporaries directly
    auto l=localFunction(makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,mkFac()),std::vector<double>(c))); same(l,"temporary"); auto l2=derivative(localFunction(makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,mkFac()),std::vector<double>(c)))); dsame(l2,"temporary-derivative");
    auto l3=localFunction(derivative(makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,mkFac()),std::vector<double>(c)))); dsame(l3,"temporary-global-derivative"); }
  { // type erasure
    using GVF=GridViewFunction<R(X),GV>; using GF=GridFunction<R(X),GridViewEntitySet<GV,0>>;
    auto e=Box<GVF>(GVF(makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,mkFac()),std::vector<double>(c)))); auto g=Box<GF>(GF(*e)); Box l(localFunction(*e)); Box l2(localFunction(*g)); Box d(derivative(*e)); e.kill(); same(*l,"erased-local"); g.kill(); same(*l2,"erased-local2"); Box dd(localFunction(*d)); d.kill(); dsame(*dd,"erased-derivative"); Box d3(derivative(*l)); l.kill(); dsame(*d3,"erased-local-derivative");
    std::vector<GVF> v; for (int i=0;i<4;++i) v.push_back(GVF(makeDiscreteGlobalBasisFunction<R>(basis,c))); v.erase(v.begin()+1); std::rotate(v.begin(),v.begin()+1,v.end()); v[0]=v[0]; same(localFunction(v[0]),"erased-vector"); same(localFunction(v[2]),"erased-vector2"); }
  { // shared pointers as given by the caller
    auto sb=std::make_shared<const decltype(basis)>(basis); auto sc=std::make_shared<const std::vector<double>>(c); using DG=decltype(makeDiscreteGlobalBasisFunction<R>(basis,c));
    auto nm=std::make_shared<const HierarchicNodeToRangeMap>(); if constexpr (std::is_constructible_v<DG,decltype(sb),decltype(sc),decltype(nm)>) { auto f=Box<DG>(DG(sb,sc,nm)); sb.reset(); sc.reset(); nm.reset(); Box l(localFunction(*f)); f.kill(); same(*l,"shared-pointers"); } }
  { // composed functions own the functions passed as rvalues
    auto f=makeComposedGridFunction([k=std::make_shared<double>(1.0)](auto v) { v*=*k; return v; },makeDiscreteGlobalBasisFunction<R>(makeBasis(gv,mkFac()),std::vector<double>(c))); Box cp(f); same(localFunction(*cp),"composed"); auto nested=makeComposedGridFunction([](auto v) { return v; },std::move(*cp)); cp.kill(); same(localFunction(nested),"composed-moved"); }
}
#if PART==1
VF_CASE("bases/leaf2d") { for (int it=0; it<scale(3,15); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); 
  balanced("lag1",[&]{ basisLifetimes("lag1",gv,[]{ return lagrange<1>(); }); }); balanced("lag3",[&]{ basisLifetimes("lag3",gv,[]{ return lagrange<3>(); }); }); balanced("lagRT",[&]{ basisLifetimes("lagRT",gv,[]{ return lagrange(2); }); });
  balanced("dg",[&]{ basisLifetimes("dg",gv,[]{ return lagrangeDG<2>(); }); }); balanced("rt0",[&]{ basisLifetimes("rt0",gv,[]{ return raviartThomas<0>(); }); }); balanced("nedelec",[&]{ basisLifetimes("nedelec",gv,[]{ return nedelec<1,1>(); }); }); } }
VF_CASE("bases/tris") { for (int it=0; it<scale(3,15); ++it) { auto g=Spaces::tris(); auto gv=g->leafGridView();
  balanced("hermite",[&]{ basisLifetimes("hermite",gv,[]{ return cubicHermite(); }); }); balanced("argyris",[&]{ basisLifetimes("argyris",gv,[]{ return argyris(); }); }); balanced("morley",[&]{ basisLifetimes("morley",gv,[]{ return morley(); }); });
  balanced("rt1",[&]{ basisLifetimes("rt1",gv,[]{ return raviartThomas<1>(); }); }); balanced("bdm",[&]{ basisLifetimes("bdm",gv,[]{ return brezziDouglasMarini<2>(); }); }); } }
#elif PART==2
VF_CASE("bases/products") { for (int it=0; it<scale(3,15); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView();
  balanced("power",[&]{ basisLifetimes("power",gv,[]{ auto inner=lagrange<2>(); auto ims=blockedInterleaved(); return power<2>(inner,ims); }); });
  balanced("dpower",[&]{ basisLifetimes("dpower",gv,[]{ auto inner=lagrange<1>(); std::size_t k=3; return power(inner,k,flatInterleaved()); }); });
  balanced("composite",[&]{ basisLifetimes("composite",gv,[]{ auto a=power<2>(lagrange<2>(),blockedInterleaved()); auto b=lagrange(1); auto c=raviartThomas<0>(); return composite(a,b,c,blockedLexicographic()); }); });
  balanced("nested",[&]{ basisLifetimes("nested",gv,[]{ return composite(composite(lagrange<1>(),power(lagrange<1>(),2,flatLexicographic()),flatLexicographic()),lagrange<0>(),blockedLexicographic()); }); });
  balanced("periodic",[&]{ basisLifetimes("periodic",gv,[&]{ auto s=std::make_unique<Ex::PeriodicIndexSet>(); s->unifyIndexPair(0,1); return Ex::periodic(lagrange<1>(),*s); }); });
  std::size_t n=gv.size(2);
  balanced("transformed",[&]{ basisLifetimes("transformed",gv,[&]{ auto perm=std::vector<std::size_t>(n); for (std::size_t i=0;i<n;++i) perm[i]=n-1-i; return Ex::transformIndices(lagrange<1>(),Ex::indexTransformation([perm](auto& mi, const auto&) { mi[0]=perm[mi[0]]; }, [](const auto& p, const auto& pb) { return p.size()==0 ? pb.size() : 0; }, [](const auto& pb) { return pb.containerDescriptor(); }, Dune::index_constant<1>{}, Dune::index_constant<1>{})); }); }); } }
VF_CASE("bases/bspline") { for (int it=0; it<scale(4,20); ++it) { std::vector<double> k{urnd()}; int n=2+rnd(4); for (int j=0;j<n;++j) k.push_back(k.back()+0.1+urnd(0,1)); std::array<std::vector<double>,2> co{k,k}; Dune::YaspGrid<2,Dune::TensorProductCoordinates<double,2>> g(co); auto gv=g.leafGridView(); unsigned p=rnd(4);
  balanced("bspline",[&]{ basisLifetimes("bspline",gv,[&]{ auto kk=std::make_unique<std::vector<double>>(k); auto f=bSpline(*kk,p); std::fill(kk->begin(),kk->end(),0.0); return f; }); });
  balanced("bspline-temporary",[&]{ basisLifetimes("bspline-temporary",gv,[&]{ return bSpline(std::vector<double>(k),p,true); }); });
  balanced("power-bspline",[&]{ basisLifetimes("power-bspline",gv,[&]{ return power<2>(bSpline(std::vector<double>(k),p),blockedInterleaved()); }); }); 
  balanced("bspline-function",[&]{ functionLifetimes<double>("bspline-function",gv,[&]{ return bSpline(std::vector<double>(k),p); }); }); } }
#elif PART==3
VF_CASE("functions/discrete") { for (int it=0; it<scale(3,15); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); 
  balanced("lag2",[&]{ functionLifetimes<double>("lag2",gv,[]{ return lagrange<2>(); }); }); balanced("rt0",[&]{ functionLifetimes<V_<2>>("rt0",gv,[]{ return raviartThomas<0>(); }); });
  balanced("power",[&]{ functionLifetimes<V_<2>>("power",gv,[]{ return power<2>(lagrange<1>(),flatInterleaved()); }); });
  auto t=Spaces::tris(); auto tv=t->leafGridView(); balanced("hermite",[&]{ functionLifetimes<double>("hermite",tv,[]{ return cubicHermite(); }); }); balanced("argyris",[&]{ functionLifetimes<double>("argyris",tv,[]{ return argyris(); }); }); } }
#elif PART==4
VF_CASE("functions/analytic") { for (int it=0; it<scale(4,20); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using GV=decltype(gv); using X=V_<2>;
  balanced("analytic",[&]{ auto p=Poly<2>::random(3); auto dp=derivative(p);
    auto run=[&](auto&& lf, const auto& exact, const char* how) { for (const auto& e : elements(gv)) { lf.bind(e); auto x=randomLocal<2>(e.type()); auto v=flat(lf(x)); consume(v); check(nearv(v,flat(exact(e.geometry().global(x))),1e-10),how); obs("outliving_functions"); } };
    { Box q(p); Box f(makeAnalyticGridViewFunction(*q,gv)); q.kill(); Box l(localFunction(*f)); Box d(derivative(*f)); Box dl(derivative(*l)); f.kill(); run(*l,p,"local"); l.kill(); run(*dl,dp,"local-derivative"); Box l2(localFunction(*d)); d.kill(); run(*l2,dp,"derivative"); }
    { Box view(gv); Box f(makeGridViewFunction(p,*view)); view.kill(); Box l(localFunction(*f)); f.kill(); run(*l,p,"gridviewfunction"); }
    { auto big=std::make_shared<std::vector<double>>(100,1.0); auto w=std::weak_ptr<std::vector<double>>(big); { Box lam([big,p](const X& x) { return p(x)*(*big)[99]; }); Box f(makeGridViewFunction(*lam,gv)); lam.kill(); big.reset(); Box l(localFunction(*f)); f.kill(); run(*l,p,"lambda"); check(!w.expired(),"lambda-capture-kept"); } check(w.expired(),"lambda-capture-released"); }
    { GridViewFunction<double(X),GV> e=makeAnalyticGridViewFunction(p,gv); auto l=localFunction(e); e=makeAnalyticGridViewFunction([](const X&) { return 0.0; },gv); run(l,p,"erased-reassigned"); GridViewFunction<double(X),GV> m=std::move(e); e=m; (void)e; }
    { auto f=makeComposedGridFunction([](double a, double b) { return a-b; },makeAnalyticGridViewFunction(p,gv),makeGridViewFunction([](const X&) { return 0.0; },gv)); auto h=std::make_unique<decltype(f)>(f); Box cp(*h); h.reset(); run(localFunction(*cp),p,"composed"); auto entitySet=cp->entitySet(); cp.kill(); for (const auto& e : entitySet) consume(flat(e.geometry().center())); }
    { auto f=std::make_unique<FaceNormalGridFunction<GV>>(gv); Box c(*f); f.reset(); auto l=localFunction(*c); for (const auto& e : elements(gv)) { l.bind(e); consume(flat(l(randomLocal<2>(e.type())))); } } }); } }
VF_CASE("functions/levels") { for (int it=0; it<scale(4,20); ++it) { auto gp=Spaces::makeYasp<2>(1,3); gp->globalRefine(1+rnd(2)); auto& grid=*gp; auto coarse=grid.levelGridView(0); auto fine=grid.leafGridView();
  balanced("levels",[&]{ auto p=Poly<2>::random(2); auto dp=derivative(p);
    auto run=[&](const auto& gv, auto&& lf, const auto& exact, const char* how) { for (const auto& e : elements(gv)) { lf.bind(e); auto x=randomLocal<2>(e.type()); auto v=flat(lf(x)); consume(v); check(nearv(v,flat(exact(e.geometry().global(x))),1e-8),how); obs("outliving_functions"); } };
    { auto b=makeBasis(coarse,lagrange<2>()); std::vector<double> c; interpolate(b,c,p); Box raw(makeDiscreteGlobalBasisFunction<double>(std::move(b),std::move(c))); Box f(CoarseFunctionOnFineGridView(std::move(*raw),fine)); raw.kill(); Box d(derivative(*f)); Box l(localFunction(*f)); run(fine,*l,p,"coarse"); Box dl(derivative(*l)); l.kill(); run(fine,*dl,dp,"coarse-local-derivative"); Box cp(*f); f.kill(); run(fine,localFunction(*cp),p,"coarse-copy"); run(fine,localFunction(*d),dp,"coarse-derivative"); }
    { auto b=makeBasis(fine,lagrange<2>()); std::vector<double> c; interpolate(b,c,p); Box raw(makeDiscreteGlobalBasisFunction<double>(std::move(b),std::move(c))); Box f(FineFunctionOnCoarseGridView(std::move(*raw),coarse)); raw.kill(); Box d(derivative(*f)); Box l(localFunction(*f)); run(coarse,*l,p,"fine"); Box dl(derivative(*l)); l.kill(); run(coarse,*dl,dp,"fine-local-derivative"); Box cp(*f); f.kill(); run(coarse,localFunction(*cp),p,"fine-copy"); run(coarse,localFunction(*d),dp,"fine-derivative"); } }); } }
VF_CASE("functions/erased") { for (int it=0; it<scale(10,60); ++it) balanced("erased",[&]{ std::vector<double> co(1+rnd(6)); for (auto& y : co) y=urnd(); Polynomial<double> p(co); auto d1=derivative(p); auto d2=derivative(d1); double x=urnd();
    { auto f=Box<DifferentiableFunction<double(double)>>(DifferentiableFunction<double(double)>(Polynomial<double>(co))); Box d(derivative(*f)); f.kill(); check((*d)(x)==d1(x),"polynomial-derivative"); Box dd(derivative(*d)); d.kill(); check((*dd)(x)==d2(x),"polynomial-derivative2"); }
    { auto data=std::make_shared<std::vector<double>>(co); std::weak_ptr<std::vector<double>> w=data; { Box f(makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),[data,p](double y) { return p(y)+0*data->size(); },[data,d1](double y) { return d1(y)+0*data->size(); },[data,d2](double y) { return d2(y)+0*data->size(); })); data.reset(); Box d(derivative(*f)); Box c(*f); f.kill(); check((*d)(x)==d1(x),"callables-derivative"); check((*c)(x)==p(x),"callables-copy"); c.kill(); Box dd(derivative(*d)); d.kill(); check((*dd)(x)==d2(x),"callables-derivative2"); check(!w.expired(),"callables-kept"); } check(w.expired(),"callables-released"); }
    { Box f(p); Box d(derivative(*f)); f.kill(); check((*d)(x)==d1(x),"plain-derivative"); }
    { std::vector<DifferentiableFunction<double(double)>> v; for (int i=0;i<5;++i) { if (i%2) v.push_back(Polynomial<double>(co)); else v.push_back(TrigonometricFunction<double,1,0>{}); } for (int k=0;k<10;++k) { auto i=rnd(v.size()), j=rnd(v.size()); switch (rnd(4)) { case 0: v[i]=v[j]; break; case 1: std::swap(v[i],v[j]); break; case 2: if (v.size()<9) v.insert(v.begin()+i,DifferentiableFunction<double(double)>(v[j])); break; case 3: v[i]=derivative(v[j]); break; } } double s=0; for (auto& f : v) s+=f(x); if (s>0) obs("positive"); }
    obs("erased_rounds"); }); }
#elif PART==5
struct Boom { int code; };
VF_CASE("faults/callbacks") { // exceptions leaving user callbacks at every possible point
  for (int it=0; it<scale(4,20); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using X=V_<2>;
    balanced("interpolate",[&]{ auto b=makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())); using V=Dune::MultiTypeBlockVector<Dune::BlockVector<V_<2>>,Dune::BlockVector<double>>; V c; auto bk=istlVectorBackend(c); bk.resize(b); c=0;
      int calls=0; auto sub=subspaceBasis(b,_1); interpolate(sub,bk,[&](const X& x) { ++calls; return x[0]; }); auto good=flat(c[_1]);
      for (int k=0;k<calls;k+=1+calls/6) { auto keep=std::make_shared<int>(k); int n=0; bool thrown=false; try { interpolate(sub,bk,[&,keep](const X& x) { if (n++==k) throw Boom{*keep}; return x[0]; }); } catch (Boom& e) { thrown=true; check(e.code==k,"exception-value"); } check(thrown,"interpolate-exception-propagates"); obs("injected_faults"); interpolate(sub,bk,[&](const X& x) { return x[0]; }); check(flat(c[_1])==good,"usable-after-exception"); check(keep.use_count()==1,"callback-released"); }
      int dofs=0; forEachBoundaryDOF(b,[&](auto&&) { ++dofs; }); for (int k=0;k<dofs;k+=1+dofs/5) { int n=0; bool thrown=false; try { forEachBoundaryDOF(b,[&](auto&&) { if (n++==k) throw Boom{k}; }); } catch (Boom&) { thrown=true; } check(thrown,"boundary-exception-propagates"); int again=0; forEachBoundaryDOF(b,[&](auto&&) { ++again; }); check(again==dofs,"boundary-after-exception"); obs("injected_faults"); } });
    balanced("evaluate",[&]{ bool boom=false; auto p=Poly<2>::random(2); auto f=makeGridViewFunction([&](const X& x) { if (boom) throw Boom{1}; return p(x); },gv); auto c=makeComposedGridFunction([&](double a) { if (boom) throw Boom{2}; return a; },f); auto l=localFunction(c);
      for (const auto& e : elements(gv)) { l.bind(e); auto x=randomLocal<2>(e.type()); boom=true; bool t=false; try { l(x); } catch (Boom&) { t=true; } boom=false; check(t,"evaluate-exception"); check(nearv(flat(l(x)),flat(p(e.geometry().global(x))),1e-10),"evaluate-after-exception"); obs("injected_faults"); } }); } }
VF_CASE("backends") { for (int it=0; it<scale(4,20); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using X=V_<2>;
  balanced("backend",[&]{ Box b(makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic()))); Box cd(b->containerDescriptor()); auto dim=b->dimension(); b.kill(); auto c=makeContainer<double>(*cd); cd.kill(); consume(flat(c)); check(flat(c).size()==dim,"makeContainer"); auto v=makeISTLVector<double>(makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())).containerDescriptor()); check(flat(v).size()==dim,"makeISTLVector"); auto v2=v; v=std::move(v2); consume(flat(v)); });
  balanced("interpolate-temporaries",[&]{ auto p=Poly<2>::random(1); std::vector<double> c; interpolate(makeBasis(gv,lagrange<1>()),c,Poly<2>(p)); consume(c); Dune::BlockVector<double> w; interpolate(makeBasis(gv,lagrange<1>()),istlVectorBackend(w),[q=std::make_shared<Poly<2>>(p)](const X& x) { return (*q)(x); }); check(nearv(flat(w),flat(c)),"temporaries"); interpolate(makeBasis(gv,lagrange<1>()),c,makeGridViewFunction(Poly<2>(p),gv),std::vector<bool>(c.size(),true)); check(nearv(flat(w),flat(c)),"temporaries2"); });
  balanced("flatview",[&]{ std::array<V_<2>,3> a; for (auto& x : a) for (auto& y : x) y=urnd(); auto w=flatVectorView(a); double s=0; for (std::size_t i=0;i<w.size();++i) { if (w[i]>0) s+=w[i]; w[i]=double(i); } check(a[2][1]==5,"flatview-write"); const auto own=flatVectorView(std::array<V_<2>,3>{V_<2>{1,2},V_<2>{1,2},V_<2>{1,2}}); for (std::size_t i=0;i<own.size();++i) check(own[i]==1+double(i%2),"flatview-owning"); });
  balanced("subentitydofs",[&]{ auto b=makeBasis(gv,lagrange<3>()); auto lv=b.localView(); Box seDOFs(subEntityDOFs(b)); for (const auto& e : elements(gv)) { lv.bind(e); std::size_t n=0; for (const auto& is : intersections(gv,e)) { auto sd=subEntityDOFs(b); for (auto i : sd.bind(lv,is)) { check(i<lv.size(),"range"); ++n; } } seDOFs->bind(lv,0,1); auto cp=std::make_unique<std::decay_t<decltype(*seDOFs)>>(*seDOFs); seDOFs=Box(subEntityDOFs(b)); for (auto i : *cp) { check(i<lv.size(),"range2"); ++n; } check(n>=4,"subentitydofs-count"); obs("checks_subentity",n); } }); } }
VF_CASE("subdomains") { for (int it=0; it<scale(4,20); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using GV=decltype(gv); namespace E_=Dune::Functions::Experimental;
  balanced("subdomain",[&]{ E_::SubDomain<GV> sd(gv); std::size_t k=0; for (const auto& e : elements(gv)) if (rnd(2) || k++==0) sd.insertElement(e); 
    auto view=std::make_unique<decltype(sd.gridView())>(sd.gridView()); auto c=*view; view.reset(); std::size_t n=0; for (const auto& e : elements(c)) { consume(flat(e.geometry().center())); check(c.contains(e),"contains"); check(std::size_t(c.indexSet().index(e))<std::size_t(c.size(0)),"index"); ++n; } check(n==std::size_t(c.size(0)),"size");
    basisLifetimes("restricted",gv,[&]{ return E_::BasisFactory::restrict(lagrange<2>(),sd); }); }); } }
#endif
