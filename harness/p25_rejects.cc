// P25: requests the library does not support are refused with a Dune exception (never silently mis-handled), supported ones
// are not refused, and objects which refused a request keep working as before.
#include "grids.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include "poly.hh"
#include <optional>
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#ifndef PART
#define PART 0
#endif
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;

template<class F> bool throwsDune(F&& f) { try { f(); return false; } catch (const Dune::Exception& e) { obs("refusals"); return true; } }

template<class GV> std::set<std::string> types(const GV& gv) { std::set<std::string> r; for (const auto& e : elements(gv)) { auto t=e.type(); r.insert(t.isSimplex()?"simplex":t.isCube()?"cube":t.isPrism()?"prism":"pyramid"); } return r; }
template<class GV> std::uint64_t meshHash(const GV& gv) { std::uint64_t h=gv.size(0); for (const auto& e : elements(gv)) h=mix(h,e.type().id()); return h; }

template<class B> std::vector<double> fullSignature(const B& b) { std::vector<double> r{double(b.dimension()),double(b.size())}; auto lv=b.localView(); for (const auto& e : elements(b.gridView())) { lv.bind(e); for (auto x : signature(lv)) r.push_back(x); } return r; }

// construct on a random mesh; pred says whether the mesh is supported
template<class Mk, class Fac, class Pred> void construct(const std::string& key, Mk mk, Fac fac, Pred ok, int n=12)
{
  int yes=0, no=0;
  for (int r=0;r<scale(n,n*8);++r) { auto g=mk(); auto gv=g->leafGridView(); bool want=ok(types(gv));
    std::optional<std::decay_t<decltype(makeBasis(gv,fac()))>> b;
    bool threw=throwsDune([&]{ b.emplace(makeBasis(gv,fac())); });
    check(threw==!want, key+(want?":supported-refused":":unsupported-accepted"), "types ", [&]{ std::string s; for (auto& t : types(gv)) s+=t+" "; return s; }());
    (want?yes:no)++; state(mix(meshHash(gv),hstr(key)));
    if (b) { auto lv=b->localView(); for (const auto& e : elements(gv)) { lv.bind(e); check(lv.size()>0 && lv.size()<=lv.maxSize(), key+":usable"); } }
  }
  obs(key+":supported",yes); obs(key+":unsupported",no);
}

#if PART==0
VF_CASE("construct/lagrange") {
  auto noPP=[](auto t){ return !t.count("prism") && !t.count("pyramid"); }; auto all=[](auto){ return true; };
  auto each=[&](auto mk, const std::string& m) {
    construct("lagrange3/"+m,mk,[]{ return lagrange<3>(); },noPP,4); construct("lagrange4/"+m,mk,[]{ return lagrange<4>(); },noPP,3);
    construct("lagrangeRT3/"+m,mk,[]{ return lagrange(3); },noPP,4); construct("lagrangeRT5/"+m,mk,[]{ return lagrange(5); },noPP,3);
    construct("lagrange2/"+m,mk,[]{ return lagrange<2>(); },all,3); construct("lagrangeRT2/"+m,mk,[]{ return lagrange(2); },all,3); construct("lagrange1/"+m,mk,[]{ return lagrange<1>(); },all,3);
    construct("power/"+m,mk,[]{ return power<2>(lagrange<3>()); },noPP,3);
    construct("dynpower/"+m,mk,[]{ return power(lagrange(3),2); },noPP,3);
    construct("composite/"+m,mk,[]{ return composite(lagrange<1>(),composite(lagrange<2>(),lagrange<3>())); },noPP,3); };
  each([]{ return Spaces::prismhex(); },"prismhex"); each([]{ return Spaces::pyrhex(); },"pyrhex"); each([]{ return Spaces::prisms(); },"prisms"); each([]{ return Spaces::tets(); },"tets"); each([]{ return Spaces::hexes(); },"hexes");
  construct("lagrange5/mixed2",[]{ return Spaces::mixed2(); },[]{ return lagrange<5>(); },all,4);
  // a compile time order and a run time order exclude each other
  for (int r=0;r<5;++r) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using GV=decltype(gv); unsigned k=rnd(6);
    check(throwsDune([&]{ LagrangePreBasis<GV,2> pb(gv,k); }), "lagrange/two-orders", "order ", k); check(!throwsDune([&]{ LagrangePreBasis<GV,-1> pb(gv,k+1); }), "lagrange/run-time-order"); }
}
VF_CASE("construct/lagrange-high") {
  // the face numbering of the library supports orders up to maxOrder3d in 3d: whatever is accepted must be consistent
  for (int k : {16,17,18,20}) { auto g=Spaces::tets(); auto gv=g->leafGridView(); using GV=decltype(gv); bool threw=throwsDune([&]{ LagrangePreBasis<GV,-1> pb(gv,k); });
    // 2-bit packed orientations: unsupported orders must not be accepted silently
    check(threw==(k>17), "lagrange-high", "order ", k); obs(cat("order",k)); state(k); }
  for (int k : {18,25}) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using GV=decltype(gv); check(!throwsDune([&]{ LagrangePreBasis<GV,-1> pb(gv,k); }), "lagrange-high-2d"); }
}
VF_CASE("construct/vector-valued") {
  auto one=[](auto t){ return t.size()==1; };
  construct("rt1/mixed2",[]{ return Spaces::mixed2(); },[]{ return raviartThomas<1>(); },one,30);
  construct("rt0/mixed2",[]{ return Spaces::mixed2(); },[]{ return raviartThomas<0>(); },[](auto){ return true; },8);
  construct("bdm1/mixed2",[]{ return Spaces::mixed2(); },[]{ return brezziDouglasMarini<1>(); },one,30);
  construct("bdm2/mixed2",[]{ return Spaces::mixed2(); },[]{ return brezziDouglasMarini<2>(); },one,30);
  auto sc=[](auto t){ return !t.count("prism") && !t.count("pyramid"); };
  construct("nedelec/prismhex",[]{ return Spaces::prismhex(); },[]{ return nedelec<1,1,double>(); },sc,12);
  construct("nedelec/pyrhex",[]{ return Spaces::pyrhex(); },[]{ return nedelec<1,1,double>(); },sc,12);
  construct("nedelec/prisms",[]{ return Spaces::prisms(); },[]{ return nedelec<1,1,double>(); },sc,6);
  construct("nedelec/mixed2",[]{ return Spaces::mixed2(); },[]{ return nedelec<1,1,double>(); },[](auto){ return true; },8);
  construct("nedelec/hexes",[]{ return Spaces::hexes(); },[]{ return nedelec<1,1,double>(); },sc,6);
}
VF_CASE("construct/simplex-or-cube") {
  auto simplex=[](auto t){ return t==std::set<std::string>{"simplex"}; }; auto sc=[](auto t){ return !t.count("prism") && !t.count("pyramid"); };
  construct("rannacherTurek/prismhex",[]{ return Spaces::prismhex(); },[]{ return rannacherTurek(); },sc,12);
  construct("rannacherTurek/pyrhex",[]{ return Spaces::pyrhex(); },[]{ return rannacherTurek(); },sc,12);
  construct("rannacherTurek/tets",[]{ return Spaces::tets(); },[]{ return rannacherTurek(); },sc,6);
  construct("rannacherTurek/mixed2",[]{ return Spaces::mixed2(); },[]{ return rannacherTurek(); },sc,6);
  auto s=[&](auto mk, const std::string& m) {
    construct("hier1/"+m,mk,[]{ return hierarchicalLagrange<1>(); },simplex,8); construct("hier2/"+m,mk,[]{ return hierarchicalLagrange<2>(); },simplex,8);
    construct("bubble1/"+m,mk,[]{ return hierarchicalP1B(); },simplex,8); construct("bubble2/"+m,mk,[]{ return hierarchicalP2B(); },simplex,8);
    construct("refined0/"+m,mk,[]{ return refinedLagrange<0>(); },simplex,8); construct("refined1/"+m,mk,[]{ return refinedLagrange<1>(); },simplex,8);
    construct("composite/"+m,mk,[]{ return composite(power<2>(hierarchicalP1B()),lagrange<1>()); },simplex,8); };
  s([]{ return Spaces::mixed2(); },"mixed2"); s([]{ return Spaces::tris(); },"tris"); s([]{ return Spaces::quads(); },"quads");
  s([]{ return Spaces::tets(); },"tets"); s([]{ return Spaces::prismhex(); },"prismhex"); s([]{ return Spaces::pyrhex(); },"pyrhex");
  construct("argyris/mixed2",[]{ return Spaces::mixed2(); },[]{ return argyris(); },simplex,20);
}
VF_CASE("update/lagrange") {
  auto ok=[](auto t){ return !t.count("prism") && !t.count("pyramid"); };
  auto any=[&]{ switch (rnd(5)) { case 0: return Spaces::prismhex(); case 1: return Spaces::pyrhex(); case 2: return Spaces::tets(); case 3: return Spaces::hexes(); default: return Spaces::prisms(); } };
  auto run=[&](const std::string& key, auto fac, bool strong, bool restricted) {
    for (int r=0;r<scale(4,40);++r) {
      auto g=[&]{ for (;;) { auto g=any(); if (!restricted || ok(types(g->leafGridView()))) return g; } }();
      std::vector<decltype(g)> keep{g}; auto b=makeBasis(g->leafGridView(),fac()); auto sig=fullSignature(b); auto lv=b.localView();
      for (int i=0;i<6;++i) { auto g2=any(); keep.push_back(g2); bool want=!restricted || ok(types(g2->leafGridView()));
        bool threw=throwsDune([&]{ b.update(g2->leafGridView()); });
        check(threw==!want, key+(want?":supported-refused":":unsupported-accepted")); obs(want?"accepted-updates":"refused-updates"); state(mix(meshHash(g2->leafGridView()),want));
        if (!threw) { g=g2; sig=fullSignature(makeBasis(g->leafGridView(),fac())); check(fullSignature(b)==sig, key+":after-update"); }
        else if (strong) { check(&b.gridView().indexSet()==&g->leafGridView().indexSet(), key+":gridview-after-refusal"); check(fullSignature(b)==sig, key+":unchanged-after-refusal"); }
        else { b.update(g->leafGridView()); check(fullSignature(b)==sig, key+":recovered-after-refusal"); } } } };
  // DefaultGlobalBasis only forwards to the pre-basis: check the pre-basis for the strong guarantee
  run("lagrange3",[]{ return lagrange<3>(); },true,true); run("lagrangeRT3",[]{ return lagrange(3); },true,true); run("lagrangeRT4",[]{ return lagrange(4); },true,true);
  run("lagrange2",[]{ return lagrange<2>(); },true,false); run("lagrangeRT2",[]{ return lagrange(2); },true,false);
  run("power3",[]{ return power<2>(lagrange<3>()); },true,true); run("dynpower3",[]{ return power(lagrange(3),3); },true,true);
  run("composite13",[]{ return composite(lagrange<1>(),power<2>(lagrange<3>(),blockedInterleaved())); },false,true);
}
// the other spaces refuse unsupported element types on update() as they do on construction
template<class Any, class Fac, class Pred> void updates(const std::string& key, Any any, Fac fac, Pred ok, bool strong)
{
  int yes=0, no=0;
  for (int r=0;r<scale(3,30);++r) {
    auto g=[&]{ for (;;) { auto g=any(); if (ok(types(g->leafGridView()))) return g; } }();
    std::vector<decltype(g)> keep{g}; auto b=makeBasis(g->leafGridView(),fac()); auto sig=fullSignature(b);
    for (int i=0;i<7;++i) { auto g2=any(); keep.push_back(g2); bool want=ok(types(g2->leafGridView()));
      bool threw=throwsDune([&]{ b.update(g2->leafGridView()); }); (want?yes:no)++;
      check(threw==!want, key+(want?":supported-refused":":unsupported-accepted")); state(mix(meshHash(g2->leafGridView()),hstr(key)));
      if (!threw) { g=g2; sig=fullSignature(makeBasis(g->leafGridView(),fac())); check(fullSignature(b)==sig, key+":after-update"); }
      else if (strong) { check(&b.gridView().indexSet()==&g->leafGridView().indexSet(), key+":gridview-after-refusal"); check(fullSignature(b)==sig, key+":unchanged-after-refusal"); }
      else { b.update(g->leafGridView()); check(fullSignature(b)==sig, key+":recovered-after-refusal"); } } }
  obs(key+":supported",yes); obs(key+":unsupported",no);
}
VF_CASE("update/others") {
  auto any3=[&]{ switch (rnd(5)) { case 0: return Spaces::prismhex(); case 1: return Spaces::pyrhex(); case 2: return Spaces::tets(); case 3: return Spaces::hexes(); default: return Spaces::prisms(); } };
  auto any2=[&]{ switch (rnd(3)) { case 0: return Spaces::mixed2(); case 1: return Spaces::tris(); default: return Spaces::quads(); } };
  auto simplex=[](auto t){ return t==std::set<std::string>{"simplex"}; }; auto sc=[](auto t){ return !t.count("prism") && !t.count("pyramid"); }; auto one=[](auto t){ return t.size()==1; }; auto all=[](auto){ return true; };
  updates("update/rt0/2",any2,[]{ return raviartThomas<0>(); },all,true); updates("update/rt1/2",any2,[]{ return raviartThomas<1>(); },one,true); updates("update/rt0/3",any3,[]{ return raviartThomas<0>(); },all,true);
  updates("update/bdm1/2",any2,[]{ return brezziDouglasMarini<1>(); },one,true); updates("update/bdm2/2",any2,[]{ return brezziDouglasMarini<2>(); },one,true);
  updates("update/nedelec/2",any2,[]{ return nedelec<1,1,double>(); },all,true); updates("update/nedelec/3",any3,[]{ return nedelec<1,1,double>(); },sc,true);
  updates("update/rannacherTurek/2",any2,[]{ return rannacherTurek(); },all,true); updates("update/rannacherTurek/3",any3,[]{ return rannacherTurek(); },sc,true);
  updates("update/hier1/2",any2,[]{ return hierarchicalLagrange<1>(); },simplex,true); updates("update/hier2/3",any3,[]{ return hierarchicalLagrange<2>(); },simplex,true);
  updates("update/bubble1/3",any3,[]{ return hierarchicalP1B(); },simplex,true); updates("update/bubble2/2",any2,[]{ return hierarchicalP2B(); },simplex,true);
  updates("update/refined0/2",any2,[]{ return refinedLagrange<0>(); },simplex,true); updates("update/refined1/3",any3,[]{ return refinedLagrange<1>(); },simplex,true);
  updates("update/argyris/2",any2,[]{ return argyris(); },simplex,false);
  updates("update/power-hier/2",any2,[]{ return power<2>(hierarchicalP2B()); },simplex,true); updates("update/composite/3",any3,[]{ return composite(lagrange<2>(),power(nedelec<1,1,double>(),2)); },sc,false);
}
VF_CASE("resize") {
  auto g=Spaces::tris(); auto gv=g->leafGridView(); using BV=Dune::BlockVector<double>; std::size_t nv=gv.size(2), ne=gv.size(0);
  auto p2=makeBasis(gv,power<2>(lagrange<1>(),blockedLexicographic())); auto i2=makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())); auto flat=makeBasis(gv,lagrange<1>());
  auto comp=makeBasis(gv,composite(power<2>(lagrange<1>(),blockedInterleaved()),lagrange<0>(),blockedLexicographic()));
  auto trial=[&](const std::string& key, auto& v, const auto& b, bool want) { bool threw=throwsDune([&]{ istlVectorBackend(v).resize(b); }); check(threw==!want, "resize/"+key+(want?":refused":":accepted")); state(hstr(key)); };
  for (int r=0;r<3;++r) {
    { std::array<BV,2> v; trial("power2/array2",v,p2,true); check(v[0].size()==nv && v[1].size()==nv,"resize/power2/sizes"); } { std::array<BV,3> v; trial("power2/array3",v,p2,false); } { std::array<BV,1> v; trial("power2/array1",v,p2,false); }
    { std::vector<BV> v; trial("power2/vector",v,p2,true); } { Dune::TupleVector<BV,BV> v; trial("power2/tuple2",v,p2,true); } { Dune::TupleVector<BV,BV,BV> v; trial("power2/tuple3",v,p2,false); }
    { BV v; trial("power2/flat",v,p2,false); } { std::vector<std::vector<std::vector<double>>> v; trial("flat/nested-too-deep",v,flat,false); }
    { Dune::BlockVector<Dune::FieldVector<double,2>> v; trial("interleaved/block2",v,i2,true); check(v.size()==nv,"resize/interleaved/size"); } { Dune::BlockVector<Dune::FieldVector<double,3>> v; trial("interleaved/block3",v,i2,false); } { BV v; trial("interleaved/flat",v,i2,false); }
    { Dune::BlockVector<Dune::FieldVector<double,1>> v; trial("flat/block1",v,flat,true); } { BV v; trial("flat/flat",v,flat,true); }
    { Dune::MultiTypeBlockVector<Dune::BlockVector<Dune::FieldVector<double,2>>,BV> v; trial("composite/ok",v,comp,true); using namespace Dune::Indices; check(v[_0].size()==nv && v[_1].size()==ne,"resize/composite/sizes"); }
    { Dune::MultiTypeBlockVector<Dune::BlockVector<Dune::FieldVector<double,3>>,BV> v; trial("composite/block3",v,comp,false); }
    { Dune::MultiTypeBlockVector<BV,BV> v; trial("composite/flat-child",v,comp,false); }
    { Dune::MultiTypeBlockVector<Dune::BlockVector<Dune::FieldVector<double,2>>,BV,BV> v; trial("composite/three",v,comp,false); }
  }
  // a coefficient vector of the wrong length is never silently shortened: after a refused resize a proper one still works
  for (int r=0;r<scale(5,30);++r) { auto g2=Spaces::tris(); auto b=makeBasis(g2->leafGridView(),power<2>(lagrange<1>(),blockedLexicographic())); std::vector<BV> v; try { std::array<BV,3> w; istlVectorBackend(w).resize(b); check(false,"resize/array3"); } catch (Dune::Exception&) {} istlVectorBackend(v).resize(b); check(v.size()==2 && v[0].size()==std::size_t(g2->leafGridView().size(2)),"resize/recovered"); state(v[0].size()); }
  check(throwsDune([&]{ makeContainer<double>(ContainerDescriptors::Unknown{}); }), "factory/unknown"); check(throwsDune([&]{ makeISTLVector<double>(ContainerDescriptors::Unknown{}); }), "istl-factory/unknown");
}
#else
// ------------------------------------------------------------------------------------------------ derivatives
template<class LB> void partialOrders(const std::string& key, const LB& lb, unsigned maxOrder)
{
  using T=typename LB::Traits; constexpr int dim=T::dimDomain; std::vector<typename T::RangeType> out; typename T::DomainType x(0.2);
  for (int r=0;r<40;++r) { std::array<unsigned,dim> o{}; unsigned t=rnd(maxOrder+4); for (unsigned i=0;i<t;++i) o[rnd(dim)]++; unsigned total=0; for (auto q : o) total+=q;
    bool threw=throwsDune([&]{ lb.partial(o,x,out); }); check(threw==(total>maxOrder), key+(total>maxOrder?":unsupported-accepted":":supported-refused"), "order ", total); obs(cat(key,"-order",total)); state(mix(hstr(key),total*100+o[0])); }
}
template<class Mk, class Fac> void partialCase(const std::string& key, Mk mk, Fac fac, unsigned maxOrder)
{ for (int r=0;r<scale(3,20);++r) { auto g=mk(); auto b=makeBasis(g->leafGridView(),fac); auto lv=b.localView(); for (const auto& e : elements(b.gridView())) { lv.bind(e); auto sig=signature(lv); partialOrders(key,lv.tree().finiteElement().localBasis(),maxOrder); check(signature(lv)==sig,key+":after-refusal"); break; } } }
VF_CASE("partial") {
  partialCase("hermite2",[]{ return Spaces::tris(); },cubicHermite(),2); partialCase("reducedHermite2",[]{ return Spaces::tris(); },reducedCubicHermite(),2);
  partialCase("morley",[]{ return Spaces::tris(); },morley(),2); partialCase("argyris",[]{ return Spaces::tris(); },argyris(),2);
  partialCase("rt0",[]{ return Spaces::tris(); },raviartThomas<0>(),1); partialCase("bdm1",[]{ return Spaces::tris(); },brezziDouglasMarini<1>(),1); partialCase("nedelec",[]{ return Spaces::tris(); },nedelec<1,1,double>(),1);
}
VF_CASE("bspline") {
  for (int r=0;r<scale(5,40);++r) { auto g=std::make_shared<Dune::YaspGrid<2>>(Dune::FieldVector<double,2>{1,1},std::array<int,2>{3,3}); auto gv=g->leafGridView(); unsigned p=rnd(4); auto b=makeBasis(gv,bSpline({0,0.2,0.5,1},p)); auto lv=b.localView(); lv.bind(*gv.begin<0>()); auto& fe=lv.tree().finiteElement(); using LB=std::decay_t<decltype(fe.localBasis())>; std::vector<typename LB::Traits::RangeType> out; auto x=typename LB::Traits::DomainType(0.3);
    auto sig=signature(lv);
    fe.localBasis().evaluate(std::array<int,0>{},x,out); fe.localBasis().evaluate(std::array<int,1>{0},x,out); fe.localBasis().evaluate(std::array<int,2>{0,1},x,out);
    check(throwsDune([&]{ fe.localBasis().evaluate(std::array<int,3>{0,1,1},x,out); }), "bspline:third-derivative"); check(throwsDune([&]{ fe.localBasis().evaluate(std::array<int,4>{0,1,1,0},x,out); }), "bspline:fourth-derivative");
    std::vector<double> c; auto f=[](auto&& x){ return x[0]; }; check(throwsDune([&]{ fe.localInterpolation().interpolate(f,c); }), "bspline:interpolate");
    check(throwsDune([&]{ std::vector<double> v; interpolate(b,v,f); }), "bspline:global-interpolate");
    check(signature(lv)==sig,"bspline:after-refusal"); state(p); }
}
VF_CASE("grid-functions") {
  for (int r=0;r<scale(4,40);++r) {
    auto g=Spaces::tris(); auto gv=g->leafGridView(); using GV=decltype(gv); auto b=makeBasis(gv,lagrange<2>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd();
    auto f=makeDiscreteGlobalBasisFunction<double>(b,c); auto lf=localFunction(f); auto df=derivative(f); auto ldf=localFunction(df); auto dlf=derivative(lf);
    auto p=Poly<2>::random(2); auto q=makeAnalyticGridViewFunction([=](const auto& x) { return p(x); },gv); auto comp=makeComposedGridFunction([](double a, double b2) { return a*b2; },f,q); auto lcomp=localFunction(comp);
    FaceNormalGridFunction<GV> fn(gv); auto lfn=localFunction(fn);
    auto plain=makeGridViewFunction([](const auto& x) { return x[0]; },gv);
    auto x=Dune::FieldVector<double,2>{0.2,0.3};
    for (const auto& e : elements(gv)) { lf.bind(e); ldf.bind(e); dlf.bind(e); lcomp.bind(e); lfn.bind(e); auto v=lf(x); auto w=ldf(x); auto u=lcomp(x); auto n=lfn(x);
      check(throwsDune([&]{ derivative(df); }),"dgbf:second-derivative"); check(throwsDune([&]{ derivative(ldf); }),"dgbf:local-second-derivative"); check(throwsDune([&]{ derivative(dlf); }),"dgbf:derivative-local-second-derivative");
      check(throwsDune([&]{ derivative(comp); }),"composed:derivative"); check(throwsDune([&]{ derivative(lcomp); }),"composed:local-derivative");
      check(throwsDune([&]{ derivative(fn); }),"normal:derivative"); check(throwsDune([&]{ derivative(lfn); }),"normal:local-derivative");
      if constexpr (requires { derivative(plain); }) check(throwsDune([&]{ derivative(plain); }),"plain:derivative");
      check(lf(x)==v && ldf(x)==w && lcomp(x)==u && lfn(x)==n,"values-after-refusal"); check(lf.bound() && ldf.bound(),"bound-after-refusal");
      state(hdbl(mix(gv.size(0),gv.indexSet().index(e)),v)); }
    // type erased
    using ES=GridViewEntitySet<GV,0>; using X=Dune::FieldVector<double,2>; GridViewFunction<double(X),GV> erased=makeGridViewFunction([](const X& x) { return x[1]; },gv);
    check(throwsDune([&]{ derivative(erased); }),"erased:derivative"); check(erased(X{0.5,0.25})==0.25,"erased:after-refusal");
    auto le=localFunction(erased); le.bind(*gv.template begin<0>()); auto v=le(x); check(throwsDune([&]{ derivative(le); }),"erased:local-derivative"); check(le(x)==v,"erased:local-after-refusal");
    GridFunction<double(ES::GlobalCoordinate),ES> e2=comp; check(throwsDune([&]{ derivative(e2); }),"erased-composed:derivative");
  }
}
template<std::size_t n> void chain() {
  // n derivatives supplied, the (n+1)st must be refused, at every level of type erasure
  auto a=urnd(0.5,2.0); auto f=[=](double x){ return std::sin(a*x); }; auto f1=[=](double x){ return a*std::cos(a*x); }; auto f2=[=](double x){ return -a*a*std::sin(a*x); }; auto f3=[=](double x){ return -a*a*a*std::cos(a*x); };
  auto F=[&]{ if constexpr (n==0) return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f); else if constexpr (n==1) return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f,f1); else if constexpr (n==2) return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f,f1,f2); else return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f,f1,f2,f3); }();
  std::array<std::function<double(double)>,4> ref{f,f1,f2,f3};
  using DF=DifferentiableFunction<double(double)>; DF cur=F; double x=urnd();
  for (std::size_t i=0;;++i) { check(cur(x)==ref[i](x),cat("callables",n,":value"),i); std::optional<DF> next; bool threw=throwsDune([&]{ next.emplace(derivative(cur)); }); check(threw==(i==n),cat("callables",n,":derivative"),"level ",i); check(cur(x)==ref[i](x),"callables:after-refusal"); state(mix(n*10+i,hdbl(0,a))); if (!next) break; if (i==n) break; cur=*next; }
  if constexpr (n==0) check(throwsDune([&]{ derivative(F); }),"callables0:direct");
}
VF_CASE("differentiable") { for (int r=0;r<scale(20,300);++r) { chain<0>(); chain<1>(); chain<2>(); chain<3>();
  // plain callables have no derivative at all
  double a=urnd(); DifferentiableFunction<double(double)> f=[=](double x) { return a*x; }; check(throwsDune([&]{ derivative(f); }),"plain-callable"); check(f(2.0)==2*a,"plain-callable:after-refusal"); auto g=f; check(throwsDune([&]{ derivative(g); }),"plain-callable:copy"); } }
#endif

