// P22: shared const grid functions, type-erased functions and special bases.
#include "grids.hh"
#include "poly.hh"
#include "p22_threads.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using namespace Dune::Indices;
namespace Ex = Dune::Functions::BasisFactory::Experimental;
template<int n> using V_=Dune::FieldVector<double,n>;
template<class GV> auto elementsOf(const GV& gv) { std::vector<typename GV::template Codim<0>::Entity> els; for (const auto& e : elements(gv)) els.push_back(e); return els; }
// f: shared function, built by make(); make() is called twice so that the reference uses untouched objects
template<bool der, bool assign=true, class GV, class Make> void shared(const std::string& key, const GV& gv, Make&& make)
{
  auto els=elementsOf(gv);
  const auto f=make(); const auto g=make();
  auto task=[&](const auto& f) { return [&els,&f,lf=localFunction(f)](std::size_t i) mutable {
    std::vector<double> s; auto x=Dune::referenceElement(els[i].geometry()).position(0,0); x*=0.9;
    if constexpr (assign && std::is_move_assignable_v<decltype(localFunction(f))>) if (i%5==2) lf=localFunction(f);
    lf.bind(els[i]); flat(lf(x),s); { auto c=lf; flat(c(x),s); }
    if constexpr (der) { auto d=derivative(lf); flat(d(x),s); auto df=derivative(f); auto dl=localFunction(df); dl.bind(els[i]); flat(dl(x),s); }
    if (i%3==0) lf.unbind(); return s; }; };
  concurrently(key, els.size(), 2+rnd(6), [&]{ return task(f); }, [&]{ return task(g); });
}
template<class GV> void bases(const GV& gv, const std::string& n)
{
  auto basis=makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic()));
  using V=Dune::MultiTypeBlockVector<Dune::BlockVector<V_<2>>,Dune::BlockVector<double>>;
  V c; auto b=istlVectorBackend(c); b.resize(basis); for (auto& x : c[_0]) for (auto& y : x) y=urnd(); for (auto& x : c[_1]) x=urnd();
  const V& cc=c; const auto& cb=basis;
  auto make0=[&]{ return makeDiscreteGlobalBasisFunction<V_<2>>(subspaceBasis(cb,_0),cc); };
  shared<true>(n+":velocity",gv,make0);
  shared<true>(n+":velocity1",gv,[&]{ return makeDiscreteGlobalBasisFunction<double>(subspaceBasis(cb,_0,1),cc); });
  shared<true>(n+":pressure",gv,[&]{ return makeDiscreteGlobalBasisFunction<double>(subspaceBasis(cb,_1),cc); });
  shared<false>(n+":both",gv,[&]{ return makeDiscreteGlobalBasisFunction<Dune::TupleVector<V_<2>,double>>(cb,cc); });
  using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate;
  shared<true>(n+":erased",gv,[&]{ return GridViewFunction<V_<2>(X),GV>(make0()); });
  shared<true>(n+":erased-entityset",gv,[&]{ return GridFunction<V_<2>(X),GridViewEntitySet<GV,0>>(make0()); });
  shared<false>(n+":composed",gv,[&]{ return makeComposedGridFunction([](auto&& u, double p) { return u[0]*p+u[1]; }, make0(), makeDiscreteGlobalBasisFunction<double>(subspaceBasis(cb,_1),cc)); });
  // subspace views in threads
  auto els=elementsOf(gv);
  const auto sub=subspaceBasis(cb,_0); const auto sub2=subspaceBasis(cb,_0);
  auto task=[&](const auto& s) { return [&els,lv=s.localView()](std::size_t i) mutable { lv.bind(els[i]); std::vector<double> r; r.push_back(lv.size()); const auto& t=lv.tree(); for (std::size_t k=0;k<t.size();++k) { auto mi=toIdx(lv.index(t.localIndex(k))); for (auto d : mi) r.push_back(d); } return r; }; };
  concurrently(n+":subspace",els.size(),2+rnd(5),[&]{ return task(sub); },[&]{ return task(sub2); });
}
VF_CASE("discrete/mixed2") { for (int it=0; it<scale(6,60); ++it) { auto g=Spaces::mixed2(); bases(g->leafGridView(),"mixed2"); } }
VF_CASE("discrete/yasp2") { for (int it=0; it<scale(6,60); ++it) { auto g=Spaces::yasp2(); bases(g->leafGridView(),"yasp2"); } }
VF_CASE("global-evaluation") {
  for (int it=0; it<scale(8,60); ++it) { auto g=Spaces::makeYasp<2>(2,4); g->globalRefine(1); auto gv=g->leafGridView(); auto basis=makeBasis(gv,lagrange<2>()); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
    std::vector<V_<2>> pts; for (const auto& e : elements(gv)) pts.push_back(e.geometry().global(randomLocal<2>(e.type())));
    const auto f=makeDiscreteGlobalBasisFunction<double>(basis,c); const auto f2=makeDiscreteGlobalBasisFunction<double>(basis,c); const auto df=derivative(f); const auto df2=derivative(f2);
    auto task=[&](const auto& f, const auto& df) { return [&](std::size_t i) { auto s=flat(f(pts[i])); flat(df(pts[i]),s); auto d=derivative(f); flat(d(pts[i]),s); return s; }; };
    concurrently("global",pts.size(),2+rnd(6),[&]{ return task(f,df); },[&]{ return task(f2,df2); }); }
}
VF_CASE("analytic") {
  for (int it=0; it<scale(8,60); ++it) { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); auto p=Poly<2>::random(3); using X=V_<2>; using GV=decltype(gv);
    shared<true>("poly",gv,[&]{ return makeAnalyticGridViewFunction(p,gv); });
    shared<true>("erased",gv,[&]{ return GridViewFunction<double(X),GV>(makeAnalyticGridViewFunction(p,gv)); });
    shared<true>("signature",gv,[&]{ return makeGridViewFunction(p,gv); });
    shared<false>("lambda",gv,[&]{ auto big=std::make_shared<const std::vector<double>>(50,2.0); return makeGridViewFunction([big](const X& x) { return x[0]*(*big)[7]; },gv); });
    shared<false>("facenormal",gv,[&]{ return FaceNormalGridFunction(gv); });
    shared<false>("composed",gv,[&]{ return makeComposedGridFunction([](double a, double b) { return a*b; }, makeAnalyticGridViewFunction(p,gv), makeAnalyticGridViewFunction(p,gv)); }); }
}
template<class Grid> void levels(Grid& grid, const std::string& n)
{
  constexpr int dim=Grid::dimension; auto coarse=grid.levelGridView(0); auto fine=grid.leafGridView(); auto p=Poly<dim>::random(2);
  auto cb=makeBasis(coarse,lagrange<2>()); std::vector<double> cc(cb.dimension()); for (auto& y : cc) y=urnd();
  auto fb=makeBasis(fine,lagrange<2>()); std::vector<double> fc(fb.dimension()); for (auto& y : fc) y=urnd();
  shared<true>(n+":coarse-on-fine",fine,[&]{ return CoarseFunctionOnFineGridView(makeDiscreteGlobalBasisFunction<double>(cb,cc),fine); });
  shared<true>(n+":fine-on-coarse",coarse,[&]{ return FineFunctionOnCoarseGridView(makeDiscreteGlobalBasisFunction<double>(fb,fc),coarse); });
  shared<true>(n+":fine-analytic",coarse,[&]{ return FineFunctionOnCoarseGridView(makeAnalyticGridViewFunction(p,fine),coarse); });
}
VF_CASE("levels/yasp2") { for (int it=0; it<scale(6,60); ++it) { auto g=Spaces::makeYasp<2>(1,3); g->globalRefine(1+rnd(2)); levels(*g,"yasp2"); } }
VF_CASE("levels/yasp1") { for (int it=0; it<scale(6,60); ++it) { auto g=Spaces::makeYasp<1>(1,3); g->globalRefine(1+rnd(3)); levels(*g,"yasp1"); } }
VF_CASE("erased-functions") {
  for (int it=0; it<scale(6,60); ++it) {
    std::vector<double> co(2+rnd(6)); for (auto& y : co) y=urnd(); std::vector<double> xs(20); for (auto& y : xs) y=urnd();
    auto run=[&](const std::string& key, auto make) { const auto f=make(); const auto g=make(); auto task=[&](const auto& f) { return [&](std::size_t i) { std::vector<double> s; flat(f(xs[i]),s); auto d=derivative(f); flat(d(xs[i]),s); auto dd=derivative(d); flat(dd(xs[i]),s); auto c=f; flat(c(xs[i]),s); return s; }; }; concurrently(key,xs.size(),2+rnd(6),[&]{ return task(f); },[&]{ return task(g); }); };
    run("polynomial",[&]{ return Polynomial<double>(co); });
    run("trigonometric",[&]{ return TrigonometricFunction<double,1,0>{}; });
    run("erased-polynomial",[&]{ return DifferentiableFunction<double(double)>(Polynomial<double>(co)); });
    run("callables",[&]{ return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(), [co](double x) { return co[0]*x*x*x; }, [co](double x) { return 3*co[0]*x*x; }, [co](double x) { return 6*co[0]*x; }); });
    MonomialSet<double,2,4> ms; const auto m1=ms; const auto m2=ms; auto task=[&](const auto& f) { return [&](std::size_t i) { V_<2> x{xs[i],xs[(i+1)%xs.size()]}; std::vector<double> s; flat(f(x),s); flat(derivative(f)(x),s); flat(derivative(derivative(f))(x),s); return s; }; };
    concurrently("monomials",xs.size(),2+rnd(5),[&]{ return task(m1); },[&]{ return task(m2); }); }
}
template<class B> void viewsOf(const std::string& key, const B& b, const B& other)
{
  auto els=elementsOf(b.gridView());
  auto task=[&](const auto& b) { return [&els,&b,lv=b.localView()](std::size_t i) mutable { if constexpr (std::is_move_assignable_v<decltype(b.localView())>) { if (i%3==1) lv=b.localView(); } else if (i%3==1) { auto o=b.localView(); o.bind(els[i]); auto s=signature(o); s.push_back(b.dimension()); return s; } lv.bind(els[i]); auto s=signature(lv); s.push_back(b.dimension()); return s; }; };
  concurrently(key,els.size(),2+rnd(6),[&]{ return task(b); },[&]{ return task(other); });
}
VF_CASE("special-bases") {
  for (int it=0; it<scale(6,60); ++it) {
    { auto g=Spaces::makeYasp<1>(2,6); auto gv=g->leafGridView(); Ex::PeriodicIndexSet s; s.unifyIndexPair(0,gv.size(0)); auto mk=[&]{ return makeBasis(gv,Ex::periodic(lagrange<1>(),s)); }; viewsOf("periodic",mk(),mk()); }
    { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); std::size_t n=makeBasis(gv,lagrange<2>()).dimension();
      auto mk=[&]{ return makeBasis(gv,Ex::transformIndices(lagrange<2>(),Ex::indexTransformation([n](auto& mi, const auto&) { mi[0]=n-1-mi[0]; }, [](const auto& p, const auto& pb) { return p.size()==0 ? pb.size() : 0; }, [](const auto& pb) { return pb.containerDescriptor(); }, Dune::index_constant<1>{}, Dune::index_constant<1>{}))); }; viewsOf("transformed",mk(),mk()); }
    { std::vector<double> k{urnd()}; int n=2+rnd(4); for (int j=0;j<n;++j) k.push_back(k.back()+0.1+urnd(0,1)); std::array<std::vector<double>,2> c{k,k}; Dune::YaspGrid<2,Dune::TensorProductCoordinates<double,2>> g(c); auto gv=g.leafGridView(); unsigned p=1+rnd(3); auto mk=[&]{ return makeBasis(gv,bSpline(k,p)); }; viewsOf("bspline",mk(),mk());
      auto b=mk(); std::vector<double> co(b.dimension()); for (auto& y : co) y=urnd(); shared<true,false>("bspline-function",gv,[&]{ return makeDiscreteGlobalBasisFunction<double>(b,co); }); }
    { auto g=Spaces::mixed2(); auto gv=g->leafGridView(); using GV=decltype(gv); Dune::Functions::Experimental::SubDomain<GV> sd(gv); std::size_t k=0; for (const auto& e : elements(gv)) if (rnd(2) || k++==0) sd.insertElement(e); auto mk=[&]{ return makeBasis(gv,Dune::Functions::Experimental::BasisFactory::restrict(lagrange<2>(),sd)); }; viewsOf("restricted",mk(),mk());
      auto els=elementsOf(gv); const auto sv=sd.gridView(); const auto sv2=sd.gridView(); auto task=[&](const auto& v) { return [&](std::size_t i) { std::vector<double> r; r.push_back(v.contains(els[i])); if (v.contains(els[i])) { r.push_back(v.indexSet().index(els[i])); for (int j=0;j<int(els[i].subEntities(2));++j) r.push_back(v.indexSet().subIndex(els[i],j,2)); } std::size_t n=0; for (const auto& e : elements(v)) { ++n; (void)e; } r.push_back(n); return r; }; };
      concurrently("subdomain",els.size(),2+rnd(6),[&]{ return task(sv); },[&]{ return task(sv2); }); }
  }
}
