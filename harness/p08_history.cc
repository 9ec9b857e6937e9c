// P08: local functions under random histories of bind/rebind/unbind/copy/move/assign/destroy/derivative.
#include "grids.hh"
#include "poly.hh"
#include <optional>
#include <dune/istl/bvector.hh>
#include <dune/grid/geometrygrid.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using namespace Dune::Indices;
template<int n> using V_=Dune::FieldVector<double,n>;
using Ref=std::vector<std::vector<double>>; // per element: values at the fixed points

template<class LF, class E, class X> struct Pool {
  struct Slot { std::unique_ptr<LF> f; std::optional<std::size_t> el; };
  const char* label; const std::vector<E>& els; const std::vector<std::vector<X>>& pts; Ref ref; std::vector<Slot> s; bool globalValue=true;
  std::uint64_t trace=1;
  void add(LF&& f, std::optional<std::size_t> el) { s.push_back({std::make_unique<LF>(std::move(f)),el}); }
  // element passed as an object that dies right after bind
  void bind(Slot& a, std::size_t e) { auto tmp=std::make_unique<E>(els[e]); a.f->bind(*tmp); tmp.reset(); a.el=e; }
  void verify(const std::string& op)
  {
    trace=mix(trace,hstr(op));
    for (auto& a : s) {
      check(a.f->bound()==bool(a.el), cat(label,":bound"), "after ", op, ": bound()=", a.f->bound());
      trace=mix(trace, a.el ? *a.el+1 : 0);
      if (!a.el || !a.f->bound()) continue;
      check(a.f->localContext()==els[*a.el], cat(label,":context"), "after ", op);
      std::vector<double> v; for (auto& x : pts[*a.el]) flat((*a.f)(x),v);
      check(nearv(v,ref[*a.el],1e-10), cat(label,":value"), "after ", op, " on element ", *a.el, ": ", str(v), " expected ", str(ref[*a.el])); obs("evaluations");
    }
    state(trace);
  }
  template<class G> void random(G&& make)
  {
    std::string op; auto k=rnd(12);
    if (s.size()<2 && k>2) k=rnd(2);
    if (s.size()>6) k=10;
    switch (k) {
    case 0: op="create"; add(make(),std::nullopt); break;
    case 1: case 2: case 3: if (s.empty()) return; op="bind"; bind(s[rnd(s.size())],rnd(els.size())); break;
    case 4: { op="unbind"; auto& a=s[rnd(s.size())]; a.f->unbind(); a.el.reset(); } break;
    case 5: { op="copy"; auto& a=s[rnd(s.size())]; auto el=a.el; add(LF(*a.f),el); } break;
    case 6: { op="move"; auto i=rnd(s.size()); auto n=std::make_unique<LF>(std::move(*s[i].f)); s[i].f=std::move(n); } break; // source destroyed
    case 7: if constexpr (std::is_copy_assignable_v<LF>) { op="copy-assign"; auto i=rnd(s.size()), j=rnd(s.size()); *s[i].f=static_cast<const LF&>(*s[j].f); s[i].el=s[j].el; } else return; break;
    case 8: if constexpr (std::is_move_assignable_v<LF>) { op="move-assign"; auto i=rnd(s.size()), j=rnd(s.size()); if (i==j) return; *s[i].f=std::move(*s[j].f); s[i].el=s[j].el; s.erase(s.begin()+j); } else return; break;
    case 9: if constexpr (std::is_copy_assignable_v<LF>) { op="move-and-assign-back"; auto i=rnd(s.size()); Slot n{std::make_unique<LF>(std::move(*s[i].f)),s[i].el}; *s[i].f=static_cast<const LF&>(*n.f); s.push_back(std::move(n)); } else return; break;
    case 10: op="destroy"; s.erase(s.begin()+rnd(s.size())); break;
    case 11: { op="vector-realloc"; std::vector<LF> v; std::vector<std::optional<std::size_t>> el; for (auto& a : s) { if (v.capacity()==v.size()) v.reserve(v.size()+1); v.push_back(*a.f); el.push_back(a.el); } s.clear(); for (std::size_t i=0;i<v.size();++i) add(LF(v[i]),el[i]); } break;
    }
    obs(op); verify(op);
  }
};
template<class F, class E, class X> Ref reference(const F& f, const std::vector<E>& els, const std::vector<std::vector<X>>& pts)
{ Ref r; for (std::size_t i=0;i<els.size();++i) { auto lf=localFunction(f); lf.bind(els[i]); std::vector<double> v; for (auto& x : pts[i]) flat(lf(x),v); r.push_back(v); } return r; }

// expected: optional independent oracle (element,x) -> flat values
struct NoOracle {};
template<bool der, class GV, class F, class O=NoOracle, class DO=NoOracle> void history(const char* label, const GV& gv, const F& f, O oracle={}, DO doracle={}, std::function<void()> change={})
{
  using E=typename GV::template Codim<0>::Entity; using X=typename E::Geometry::LocalCoordinate;
  std::vector<E> els; std::vector<std::vector<X>> pts;
  for (const auto& e : elements(gv)) { els.push_back(e); std::vector<X> p; for (int k=0;k<2;++k) p.push_back(randomLocal<GV::dimension>(e.type())); pts.push_back(p); if (els.size()>12) break; }
  using LF=std::decay_t<decltype(localFunction(f))>;
  Pool<LF,E,X> pool{label,els,pts,{},{}}; 
  auto build=[&](auto& orc, const auto& g) { if constexpr (std::is_same_v<std::decay_t<decltype(orc)>,NoOracle>) return reference(g,els,pts); else { Ref r; for (std::size_t i=0;i<els.size();++i) { std::vector<double> v; for (auto& x : pts[i]) for (double y : orc(els[i],x)) v.push_back(y); r.push_back(v); } return r; } };
  pool.ref=build(oracle,f);
  auto rebindAll=[&](auto& pl) { for (auto& a : pl.s) if (a.el) { if (rnd(3)==0 && els.size()>1) pl.bind(a,rnd(els.size())); else pl.bind(a,*a.el); } };
  auto run=[&](auto&& extra) { for (int k=0;k<scale(60,300);++k) { extra(); if (!der && change && rnd(6)==0) { change(); pool.ref=build(oracle,f); rebindAll(pool); obs("change-rebind"); pool.verify("coefficients-changed"); } pool.random([&]{ return localFunction(f); }); } };
  if constexpr (der) {
    auto df=derivative(f);
    using DLF=std::decay_t<decltype(derivative(std::declval<const LF&>()))>; std::string dl=std::string(label)+"-derivative";
    Pool<DLF,E,X> dp{dl.c_str(),els,pts,{},{}}; dp.ref=build(doracle,df);
    run([&]{ if (change && rnd(6)==0) { change(); pool.ref=build(oracle,f); dp.ref=build(doracle,df); rebindAll(pool); rebindAll(dp); pool.verify("coefficients-changed"); dp.verify("coefficients-changed"); }
             if (!pool.s.empty() && rnd(2)) { auto& a=pool.s[rnd(pool.s.size())]; dp.add(derivative(*a.f),a.el); obs("derivative"); dp.verify("derivative"); pool.verify("derivative-taken"); if (dp.s.size()>5) dp.s.erase(dp.s.begin()+rnd(dp.s.size())); }
             if (!dp.s.empty()) dp.random([&]{ auto l=localFunction(f); return derivative(l); }); });
    pool.s.clear(); dp.verify("functions-destroyed");
  } else run([]{});
  sample(cat(label, ": ", els.size(), " elements"));
}
template<class R, bool der=true, class Mk, class Fac> void dgbf(const char* label, Mk mk, Fac fac)
{
  for (int it=0; it<scale(3,20); ++it) { auto grid=mk(); auto gv=grid->leafGridView(); auto basis=makeBasis(gv,fac); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
    auto f=makeDiscreteGlobalBasisFunction<R>(basis,c); history<der>(label,gv,f,NoOracle{},NoOracle{},[&]{ for (auto& y : c) if (rnd(2)) y=urnd(); });
    if constexpr (der) { using X=typename decltype(gv)::template Codim<0>::Geometry::GlobalCoordinate; GridViewFunction<R(X),decltype(gv)> te=f; history<true>("erased",gv,te,NoOracle{},NoOracle{},[&]{ for (auto& y : c) y=urnd(); }); auto df=derivative(f); history<false>("global-derivative",gv,df); } }
}
#if PART==1
VF_CASE("dgbf/lag2-mixed2") { dgbf<double>("lag2",Spaces::mixed2,lagrange<2>()); }
VF_CASE("dgbf/hermite-tris") { dgbf<double>("hermite",Spaces::tris,cubicHermite()); }
VF_CASE("dgbf/morley-tris") { dgbf<double>("morley",Spaces::tris,morley()); }
VF_CASE("dgbf/rt0-mixed2") { dgbf<V_<2>>("rt0",Spaces::mixed2,raviartThomas<0>()); }
VF_CASE("dgbf/power-prismhex") { dgbf<V_<2>>("power",Spaces::prismhex,power<2>(lagrange<1>(),flatInterleaved())); }
#elif PART==2
VF_CASE("dgbf/nedelec-tets") { dgbf<V_<3>>("nedelec",Spaces::tets,nedelec<1,1>()); }
VF_CASE("dgbf/composite") { dgbf<Dune::TupleVector<V_<2>,double>,false>("composite",Spaces::mixed2,composite(power<2>(lagrange<2>(),flatLexicographic()),lagrange<1>(),flatLexicographic())); }
VF_CASE("dgbf/subspace") {
  for (int it=0; it<scale(3,20); ++it) { auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); auto basis=makeBasis(gv,composite(power<2>(lagrange<2>(),flatLexicographic()),lagrange<1>(),flatLexicographic())); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
    history<true>("sub1",gv,makeDiscreteGlobalBasisFunction<double>(subspaceBasis(basis,_1),c)); history<true>("sub0",gv,makeDiscreteGlobalBasisFunction<V_<2>>(subspaceBasis(basis,_0),c)); history<true>("sub01",gv,makeDiscreteGlobalBasisFunction<double>(subspaceBasis(basis,_0,1),c)); }
}
VF_CASE("facenormal") { for (int it=0; it<scale(3,20); ++it) { auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); history<false>("mixed2",gv,FaceNormalGridFunction(gv)); auto g3=Spaces::prismhex(); auto gv3=g3->leafGridView(); history<false>("prismhex",gv3,FaceNormalGridFunction(gv3)); } }
#elif PART==3
VF_CASE("analytic") {
  for (int it=0; it<scale(4,20); ++it) { auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); using X=V_<2>; auto p=Poly<2>::random(3); auto dp=derivative(p); auto ddp=derivative(dp);
    auto o=[&](const auto& e, const auto& x) { return flat(p(e.geometry().global(x))); }; auto od=[&](const auto& e, const auto& x) { return flat(dp(e.geometry().global(x))); }; auto odd=[&](const auto& e, const auto& x) { return flat(ddp(e.geometry().global(x))); };
    auto f=makeAnalyticGridViewFunction(p,gv); history<true>("poly",gv,f,o,od); history<true>("poly-derivative",gv,derivative(f),od,odd);
    GridViewFunction<double(X),decltype(gv)> te=f; history<true>("erased",gv,te,o,od);
    auto big=std::make_shared<std::vector<double>>(100,1.0); auto lam=[&,big](const X& x) { return p(x)*(*big)[57]; }; history<false>("lambda",gv,makeAnalyticGridViewFunction(lam,gv),o); 
    auto vec=[&](const X& x) { return std::array<double,3>{p(x),x[0],x[1]}; }; history<false>("array-lambda",gv,makeAnalyticGridViewFunction(vec,gv)); }
}
VF_CASE("composed") {
  for (int it=0; it<scale(4,20); ++it) { auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); auto p=Poly<2>::random(2), q=Poly<2>::random(3); auto a=makeAnalyticGridViewFunction(p,gv); auto basis=makeBasis(gv,lagrange<2>()); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
    auto d=makeDiscreteGlobalBasisFunction<double>(basis,c); auto b=makeAnalyticGridViewFunction(q,gv);
    auto f=makeComposedGridFunction([](double x, double y) { return x*y-x; },a,b);
    history<false>("two-analytic",gv,f,[&](const auto& e, const auto& x) { auto X=e.geometry().global(x); return std::vector<double>{p(X)*q(X)-p(X)}; });
    auto g=makeComposedGridFunction([](double x, double y, double z) { return x+2*y+3*z; },a,d,std::cref(b)); history<false>("with-discrete",gv,g);
    auto nest=makeComposedGridFunction([](double x, double y) { return x-y; },f,d); history<false>("nested",gv,nest); }
}
#elif PART==4
template<class Grid> void levels(Grid& grid)
{
  auto coarse=grid.levelGridView(0); auto fine=grid.leafGridView(); constexpr int dim=Grid::dimension; auto mid=grid.levelGridView(grid.maxLevel()/2);
  auto p=Poly<dim>::random(2); auto dp=derivative(p);
  auto o=[&](const auto& e, const auto& x) { return flat(p(e.geometry().global(x))); }; auto od=[&](const auto& e, const auto& x) { return flat(dp(e.geometry().global(x))); };
  { auto raw=makeAnalyticGridViewFunction(p,coarse); CoarseFunctionOnFineGridView f(raw,fine); history<true>("coarse-analytic",fine,f,o,od); }
  { auto basis=makeBasis(coarse,lagrange<2>()); std::vector<double> c; interpolate(basis,c,p); auto raw=makeDiscreteGlobalBasisFunction<double>(basis,c); CoarseFunctionOnFineGridView f(raw,fine); history<true>("coarse-discrete",fine,f,o,od); CoarseFunctionOnFineGridView g(std::cref(raw),mid); if (grid.maxLevel()>=1) history<true>("coarse-ref",mid,g,o,od); }
  { auto raw=makeAnalyticGridViewFunction(p,fine); FineFunctionOnCoarseGridView f(raw,coarse); history<true>("fine-analytic",coarse,f,o,od); }
  { auto basis=makeBasis(fine,lagrange<2>()); std::vector<double> c; interpolate(basis,c,p); auto raw=makeDiscreteGlobalBasisFunction<double>(basis,c); FineFunctionOnCoarseGridView f(raw,coarse); history<true>("fine-discrete",coarse,f,o,od); FineFunctionOnCoarseGridView g(std::cref(raw),mid); history<true>("fine-ref",mid,g,o,od); }
}
VF_CASE("levels/yasp2") { for (int it=0; it<scale(3,20); ++it) { auto g=Spaces::makeYasp<2>(1,3); g->globalRefine(1+rnd(2)); levels(*g); } }
VF_CASE("levels/yasp3") { for (int it=0; it<scale(2,10); ++it) { auto g=Spaces::makeYasp<3>(1,2); g->globalRefine(1); levels(*g); } }
VF_CASE("levels/yasp1") { for (int it=0; it<scale(3,20); ++it) { auto g=Spaces::makeYasp<1>(1,4); g->globalRefine(1+rnd(3)); levels(*g); } }
#endif
