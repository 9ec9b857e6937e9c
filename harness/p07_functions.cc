// P07 (functions): derivatives of grid functions and differentiable functions against difference quotients.
#include "grids.hh"
#include "poly.hh"
#include "fd.hh"
#include <dune/istl/bvector.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using namespace Dune::Indices;
template<int n> using V_=Dune::FieldVector<double,n>;

// flat derivative values times element Jacobian: d/dlocal = d/dglobal * J
template<class G, class X> std::vector<double> pull(const std::vector<double>& d, const G& g, const X& x)
{
  constexpr int n=X::dimension, w=G::coorddimension; auto JT=g.jacobianTransposed(x);
  std::vector<double> r; for (std::size_t i=0;i<d.size();i+=w) { V_<w> a; X b; for (int k=0;k<w;++k) a[k]=d[i+k]; JT.mv(a,b); for (int k=0;k<n;++k) r.push_back(b[k]);
    if constexpr (w>n) { V_<w> t; g.jacobianInverseTransposed(x).mv(b,t); check(nearv(flat(t),flat(a),1e-9), "not-tangential"); } }
  return r;
}
// value(x)->flat values in local coordinates, der(x)->flat derivative w.r.t. global coordinates (component-major)
template<class L, class D, class G, class X> void oracle(const char* label, L&& value, D&& der, const G& g, const X& x, double tol=1e-6)
{
  constexpr int n=X::dimension;
  auto p=pull(der(x),g,x); std::size_t m=p.size()/n;
  for (int j=0;j<n;++j) { auto d=fd1(value,x,j); if (d.empty()) continue;
    if (!check(d.size()==m, cat(label,":shape"), d.size(), " components but derivative of ", m)) return;
    std::vector<double> a; for (std::size_t i=0;i<m;++i) a.push_back(p[i*n+j]);
    check(nearv(a,d,tol), cat(label,":derivative"), "at ", x, " dir ", j, ": ", str(a), " differences ", str(d)); obs("derivatives"); std::uint64_t h=hstr(label); for (auto y : d) h=hdbl(h,y); state(h); }
}
template<class R, class Mk, class Fac> void dgbf(Mk mk, Fac fac, bool affineOnly=false)
{
  for (int it=0; it<scale(4,20); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView(); constexpr int dim=decltype(gv)::dimension; using X=V_<dim>;
    auto basis=makeBasis(gv,fac); std::vector<double> c(basis.dimension()); for (auto& y : c) y=urnd();
    auto f=makeDiscreteGlobalBasisFunction<R>(basis,c); auto lf=localFunction(f); auto df=derivative(f); auto dlf=localFunction(df);
    GridViewFunction<R(V_<decltype(gv)::dimensionworld>),decltype(gv)> te=f; auto tlf=localFunction(te); auto dte=derivative(te); auto dtlf=localFunction(dte);
    for (const auto& e : elements(gv)) {
      if (affineOnly && !e.geometry().affine()) continue;
      lf.bind(e); dlf.bind(e); tlf.bind(e); dtlf.bind(e);
      auto x=randomLocal<dim>(e.type()); auto g=e.geometry();
      auto val=[&](const auto& y){ return flat(lf(y)); };
      oracle("dgbf", val, [&](const auto& y){ return flat(dlf(y)); }, g, x);
      // all routes to the derivative agree
      auto ref=flat(dlf(x));
      check(nearv(flat(derivative(lf)(x)),ref,1e-12), "route:derivative-of-local");
      check(nearv(flat(dtlf(x)),ref,1e-12), "route:erased-derivative");
      check(nearv(flat(derivative(tlf)(x)),ref,1e-12), "route:derivative-of-erased-local");
    }
  }
}
#if MOCK_EXTRA   // surfaces
VF_CASE("dgbf/surface/lag3-mixed2") { dgbf<double>(Spaces::mixed2, lagrange<3>()); }
VF_CASE("dgbf/surface/lagRT4-tris") { dgbf<V_<1>>(Spaces::tris, lagrange(4)); }
VF_CASE("dgbf/surface/lag2-lines") { dgbf<double>(Spaces::lines, lagrange<2>()); }
VF_CASE("dgbf/surface/power2") { dgbf<V_<2>>(Spaces::mixed2, power<2>(lagrange<2>(),flatInterleaved())); }
VF_CASE("dgbf/surface/power3") { dgbf<V_<3>>(Spaces::mixed2, power<3>(lagrange<2>(),flatInterleaved())); }
#else
VF_CASE("dgbf/lag3-mixed2") { dgbf<double>(Spaces::mixed2, lagrange<3>()); }
VF_CASE("dgbf/lag2-prismhex") { dgbf<V_<1>>(Spaces::prismhex, lagrange(2)); }
VF_CASE("dgbf/lag2-lines") { dgbf<double>(Spaces::lines, lagrange<2>()); }
VF_CASE("dgbf/power3") { dgbf<V_<3>>(Spaces::mixed2, power<3>(lagrange<2>(),flatInterleaved())); }
VF_CASE("dgbf/rt0") { dgbf<V_<2>>(Spaces::mixed2x, raviartThomas<0>(), true); }
VF_CASE("dgbf/rt0-tets") { dgbf<V_<3>>(Spaces::tets, raviartThomas<0>(), true); }
VF_CASE("dgbf/nedelec") { dgbf<V_<2>>(Spaces::mixed2x, nedelec<1,1>(), true); }
VF_CASE("dgbf/nedelec-tets") { dgbf<V_<3>>(Spaces::tets, nedelec<1,1>(), true); }
VF_CASE("dgbf/hermite") { dgbf<double>(Spaces::tris, cubicHermite()); }
VF_CASE("dgbf/morley") { dgbf<double>(Spaces::tris, morley()); }
VF_CASE("dgbf/argyris") { dgbf<double>(Spaces::tris, argyris()); }
VF_CASE("analytic-chain") {
  for (int it=0; it<scale(10,60); ++it) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); using X=V_<2>;
    auto p=Poly<2>::random(4); auto f=makeAnalyticGridViewFunction(p,gv); auto df=derivative(f); auto ddf=derivative(df);
    auto lf=localFunction(f); auto dlf=localFunction(df); auto ddlf=localFunction(ddf);
    DifferentiableFunction<double(X)> te=p; auto dte=derivative(te); auto ddte=derivative(dte);
    GridViewFunction<double(X),decltype(gv)> ge=f; auto dge=derivative(ge); auto ddge=derivative(dge);
    auto cal=makeDifferentiableFunctionFromCallables(SignatureTag<double(X)>(), p, derivative(p), derivative(derivative(p)));
    auto dcal=derivative(cal); auto ddcal=derivative(dcal);
    for (const auto& e : elements(gv)) {
      lf.bind(e); dlf.bind(e); ddlf.bind(e); auto x=randomLocal<2>(e.type()); auto g=e.geometry(); auto X_=g.global(x);
      oracle("analytic", [&](const auto& y){ return flat(lf(y)); }, [&](const auto& y){ return flat(dlf(y)); }, g, x, 1e-5);
      oracle("analytic2", [&](const auto& y){ return flat(dlf(y)); }, [&](const auto& y){ return flat(ddlf(y)); }, g, x, 1e-5);
      auto r1=flat(derivative(p)(X_)), r2=flat(derivative(derivative(p))(X_));
      for (auto& v : {flat(df(X_)), flat(dte(X_)), flat(dge(X_)), flat(dcal(X_)), flat(derivative(lf)(x))}) check(nearv(v,r1,1e-9),"route1", str(v), " vs ", str(r1));
      for (auto& v : {flat(ddf(X_)), flat(ddte(X_)), flat(ddge(X_)), flat(ddcal(X_)), flat(derivative(dlf)(x)), flat(derivative(derivative(lf))(x))}) check(nearv(v,r2,1e-9),"route2", str(v), " vs ", str(r2));
    }
  }
}
VF_CASE("builtin-functions") {
  for (int it=0; it<scale(200,2000); ++it) {
    std::vector<double> c(rnd(6)); for (auto& y : c) y=urnd(-2,2);
    Polynomial<double> p(c); auto dp=derivative(p); auto ddp=derivative(dp);
    V_<1> x{urnd()};
    auto d=fd1([&](const V_<1>& y){ return std::vector<double>{p(y[0])}; },x,0), d2=fd1([&](const V_<1>& y){ return std::vector<double>{dp(y[0])}; },x,0);
    if (!d.empty()) check(near(dp(x[0]),d[0],1e-8),"polynomial"); if (!d2.empty()) check(near(ddp(x[0]),d2[0],1e-8),"polynomial2");
    TrigonometricFunction<double,1,0> s; TrigonometricFunction<double,2,3> t; auto dt=derivative(t); auto ds=derivative(s);
    auto e=fd1([&](const V_<1>& y){ return std::vector<double>{t(y[0]),s(y[0]),dt(y[0])}; },x,0,0.01);
    if (!e.empty()) { check(near(dt(x[0]),e[0],1e-6),"trig"); check(near(ds(x[0]),e[1],1e-6),"sin"); check(near(derivative(dt)(x[0]),e[2],1e-6),"trig2"); obs("derivatives",3); state(hdbl(2,e[0])); }
  }
}
#endif
