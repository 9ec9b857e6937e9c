// P07 (shape functions): Jacobians, partial derivatives and Hessians are limits of difference quotients of the values.
#include "spaces.hh"
#include "fd.hh"
using namespace VF;
using namespace Dune::Functions::BasisFactory;

template<class FE, class E> void checkFE(const FE& fe, const E& e, bool partials)
{
  const auto& lb=fe.localBasis(); using LB=std::decay_t<decltype(lb)>; using T=typename LB::Traits;
  constexpr int dim=T::dimDomain; constexpr int m=T::dimRange;
  // the transformation of Jacobians of vector valued elements is documented to be exact for affine elements only
  if (m>1 && !e.geometry().affine()) return;
  auto x=randomLocal<dim>(e.type());
  auto val=[&](const auto& y){ std::vector<typename T::RangeType> v; lb.evaluateFunction(y,v); return flat(v); };
  auto jac=[&](const auto& y){ std::vector<typename T::JacobianType> v; lb.evaluateJacobian(y,v); return v; };
  auto J=jac(x);
  check(J.size()==fe.size(), "jacobian-count", J.size());
  check(val(x).size()==fe.size()*m, "value-count");
  if (e.type().isPyramid()) { std::uint64_t h=9; for (auto& q : J) for (auto y : flat(q)) h=hdbl(h,y); state(h); return; } // piecewise shape functions
  std::vector<std::vector<double>> fdJ(dim);
  for (int j=0;j<dim;++j) {
    auto d=fd1(val,x,j); fdJ[j]=d;
    if (d.empty()) continue;
    std::vector<double> a; for (auto& q : J) for (int r=0;r<m;++r) a.push_back(q[r][j]);
    check(nearv(a,d,1e-7), "jacobian", "direction ", j, ": ", str(a), " differences ", str(d));
    obs("jacobians"); std::uint64_t h=j; for (auto y : d) h=hdbl(h,y); state(h);
    if constexpr (requires (std::array<unsigned,dim> o, std::vector<typename T::RangeType> v) { lb.partial(o,x,v); }) {
      std::array<unsigned,dim> o{}; o[j]=1; std::vector<typename T::RangeType> v;
      if (partials) try { lb.partial(o,x,v); check(nearv(flat(v),d,1e-7), "partial1", "direction ", j, " at ", x, ": ", str(flat(v)), " differences ", str(d)); obs("partials"); } catch (Dune::NotImplemented&) { obs("not-offered"); }
    }
  }
  if constexpr (requires (std::array<unsigned,dim> o, std::vector<typename T::RangeType> v) { lb.partial(o,x,v); }) {
    std::array<unsigned,dim> o{}; std::vector<typename T::RangeType> v;
    if (partials) try { lb.partial(o,x,v); check(nearv(flat(v),val(x),1e-12), "partial0"); } catch (Dune::NotImplemented&) { obs("not-offered"); }
  }
  // second derivatives from differences of the (already verified) first ones
  for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) {
    auto d=fd1([&](const auto& y){ auto v=jac(y); std::vector<double> r; for (auto& q : v) for (int k=0;k<m;++k) r.push_back(q[k][i]); return r; },x,j);
    if (d.empty()) continue;
    if constexpr (requires (std::array<unsigned,dim> o, std::vector<typename T::RangeType> v) { lb.partial(o,x,v); }) {
      std::array<unsigned,dim> o{}; o[i]++; o[j]++; std::vector<typename T::RangeType> v;
      if (partials) try { lb.partial(o,x,v); check(nearv(flat(v),d,1e-6), "partial2", i, ",", j, ": ", str(flat(v)), " differences ", str(d)); obs("second-partials"); } catch (Dune::NotImplemented&) { obs("not-offered"); }
      catch (std::exception&) { obs("not-offered"); }
    }
    if constexpr (requires { typename T::HessianType; }) if constexpr (requires (std::vector<typename T::HessianType> v) { lb.evaluateHessian(x,v); }) {
      std::vector<typename T::HessianType> v; lb.evaluateHessian(x,v); std::vector<double> a; for (auto& q : v) a.push_back(q[i][j]);
      check(nearv(a,d,1e-6), "hessian", i, ",", j, ": ", str(a), " differences ", str(d)); obs("hessians");
    }
  }
}

template<class Mk, class Fac> void body(const char* name, Mk mk, Fac fac, Spaces::Opt)
{
  // partial() of the refined element is dune-localfunctions code (and wrong for tetrahedra there): not judged here
  bool partials=std::string(name).rfind("refined",0)!=0;
  for (int it=0; it<scale(3,20); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView(); auto basis=makeBasis(gv,fac); auto lv=basis.localView();
    int n=0;
    for (const auto& e : elements(gv)) { lv.bind(e); forEachLeaf(lv.tree(), [&](const auto& node, const auto&) { if (node.size()) checkFE(node.finiteElement(), e, partials); });
      if (++n>=scale(6,30)) break; }
    if (it==0) sample(cat(name, " on ", gv.size(0), " elements"));
  }
}
SPACES_MAIN
