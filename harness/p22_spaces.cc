// P22: every function space shared by threads, each with own local views / local functions.
#include "spaces.hh"
#include "poly.hh"
#include "p22_threads.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
using namespace VF;
template<class PB> constexpr bool isArgyris=false;
#if SPACE_GROUP==6
template<class... A> constexpr bool isArgyris<Dune::Functions::ArgyrisPreBasis<A...>> = true; // cannot be interpolated globally (needs second derivatives)
#endif
// values of all first partial derivatives, where the finite element offers them
template<class FE, class E> void partials(const FE& fe, const E& e, std::vector<double>& s)
{
  using LB=std::decay_t<decltype(fe.localBasis())>; using T=typename LB::Traits; constexpr int dim=E::mydimension;
  if constexpr (requires (const LB& b, std::vector<typename T::RangeType>& v) { b.partial(std::array<unsigned int,dim>{},typename T::DomainType(),v); }) {
    auto x=Dune::referenceElement(e.geometry()).position(0,0); std::vector<typename T::RangeType> v;
    for (int d=-1;d<dim;++d) { std::array<unsigned int,dim> o{}; if (d>=0) o[d]=1; try { fe.localBasis().partial(o,x,v); for (auto& y : v) flat(y,s); } catch (Dune::NotImplemented&) { s.push_back(-77); } }
  }
}
template<class Mk, class Fac> void body(const char* name, Mk mk, Fac factory, Spaces::Opt)
{
  for (int g=0; g<scale(8,60); ++g) {
    auto grid = mk();
    auto gv = grid->leafGridView();
    // two equal bases: one is shared by the threads (and never used before), the other is for the reference run
    const auto basis = Dune::Functions::BasisFactory::makeBasis(gv, factory);
    const auto other = Dune::Functions::BasisFactory::makeBasis(gv, factory);
    using Element = typename std::decay_t<decltype(gv)>::template Codim<0>::Entity;
    std::vector<Element> els; for (const auto& e : elements(gv)) els.push_back(e);
    auto task=[&](const auto& b) { return [&b,&els,lv=b.localView()](std::size_t i) mutable {
      if constexpr (std::is_move_assignable_v<decltype(b.localView())>) { if (i==0) { lv=b.localView(); }
      if (i%3==1) { auto own=b.localView(); lv=own; } }
      lv.bind(els[i]); auto s=signature(lv);
      if constexpr (requires { lv.tree().finiteElement(); }) partials(lv.tree().finiteElement(), els[i], s);
      Idx p; if (lv.size()) { auto mi=toIdx(lv.index(i%lv.size())); for (auto d : mi) { s.push_back(sizeAt(b,p)); p.push_back(d); } }
      s.push_back(b.dimension()); s.push_back(b.size()); s.push_back(b.gridView().size(0)); if (i%2) lv.unbind(); return s; }; };
    concurrently(cat(name,":basis"), els.size(), 2+rnd(5), [&]{ return task(basis); }, [&]{ return task(other); });
    // whole-basis algorithms on a shared basis, each thread its own result
    auto algo=[&](const auto& b) { return [&b](std::size_t i) { std::vector<double> r; if (i==0) Dune::Functions::forEachBoundaryDOF(b, [&](auto&& idx) { auto mi=toIdx(idx); r.push_back(hidx(mi)%100003); }); return r; }; };
    if constexpr (requires { Dune::Functions::forEachBoundaryDOF(basis,[](auto&&){}); })
      concurrently(cat(name,":boundary"), 1, 3, [&]{ return algo(basis); }, [&]{ return algo(other); });
    // degrees of freedom of subentities, copies of the shared basis and own containers of its shape
    constexpr int dim=std::decay_t<decltype(gv)>::dimension;
    auto misc=[&](const auto& b) { return [&b,&els,lv=b.localView(),sub=Dune::Functions::subEntityDOFs(b)](std::size_t i) mutable {
      std::vector<double> r; lv.bind(els[i]);
      if constexpr (SPACE_GROUP!=11) { // B-splines are not attached to subentities
        for (int c=0;c<=dim;++c) for (unsigned k=0;k<els[i].subEntities(c);++k) { for (auto j : sub.bind(lv,k,c)) r.push_back(j); for (auto j : Dune::Functions::subEntityDOFs(lv,k,c)) r.push_back(1000+j); } }
      if (i%3==0) { auto copy=b; auto l=copy.localView(); l.bind(els[i]); auto s=signature(l); r.insert(r.end(),s.begin(),s.end()); }
      if (i%4==0) { r.push_back(hstr(str(r))%1009); auto d=b.preBasis().dimension(); r.push_back(d);
        if constexpr (requires { typename std::enable_if_t<(std::decay_t<decltype(b)>::PreBasis::maxMultiIndexSize==1)>; }) { std::vector<double> v; auto be=Dune::Functions::istlVectorBackend(v); be.resize(b); r.push_back(v.size()); } }
      return r; }; };
    concurrently(cat(name,":misc"), els.size(), 2+rnd(5), [&]{ return misc(basis); }, [&]{ return misc(other); });
    using Tree=typename std::decay_t<decltype(basis)>::LocalView::Tree;
    if constexpr (requires(const Tree& t) { t.finiteElement(); } && SPACE_GROUP!=11 && !(SPACE_GROUP==6 && dim==1) && !isArgyris<typename std::decay_t<decltype(basis)>::PreBasis>) {
      // each thread interpolates a shared function into a vector of its own
      using R=typename Tree::FiniteElement::Traits::LocalBasisType::Traits::RangeType; constexpr int m=R::dimension;
      const auto p=[&]{ if constexpr (m==1) return Poly<dim>::random(2); else return VPoly<dim,m>::random(2); }();
      auto ip=[&](const auto& b) { return [&](std::size_t) { std::vector<double> v; Dune::Functions::interpolate(b,v,p); return v; }; };
      concurrently(cat(name,":interpolate"), 2, 3, [&]{ return ip(basis); }, [&]{ return ip(other); });
    }
    if constexpr (requires(const Tree& t) { t.finiteElement(); }) {
      using R=typename Tree::FiniteElement::Traits::LocalBasisType::Traits::RangeType;
      using FR=std::conditional_t<R::dimension==1,double,R>;
      const std::vector<double> c=[&]{ std::vector<double> c(basis.dimension()); for (auto& x : c) x=urnd(); return c; }();
      auto fun=[&](const auto& f) { return [&els,lf=localFunction(f)](std::size_t i) mutable {
        if constexpr (std::is_copy_assignable_v<decltype(basis.localView())>) if (i%4==1) { auto c=lf; lf=c; }
        lf.bind(els[i]); auto x=Dune::referenceElement(els[i].geometry()).position(0,0); std::vector<double> s; flat(lf(x),s);
        auto d=derivative(lf); flat(d(x),s); return s; }; };
      { const auto f=Dune::Functions::makeDiscreteGlobalBasisFunction<FR>(basis,c); const auto f2=Dune::Functions::makeDiscreteGlobalBasisFunction<FR>(other,c);
        concurrently(cat(name,":dgbf"), els.size(), 2+rnd(5), [&]{ return fun(f); }, [&]{ return fun(f2); });
        // each thread makes its own function object sharing basis and coefficients
        auto own=[&](const auto& b) { return [&](std::size_t i) { auto f=Dune::Functions::makeDiscreteGlobalBasisFunction<FR>(b,c); auto df=derivative(f); auto l=localFunction(df); l.bind(els[i]); std::vector<double> s; flat(l(Dune::referenceElement(els[i].geometry()).position(0,0)),s); return s; }; };
        concurrently(cat(name,":own-function"), els.size(), 2+rnd(5), [&]{ return own(basis); }, [&]{ return own(other); }); }
    }
  }
}
SPACES_MAIN
