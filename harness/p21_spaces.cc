// P21: every function space under valgrind memcheck: all observable numbers are branched on.
#include "spaces.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
using namespace VF;
inline void consume(const std::vector<double>& v) { std::size_t pos=0; for (double x : v) if (x>0) ++pos; obs("consumed_values",v.size()); state(mix(pos,v.size())); }
template<class Mk, class Fac> void body(const char* name, Mk mk, Fac factory, Spaces::Opt opt)
{
  for (int g=0; g<scale(1,6); ++g) {
    auto grid=mk(); auto gv=grid->leafGridView();
    auto basis=std::make_unique<decltype(Dune::Functions::BasisFactory::makeBasis(gv,factory))>(Dune::Functions::BasisFactory::makeBasis(gv,factory));
    auto b=*basis; basis.reset();
    std::size_t k=0, lim=scale(6,20);
    { auto lv=b.localView(); consume(signature(lv)); for (const auto& e : elements(gv)) { if (k++>=lim) break; lv.bind(e); consume(signature(lv)); auto c=lv; lv.unbind(); consume(signature(c)); auto m=std::move(c); consume(signature(m)); } }
    { std::vector<double> s; Idx p; s.push_back(b.size()); s.push_back(b.dimension()); auto lv=b.localView(); lv.bind(*gv.template begin<0>()); if (lv.size()) for (auto d : toIdx(lv.index(0))) { p.push_back(d); s.push_back(sizeAt(b,p)); } consume(s); }
    if constexpr (requires { Dune::Functions::forEachBoundaryDOF(b,[](auto&&){}); }) { std::vector<double> s; Dune::Functions::forEachBoundaryDOF(b,[&](auto&& i) { for (auto d : toIdx(i)) s.push_back(d); }); consume(s); }
    using Tree=typename std::decay_t<decltype(b)>::LocalView::Tree;
    if constexpr (requires(const Tree& t) { t.finiteElement(); }) {
      using R=typename Tree::FiniteElement::Traits::LocalBasisType::Traits::RangeType; using FR=std::conditional_t<R::dimension==1,double,R>;
      std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd();
      auto f=Dune::Functions::makeDiscreteGlobalBasisFunction<FR>(b,c); auto lf=localFunction(f); auto dlf=derivative(lf); k=0; std::vector<double> s;
      for (const auto& e : elements(gv)) { if (k++>=lim) break; lf.bind(e); dlf.bind(e); auto x=randomLocal<decltype(gv)::dimension>(e.type()); flat(lf(x),s); flat(dlf(x),s); }
      consume(s);
      if constexpr (requires(const Tree& t) { t.finiteElement().localInterpolation(); } && R::dimension==1 && SPACE_GROUP!=6 && SPACE_GROUP!=11) { 
        auto lv=b.localView(); lv.bind(*gv.template begin<0>()); std::vector<double> w;
        using D=typename Tree::FiniteElement::Traits::LocalBasisType::Traits::DomainType;
        if constexpr (requires(const Tree& t) { t.finiteElement().localInterpolation().interpolate([](const D& x) { return x[0]; },w); }) { lv.tree().finiteElement().localInterpolation().interpolate([](const D& x) { return x[0]; },w); consume(w); } }
    }
    if (opt.updatable) { auto g2=mk(); b.update(g2->leafGridView()); auto lv=b.localView(); k=0; for (const auto& e : elements(b.gridView())) { if (k++>=lim) break; lv.bind(e); consume(signature(lv)); } b.update(gv); }
    check(true,"completed"); obs("grids"); sample(cat(name,": ",gv.size(0)," elements"));
  }
}
SPACES_MAIN
