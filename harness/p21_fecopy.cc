// P21: copies of H2 finite elements outlive the view they were obtained from.
#include "grids.hh"
#include "poly.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
// local function of an element: polynomial in world coordinates; derivative w.r.t. world coordinates
template<int dim, int ord, class Geo> struct LF { const Poly<dim>* p; const Geo* g;
  auto operator()(const Dune::FieldVector<double,dim>& x) const { auto X=g->global(x); if constexpr (ord==0) return (*p)(X); else if constexpr (ord==1) return derivative(*p)(X); else return derivative(derivative(*p))(X); }
  friend auto derivative(const LF& f) { return LF<dim,ord+1,Geo>{f.p,f.g}; } };
template<class Mk, class Fac> void run(const char* key, Mk mk, Fac fac)
{
  for (int it=0; it<scale(6,30); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView(); constexpr int dim=decltype(gv)::dimension; auto basis=makeBasis(gv,fac); using FE=std::decay_t<decltype(basis.localView().tree().finiteElement())>;
    using E=typename decltype(gv)::template Codim<0>::Entity; std::vector<E> els; for (const auto& e : elements(gv)) els.push_back(e);
    auto p=Poly<dim>::random(2); using Geo=typename E::Geometry;
    auto numbers=[&](const FE& fe, const E& e) { Geo g=e.geometry(); std::vector<double> c; fe.localInterpolation().interpolate(LF<dim,0,Geo>{&p,&g},c); std::vector<Dune::FieldVector<double,1>> v; auto x=Dune::referenceElement(g).position(0,0); fe.localBasis().evaluateFunction(x,v); flat(v,c); using T=typename FE::Traits::LocalBasisType::Traits; std::vector<typename T::JacobianType> J; fe.localBasis().evaluateJacobian(x,J); flat(J,c); return c; };
    std::vector<std::vector<double>> ref; { auto lv=basis.localView(); for (auto& e : els) { lv.bind(e); ref.push_back(numbers(lv.tree().finiteElement(),e)); } }
    std::vector<std::unique_ptr<FE>> pool; std::vector<std::size_t> el;
    { auto lv=std::make_unique<decltype(basis.localView())>(basis.localView()); for (std::size_t k=0;k<8;++k) { auto i=rnd(els.size()); lv->bind(els[i]); pool.push_back(std::make_unique<FE>(lv->tree().finiteElement())); el.push_back(i); obs("copied_elements"); }
      for (std::size_t k=0;k<pool.size();++k) check(numbers(*pool[k],els[el[k]])==ref[el[k]],cat(key,":copy-while-original-rebound")); }
    for (std::size_t k=0;k<pool.size();++k) check(numbers(*pool[k],els[el[k]])==ref[el[k]],cat(key,":copy-outlives-view"));
    for (int k=0;k<10;++k) { auto i=rnd(pool.size()), j=rnd(pool.size()); if (rnd(2)) { *pool[i]=*pool[j]; el[i]=el[j]; } else { auto t=std::make_unique<FE>(std::move(*pool[i])); pool[i]=std::move(t); } for (std::size_t q=0;q<pool.size();++q) check(numbers(*pool[q],els[el[q]])==ref[el[q]],cat(key,":assigned")); state(mix(mix(i,j),it)); }
    sample(cat(key,": ",els.size()," elements"));
  }
}
VF_CASE("fecopy/hermite-tris") { run("hermite2",Spaces::tris,cubicHermite()); }
VF_CASE("fecopy/hermite-tets") { run("hermite3",Spaces::tets,cubicHermite()); }
VF_CASE("fecopy/reduced-hermite") { run("reduced",Spaces::tris,reducedCubicHermite()); }
VF_CASE("fecopy/argyris") { run("argyris",Spaces::tris,argyris()); }
VF_CASE("fecopy/morley") { run("morley",Spaces::tris,morley()); }
