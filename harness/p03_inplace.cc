// P03/P02: in-place grid adaptation; local views that live across basis.update()
#include "alberta.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
using namespace VF; using namespace Dune::Functions::BasisFactory;
template<class G, class Adapt, class Fac> void inplace(G& g, Adapt adapt, Fac fac)
{
  auto b=makeBasis(g.leafGridView(),fac);
  auto b2=b; // copy that is updated as well
  for (int step=0; step<3; ++step) {
    using LV=decltype(b.localView());
    std::vector<std::unique_ptr<LV>> views; int n=0;
    for (const auto& e : elements(g.leafGridView())) { if (n++>=12) break; views.push_back(std::make_unique<LV>(b.localView())); views.back()->bind(e); if (rnd(6)==0) views.back()->unbind(); }
    adapt(g);
    // the leaf grid view object of these grids stays valid, hence also the one stored in the basis itself may be passed
    constexpr bool stays=requires { g.mark(1,*g.leafGridView().template begin<0>()); g.leafIndexSet(); } && !requires { g.levelSize(0); };
    if (stays && rnd(3)==0) { b.update(b.gridView()); obs("own-grid-view"); } else b.update(g.leafGridView());
    if (rnd(2)) b2.update(g.leafGridView()); else b2=b;
    auto fresh=makeBasis(g.leafGridView(),fac);
    check(b.dimension()==fresh.dimension() && b2.dimension()==fresh.dimension(), "dimension", b.dimension(), " ", fresh.dimension());
    check(b.size()==fresh.size(), "size");
    auto f=fresh.localView(); auto l2=b2.localView(); std::uint64_t h=step; int seen=0;
    // every surviving view is bound first to an element of its own choice
    std::vector<bool> used(views.size(),false);
    for (const auto& e : elements(g.leafGridView())) {
      f.bind(e); auto s=signature(f); l2.bind(e); check(signature(l2)==s, "copy-signature");
      for (auto d : s) h=hdbl(h,d);
      for (std::size_t k=0;k<views.size();++k) {
        if (seen>20 && used[k] && rnd(8)) continue;
        // only rebind directly to the element: copy first so that every element is the first one after the update for some view
        LV v(b.localView());
        if (rnd(2)) { views[k]->bind(e); check(signature(*views[k])==s, "rebound-view", "step ", step); used[k]=true; obs("rebinds"); }
      }
      ++seen;
    }
    state(h); obs("adaptations");
  }
}
// as above, but each view is rebound exactly to the element it was bound to
template<class G, class Adapt, class Fac> void inplaceSame(G& g, Adapt adapt, Fac fac)
{
  auto b=makeBasis(g.leafGridView(),fac);
  for (int step=0; step<3; ++step) {
    using LV=decltype(b.localView()); using Id=typename G::LocalIdSet::IdType;
    std::map<Id,std::unique_ptr<LV>> views;
    for (const auto& e : elements(g.leafGridView())) { auto v=std::make_unique<LV>(b.localView()); v->bind(e); views[g.localIdSet().id(e)]=std::move(v); }
    adapt(g);
    b.update(g.leafGridView());
    auto fresh=makeBasis(g.leafGridView(),fac); auto f=fresh.localView(); std::uint64_t h=step+17;
    for (const auto& e : elements(g.leafGridView())) {
      auto it=views.find(g.localIdSet().id(e)); if (it==views.end()) continue;
      f.bind(e); auto s=signature(f); for (auto d : s) h=hdbl(h,d);
      it->second->bind(e); check(signature(*it->second)==s, "rebound-same", "step ", step); obs("rebinds-same-element");
      LV c(*it->second); check(signature(c)==s, "copy-of-rebound");
    }
    state(h);
  }
}
template<class Mk, class Adapt, class Fac> void both(Mk mk, Adapt adapt, Fac fac)
{ for (int it=0; it<scale(5,30); ++it) { auto g=mk(); inplace(*g,adapt,fac); auto g2=mk(); inplaceSame(*g2,adapt,fac); } }
auto adaptRnd=[](auto& g) { Spaces::randomAdapt(g, 0.15+0.3*urnd(0,1), rnd(2)); };
auto refineAll=[](auto& g) { g.globalRefine(1); };
auto mkOned=[] { return Spaces::oned(); };
#if ALBERTA_DIM==3
auto mkAlb3=[] { return Spaces::alberta3(1); };
auto adapt3=[](auto& g) { Spaces::randomAdapt(g, 0.05+0.1*urnd(0,1), rnd(2)); };
#else
auto mkAlb=[] { return Spaces::alberta(2); };
#endif
auto mkYasp2=[] { return Spaces::makeYasp<2>(1,2); };
auto mkYasp3=[] { return Spaces::makeYasp<3>(1,1); };
#define C(name,mk,ad,...) VF_CASE(name) { both(mk,ad,__VA_ARGS__); }
#if PART==1
C("lagrange1/oned",mkOned,adaptRnd,lagrange<1>())
C("lagrange3/oned",mkOned,adaptRnd,lagrange<3>())
C("hermite/oned",mkOned,adaptRnd,cubicHermite())
C("dg1/oned",mkOned,adaptRnd,lagrangeDG<1>())
C("power-comp/oned",mkOned,adaptRnd,composite(power<2>(lagrange<2>(),flatInterleaved()),lagrange<1>(),blockedLexicographic()))
C("lagrange1/alberta",mkAlb,adaptRnd,lagrange<1>())
C("lagrange3/alberta",mkAlb,adaptRnd,lagrange<3>())
C("taylorhood/alberta",mkAlb,adaptRnd,taylorHood())
C("dpower/alberta",mkAlb,adaptRnd,power(lagrange<2>(),3,flatLexicographic()))
#elif PART==3
C("lagrange1/alberta3",mkAlb3,adapt3,lagrange<1>())
C("lagrange3/alberta3",mkAlb3,adapt3,lagrange(3))
C("rt0/alberta3",mkAlb3,adapt3,raviartThomas<0>())
C("nedelec/alberta3",mkAlb3,adapt3,nedelec<1,1>())
C("hermite/alberta3",mkAlb3,adapt3,cubicHermite())
C("power/alberta3",mkAlb3,adapt3,power<2>(lagrange<2>(),blockedInterleaved()))
#else
C("rt0/alberta",mkAlb,adaptRnd,raviartThomas<0>())
C("bdm1/alberta",mkAlb,adaptRnd,brezziDouglasMarini<1>())
C("nedelec/alberta",mkAlb,adaptRnd,nedelec<1,1>())
C("hermite/alberta",mkAlb,adaptRnd,cubicHermite())
C("reduced-hermite/alberta",mkAlb,adaptRnd,reducedCubicHermite())
C("morley/alberta",mkAlb,adaptRnd,morley())
C("argyris/alberta",mkAlb,adaptRnd,argyris())
C("cr/alberta",mkAlb,adaptRnd,rannacherTurek())
C("hier2/alberta",mkAlb,adaptRnd,hierarchicalLagrange<2>())
C("lagrange2/yasp2",mkYasp2,refineAll,lagrange<2>())
C("comp/yasp3",mkYasp3,[](auto& g) { if (g.maxLevel()<2) g.globalRefine(1); },composite(lagrange<2>(),lagrange<1>(),flatLexicographic()))
#endif
