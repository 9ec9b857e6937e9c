// Families of function spaces x grids, driven by a generic functor
//   f(name, gridMaker, prebasisFactory, options)
// gridMaker(rng) returns a shared_ptr to a grid (leafGridView() usable).
// SPACE_GROUP selects which family is compiled in.
#pragma once
#include "grids.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>

#ifdef SPACES_AFFINE   // use affine elements only
#define mixed2 mixed2a
#define quads quadsa
#define hexes hexesa
#define prismhex prismhexa
#define pyrhex pyrhexa
#endif
#ifndef SPACE_GROUP
#error SPACE_GROUP
#endif

namespace Spaces {
using namespace Dune::Functions::BasisFactory;

struct Opt { bool assignable = true; bool updatable = true; bool allowDuplicates = false; };

} // namespace Spaces

#if SPACE_GROUP == 1   // 1d/2d Lagrange
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("lagrange0/mixed2", mixed2, lagrange<0>(), Opt{});
  f("lagrange1/mixed2", mixed2, lagrange<1>(), Opt{});
  f("lagrange2/mixed2", mixed2, lagrange<2>(), Opt{});
  f("lagrange3/mixed2", mixed2, lagrange<3>(), Opt{});
  f("lagrange4/tris", tris, lagrange<4>(), Opt{});
  f("lagrangeRT0/mixed2", mixed2, lagrange(0), Opt{});
  f("lagrangeRT1/mixed2", mixed2, lagrange(1), Opt{});
  f("lagrangeRT2/mixed2", mixed2, lagrange(2), Opt{});
  f("lagrangeRT3/mixed2", mixed2, lagrange(3), Opt{});
  f("lagrangeRT5/mixed2", mixed2, lagrange(5), Opt{});
  f("lagrange3/lines", lines, lagrange<3>(), Opt{});
  f("lagrangeRT4/lines", lines, lagrange(4), Opt{});
} }
#elif SPACE_GROUP == 2   // 3d Lagrange
namespace Spaces { template<class F> void group(F&& f) {
  f("lagrange1/pyrhex", pyrhex, lagrange<1>(), Opt{});
  f("lagrange2/prismhex", prismhex, lagrange<2>(), Opt{});
  f("lagrange2/pyrhex", pyrhex, lagrange<2>(), Opt{});
  f("lagrange3/tets", tets, lagrange<3>(), Opt{});
  f("lagrange3/hexes", hexes, lagrange<3>(), Opt{});
  f("lagrangeRT4/tets", tets, lagrange(4), Opt{});
  f("lagrangeRT4/hexes", hexes, lagrange(4), Opt{});
  f("lagrangeRT2/prismhex", prismhex, lagrange(2), Opt{});
} }
#elif SPACE_GROUP == 3   // DG, refined, hierarchical
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
namespace Spaces { 
template<int k> auto refined() { return [](const auto& gv) { return Dune::Functions::RefinedLagrangePreBasis<std::decay_t<decltype(gv)>,k>(gv); }; }
template<class F> void group(F&& f) {
  f("lagrangeDG1/mixed2", mixed2, lagrangeDG<1>(), Opt{});
  f("lagrangeDG3/mixed2", mixed2, lagrangeDG<3>(), Opt{});
  f("lagrangeDGRT2/mixed2", mixed2, lagrangeDG(2), Opt{});
  f("lagrangeDG2/prismhex", prismhex, lagrangeDG<2>(), Opt{});
  f("lagrangeDGRT1/pyrhex", pyrhex, lagrangeDG(1), Opt{});
  f("refined0/tris", tris, refined<0>(), Opt{false});
  f("refined1/tris", tris, refined<1>(), Opt{false});
  f("refined1/tets", tets, refined<1>(), Opt{false});
  f("refined1/lines", lines, refined<1>(), Opt{false});
  f("hierarchical2/tris", tris, hierarchicalLagrange<2>(), Opt{});
  f("hierarchicalBubble1/tris", tris, hierarchicalLagrangeWithElementBubble<1>(), Opt{});
  f("hierarchicalBubble1/tets", tets, hierarchicalLagrangeWithElementBubble<1>(), Opt{});
} }
#elif SPACE_GROUP == 4   // vector valued H(div), H(curl)
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("rt0/mixed2", mixed2, raviartThomas<0>(), Opt{});
  f("rt1/tris", tris, raviartThomas<1>(), Opt{});
  f("rt1/quads", quads, raviartThomas<1>(), Opt{});
  f("bdm1/tris", tris, brezziDouglasMarini<1>(), Opt{});
  f("bdm1/quads", quads, brezziDouglasMarini<1>(), Opt{});
  f("bdm2/tris", tris, brezziDouglasMarini<2>(), Opt{});
  f("bdm2/quads", quads, brezziDouglasMarini<2>(), Opt{});
  f("nedelec1/mixed2", mixed2, nedelec<1,1>(), Opt{});
  f("rannacherTurek/mixed2", mixed2, rannacherTurek(), Opt{});
} }
#elif SPACE_GROUP == 5   // vector valued 3d
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("rt0/pyrhex", pyrhex, raviartThomas<0>(), Opt{});
  f("rt0/prismhex", prismhex, raviartThomas<0>(), Opt{});
  f("rt0/tets", tets, raviartThomas<0>(), Opt{});
  f("nedelec1/tets", tets, nedelec<1,1>(), Opt{});
  f("nedelec1/hexes", hexes, nedelec<1,1>(), Opt{});
} }
#elif SPACE_GROUP == 6   // C1-ish simplex elements
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("hermite/lines", lines, cubicHermite(), Opt{});
  f("hermite/tris", tris, cubicHermite(), Opt{});
  f("hermite/tets", tets, cubicHermite(), Opt{});
  f("reducedHermite/tris", tris, reducedCubicHermite(), Opt{});
  f("morley/tris", tris, morley(), Opt{});
  f("argyris/tris", tris, argyris(), Opt{});
} }
#elif SPACE_GROUP == 7   // compositions, static strategies
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("power2-fl(lag2)", mixed2, power<2>(lagrange<2>(), flatLexicographic()), Opt{});
  f("power3-fi(lag1)", mixed2, power<3>(lagrange<1>(), flatInterleaved()), Opt{});
  f("power2-bl(lag2)", mixed2, power<2>(lagrange<2>(), blockedLexicographic()), Opt{});
  f("power3-bi(lag1)", mixed2, power<3>(lagrange<1>(), blockedInterleaved()), Opt{});
  f("comp-bl(lag2,lag0)", mixed2, composite(lagrange<2>(), lagrange<0>(), blockedLexicographic()), Opt{});
  f("comp-fl(lag1,rt0,lagDG)", mixed2, composite(lagrange<1>(), raviartThomas<0>(), lagrangeDG<1>(), flatLexicographic()), Opt{});
  f("comp-bl(power-bi,power-fl)", mixed2, composite(power<2>(lagrange<2>(), blockedInterleaved()), power<2>(lagrange<1>(), flatLexicographic()), blockedLexicographic()), Opt{});
  f("comp-fl(power-bl,lag)", mixed2, composite(power<2>(lagrange<1>(), blockedInterleaved()), power<2>(lagrange<1>(), blockedInterleaved()), flatLexicographic()), Opt{});
  f("power2-bi(power2-bl)", mixed2, power<2>(power<2>(lagrange<1>(), blockedLexicographic()), blockedLexicographic()), Opt{});
} }
#elif SPACE_GROUP == 8   // dynamic power + Taylor-Hood
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
namespace Spaces { 
template<bool hybrid> auto taylorHood() { return [](const auto& gv) { return Dune::Functions::TaylorHoodPreBasis<std::decay_t<decltype(gv)>,hybrid>(gv); }; }
template<class F> void group(F&& f) {
  f("dpower3-fl(lag2)", mixed2, power(lagrange<2>(), 3, flatLexicographic()), Opt{});
  f("dpower2-fi(lag2)", mixed2, power(lagrange<2>(), 2, flatInterleaved()), Opt{});
  f("dpower4-bl(lag1)", mixed2, power(lagrange<1>(), 4, blockedLexicographic()), Opt{});
  f("dpower2-bi(lag2)", mixed2, power(lagrange<2>(), 2, blockedInterleaved()), Opt{});
  f("dpower2-bl(dpower3-fi)", mixed2, power(power(lagrange(2), 3, flatInterleaved()), 2, blockedLexicographic()), Opt{});
  f("comp-bl(dpower2-fl,lag0)", mixed2, composite(power(lagrange<2>(), 2, flatLexicographic()), lagrange<0>(), blockedLexicographic()), Opt{});
  f("taylorhood/mixed2", mixed2, taylorHood<false>(), Opt{});
  f("taylorhood-hybrid/tris", tris, taylorHood<true>(), Opt{});
} }
#elif SPACE_GROUP == 9   // structured grids
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
namespace Spaces { template<class F> void group(F&& f) {
  f("lagrange3/yasp2", yasp2, lagrange<3>(), Opt{});
  f("lagrange2/yasp3", yasp3, lagrange(2), Opt{});
  f("lagrange3/oned", oned, lagrange<3>(), Opt{});
  f("rt1/yasp2", yasp2, raviartThomas<1>(), Opt{});
  f("rt0/yasp3", yasp3, raviartThomas<0>(), Opt{});
  f("rt1/yasp3", yasp3, raviartThomas<1>(), Opt{});
  f("rt2/yasp2", yasp2, raviartThomas<2>(), Opt{});
  f("nedelec/yasp3", yasp3, nedelec<1,1>(), Opt{});
  f("rannacherTurek/yasp2", yasp2, rannacherTurek(), Opt{});
  f("rannacherTurek/yasp3", yasp3, rannacherTurek(), Opt{});
} }
#elif SPACE_GROUP == 10   // products of special elements
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
namespace Spaces {
template<int k> auto refined() { return [](const auto& gv) { return Dune::Functions::RefinedLagrangePreBasis<std::decay_t<decltype(gv)>,k>(gv); }; }
template<class F> void group(F&& f) {
  f("power2-fi(hermite)/tris", tris, power<2>(cubicHermite(), flatInterleaved()), Opt{});
  f("dpower3-bl(reducedHermite)/tris", tris, power(reducedCubicHermite(), 3, blockedLexicographic()), Opt{});
  f("comp-fl(morley,argyris)/tris", tris, composite(morley(), argyris(), flatLexicographic()), Opt{});
  f("dpower2-bl(rt0)/mixed2", mixed2, power(raviartThomas<0>(), 2, blockedLexicographic()), Opt{});
  f("comp-bl(nedelec,rt1)/tris", tris, composite(nedelec<1,1>(), raviartThomas<1>(), blockedLexicographic()), Opt{});
  f("power2-bl(refined1)/tris", tris, power<2>(refined<1>(), blockedLexicographic()), Opt{false});
  f("comp-fl(lagrangeRT4,bdm1)/quads", quads, composite(lagrange(4), brezziDouglasMarini<1>(), flatLexicographic()), Opt{});
  f("power2-bi(lagrange3)/hexes", hexes, power<2>(lagrange<3>(), blockedInterleaved()), Opt{});
  f("comp-fl(rannacherTurek,bubble)/tris", tris, composite(rannacherTurek(), hierarchicalLagrangeWithElementBubble<1>(), flatLexicographic()), Opt{});
} }
#elif SPACE_GROUP == 11   // B-splines
#include <dune/functions/functionspacebases/bsplinebasis.hh>
namespace Spaces {
inline auto bspline(unsigned k) { return [k](const auto& gv) {
  using GV=std::decay_t<decltype(gv)>; using PB=Dune::Functions::BSplinePreBasis<GV>;
  typename GV::template Codim<0>::Geometry::GlobalCoordinate lo(1e9), up(-1e9); constexpr int d=GV::dimension;
  for (const auto& v : vertices(gv)) for (int i=0;i<d;++i) { lo[i]=std::min(lo[i],v.geometry().center()[i]); up[i]=std::max(up[i],v.geometry().center()[i]); }
  std::array<unsigned,d> n; for (int i=0;i<d;++i) n[i]=unsigned(gv.grid().levelSize(gv.grid().maxLevel())[i]);
  return PB(gv, lo, up, n, k); }; }
template<class F> void group(F&& f) {
  f("bspline2/yasp2", yasp2, bspline(2), Opt{false,false});
  f("bspline3/yasp2", yasp2, bspline(3), Opt{false,false});
  f("bspline1/yasp3", yasp3, bspline(1), Opt{false,false});
  f("power2-fl(bspline2)/yasp2", yasp2, power<2>(bspline(2), flatLexicographic()), Opt{false,false});
  f("comp-bl(bspline2,lagrange1)/yasp2", yasp2, composite(bspline(2), lagrange<1>(), blockedLexicographic()), Opt{false,false});
} }
#elif SPACE_GROUP == 12   // curved surfaces (compile with -DMOCK_EXTRA=1), user-defined leaf spaces built from the mixins
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/lfeprebasismixin.hh>
#include <dune/localfunctions/lagrange/lagrangesimplex.hh>
#include <dune/localfunctions/lagrange/lagrangecube.hh>
namespace Spaces {
// P2 and Q1 written by a user with the mixin; the finite element is default constructed or handed over
inline auto userP2() { return [](const auto& gv) { using GV=std::decay_t<decltype(gv)>; using LFE=Dune::LagrangeSimplexLocalFiniteElement<double,double,GV::dimension,2>;
  return Dune::Functions::LFEPreBasisMixin<GV,LFE>(gv, [](Dune::GeometryType gt, int d) { return std::size_t(gt.dim()<=1); }); }; }
inline auto userQ1() { return [](const auto& gv) { using GV=std::decay_t<decltype(gv)>; using LFE=Dune::LagrangeCubeLocalFiniteElement<double,double,GV::dimension,1>;
  return Dune::Functions::LFEPreBasisMixin<GV,LFE>(gv, LFE{}, [](Dune::GeometryType gt, int d) { return std::size_t(gt.dim()==0); }); }; }
template<class F> void group(F&& f) {
  f("surface-lagrange1/mixed2", mixed2, lagrange<1>(), Opt{});
  f("surface-lagrange3/mixed2", mixed2, lagrange<3>(), Opt{});
  f("surface-lagrangeRT4/tris", tris, lagrange(4), Opt{});
  f("curve-lagrange2/lines", lines, lagrange<2>(), Opt{});
  f("surface-lagrangeDG2/mixed2", mixed2, lagrangeDG<2>(), Opt{});
  f("surface-refined1/tris", tris, refinedLagrange<1>(), Opt{false});
  f("surface-hierarchical2/tris", tris, hierarchicalLagrange<2>(), Opt{});
  f("surface-rannacherTurek/mixed2", mixed2, rannacherTurek(), Opt{});
  f("surface-power3-bi(lagrange2)/mixed2", mixed2, power<3>(lagrange<2>(), blockedInterleaved()), Opt{});
  f("surface-comp-fl(lagrange2,dg1)/mixed2", mixed2, composite(lagrange<2>(), lagrangeDG<1>(), flatLexicographic()), Opt{});
  f("userP2/tris", tris, userP2(), Opt{});
  f("userQ1/quads", quads, userQ1(), Opt{});
  f("power2-fi(userP2)/tris", tris, power<2>(userP2(), flatInterleaved()), Opt{});
} }
#else
#error unknown SPACE_GROUP
#endif

// registers one case per space of the group; the TU defines body(name, maker, factory, opt)
#define SPACES_MAIN \
static void vf_each(const std::string& only) { Spaces::group([&](const char* name, auto mk, auto factory, Spaces::Opt opt) { if (only==name) body(name, mk, factory, opt); }); } \
static bool vf_reg = []{ Spaces::group([&](const char* name, auto, auto, Spaces::Opt) { std::string n=name; VF::registry().push_back({n, [n]{ vf_each(n); }, false}); }); return true; }();
