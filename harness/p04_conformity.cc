// P04: inter-element continuity. The monitor looks at both sides of every interior
// facet and compares traces of functions with equal global index.
#include "conformity.hh"
using namespace Dune::Functions::BasisFactory;
using namespace Conf;

#if PART == 1
#include <dune/functions/functionspacebases/lagrangebasis.hh>
CONF_CASE("lagrange1/mixed2", Spaces::mixed2(), lagrange<1>(), Value)
CONF_CASE("lagrange2/mixed2", Spaces::mixed2(), lagrange<2>(), Value)
CONF_CASE("lagrange3/mixed2", Spaces::mixed2(), lagrange<3>(), Value)
CONF_CASE("lagrange4/tris", Spaces::tris(), lagrange<4>(), Value)
CONF_CASE("lagrangeRT5/mixed2", Spaces::mixed2(), lagrange(5), Value)
CONF_CASE("lagrangeRT3/mixed2", Spaces::mixed2(), lagrange(3), Value)
CONF_CASE("lagrangeRT7/quads", Spaces::quads(), lagrange(7), Value)
CONF_CASE("lagrangeRT1/lines", Spaces::lines(), lagrange(1), Value)
CONF_CASE("lagrange4/lines", Spaces::lines(), lagrange<4>(), Value)
CONF_CASE("lagrange3/yasp2", Spaces::yasp2(), lagrange<3>(), Value)
#elif PART == 2
#include <dune/functions/functionspacebases/lagrangebasis.hh>
CONF_CASE("lagrange1/pyrhex", Spaces::pyrhex(), lagrange<1>(), Value)
CONF_CASE("lagrange2/prismhex", Spaces::prismhex(), lagrange<2>(), Value)
CONF_CASE("lagrange2/pyrhex", Spaces::pyrhex(), lagrange<2>(), Value)
CONF_CASE("lagrange3/tets", Spaces::tets(), lagrange<3>(), Value)
CONF_CASE("lagrange3/hexes", Spaces::hexes(), lagrange<3>(), Value)
CONF_CASE("lagrangeRT4/tets", Spaces::tets(), lagrange(4), Value)
CONF_CASE("lagrangeRT4/hexes", Spaces::hexes(), lagrange(4), Value)
CONF_CASE("lagrangeRT5/tets", Spaces::tets(), lagrange(5), Value)
CONF_CASE("lagrangeRT3/hexes", Spaces::hexes(), lagrange(3), Value)
CONF_CASE("lagrange2/yasp3", Spaces::yasp3(), lagrange<2>(), Value)
#elif PART == 3
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
CONF_CASE("rt0/mixed2", Spaces::mixed2(), raviartThomas<0>(), Normal)
CONF_CASE("rt0/tris", Spaces::tris(), raviartThomas<0>(), Normal)
CONF_CASE("rt1/tris+", Spaces::trisPos(), raviartThomas<1>(), Normal)
CONF_CASE("rt1/quads+", Spaces::quadsPos(), raviartThomas<1>(), Normal)
CONF_CASE("rt2/yasp2", Spaces::yasp2(), raviartThomas<2>(), Normal)
CONF_CASE("bdm1/tris+", Spaces::trisPos(), brezziDouglasMarini<1>(), Normal)
CONF_CASE("bdm1/quads+", Spaces::quadsPos(), brezziDouglasMarini<1>(), Normal)
CONF_CASE("bdm2/tris+", Spaces::trisPos(), brezziDouglasMarini<2>(), Normal)
CONF_CASE("bdm2/quads+", Spaces::quadsPos(), brezziDouglasMarini<2>(), Normal)
// elements of both orientations: listed in known_findings.json
CONF_CASE("rt1/tris+-", Spaces::tris(), raviartThomas<1>(), Normal)
CONF_CASE("rt1/quads+-", Spaces::quads(), raviartThomas<1>(), Normal)
CONF_CASE("bdm1/tris+-", Spaces::tris(), brezziDouglasMarini<1>(), Normal)
CONF_CASE("bdm1/quads+-", Spaces::quads(), brezziDouglasMarini<1>(), Normal)
CONF_CASE("bdm2/tris+-", Spaces::tris(), brezziDouglasMarini<2>(), Normal)
CONF_CASE("bdm2/quads+-", Spaces::quads(), brezziDouglasMarini<2>(), Normal)
CONF_CASE("nedelec1/mixed2", Spaces::mixed2(), (nedelec<1,1>()), Tangential)
CONF_CASE("nedelec1/yasp2", Spaces::yasp2(), (nedelec<1,1>()), Tangential)
#elif PART == 4
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
CONF_CASE("rt0/tets", Spaces::tets(), raviartThomas<0>(), Normal)
CONF_CASE("rt0/hexes", Spaces::hexes(), raviartThomas<0>(), Normal)
CONF_CASE("rt0/prismhex", Spaces::prismhex(), raviartThomas<0>(), Normal)
CONF_CASE("rt0/pyrhexa", Spaces::pyrhexa(), raviartThomas<0>(), Normal)
CONF_CASE("rt0/pyrhex", Spaces::pyrhex(), raviartThomas<0>(), Normal)
CONF_CASE("rt1/yasp3", Spaces::yasp3(), raviartThomas<1>(), Normal)
CONF_CASE("nedelec1/tets", Spaces::tets(), (nedelec<1,1>()), Tangential)
CONF_CASE("nedelec1/hexes", Spaces::hexes(), (nedelec<1,1>()), Tangential)
CONF_CASE("nedelec1/yasp3", Spaces::yasp3(), (nedelec<1,1>()), Tangential)
#elif PART == 5
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
CONF_CASE("hermite/tris", Spaces::tris(), cubicHermite(), Value)
CONF_CASE("hermite/tets", Spaces::tets(), cubicHermite(), Value)
CONF_CASE("hermite/lines", Spaces::lines(), cubicHermite(), C1)
CONF_CASE("hermite-vertex/tris", Spaces::tris(), cubicHermite(), VertexC1)
CONF_CASE("hermite-vertex/tets", Spaces::tets(), cubicHermite(), VertexC1)
CONF_CASE("reducedHermite/tris", Spaces::tris(), reducedCubicHermite(), Value)
CONF_CASE("reducedHermite-vertex/tris", Spaces::tris(), reducedCubicHermite(), VertexC1)
CONF_CASE("morley/tris", Spaces::tris(), morley(), Morley)
CONF_CASE("argyris/tris", Spaces::tris(), argyris(), C1)
#elif PART == 6
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
template<int k> auto refined() { return [](const auto& gv) { return Dune::Functions::RefinedLagrangePreBasis<std::decay_t<decltype(gv)>,k>(gv); }; }
CONF_CASE("refined1/tris", Spaces::tris(), refined<1>(), Value)
CONF_CASE("refined1/tets", Spaces::tets(), refined<1>(), Value)
CONF_CASE("refined1/lines", Spaces::lines(), refined<1>(), Value)
CONF_CASE("hierarchical2/tris", Spaces::tris(), hierarchicalLagrange<2>(), Value)
CONF_CASE("hierarchicalBubble1/tris", Spaces::tris(), hierarchicalLagrangeWithElementBubble<1>(), Value)
CONF_CASE("hierarchicalBubble1/tets", Spaces::tets(), hierarchicalLagrangeWithElementBubble<1>(), Value)
CONF_CASE("rannacherTurek/mixed2", Spaces::mixed2(), rannacherTurek(), Midpoint)
CONF_CASE("rannacherTurek/yasp3", Spaces::yasp3(), rannacherTurek(), Midpoint)
CONF_CASE("rannacherTurek/yasp2", Spaces::yasp2(), rannacherTurek(), Midpoint)
CONF_CASE("taylorHood/mixed2", Spaces::mixed2(), taylorHood(), Value)
CONF_CASE("comp(power3,lag1)/prismhex", Spaces::prismhex(), composite(power<3>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic()), Value)
CONF_CASE("comp(dpower,lag1)/tris", Spaces::tris(), composite(power(lagrange<3>(), 2, flatInterleaved()), lagrange(4), flatLexicographic()), Value)
#elif PART == 7   // grids with one compile-time element type
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#ifdef MOCK_FIXED_CUBE
CONF_CASE("lagrange3/quads", Spaces::quads(), lagrange<3>(), Value)
CONF_CASE("lagrangeRT3/hexes", Spaces::hexes(), lagrange(3), Value)
CONF_CASE("rt0/quads", Spaces::quads(), raviartThomas<0>(), Normal)
CONF_CASE("rt1/quads+", Spaces::quadsPos(), raviartThomas<1>(), Normal)
CONF_CASE("rt2/quads+", Spaces::quadsPos(), raviartThomas<2>(), Normal)
CONF_CASE("rt0/hexes", Spaces::hexes(), raviartThomas<0>(), Normal)
CONF_CASE("nedelec1/quads", Spaces::quads(), (nedelec<1,1>()), Tangential)
CONF_CASE("nedelec1/hexes", Spaces::hexes(), (nedelec<1,1>()), Tangential)
CONF_CASE("rannacherTurek/quads", Spaces::quads(), rannacherTurek(), Midpoint)
#else
CONF_CASE("lagrange4/tris", Spaces::tris(), lagrange<4>(), Value)
CONF_CASE("lagrangeRT3/tets", Spaces::tets(), lagrange(3), Value)
CONF_CASE("rt0/tris", Spaces::tris(), raviartThomas<0>(), Normal)
CONF_CASE("rt1/tris+", Spaces::trisPos(), raviartThomas<1>(), Normal)
CONF_CASE("rt0/tets", Spaces::tets(), raviartThomas<0>(), Normal)
CONF_CASE("nedelec1/tris", Spaces::tris(), (nedelec<1,1>()), Tangential)
CONF_CASE("nedelec1/tets", Spaces::tets(), (nedelec<1,1>()), Tangential)
CONF_CASE("crouzeixRaviart/tris", Spaces::tris(), rannacherTurek(), Midpoint)
CONF_CASE("crouzeixRaviart/tets", Spaces::tets(), rannacherTurek(), Midpoint)
#endif
#endif
