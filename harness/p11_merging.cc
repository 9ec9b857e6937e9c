// P11: index merging strategies against a model of the documented rules
#include "tree.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
using namespace VF;
using namespace TreeModel;

template<class Mk, class Ex> void body(const char*, Mk mk, Ex ex)
{
  int n = scale(4,40);
  for (int rep=0; rep<n; ++rep) {
    auto grid = mk();
    auto gv = grid->leafGridView();
    auto tree = ex();
    auto basis = BF::makeBasis(gv, tree.factory());
#ifdef INDEX_TREE   // decide P01 on the nested bases
    checkIndexTree(basis,"idx",{});
  }
}
#else
    auto model = tree.model(gv);
    auto all = model.all();
    auto sz = sizes(all);
    auto lv = basis.localView();
    std::size_t en=0; std::uint64_t h=1;
    for (const auto& e : elements(gv)) {
      lv.bind(e);
      std::size_t leafNo=0, count=0;
      forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
        if (!check(leafNo<model.idx[en].size(), "leaf-count")) return;
        auto& m = model.idx[en][leafNo++];
        check(node.size()==m.size(), "leaf-size", node.size(), " vs ", m.size());
        for (std::size_t i=0;i<std::min<std::size_t>(m.size(), node.size());++i) {
          auto mi = toIdx(lv.index(node.localIndex(i)));
          check(mi==m[i], "index", "leaf ", leafNo-1, " dof ", i, ": ", str(mi), " expected ", str(m[i]));
          h=mix(h,hidx(mi)); ++count; obs("indices");
        }
      });
      check(leafNo==model.idx[en].size(), "leaf-count", leafNo);
      check(count==lv.size(), "local-size", lv.size(), " vs ", count);
      check(lv.size()<=lv.maxSize(), "max-size");
      ++en;
    }
    for (auto& [p,s] : sz) { check(sizeAt(basis,p)==s, "prefix-size", "size", str(p), "=", sizeAt(basis,p), " expected ", s); obs("prefixes"); }
    check(basis.size()==sz[{}], "size", basis.size());
    check(basis.dimension()==all.size(), "dimension", basis.dimension(), " vs ", all.size());
    // pre-basis level interface and static bounds on the number of digits
    std::size_t lo=1000, hi=0; for (auto& i : all) { lo=std::min(lo,i.size()); hi=std::max(hi,i.size()); }
    using PB = typename decltype(basis)::PreBasis;
    check(PB::maxMultiIndexSize>=hi && PB::minMultiIndexSize<=lo, "digit-bounds", lo, "..", hi, " static ", std::size_t(PB::minMultiIndexSize), "..", std::size_t(PB::maxMultiIndexSize));
    check(PB::multiIndexBufferSize>=hi, "buffer-size");
    check(basis.preBasis().dimension()==all.size() && basis.preBasis().size()==sz[{}], "prebasis-size");
    state(h);
    sample(cat("dimension ", all.size(), ", ", en, " elements, digits ", lo, "..", hi));
  }
}
#endif

using namespace Dune::Functions::BasisFactory;
static auto k14() { return std::size_t(1+rnd(4)); }
#if PART == 1
TREE_CASE("pow2-bl", mixed2, (pow<2,M::BL>(leaf(lagrange<2>()))));
TREE_CASE("pow3-fl", mixed2, (pow<3,M::FL>(leaf(lagrange<2>()))));
TREE_CASE("pow3-bi", mixed2, (pow<3,M::BI>(leaf(lagrange<2>()))));
TREE_CASE("pow4-fi", mixed2, (pow<4,M::FI>(leaf(lagrange<2>()))));
TREE_CASE("pow3-default", mixed2, (pow<3>(leaf(lagrange<1>()))));
TREE_CASE("pow1-bl", mixed2, (pow<1,M::BL>(leaf(lagrange<1>()))));
TREE_CASE("pow1-fl", mixed2, (pow<1,M::FL>(leaf(lagrange<1>()))));
TREE_CASE("pow1-bi", mixed2, (pow<1,M::BI>(leaf(lagrange<1>()))));
TREE_CASE("pow1-fi", mixed2, (pow<1,M::FI>(leaf(lagrange<1>()))));
TREE_CASE("dyn-bl", mixed2, (dyn<M::BL>(leaf(lagrange<2>()), k14())));
TREE_CASE("dyn-fl", mixed2, (dyn<M::FL>(leaf(lagrange<2>()), k14())));
TREE_CASE("dyn-bi", mixed2, (dyn<M::BI>(leaf(lagrange<2>()), k14())));
TREE_CASE("dyn-fi", mixed2, (dyn<M::FI>(leaf(lagrange<2>()), k14())));
TREE_CASE("dyn-default", mixed2, (dyn(leaf(lagrange(2)), k14())));
TREE_CASE("comp-bl", mixed2, (comp<M::BL>(leaf(lagrange<2>()), leaf(lagrange<0>()), leaf(raviartThomas<0>()))));
TREE_CASE("comp-fl", mixed2, (comp<M::FL>(leaf(lagrange<2>()), leaf(lagrange<0>()), leaf(lagrangeDG<1>()))));
TREE_CASE("comp-default", mixed2, (comp(leaf(lagrange<2>()), leaf(lagrange<0>()))));
TREE_CASE("comp1-bl", mixed2, (comp<M::BL>(leaf(lagrange<1>()))));
TREE_CASE("comp1-fl", mixed2, (comp<M::FL>(leaf(lagrange<1>()))));
TREE_CASE("comp4-fl", tris, (comp<M::FL>(leaf(lagrange<1>()), leaf(morley()), leaf(cubicHermite()), leaf(hierarchicalLagrange<2>()))));
#elif PART == 2   // power of power: all pairs
#define PAIR(o,i) TREE_CASE("pow2-" #o "(pow3-" #i ")", mixed2, (pow<2,M::o>(pow<3,M::i>(leaf(lagrange<2>())))));
PAIR(BL,BL) PAIR(BL,FL) PAIR(BL,BI) PAIR(BL,FI)
PAIR(FL,BL) PAIR(FL,FL) PAIR(FL,BI) PAIR(FL,FI)
PAIR(BI,BL) PAIR(BI,FL) PAIR(BI,BI) PAIR(BI,FI)
PAIR(FI,BL) PAIR(FI,FL) PAIR(FI,BI) PAIR(FI,FI)
#elif PART == 3   // dynamic power of power and vice versa
#define PAIR(o,i) TREE_CASE("dyn-" #o "(dyn-" #i ")", mixed2, (dyn<M::o>(dyn<M::i>(leaf(lagrange<1>()), k14()), k14())));
PAIR(BL,BL) PAIR(BL,FL) PAIR(BL,BI) PAIR(BL,FI)
PAIR(FL,BL) PAIR(FL,FL) PAIR(FL,BI) PAIR(FL,FI)
PAIR(BI,BL) PAIR(BI,FL) PAIR(BI,BI) PAIR(BI,FI)
PAIR(FI,BL) PAIR(FI,FL) PAIR(FI,BI) PAIR(FI,FI)
#elif PART == 4   // composites inside power and power inside composites, non-uniform depth
#define PC(o,i) TREE_CASE("pow2-" #o "(comp-" #i ")", mixed2, (pow<2,M::o>(comp<M::i>(leaf(lagrange<2>()), pow<2,M::BI>(leaf(lagrange<1>()))))));
PC(BL,BL) PC(FL,BL) PC(BI,BL) PC(FI,BL) PC(BL,FL) PC(FL,FL) PC(FI,FL)
#define DC(o,i) TREE_CASE("dyn-" #o "(comp-" #i ")", mixed2, (dyn<M::o>(comp<M::i>(leaf(lagrange<0>()), leaf(lagrange<2>())), k14())));
DC(BL,BL) DC(FL,BL) DC(BI,BL) DC(FI,BL) DC(BL,FL) DC(BI,FL)
TREE_CASE("comp-BL(pow-BI,lag)", mixed2, (comp<M::BL>(pow<2,M::BI>(leaf(lagrange<2>())), leaf(lagrange<1>()))));
TREE_CASE("comp-FL(pow-BL,pow-BL)", mixed2, (comp<M::FL>(pow<2,M::BL>(leaf(lagrange<2>())), pow<3,M::BL>(leaf(lagrange<1>())))));
TREE_CASE("comp-FL(pow-BI,lag)", mixed2, (comp<M::FL>(pow<2,M::BI>(leaf(lagrange<2>())), leaf(lagrange<1>()))));
TREE_CASE("comp-FL(comp-BL,comp-BL)", mixed2, (comp<M::FL>(comp<M::BL>(leaf(lagrange<2>()), leaf(lagrange<0>())), comp<M::BL>(leaf(lagrange<1>()), pow<2,M::BI>(leaf(lagrange<1>()))))));
#elif PART == 5   // three levels, other elements, other grids
TREE_CASE("pow2-BL(dyn-FI(pow2-BI))", mixed2, (pow<2,M::BL>(dyn<M::FI>(pow<2,M::BI>(leaf(lagrange<1>())), k14()))));
TREE_CASE("dyn-BI(comp-BL(pow2-BL,lag))", mixed2, (dyn<M::BI>(comp<M::BL>(pow<2,M::BL>(leaf(lagrange<1>())), leaf(lagrange<2>())), k14())));
TREE_CASE("comp-BL(comp-FL(dyn-BL,dyn-BL),dyn-FI(comp-BL))", mixed2, (comp<M::BL>(comp<M::FL>(dyn<M::BL>(leaf(lagrange<1>()), k14()), dyn<M::BL>(leaf(lagrange<0>()), k14())), dyn<M::FI>(comp<M::BL>(leaf(lagrange<1>()), leaf(lagrange<0>())), k14()))));
TREE_CASE("pow2-FI(dyn-BL(pow2-FL))", prismhex, (pow<2,M::FI>(dyn<M::BL>(pow<2,M::FL>(leaf(lagrange<1>())), k14()))));
TREE_CASE("pow2-FL(taylorhood)", mixed2, (pow<2,M::FL>(leaf(taylorHood()))));
TREE_CASE("pow2-BI(taylorhood)", mixed2, (pow<2,M::BI>(leaf(taylorHood()))));
TREE_CASE("comp-BL(taylorhood,nedelec)", mixed2, (comp<M::BL>(leaf(taylorHood()), leaf(nedelec<1,1>()))));
TREE_CASE("pow3-BI(hermite)", tris, (pow<3,M::BI>(leaf(cubicHermite()))));
TREE_CASE("pow3-FI(dg3)/yasp3", yasp3, (pow<3,M::FI>(leaf(lagrangeDG<2>()))));
TREE_CASE("pow2-BL(lagrangeRT)/yasp2", yasp2, (pow<2,M::BL>(leaf(lagrange(3)))));
TREE_CASE("dyn-FL(lagrange)/oned", oned, (dyn<M::FL>(leaf(lagrange<3>()), k14())));
TREE_CASE("pow40-BI", lines, (pow<40,M::BI>(leaf(lagrange<1>()))));
TREE_CASE("dyn33-FI", lines, (dyn<M::FI>(leaf(lagrange<2>()), 33)));
#endif
