// P14: boundary and subentity degrees of freedom
#include "spaces.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
using namespace VF;

// vertices of a subentity of the reference element
template<int dim, class RE> std::set<int> verts(const RE& re, int i, int c)
{ std::set<int> s; for (int k=0;k<re.size(i,c,dim);++k) s.insert(re.subEntity(i,c,k,dim)); return s; }
inline bool subset(const std::set<int>& a, const std::set<int>& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

template<class Basis> void checkDofs(const Basis& basis, const std::string& key, bool trace)
{
  using GV = typename Basis::GridView; constexpr int dim=GV::dimension;
  auto gv = basis.gridView();
  auto lv = basis.localView();
  auto reused = Dune::Functions::subEntityDOFs(basis);
  auto reused2 = Dune::Functions::subEntityDOFs(lv);
  std::set<Idx> bnd; std::set<std::size_t> seen;
  std::map<Idx,int> expectedVisits; std::uint64_t h=hstr(key);
  for (const auto& e : elements(gv)) {
    lv.bind(e);
    auto re = Dune::referenceElement<double,dim>(e.type());
    // vertices of each local DOF's subentity
    std::map<std::size_t,std::set<int>> dofVerts;
    forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
      if (node.empty()) return;
      const auto& lc=node.finiteElement().localCoefficients();
      for (std::size_t i=0;i<node.size();++i) { auto k=lc.localKey(i); dofVerts[node.localIndex(i)]=verts<dim>(re,k.subEntity(),k.codim()); }
    });
    auto expected=[&](int s, int c) { std::set<std::size_t> r; auto v=verts<dim>(re,s,c); for (auto& [d,dv] : dofVerts) if (subset(dv,v)) r.insert(d); return r; };
    auto compare=[&](const auto& range, const std::set<std::size_t>& want, const char* what) {
      std::set<std::size_t> got; std::size_t n=0;
      for (auto i : range) { check(got.insert(i).second, key+":duplicate", what, " ", i); check(range[n]==i, key+":random-access"); ++n; }
      check(n==range.size(), key+":range-size");
      check(got==want, key+":dofs", what, ": got ", got.size(), " expected ", want.size());
      for (std::size_t i=0;i<lv.size();++i) check(range.contains(i)==(want.count(i)>0), key+":contains", what, " ", i);
      for (auto i : got) h=mix(h,i); h=mix(h,9999); state(h); obs("ranges"); obs("dofs",n);
    };
    for (int c=0;c<=dim;++c) for (int s=0;s<re.size(c);++s) {
      auto want=expected(s,c);
      compare(reused.bind(lv,s,c), want, "rebound");
      compare(Dune::Functions::subEntityDOFs(lv,s,c), want, "fresh");
      if (rnd(4)==0) { auto copy=reused; compare(copy, want, "copy"); }
    }
    for (const auto& is : intersections(gv,e)) {
      auto want=expected(is.indexInInside(),1);
      compare(reused2.bind(lv,is), want, "intersection");
      compare(Dune::Functions::subEntityDOFs(lv,is), want, "intersection-fresh");
      if (is.boundary()) for (auto i : want) { bnd.insert(toIdx(lv.index(i))); ++expectedVisits[toIdx(lv.index(i))]; }
      if (trace) {
        // nodal continuous elements: attached to the facet exactly if the trace on the facet does not vanish
        std::set<std::size_t> nz;
        forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
          if (node.empty()) return;
          using RT = typename std::decay_t<decltype(node.finiteElement())>::Traits::LocalBasisType::Traits::RangeType;
          std::vector<RT> v;
          for (int k=0;k<6;++k) {
            auto x=is.geometryInInside().global(randomLocal<dim-1>(is.type()));
            node.finiteElement().localBasis().evaluateFunction(x,v);
            for (std::size_t i=0;i<v.size();++i) if (std::abs(v[i][0])>1e-9) nz.insert(node.localIndex(i));
          }
        });
        check(nz==want, key+":trace", "facet ", is.indexInInside(), ": ", nz.size(), " functions with non-zero trace, ", want.size(), " attached");
      }
    }
  }
  // the three callback variants
  std::map<Idx,int> g1,g2,g3;
  Dune::Functions::forEachBoundaryDOF(basis, [&](const typename Basis::MultiIndex& mi) { ++g1[toIdx(mi)]; });
  Dune::Functions::forEachBoundaryDOF(basis, [&](std::size_t i, const typename Basis::LocalView& v) {
    check(v.bound() && i<v.size(), key+":callback-local"); ++g2[toIdx(v.index(i))]; });
  Dune::Functions::forEachBoundaryDOF(basis, [&](std::size_t i, const typename Basis::LocalView& v, const typename GV::Intersection& is) {
    check(is.boundary() && is.inside()==v.element(), key+":callback-intersection"); ++g3[toIdx(v.index(i))]; });
  check(g1==g2 && g1==g3, key+":variants-differ");
  std::set<Idx> got; for (auto& [i,n] : g1) got.insert(i);
  check(got==bnd, key+":boundary-set", got.size(), " vs ", bnd.size());
  check(g1==expectedVisits, key+":boundary-visits");
  obs("boundary-dofs", got.size());
  sample(cat(key, ": ", got.size(), " of ", basis.dimension(), " on the boundary"));
}

template<class Mk, class Fac> void body(const char* name, Mk mk, Fac factory, Spaces::Opt)
{
  std::string n=name; bool trace = n.rfind("lagrange",0)==0 && n.rfind("lagrangeDG",0)!=0 && n.rfind("lagrange0",0)!=0 && n.rfind("lagrangeRT0",0)!=0;
  trace = trace || ((n.rfind("power",0)==0 || n.rfind("dpower",0)==0) && (SPACE_GROUP!=10 || n.find("(lag")!=n.npos));
  for (int i=0;i<scale(3,30);++i) {
    auto grid = mk();
    auto basis = Dune::Functions::BasisFactory::makeBasis(grid->leafGridView(), factory);
    checkDofs(basis, "root", trace);
    if constexpr (requires { basis.localView().tree().child(0); }) {
      auto sub = Dune::Functions::subspaceBasis(basis, 0); checkDofs(sub, "sub0", trace);
      auto d = basis.localView().tree().degree(); auto sub1 = Dune::Functions::subspaceBasis(basis, std::size_t(d-1)); checkDofs(sub1, "subLast", trace);
    } else if constexpr (requires { basis.localView().tree().child(Dune::Indices::_1); }) {
      auto sub = Dune::Functions::subspaceBasis(basis, Dune::Indices::_1); checkDofs(sub, "sub1", false);
      auto sub0 = Dune::Functions::subspaceBasis(basis, Dune::Indices::_0); checkDofs(sub0, "sub0", false);
    }
  }
}
SPACES_MAIN
