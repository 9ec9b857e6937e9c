// grid makers shared by harnesses
#pragma once
#include "util.hh"
#include "mockgrid.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
namespace Spaces {
template<int dim> using Yasp = Dune::YaspGrid<dim, Dune::EquidistantOffsetCoordinates<double,dim>>;
inline int ri(int a, int b) { return a + int(VF::rnd(b-a+1)); }
template<int dim> std::shared_ptr<Yasp<dim>> makeYasp(int lo=1, int hi=4, std::bitset<dim> periodic={})
{
  Dune::FieldVector<double,dim> l, u; std::array<int,dim> n;
  for (int i=0;i<dim;++i) { l[i]=VF::urnd(); u[i]=l[i]+0.5+VF::urnd(0,1.5); n[i]=ri(lo,hi); }
  return std::make_shared<Yasp<dim>>(l,u,n,periodic,0);
}
inline auto yasp1() { return makeYasp<1>(1,7); }
inline auto yasp2() { return makeYasp<2>(1,4); }
inline auto yasp3() { return makeYasp<3>(1,3); }
inline auto oned() { std::vector<double> c; double x=VF::urnd(); int n=ri(1,6); for (int i=0;i<=n;++i) { c.push_back(x); x+=0.1+VF::urnd(0,1); } auto g=std::make_shared<Dune::OneDGrid>(c); if (VF::rnd(2)) { g->mark(1, *g->leafGridView().template begin<0>()); g->adapt(); } return g; }
inline auto mixed2() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 2); }
inline auto quads() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 0); }
inline auto tris() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 1); }
inline auto lines() { return Mock::makeMesh1(VF::rng(), ri(1,6)); }
inline auto tets() { return Mock::makeMesh3(VF::rng(), ri(1,2), ri(1,2), ri(1,2), 1); }
inline auto hexes() { return Mock::makeMesh3(VF::rng(), ri(1,3), ri(1,2), ri(1,2), 0); }
inline auto prismhex() { return Mock::makeMesh3(VF::rng(), ri(1,3), ri(1,2), ri(1,2), 2); }
inline auto pyrhex() { return Mock::makeMesh3(VF::rng(), ri(1,2), ri(1,2), ri(1,2), 3); }
inline auto prisms() { return Mock::makeMesh3(VF::rng(), ri(1,3), ri(1,2), ri(1,2), 4); }
// positively oriented elements only
inline Mock::MeshOptions posOpts() { Mock::MeshOptions o; o.positiveOnly=true; return o; }
inline auto quadsPos() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 0, posOpts()); }
inline auto trisPos() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 1, posOpts()); }
// affine-only variants (parallelogram/parallelepiped cells)
inline Mock::MeshOptions affineOpts() { Mock::MeshOptions o; o.perturb=0; return o; }
inline auto mixed2a() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 2, affineOpts()); }
inline auto quadsa() { return Mock::makeMesh2(VF::rng(), ri(1,4), ri(1,4), 0, affineOpts()); }
inline auto hexesa() { return Mock::makeMesh3(VF::rng(), ri(1,3), ri(1,2), ri(1,2), 0, affineOpts()); }
inline auto prismhexa() { return Mock::makeMesh3(VF::rng(), ri(1,3), ri(1,2), ri(1,2), 2, affineOpts()); }
inline auto pyrhexa() { return Mock::makeMesh3(VF::rng(), ri(1,2), ri(1,2), ri(1,2), 3, affineOpts()); }
// affine or distorted
inline auto mixed2x() { return VF::rnd(2) ? mixed2() : mixed2a(); }
inline auto quadsx() { return VF::rnd(2) ? quads() : quadsa(); }
inline auto hexesx() { return VF::rnd(2) ? hexes() : hexesa(); }
inline auto prismhexx() { return VF::rnd(2) ? prismhex() : prismhexa(); }
} // namespace Spaces
