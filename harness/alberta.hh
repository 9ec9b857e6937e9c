// AlbertaGrid maker (2d, adaptive bisection)
#pragma once
#include "grids.hh"
#include <dune/grid/albertagrid.hh>
#include <dune/grid/albertagrid/gridfactory.hh>
namespace Spaces {
#if ALBERTA_DIM==3
using Alberta3 = Dune::AlbertaGrid<3,3>;
// boxes of six tetrahedra each
inline std::shared_ptr<Alberta3> alberta3(int nmax=1)
{
  Dune::GridFactory<Alberta3> f; std::array<int,3> n{ri(1,nmax),ri(1,nmax),ri(1,nmax)}; Dune::FieldVector<double,3> h; for (auto& x : h) x=0.5+VF::urnd(0,1); double sx=0.3*VF::urnd();
  for (int k=0;k<=n[2];++k) for (int j=0;j<=n[1];++j) for (int i=0;i<=n[0];++i) f.insertVertex({i*h[0]+sx*j, j*h[1], k*h[2]});
  auto v=[&](std::array<int,3> q) { return unsigned(q[0]+(n[0]+1)*(q[1]+(n[1]+1)*q[2])); };
  for (int k=0;k<n[2];++k) for (int j=0;j<n[1];++j) for (int i=0;i<n[0];++i) {
    std::array<int,3> p{0,1,2};
    do { std::array<int,3> q{i,j,k}; std::vector<unsigned> t{v(q)}; for (int d : p) { ++q[d]; t.push_back(v(q)); } f.insertElement(Dune::GeometryTypes::simplex(3),t); } while (std::next_permutation(p.begin(),p.end()));
  }
  f.markLongestEdge();
  return std::shared_ptr<Alberta3>(f.createGrid());
}
#else
using Alberta = Dune::AlbertaGrid<2,2>;
inline std::shared_ptr<Alberta> alberta(int nmax=2)
{
  Dune::GridFactory<Alberta> f; int n=ri(1,nmax), m=ri(1,nmax);
  double hx=0.5+VF::urnd(0,1), hy=0.5+VF::urnd(0,1), sx=0.3*VF::urnd();
  for (int j=0;j<=m;++j) for (int i=0;i<=n;++i) f.insertVertex({i*hx+sx*j, j*hy});
  auto v=[&](int i, int j) { return unsigned(i+j*(n+1)); };
  for (int j=0;j<m;++j) for (int i=0;i<n;++i) {
    auto s=Dune::GeometryTypes::simplex(2);
    f.insertElement(s,{v(i,j),v(i+1,j),v(i+1,j+1)}); f.insertElement(s,{v(i,j),v(i+1,j+1),v(i,j+1)});
  }
  f.markLongestEdge();
  return std::shared_ptr<Alberta>(f.createGrid());
}
#endif
template<class G> void randomAdapt(G& g, double p=0.3, bool coarsen=false)
{
  for (const auto& e : elements(g.leafGridView())) { double u=VF::urnd(0,1); if (u<p) g.mark(1,e); else if (coarsen && u<2*p && e.level()>0) g.mark(-1,e); }
  g.preAdapt(); g.adapt(); g.postAdapt();
}
} // namespace
