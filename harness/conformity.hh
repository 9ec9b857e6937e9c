#pragma once
#include "grids.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
namespace Conf {
enum Kind { Value, Normal, Tangential, C1, VertexC1, Morley, Midpoint };

// trace of all shape functions of one leaf at a point, flattened
template<class Node, class Geo, class X, class N>
std::vector<std::vector<double>> traces(const Node& node, const Geo& geo, const X& x, const N& n, Kind kind, bool atVertex, bool atCenter)
{
  const auto& lb = node.finiteElement().localBasis();
  using Traits = typename std::decay_t<decltype(lb)>::Traits;
  constexpr int dim = Traits::dimDomain;
  std::vector<typename Traits::RangeType> v; lb.evaluateFunction(x,v);
  std::vector<std::vector<double>> r(node.size());
  auto grads = [&] {
    std::vector<Dune::FieldVector<double,dim>> g(node.size());
    if constexpr (Traits::dimRange==1) {
      std::vector<typename Traits::JacobianType> J; lb.evaluateJacobian(x,J);
      auto ji = geo.jacobianInverse(x);
      for (std::size_t i=0;i<g.size();++i) for (int c=0;c<dim;++c) { g[i][c]=0; for (int d=0;d<dim;++d) g[i][c] += J[i][0][d]*ji[d][c]; }
    }
    return g; };
  for (std::size_t i=0;i<node.size();++i) {
    auto val = VF::flat(v[i]);
    if constexpr (Traits::dimRange>1) {
      double vn=0; for (int c=0;c<dim;++c) vn += val[c]*n[c];
      if (kind==Normal) r[i]={vn};
      else if (kind==Tangential) { r[i]=val; for (int c=0;c<dim;++c) r[i][c]-=vn*n[c]; }
      else r[i]=val;
    }
    else if (kind==Value || kind==C1 || kind==VertexC1) r[i]=val;
    else if (kind==Morley && atVertex) r[i]=val;
    else if (kind==Midpoint && atCenter) r[i]=val;
  }
  if (kind==C1 || (kind==VertexC1 && atVertex)) { auto g=grads(); for (std::size_t i=0;i<r.size();++i) for (int c=0;c<dim;++c) r[i].push_back(g[i][c]); }
  if (kind==Morley && atCenter) { auto g=grads(); for (std::size_t i=0;i<r.size();++i) { double s=0; for (int c=0;c<dim;++c) s+=g[i][c]*n[c]; r[i].push_back(s); } }
  return r;
}

template<class Basis> void checkConformity(const Basis& basis, Kind kind, double tol=1e-8)
{
  auto in = basis.localView(), out = basis.localView();
  const auto& gv = basis.gridView();
  constexpr int dim = std::decay_t<decltype(gv)>::dimension;
  for (const auto& e : elements(gv)) {
    in.bind(e);
    for (const auto& is : intersections(gv,e)) {
      if (!is.neighbor()) continue;
      out.bind(is.outside());
      auto gi = is.inside().geometry(); auto go = is.outside().geometry();
      auto gin = is.geometryInInside(); auto gout = is.geometryInOutside();
      // sample points: corners, centre, random points of the facet
      struct Pt { Dune::FieldVector<double,dim-1> x; bool vertex, center; };
      std::vector<Pt> pts;
      auto re = Dune::referenceElement<double,dim-1>(is.type());
      for (int c=0;c<re.size(dim-1);++c) pts.push_back({re.position(c,dim-1), true, dim==1});
      if constexpr (dim>1) {
        pts.push_back({re.position(0,0), false, true});
        for (int k=0;k<3;++k) pts.push_back({VF::randomLocal<dim-1>(is.type()), false, false});
      }
      std::uint64_t h=VF::mix(in.size(), 17*is.indexInInside()+is.indexInOutside());
      // RT0 on pyramids is piecewise with an interface in x[0]==x[1]: only points off that
      // plane have a well-defined trace
      bool pyramid = is.inside().type().isPyramid() || is.outside().type().isPyramid();
      if (pyramid && kind==Normal) { pts.erase(std::remove_if(pts.begin(), pts.end(), [&](auto& p) {
          auto on = [&](auto&& x) { if constexpr (dim==3) return std::abs(x[0]-x[1])<1e-6; else return false; };
          return p.vertex || on(gin.global(p.x)) || on(gout.global(p.x)); }), pts.end()); }
      for (auto& p : pts) {
        auto xi=gin.global(p.x), xo=gout.global(p.x);
        auto n=is.unitOuterNormal(p.x);
        VF::obs("facet-points");
        // per leaf number: index -> (leaf,trace)
        std::map<VF::Idx, std::pair<int,std::vector<double>>> outside;
        int leaf=0;
        VF::forEachLeaf(out.tree(), [&](const auto& node, const auto&) {
          auto t=traces(node, go, xo, n, kind, p.vertex, p.center);
          for (std::size_t i=0;i<node.size();++i) outside[VF::toIdx(out.index(node.localIndex(i)))]={leaf,t[i]};
          ++leaf;
        });
        leaf=0;
        VF::forEachLeaf(in.tree(), [&](const auto& node, const auto&) {
          auto t=traces(node, gi, xi, n, kind, p.vertex, p.center);
          for (std::size_t i=0;i<node.size();++i) {
            if (t[i].empty()) continue;
            auto I=VF::toIdx(in.index(node.localIndex(i)));
            auto it=outside.find(I);
            if (it==outside.end()) {
              VF::check(VF::nearv(t[i], std::vector<double>(t[i].size(),0.0), tol), "nonzero-trace", "function ", VF::str(I), " absent on neighbour has trace ", VF::str(t[i]));
              VF::obs("vanishing-traces");
            } else {
              VF::check(it->second.first==leaf, "other-component", VF::str(I));
              VF::check(VF::nearv(t[i], it->second.second, tol), "jump", "function ", VF::str(I), " inside ", VF::str(t[i]), " outside ", VF::str(it->second.second));
              VF::obs("matched-traces");
              h=VF::mix(h, i);
            }
          }
          ++leaf;
        });
      }
      VF::state(VF::mix(h, in.size()*31+out.size()));
    }
  }
  VF::sample(VF::cat("dimension ", basis.dimension(), " on ", gv.size(0), " elements, ", gv.size(1), " facets"));
}
} // namespace Conf
#define CONF_CASE(name, mk, factory, kind) VF_CASE(name) { int n=VF::scale(5,50); for (int i=0;i<n;++i) { auto g=mk; auto b=Dune::Functions::BasisFactory::makeBasis(g->leafGridView(), factory); \
  if (g->leafGridView().size(0)<2) { ++n; continue; } Conf::checkConformity(b, kind); } }
