// Random polynomials of bounded total degree with exact derivatives (reference implementation, independent of dune-functions).
#pragma once
#include "util.hh"
#include <memory>
namespace VF {

template<int dim> struct PolyData {
  struct Term { std::array<int,dim> e; double c; };
  std::vector<Term> terms; Dune::FieldVector<double,dim> x0;
  template<class X> double eval(const X& xx, std::array<int,dim> d = {}) const {
    double s=0;
    for (auto& t : terms) {
      double v=t.c;
      for (int i=0;i<dim && v!=0;++i) {
        if (d[i]>t.e[i]) { v=0; break; }
        double x=xx[i]-x0[i]; int e=t.e[i];
        for (int j=0;j<d[i];++j) v*=(e-j);
        for (int j=0;j<e-d[i];++j) v*=x;
      }
      s+=v;
    }
    return s;
  }
};
template<int dim> std::shared_ptr<PolyData<dim>> randomPolyData(int k, double scale=1)
{
  auto p=std::make_shared<PolyData<dim>>();
  for (int i=0;i<dim;++i) p->x0[i]=urnd();
  std::array<int,dim> e{};
  std::function<void(int,int)> rec=[&](int i,int left){ if(i==dim){ p->terms.push_back({e, scale*urnd()}); return; } for(int j=0;j<=left;++j){ e[i]=j; rec(i+1,left-j);} e[i]=0; };
  rec(0,k);
  return p;
}

// scalar polynomial
template<int dim> struct Poly {
  std::shared_ptr<PolyData<dim>> p;
  using X=Dune::FieldVector<double,dim>;
  static Poly random(int k) { return {randomPolyData<dim>(k)}; }
  double operator()(const X& x) const { return p->eval(x); }
  struct H { std::shared_ptr<PolyData<dim>> p;
    Dune::FieldMatrix<double,dim,dim> operator()(const X& x) const { Dune::FieldMatrix<double,dim,dim> h; for(int i=0;i<dim;++i) for(int j=0;j<dim;++j){ std::array<int,dim> d{}; d[i]++; d[j]++; h[i][j]=p->eval(x,d);} return h; } };
  struct G { std::shared_ptr<PolyData<dim>> p;
    Dune::FieldVector<double,dim> operator()(const X& x) const { Dune::FieldVector<double,dim> g; for(int i=0;i<dim;++i){ std::array<int,dim> d{}; d[i]=1; g[i]=p->eval(x,d);} return g; }
    friend H derivative(const G& g) { return {g.p}; } };
  friend G derivative(const Poly& f) { return {f.p}; }
};
// vector polynomial
template<int dim, int m> struct VPoly {
  std::array<Poly<dim>,m> c;
  using X=Dune::FieldVector<double,dim>;
  static VPoly random(int k) { VPoly v; for (auto& q : v.c) q=Poly<dim>::random(k); return v; }
  Dune::FieldVector<double,m> operator()(const X& x) const { Dune::FieldVector<double,m> y; for(int i=0;i<m;++i) y[i]=c[i](x); return y; }
  struct G { std::array<Poly<dim>,m> c; Dune::FieldMatrix<double,m,dim> operator()(const X& x) const { Dune::FieldMatrix<double,m,dim> y; for(int i=0;i<m;++i) y[i]=derivative(c[i])(x); return y; } };
  friend G derivative(const VPoly& f) { return {f.c}; }
};
template<int dim, class R> struct PolyFor;
template<int dim> struct PolyFor<dim,double> { using type=Poly<dim>; };
template<int dim> struct PolyFor<dim,Dune::FieldVector<double,1>> { using type=VPoly<dim,1>; };
template<int dim,int m> requires (m>1) struct PolyFor<dim,Dune::FieldVector<double,m>> { using type=VPoly<dim,m>; };
}
