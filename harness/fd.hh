// High order central differences: exact for polynomials up to degree 6 apart from round-off.
#pragma once
#include "util.hh"
namespace VF {
// f: X -> std::vector<double>; returns d/dx_j f, empty if f is not smooth at that scale (two step sizes disagree)
template<class F, class X> std::vector<double> fd1(F&& f, const X& x, int j, double h=0.02)
{
  auto stencil=[&](double s) {
    static const double w[3]={45.0/60,-9.0/60,1.0/60};
    std::vector<double> r;
    for (int k=1;k<=3;++k) { X a=x,b=x; a[j]+=k*s; b[j]-=k*s; auto fa=f(a), fb=f(b); if (r.empty()) r.assign(fa.size(),0.0); for (std::size_t i=0;i<r.size();++i) r[i]+=w[k-1]*(fa[i]-fb[i])/s; }
    return r; };
  { X a=x,b=x; const double s=1e-6; a[j]+=s; b[j]-=s; auto fa=f(a), fb=f(b), fx=f(x); double m=0, k=0;
    for (std::size_t i=0;i<fx.size();++i) { m=std::max({m,std::abs(fa[i]-fx[i])/s,1.0}); k=std::max(k,std::abs(fa[i]-2*fx[i]+fb[i])/s); }
    if (k>1e-3*m) { obs("fd-kink"); return {}; } }
  auto a=stencil(h), b=stencil(h/2);
  if (!nearv(a,b,1e-8)) { obs("fd-not-smooth"); return {}; }
  return a;
}
}
