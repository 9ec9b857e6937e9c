// helpers for properties about coefficients touched by interpolation and evaluation
#pragma once
#include "tree.hh"
#include <cstring>
#include <dune/common/tuplevector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/hierarchicnodetorangemap.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>

namespace VF {
// coefficient vector indexed by complete multi-indices that logs every write access
struct MonVec {
  std::map<Idx,double> data;
  std::map<Idx,int> touched;       // non-const accesses
  double init = 0;
  template<class MI> requires requires(const MI& m) { m.size(); m[0]; }
  double& operator[](const MI& mi) { auto i=toIdx(mi); ++touched[i]; return data.try_emplace(i, init).first->second; }
  template<class MI> requires requires(const MI& m) { m.size(); m[0]; }
  const double& operator[](const MI& mi) const { static const double nan=std::nan(""); auto it=data.find(toIdx(mi)); return it==data.end() ? nan : it->second; }
  template<class SP> void resize(const SP&) {}
};
inline bool bitEq(double a, double b) { return std::memcmp(&a,&b,sizeof a)==0; }

// smooth scalar component functions, one per flat component of a range
struct Comps {
  std::vector<std::array<double,7>> c;
  Comps(std::size_t n=64) : c(n) { for (auto& x : c) for (auto& y : x) y=urnd(); }
  template<class X> double operator()(std::size_t k, const X& x) const {
    auto& a=c[k%c.size()]; double s=a[0]; double q=0;
    for (std::size_t i=0;i<x.size();++i) { s+=a[1+i]*x[i]; q+=x[i]*x[i]*a[4+i%3]; }
    return s+q+0.1*a[3]*x[0]*q;
  }
};
template<class R, class X> void fillRange(R& r, const Comps& f, const X& x, std::size_t& k)
{
  if constexpr (std::is_arithmetic_v<R>) r = f(k++, x);
  else if constexpr (requires { r[std::size_t(0)]; }) { for (std::size_t i=0;i<r.size();++i) { if constexpr (requires { r.N(); r.M(); }) { for (std::size_t j=0;j<r.M();++j) r[i][j]=f(k++,x); } else fillRange(r[i], f, x, k); } }
  else Dune::Hybrid::forEach(r, [&](auto& y) { fillRange(y, f, x, k); });
}
template<class R> auto rangeFunction(const Comps& f, std::size_t k0=0)
{ return [&f,k0](const auto& x) { R r; std::size_t k=k0; fillRange(r, f, x, k); return r; }; }
} // namespace VF
