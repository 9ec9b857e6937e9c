// P17: fixed-capacity containers, multi-indices, vector views and index access against standard models.
#include "util.hh"
#include <deque>
#include <unordered_set>
#include <iterator>
#include <dune/common/tuplevector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/reserveddeque.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/densevectorview.hh>
#include <dune/functions/common/indexaccess.hh>
#include <dune/functions/common/squeezetensor.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
#include <dune/functions/functionspacebases/flatmultiindex.hh>
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Indices;
template<int n> using V_=Dune::FieldVector<double,n>;
template<int n,int m> using M_=Dune::FieldMatrix<double,n,m>;

template<class T> T val(std::uint64_t i) { if constexpr (std::is_same_v<T,std::string>) return std::string(i%40,'a'+char(i%26))+std::to_string(i); else return T(i); }
template<class T> std::string show(const std::deque<T>& m) { std::ostringstream o; for (auto& x : m) o<<x<<" "; return o.str(); }

// guard words around the container detect writes outside of it that stay inside the allocation
template<class C> struct Guarded { std::uint64_t a[2]={0xdeadbeefcafebabeull,0x0123456789abcdefull}; C c; std::uint64_t b[2]={0xfeedfacedeadc0deull,0x5555aaaa5555aaaaull};
  bool ok() const { return a[0]==0xdeadbeefcafebabeull && a[1]==0x0123456789abcdefull && b[0]==0xfeedfacedeadc0deull && b[1]==0x5555aaaa5555aaaaull; } };

template<class C, class T> void compare(const C& c, const std::deque<T>& m, const std::string& op)
{
  check(c.size()==m.size(), "size", op, ": ", c.size(), " vs ", m.size());
  check(c.empty()==m.empty(), "empty", op);
  check(c.capacity()>=c.size() && c.max_size()==c.capacity(), "capacity");
  bool same=c.size()==m.size(); for (std::size_t i=0;i<m.size() && same;++i) same = c[i]==m[i];
  std::ostringstream o; for (std::size_t i=0;i<c.size();++i) o<<c[i]<<" ";
  check(same, "content", op, ": has ", o.str(), " expected ", show(m));
  // iteration
  std::vector<T> it; for (auto&& x : c) it.push_back(x);
  check(std::equal(it.begin(),it.end(),m.begin(),m.end()), "iteration", op);
  check(std::size_t(c.end()-c.begin())==m.size(), "distance", op);
  if (!m.empty()) { check(c.front()==m.front(), "front", op); check(c.back()==m.back(), "back", op); check(*(c.end()-1)==m.back(), "last-iterator", op); check(c.begin()[m.size()/2]==m[m.size()/2],"iterator-index",op); }
  std::ostringstream s; s<<c; std::ostringstream e; for (auto& x : m) e<<x<<"  "; check(s.str()==e.str(), "stream", op, ": '", s.str(), "' vs '", e.str(), "'");
  obs("comparisons"); std::uint64_t h=hstr(op); h=mix(h,m.size()); for (auto& x : m) h=mix(h,hstr(cat(x))); state(h);
}
template<class C, class T, bool front> void containerHistory()
{
  for (int it=0; it<scale(60,1500); ++it) {
    auto g=std::make_unique<Guarded<C>>(); std::deque<T> m; std::uint64_t ctr=rnd(1000);
    std::unique_ptr<C> other; std::deque<T> om;
    std::size_t cap=C::capacity();
    for (int s=0; s<60; ++s) {
      C& c=g->c; std::string op;
      switch (rnd(14)) {
      case 0: case 1: case 2: if (m.size()<cap) { op="push_back"; auto v=val<T>(++ctr); c.push_back(v); m.push_back(v); } break;
      case 3: case 4: if (m.size()<cap) { op="push_front"; auto v=val<T>(++ctr); c.push_front(v); m.push_front(v); } break;
      case 5: if (!m.empty()) { op="pop_back"; c.pop_back(); m.pop_back(); } break;
      case 6: if constexpr (front) if (!m.empty()) { op="pop_front"; c.pop_front(); m.pop_front(); } break;
      case 7: { op="resize"; std::size_t n=rnd(cap+1), o=m.size(); c.resize(n); m.resize(n); for (std::size_t i=o;i<n;++i) { auto v=val<T>(++ctr); c[i]=v; m[i]=v; } } break;
      case 8: if (rnd(4)==0) { op="clear"; c.clear(); m.clear(); } break;
      case 9: if (!m.empty()) { op="assign-entry"; auto i=rnd(m.size()); auto v=val<T>(++ctr); c[i]=v; m[i]=v; } break;
      case 10: { op="copy"; other=std::make_unique<C>(c); om=m; } break;
      case 11: if (other) { op="assign"; c=*other; m=om; } break;
      case 12: if (!m.empty()) { op="write-via-iterator/front/back"; auto v=val<T>(++ctr); auto i=rnd(m.size()); *(c.begin()+i)=v; m[i]=v; v=val<T>(++ctr); c.front()=v; m.front()=v; v=val<T>(++ctr); c.back()=v; m.back()=v; } break;
      case 13: if (!m.empty() && m.size()<cap) { op="push-own-entry"; auto i=rnd(m.size()); if (rnd(2)) { c.push_back(c[i]); m.push_back(T(m[i])); } else if constexpr (!front) { c.push_front(c[i]); m.push_front(T(m[i])); } } break;
      }
      if (op.empty()) continue;
      compare(c,m,op); check(g->ok(),"guard",op);
      if (other) compare(*other,om,"other");
      if constexpr (requires { c==*other; }) if (other) { check((c==*other)==(m==om),"equality",op); }
    }
  }
  sample(cat("capacity ", C::capacity()));
}
VF_CASE("overflowarray/int-3-5") { containerHistory<OverflowArray<std::array<int,3>,5>,int,false>(); }
VF_CASE("overflowarray/size-0-4") { containerHistory<OverflowArray<std::array<std::size_t,0>,4>,std::size_t,false>(); }
VF_CASE("overflowarray/size-4-4") { containerHistory<OverflowArray<std::array<std::size_t,4>,4>,std::size_t,false>(); }
VF_CASE("overflowarray/string-2-6") { containerHistory<OverflowArray<std::array<std::string,2>,6>,std::string,false>(); }
VF_CASE("overflowarray/char-1-9") { containerHistory<OverflowArray<std::array<unsigned char,1>,9>,unsigned char,false>(); }
VF_CASE("overflowarray/multiindex-2-5") { containerHistory<OverflowArray<StaticMultiIndex<std::size_t,2>,5>,std::size_t,false>(); }
VF_CASE("reserveddeque/int-1") { containerHistory<ReservedDeque<int,1>,int,true>(); }
VF_CASE("reserveddeque/int-4") { containerHistory<ReservedDeque<int,4>,int,true>(); }
VF_CASE("reserveddeque/string-7") { containerHistory<ReservedDeque<std::string,7>,std::string,true>(); }
VF_CASE("initializer-lists") {
  for (int it=0; it<scale(200,2000); ++it) {
    std::size_t a=rnd(100),b=rnd(100),c=rnd(100);
    // placed in memory filled with junk, so that members left uninitialised are visible
    auto run=[&]<class C>(C*, auto mk, std::deque<std::size_t> m) { alignas(C) unsigned char buf[sizeof(C)]; std::memset(buf,int(0x41+rnd(100)),sizeof buf); C* p=mk(buf); compare(*p,m,"initializer"); if (m.size()<C::capacity()) { p->push_back(7); m.push_back(7); p->push_front(9); m.push_front(9); compare(*p,m,"initializer+push"); } p->~C(); };
    using O=OverflowArray<std::array<std::size_t,2>,6>; using D=ReservedDeque<std::size_t,6>;
    run((O*)0,[&](void* q){ return new(q) O{a,b,c}; },{a,b,c}); run((O*)0,[&](void* q){ return new(q) O{a}; },{a}); run((O*)0,[&](void* q){ return new(q) O(); },{});
    run((D*)0,[&](void* q){ return new(q) D{a,b,c}; },{a,b,c}); run((D*)0,[&](void* q){ return new(q) D{a,b}; },{a,b}); run((D*)0,[&](void* q){ return new(q) D(); },{});
  }
}
VF_CASE("overflow-base-and-hash") {
  for (int it=0; it<scale(300,3000); ++it) {
    using B=StaticMultiIndex<std::size_t,3>; using O=OverflowArray<B,6>; O o; std::vector<std::size_t> m;
    int n=3+rnd(4); for (int i=0;i<n;++i) { m.push_back(rnd(50)); o.push_back(m.back()); }
    while (o.size()>3) { o.pop_back(); m.pop_back(); }
    B b=o; // the documented use: build with overflow, then cast to the base
    check(b.size()==3 && b[0]==m[0] && b[1]==m[1] && b[2]==m[2], "cast-to-base");
    O o2; for (auto x : m) o2.push_back(x);
    check(o==o2 && hash_value(o)==hash_value(o2), "equal-implies-equal-hash");
    B b2=b; check(b==b2 && hash_value(b)==hash_value(b2) && std::hash<B>()(b)==std::hash<B>()(b2), "multiindex-hash");
    std::size_t k=rnd(3); b2[k]+=1+rnd(3); check(!(b==b2) && (b<b2), "multiindex-compare"); state(hidx(m));
    FlatMultiIndex<std::size_t> f{{m[0]}}; const auto& cf=f; check(std::size_t(cf)==m[0] && f.size()==1,"flat-cast"); std::size_t& r=f; r=m[1]; check(f[0]==m[1] && cf[0]==m[1],"flat-cast-writes-through");
    std::vector<int> v(60,0); v[f]=5; check(v[m[1]]==5,"flat-as-index");
    std::ostringstream s; s<<b; check(s.str()==cat(m[0],"  ",m[1],"  ",m[2],"  "),"stream");
    static_assert(std::tuple_size<B>::value==3 && B::size()==3 && B::max_size()==3);
  }
  // equal contents reached through different histories hash equally, whatever was stored beyond the end before
  for (int it=0; it<scale(300,3000); ++it) {
    using O=OverflowArray<std::array<std::size_t,3>,6>; O o, o2; std::vector<std::size_t> m; int n=rnd(7), k=rnd(n+1);
    for (int i=0;i<n;++i) { m.push_back(rnd(50)); o.push_back(m.back()); }
    while (int(o.size())>k) { o.pop_back(); m.pop_back(); }
    int junk=k+rnd(7-k); for (int i=0;i<junk;++i) o2.push_back(i<k ? m[i] : 100+rnd(50)); o2.resize(k);
    check(o==o2 && hash_value(o)==hash_value(o2), "equal-implies-equal-hash:history"); state(mix(hidx(m),junk));
  }
  // multi-indices as keys
  for (int it=0; it<scale(20,200); ++it) { using B=StaticMultiIndex<std::size_t,2>; std::unordered_set<B> us; std::set<std::pair<std::size_t,std::size_t>> m; for (int i=0;i<60;++i) { B b; b[0]=rnd(6); b[1]=rnd(6); us.insert(b); m.insert({b[0],b[1]}); } check(us.size()==m.size(),"unordered-set"); for (auto& b : us) check(m.count({b[0],b[1]}),"unordered-set-content"); }
}
VF_CASE("densevectorview") {
  for (int it=0; it<scale(300,3000); ++it) {
    std::vector<double> a(1+rnd(6)), b(a.size()), c(a.size()); for (auto& x : a) x=urnd(); for (auto& x : b) x=urnd(); auto a0=a; const auto b0=b;
    using Dune::Functions::Impl::DenseVectorView;
    DenseVectorView<std::vector<double>> va(a); DenseVectorView<const std::vector<double>> vb(b);
    check(va.size()==a.size() && vb.size()==b.size(),"view-size");
    double dot=0,n2=0,n1=0,ni=0; for (std::size_t i=0;i<a.size();++i) { dot+=a[i]*b[i]; n2+=a[i]*a[i]; n1+=std::abs(a[i]); ni=std::max(ni,std::abs(a[i])); }
    check(near(va.dot(vb),dot,1e-12) && near(va*vb,dot,1e-12) && near(va.two_norm(),std::sqrt(n2),1e-12) && near(va.one_norm(),n1,1e-12) && near(va.infinity_norm(),ni,1e-12),"view-products");
    double s=urnd(); va.axpy(s,vb); for (std::size_t i=0;i<a.size();++i) check(near(a[i],a0[i]+s*b0[i],1e-12),"view-axpy");
    va*=2; va+=vb; for (std::size_t i=0;i<a.size();++i) check(near(a[i],2*(a0[i]+s*b0[i])+b0[i],1e-12),"view-arith");
    DenseVectorView<std::vector<double>> vc(c); vc=va; check(c==a,"view-assign-copies"); c[0]+=1; check(c[0]!=a[0],"view-assign-no-alias");
    va[0]=42; check(a[0]==42 && va[0]==42,"view-writes"); auto vm=std::move(va); vm[a.size()-1]=43; check(a.back()==43,"view-move"); check(b==b0,"view-const-unchanged"); state(hdbl(1,dot));
    std::vector<std::size_t> order; for (auto& x : vm) order.push_back(&x-&a[0]); for (std::size_t i=0;i<order.size();++i) check(order[i]==i,"view-iteration");
  }
}
// flat view: same entries as the recursive lexicographic enumeration, by identity
template<class T> void addr(T& x, std::vector<double*>& out) { if constexpr (std::is_same_v<T,double>) out.push_back(&x); else { for (auto& y : x) addr(y,out); } }
template<class T> void flatView(const char* label)
{
  for (int it=0; it<scale(50,500); ++it) {
    T t{}; std::vector<double*> p; addr(t,p); for (auto* x : p) *x=urnd();
    auto v=flatVectorView(t); const T& ct=t; auto cv=flatVectorView(ct); auto tv=flatVectorView(T(t)); auto moved=std::move(tv);
    check(std::size_t(v.size())==p.size() && std::size_t(cv.size())==p.size() && std::size_t(moved.size())==p.size(), cat(label,":size"), std::size_t(v.size()), " vs ", p.size());
    std::vector<double> before; for (auto* x : p) before.push_back(*x);
    for (std::size_t i=0;i<p.size();++i) { check(&v[i]==p[i], cat(label,":entry"), "flat entry ", i); check(&cv[i]==p[i], cat(label,":const-entry")); check(moved[i]==before[i], cat(label,":temporary-entry")); state(hdbl(i,*p[i])); }
    for (std::size_t i=0;i<p.size();++i) { v[i]=double(i)+0.5; for (std::size_t j=0;j<p.size();++j) check(*p[j]==(j<=i ? double(j)+0.5 : before[j]), cat(label,":write")); check(moved[i]==before[i], cat(label,":temporary-independent")); }
  }
}
VF_CASE("flatvectorview") {
  flatView<double>("scalar"); flatView<V_<1>>("fv1"); flatView<V_<3>>("fv3"); flatView<M_<2,3>>("fm23"); flatView<M_<3,1>>("fm31"); flatView<M_<1,1>>("fm11");
  flatView<std::array<double,3>>("array"); flatView<std::array<V_<2>,3>>("array-fv"); flatView<std::array<M_<2,3>,2>>("array-fm"); flatView<std::array<std::array<V_<3>,2>,4>>("array-array-fv"); flatView<std::array<std::array<M_<1,2>,3>,2>>("array-array-fm"); flatView<std::vector<double>>("empty-vector");
}
using MI=Dune::ReservedVector<std::size_t,6>;
inline MI mi(std::initializer_list<std::size_t> l) { MI r; for (auto x : l) r.push_back(x); return r; }
VF_CASE("index-access") {
  using Dune::TupleVector;
  for (int it=0; it<scale(200,2000); ++it) {
    using A=std::vector<double>; using B=std::vector<std::array<double,3>>; using C=std::array<std::vector<V_<2>>,2>; using D=V_<4>;
    TupleVector<A,B,C,D> t; auto n=1+rnd(4);
    t[_0].resize(n); t[_1].resize(n); t[_2][0].resize(n); t[_2][1].resize(n);
    double ctr=0; std::map<Idx,double*> ref;
    for (std::size_t i=0;i<n;++i) { t[_0][i]=++ctr; ref[{0,i}]=&t[_0][i]; for (std::size_t j=0;j<3;++j) { t[_1][i][j]=++ctr; ref[{1,i,j}]=&t[_1][i][j]; } for (std::size_t k=0;k<2;++k) for (std::size_t j=0;j<2;++j) { t[_2][k][i][j]=++ctr; ref[{2,k,i,j}]=&t[_2][k][i][j]; } }
    for (std::size_t j=0;j<4;++j) { t[_3][j]=++ctr; ref[{3,j}]=&t[_3][j]; }
    const auto& ct=t;
    for (auto& [k,p] : ref) {
      MI m; for (auto x : k) m.push_back(x); std::vector<std::size_t> vm(k.begin(),k.end());
      check(&resolveDynamicMultiIndex(t,m)==p, "dynamic", str(k)); check(&resolveDynamicMultiIndex(ct,m)==p,"dynamic-const"); check(&resolveDynamicMultiIndex(t,vm)==p,"dynamic-vector");
      check(hybridMultiIndexAccess<double&>(t,m)==*p && &hybridMultiIndexAccess<double&>(t,m)==p,"hybrid"); check(&hybridMultiIndexAccess<const double&>(ct,m)==p,"hybrid-const");
      // truncated index is padded by zeros
      Idx pad=k; std::size_t L=k.size(); MI tr=m; while (tr.size()>1) { tr.pop_back(); pad[tr.size()]=0; std::size_t l=tr.size(); Idx full(pad.begin(),pad.begin()+l); full.resize(L,0); if (ref.count(full)) check(&resolveDynamicMultiIndex(t,tr)==ref[full],"padding",str(full)); }
      resolveDynamicMultiIndex(t,m)=-*p; std::size_t neg=0; for (auto& [q,r] : ref) neg+=*r<0; check(neg==1 && *p<0,"write-one"); *p=-*p; state(hidx(k));
    }
    // termination by predicate
    auto fin=[](const auto& x) { return std::bool_constant<std::is_same_v<std::decay_t<decltype(x)>,V_<2>>>{}; };
    for (std::size_t k=0;k<2;++k) for (std::size_t i=0;i<n;++i) check(&resolveDynamicMultiIndex(t[_2],mi({k,i}),fin)==&t[_2][k][i],"predicate");
    // static multi-indices
    check(&resolveStaticMultiIndex(t,Dune::TypeTree::treePath(_2,_1))==&t[_2][1],"static"); check(&resolveStaticMultiIndex(t,Dune::TypeTree::treePath(_3))==&t[_3],"static1"); check(&resolveStaticMultiIndex(ct,Dune::TypeTree::treePath(_2,_0,_0,_1))==&t[_2][0][0][1],"static4");
    // single access with functor
    std::size_t i=rnd(n); check(hybridIndexAccess(t[_0],i,[&](auto& x) { return &x==&t[_0][i]; }),"hybrid-dynamic");
    TupleVector<std::array<int,1>,std::array<int,2>,std::array<int,3>> tt; std::size_t w=rnd(3); check(hybridIndexAccess(tt,w,[&](auto& x) { return x.size(); })==w+1,"hybrid-static");
    // shifted indices
    MI s=mi({rnd(9),rnd(9),rnd(9),rnd(9)}); auto sh=Dune::Functions::Imp::shiftedDynamicMultiIndex<1>(s); auto sh2=Dune::Functions::Imp::shiftedDynamicMultiIndex<2>(sh); auto sh3=sh.pop();
    check(sh.size()==3 && sh2.size()==1 && sh3.size()==2 && sh[0]==s[1] && sh[2]==s[3] && sh[3]==0 && sh2[0]==s[3] && sh2[1]==0 && sh3[0]==s[2] && sh3[1]==s[3] && sh3[2]==0,"shifted");
  }
}
VF_CASE("squeeze") {
  using Dune::Functions::Impl::squeezeTensor;
  for (int it=0; it<scale(50,500); ++it) {
    V_<1> a{urnd()}; V_<3> b{urnd(),urnd(),urnd()}; M_<1,3> m; m[0]=b; M_<2,2> q; q=urnd(); std::array<M_<2,2>,1> t{q}; double d=urnd();
    check(&squeezeTensor(a)==&a[0] && &squeezeTensor(b)==&b && &squeezeTensor(m)==&m[0] && &squeezeTensor(q)==&q && &squeezeTensor(t)==&t[0] && &squeezeTensor(d)==&d,"squeeze");
    const auto &ca=a; const auto &cm=m; const auto &ct=t; check(squeezeTensor(ca)==a[0] && &squeezeTensor(cm)==&m[0] && &squeezeTensor(ct)==&t[0],"squeeze-const"); squeezeTensor(m)[1]=7; check(m[0][1]==7,"squeeze-write"); state(hdbl(0,d));
  }
}
