// P04/P01: Lagrange DOFs of any order: a global index is one node position, seen from every element.
#include "grids.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
template<class Grid, class Fac> void nodes(const std::string& key, const Grid& grid, Fac fac)
{
  auto gv=grid.leafGridView(); using GV=decltype(gv); constexpr int dw=GV::dimensionworld;
  auto basis=makeBasis(gv,fac); auto lv=basis.localView(); std::vector<std::vector<double>> pos(basis.dimension()); std::uint64_t h=hstr(key);
  double diam=0; for (const auto& v : vertices(gv)) diam=std::max(diam,v.geometry().corner(0).infinity_norm()); diam+=1;
  for (const auto& e : elements(gv)) {
    lv.bind(e); const auto& fe=lv.tree().finiteElement(); auto geo=e.geometry();
    std::vector<std::vector<double>> x(dw); 
    for (int d=0; d<dw; ++d) fe.localInterpolation().interpolate([&](const auto& y) { return geo.global(y)[d]; },x[d]);
    for (std::size_t i=0;i<lv.size();++i) { auto mi=lv.index(i); std::vector<double> p; for (int d=0;d<dw;++d) p.push_back(x[d][i]); auto& q=pos.at(mi[0]); h=mix(h,mi[0]);
      if (q.empty()) q=p; else { double dist=0; for (int d=0;d<dw;++d) dist=std::max(dist,std::abs(p[d]-q[d])); check(dist<1e-9*diam,key+":shared-node-position","index ",mi[0]," is the node ",str(p)," and ",str(q)); obs("shared_nodes"); } obs("nodes"); }
  }
  state(h);
  std::map<std::vector<long>,std::size_t> seen; for (std::size_t i=0;i<pos.size();++i) { check(!pos[i].empty(),key+":unused-index",i); if (pos[i].empty()) continue; std::vector<long> r; for (auto y : pos[i]) r.push_back(std::lround(y/diam*1e7)); auto [it,neu]=seen.insert({r,i}); check(neu,key+":two-indices-one-node","indices ",i," and ",it->second," at ",str(pos[i])); }
  sample(cat(key,": ",gv.size(0)," elements, ",pos.size()," nodes"));
}
template<class Mk> void orders(const std::string& key, Mk mk, unsigned lo, unsigned hi, int iters) { for (int it=0; it<iters; ++it) for (unsigned k=lo;k<=hi;++k) { auto g=mk(); nodes(cat(key,"-order",k),*g,lagrange(k)); } }
VF_CASE("nodes/lines") { orders("lines",Spaces::lines,1,scale(8,14),scale(2,8)); }
VF_CASE("nodes/mixed2") { orders("mixed2",Spaces::mixed2,1,scale(8,12),scale(3,10)); }
VF_CASE("nodes/tets") { orders("tets",Spaces::tets,1,scale(7,12),scale(3,10)); }
VF_CASE("nodes/hexes") { orders("hexes",Spaces::hexes,1,scale(6,8),scale(3,10)); }
VF_CASE("nodes/prismhex") { orders("prismhex",Spaces::prismhex,1,2,scale(6,30)); }
VF_CASE("nodes/pyrhex") { orders("pyrhex",Spaces::pyrhex,1,2,scale(6,30)); }
VF_CASE_THOROUGH("nodes/high-order-3d") { for (unsigned k : {13u,15u,17u}) { auto g=Mock::makeMesh3(rng(),2,1,1,1); nodes(cat("tets-order",k),*g,lagrange(k)); } for (unsigned k : {10u,12u}) { auto g=Mock::makeMesh3(rng(),2,1,1,0); nodes(cat("hexes-order",k),*g,lagrange(k)); } }
VF_CASE("nodes/yasp") { for (int it=0; it<scale(3,10); ++it) { auto g=Spaces::yasp2(); nodes("yasp2",*g,lagrange(1+rnd(6))); auto g3=Spaces::yasp3(); nodes("yasp3",*g3,lagrange(1+rnd(4))); nodes("yasp3-static",*g3,lagrange<4>()); } }
VF_CASE("nodes/static") { for (int it=0; it<scale(3,10); ++it) { auto g=Spaces::tets(); nodes("tets5",*g,lagrange<5>()); auto h=Spaces::hexes(); nodes("hexes4",*h,lagrange<4>()); } }

// Face orientations against their documented definition, for every vertex order
static int triIndex(int a, int b) { static const std::map<std::pair<int,int>,int> m{{{0,1},0},{{2,0},1},{{1,2},2},{{0,2},4},{{2,1},5},{{1,0},6}}; return m.at({a,b}); }
static int quadIndex(int a, int b) { static const std::map<std::pair<int,int>,int> m{{{0,1},8},{{2,0},9},{{3,2},10},{{1,3},11},{{0,2},12},{{2,3},13},{{3,1},14},{{1,0},15}}; return m.at({a,b}); }
template<int dim, class Id> void orientation(Dune::GeometryType gt, const std::vector<Id>& ids, const char* key)
{
  using namespace Dune::Indices; auto re=Dune::referenceElement<double,dim>(gt); using FO=Dune::Functions::Experimental::FaceOrientations<dim>;
  auto edges=[&](const FO& fo) { for (int i=0;i<re.size(dim-1);++i) { bool flip=ids[re.subEntity(i,dim-1,1,dim)]<ids[re.subEntity(i,dim-1,0,dim)]; check(fo.faceOrientationIndex(i,dim-1)==std::size_t(flip),cat(key,":edge"),"edge ",i); } };
  if constexpr (dim==2) { FO fo(gt,ids,_1); edges(fo); FO fc=fo; edges(fc); FO both(gt,ids,_2,_1); edges(both); }
  if constexpr (dim==3) {
    FO fe(gt,ids,_2); edges(fe); FO fo(gt,ids,_2,_1); edges(fo); FO ff(gt,ids,_1);
    for (int i=0;i<re.size(1);++i) { int n=re.size(i,1,dim); std::vector<Id> v; for (int j=0;j<n;++j) v.push_back(ids[re.subEntity(i,1,j,dim)]);
      int p0=0; for (int j=1;j<n;++j) if (v[j]<v[p0]) p0=j; int p1=-1; for (int j=0;j<n;++j) { bool nb = n==3 ? j!=p0 : (j!=p0 && j!=3-p0); if (nb && (p1<0 || v[j]<v[p1])) p1=j; }
      std::size_t want = n==3 ? triIndex(p0,p1) : quadIndex(p0,p1); check(fo.faceOrientationIndex(i,1)==want,cat(key,":face"),"face ",i," index ",fo.faceOrientationIndex(i,1)," expected ",want); check(ff.faceOrientationIndex(i,1)==want,cat(key,":face-only"),"face ",i); } }
  std::uint64_t h=gt.id(); for (auto& x : ids) h=mix(h,std::size_t(x)); state(h); obs("vertex_orders");
}
template<int dim> void allOrders(Dune::GeometryType gt, const char* key, int stride)
{
  int n=Dune::referenceElement<double,dim>(gt).size(dim); std::vector<int> p(n); for (int i=0;i<n;++i) p[i]=i; std::uint64_t k=0;
  do { if (stride>1 && rnd(stride)) continue; orientation<dim>(gt,p,key); if (++k%7==0) { std::vector<std::uint64_t> big; for (int i : p) big.push_back(0x100000000ull*std::uint64_t(i)+(0xffffffffull-i)); orientation<dim>(gt,big,key); std::vector<unsigned long> hi; for (int i : p) hi.push_back(~0ul-100+i); orientation<dim>(gt,hi,key); } } while (std::next_permutation(p.begin(),p.end()));
}
VF_CASE("orientations") { namespace G=Dune::GeometryTypes; allOrders<2>(G::triangle,"triangle",1); allOrders<2>(G::quadrilateral,"quadrilateral",1); allOrders<3>(G::tetrahedron,"tetrahedron",1); allOrders<3>(G::pyramid,"pyramid",1); allOrders<3>(G::prism,"prism",1); allOrders<3>(G::hexahedron,"hexahedron",scale(30,1)); }
