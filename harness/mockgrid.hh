// A small, self-contained, duck-typed unstructured grid used as a hostile
// workload generator: mixed element types, random local vertex numberings,
// random entity numberings, random (non-affine) geometries.
#pragma once
#include <array>
#include <algorithm>
#include <cassert>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <vector>
#include <optional>
#include <random>

#include <dune/common/fvector.hh>
#include <dune/common/iteratorrange.hh>
#include <dune/common/rangeutilities.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/partitionset.hh>
#include <dune/grid/common/rangegenerators.hh>

// grid geometries are found by qualified calls of Dune::referenceElement(geometry)
namespace Dune { template<class ct, int m, int c, class T> auto referenceElement(const MultiLinearGeometry<ct,m,c,T>& g) -> typename ReferenceElements<ct,m>::ReferenceElement { return ReferenceElements<ct,m>::general(g.type()); } }
namespace Mock {

// world dimension of a grid of dimension dim: with -DMOCK_EXTRA=1 the meshes are curved surfaces (dimensionworld = dim+1)
#ifndef MOCK_EXTRA
#define MOCK_EXTRA 0
#endif
template<int dim> inline constexpr int wd = dim + MOCK_EXTRA;
template<int dim> class Grid;
template<int dim> class GridView;
template<int dim> class IndexSet;
template<int dim> class IdSet;

template<int dim>
struct MeshData {
  using Coord = Dune::FieldVector<double,wd<dim>>;
  struct Sub { int typeIndex; std::size_t index; std::size_t id; };
  struct Element {
    Dune::GeometryType type;
    std::vector<std::size_t> v;              // global vertex numbers, Dune numbering
    std::array<std::vector<std::size_t>, dim+1> sub; // per codim: entity number (global, over all types)
  };
  struct EntityInfo {
    Dune::GeometryType type;
    std::size_t index;  // per type consecutive
    std::size_t id;
    std::size_t element; int subEntity; // one realization
  };
  std::vector<Coord> vertices;
  std::vector<Element> elements;
  std::array<std::vector<EntityInfo>, dim+1> entities; // per codim
  std::array<std::vector<Dune::GeometryType>, dim+1> types;
  std::array<std::map<unsigned int, std::size_t>, dim+1> sizes; // topologyId -> size
  // faces: codim 1 entity number -> list of (element, face)
  std::vector<std::vector<std::pair<std::size_t,int>>> faceNeighbors;

  template<class RNG>
  void finalize(RNG& rng, bool shuffle)
  {
    for (int codim=0; codim<=dim; ++codim) {
      std::map<std::vector<std::size_t>, std::size_t> lookup;
      for (std::size_t e=0; e<elements.size(); ++e) {
        auto re = Dune::referenceElement<double,dim>(elements[e].type);
        elements[e].sub[codim].resize(re.size(codim));
        for (int i=0; i<re.size(codim); ++i) {
          std::vector<std::size_t> key;
          for (int j=0; j<re.size(i,codim,dim); ++j)
            key.push_back(elements[e].v[re.subEntity(i,codim,j,dim)]);
          std::sort(key.begin(), key.end());
          auto it = lookup.find(key);
          std::size_t n;
          if (it==lookup.end()) {
            n = entities[codim].size();
            lookup.emplace(key, n);
            entities[codim].push_back({re.type(i,codim), 0, 0, e, i});
          } else n = it->second;
          elements[e].sub[codim][i] = n;
        }
      }
      // random numbering per type
      std::vector<std::size_t> order(entities[codim].size());
      std::iota(order.begin(), order.end(), 0);
      if (shuffle) std::shuffle(order.begin(), order.end(), rng);
      std::vector<Dune::GeometryType> seen;
      for (auto n : order) {
        auto& ent = entities[codim][n];
        auto& s = sizes[codim];
        if (!s.count((ent.type.id()>>1))) { s[(ent.type.id()>>1)] = 0; types[codim].push_back(ent.type); }
        ent.index = s[(ent.type.id()>>1)]++;
      }
    }
    // unique ids over all codims, random
    std::size_t total=0;
    for (auto& v : entities) total += v.size();
    std::vector<std::size_t> ids(total);
    std::iota(ids.begin(), ids.end(), 1000);
    if (shuffle) std::shuffle(ids.begin(), ids.end(), rng);
    std::size_t k=0;
    for (auto& v : entities) for (auto& e : v) e.id = ids[k++];
    faceNeighbors.assign(entities[1].size(), {});
    for (std::size_t e=0; e<elements.size(); ++e)
      for (std::size_t f=0; f<elements[e].sub[1].size(); ++f)
        faceNeighbors[elements[e].sub[1][f]].push_back({e,int(f)});
  }

  std::size_t size(int codim) const { return entities[codim].size(); }
};

template<int cd, int dim> class Entity;
template<int dim> struct HierarchicIter { // always empty: there is only one level
  const Entity<0,dim>& operator*() const { std::abort(); }
  const Entity<0,dim>* operator->() const { std::abort(); }
  HierarchicIter& operator++() { return *this; }
  bool operator==(const HierarchicIter&) const { return true; }
  bool operator!=(const HierarchicIter&) const { return false; }
};

template<int cd, int dim>
class Entity {
public:
  HierarchicIter<dim> hbegin(int) const { return {}; }
  HierarchicIter<dim> hend(int) const { return {}; }
  static constexpr int codimension = cd;
  static constexpr int dimension = dim;
  static constexpr int mydimension = dim-cd;
  using Geometry = Dune::MultiLinearGeometry<double, dim-cd, wd<dim>>;
  using LocalGeometry = Dune::MultiLinearGeometry<double, dim-cd, dim>;
  struct EntitySeed { std::size_t n = ~std::size_t(0); static constexpr int codimension = cd; bool isValid() const { return n!=~std::size_t(0);} };

  Entity() = default;
  Entity(const MeshData<dim>* m, std::size_t n) : m_(m), n_(n) {}

  Dune::GeometryType type() const { return info().type; }
  int level() const { return 0; }
  Dune::PartitionType partitionType() const { return Dune::InteriorEntity; }
  EntitySeed seed() const { return {n_}; }
  bool operator==(const Entity& o) const { return m_==o.m_ && n_==o.n_; }
  bool operator!=(const Entity& o) const { return !(*this==o); }

  Geometry geometry() const
  {
    const auto& inf = info();
    const auto& el = m_->elements[inf.element];
    auto re = Dune::referenceElement<double,dim>(el.type);
    std::vector<typename MeshData<dim>::Coord> c;
    for (int j=0; j<re.size(inf.subEntity,cd,dim); ++j)
      c.push_back(m_->vertices[el.v[re.subEntity(inf.subEntity,cd,j,dim)]]);
    return Geometry(inf.type, c);
  }

  unsigned int subEntities(unsigned int codim) const
  { return Dune::referenceElement<double,mydimension>(type()).size(codim-cd); }

  template<int cc>
  Entity<cc,dim> subEntity(int i) const
  {
    static_assert(cd==0);
    return Entity<cc,dim>(m_, m_->elements[n_].sub[cc][i]);
  }
  // hierarchy interface of a one-level grid
  Entity father() const { return *this; }
  bool isNew() const { return false; }
  bool mightVanish() const { return false; }

  bool isLeaf() const { return true; }
  bool hasFather() const { return false; }
  bool isRegular() const { return true; }
  bool hasBoundaryIntersections() const
  {
    for (auto f : m_->elements[n_].sub[1]) if (m_->faceNeighbors[f].size()<2) return true;
    return false;
  }

  std::size_t number() const { return n_; }
  const MeshData<dim>* mesh() const { return m_; }
  const typename MeshData<dim>::EntityInfo& info() const { return m_->entities[cd][n_]; }

private:
  const MeshData<dim>* m_ = nullptr;
  std::size_t n_ = ~std::size_t(0);
};

template<int cc, int dim>
int subNumber(const Entity<cc,dim>& e, int i, unsigned int codim)
{
  const auto& inf = e.info();
  auto re = Dune::referenceElement<double,dim>(e.mesh()->elements[inf.element].type);
  return re.subEntity(inf.subEntity, cc, i, codim);
}

template<int dim>
auto referenceElement(const Entity<0,dim>& e) { return Dune::referenceElement<double,dim>(e.type()); }

template<int dim>
class Intersection {
public:
  using Entity = Mock::Entity<0,dim>;
  using Geometry = Dune::MultiLinearGeometry<double, dim-1, wd<dim>>;
  using LocalGeometry = Dune::MultiLinearGeometry<double, dim-1, dim>;
  using ctype = double;
  using LocalCoordinate = Dune::FieldVector<double,dim-1>;
  using GlobalCoordinate = Dune::FieldVector<double,wd<dim>>;
  using InsideCoordinate = Dune::FieldVector<double,dim>;
  static constexpr int dimension = dim;
  static constexpr int dimensionworld = wd<dim>;
  static constexpr int mydimension = dim-1;

  Intersection() = default;
  Intersection(const MeshData<dim>* m, std::size_t e, int f) : m_(m), e_(e), f_(f) {}
  bool operator==(const Intersection& o) const { return m_==o.m_ && e_==o.e_ && f_==o.f_; }

  bool boundary() const { return !other(); }
  bool neighbor() const { return bool(other()); }
  bool conforming() const { return true; }
  Entity inside() const { return Entity(m_, e_); }
  Entity outside() const { return Entity(m_, other()->first); }
  int indexInInside() const { return f_; }
  int indexInOutside() const { return other()->second; }
  std::size_t boundarySegmentIndex() const { return m_->elements[e_].sub[1][f_]; }
  Dune::GeometryType type() const { return Dune::referenceElement<double,dim>(m_->elements[e_].type).type(f_,1); }

  Geometry geometry() const
  {
    const auto& el = m_->elements[e_];
    auto re = Dune::referenceElement<double,dim>(el.type);
    std::vector<GlobalCoordinate> c;
    for (int j=0; j<re.size(f_,1,dim); ++j)
      c.push_back(m_->vertices[el.v[re.subEntity(f_,1,j,dim)]]);
    return Geometry(type(), c);
  }
  LocalGeometry geometryInInside() const
  {
    auto re = Dune::referenceElement<double,dim>(m_->elements[e_].type);
    std::vector<InsideCoordinate> c;
    for (int j=0; j<re.size(f_,1,dim); ++j)
      c.push_back(re.position(re.subEntity(f_,1,j,dim),dim));
    return LocalGeometry(type(), c);
  }
  LocalGeometry geometryInOutside() const
  {
    auto o = *other();
    const auto& el = m_->elements[e_];
    auto re = Dune::referenceElement<double,dim>(el.type);
    const auto& elo = m_->elements[o.first];
    auto reo = Dune::referenceElement<double,dim>(elo.type);
    std::vector<InsideCoordinate> c;
    for (int j=0; j<re.size(f_,1,dim); ++j) {
      auto v = el.v[re.subEntity(f_,1,j,dim)];
      std::size_t lo = std::find(elo.v.begin(), elo.v.end(), v) - elo.v.begin();
      c.push_back(reo.position(lo,dim));
    }
    return LocalGeometry(type(), c);
  }
  GlobalCoordinate integrationOuterNormal(const LocalCoordinate& x) const
  {
    auto re = Dune::referenceElement<double,dim>(m_->elements[e_].type);
    auto geo = inside().geometry();
    auto xi = geometryInInside().global(x);
    auto jit = geo.jacobianInverseTransposed(xi);
    GlobalCoordinate n(0);
    jit.umv(re.integrationOuterNormal(f_), n);
    n /= n.two_norm();
    n *= geometry().integrationElement(x);
    return n;
  }
  GlobalCoordinate outerNormal(const LocalCoordinate& x) const { return unitOuterNormal(x); }
  GlobalCoordinate unitOuterNormal(const LocalCoordinate& x) const
  { auto n = integrationOuterNormal(x); n /= n.two_norm(); return n; }
  GlobalCoordinate centerUnitOuterNormal() const
  { return unitOuterNormal(Dune::referenceElement<double,dim-1>(type()).position(0,0)); }

private:
  std::optional<std::pair<std::size_t,int>> other() const
  {
    const auto& nb = m_->faceNeighbors[m_->elements[e_].sub[1][f_]];
    for (auto& p : nb) if (p.first!=e_) return p;
    return {};
  }
  const MeshData<dim>* m_ = nullptr;
  std::size_t e_ = 0; int f_ = 0;
};

// iterators returning a const reference to a cached value, like dune-grid does
template<class Maker, class Value>
class Iter {
public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = Value; using reference = const Value&; using pointer = const Value*; using difference_type = std::ptrdiff_t;
  using Reference = reference;
  Iter() = default;
  Iter(Maker mk, std::size_t i, std::size_t end) : mk_(mk), i_(i), end_(end) { load(); }
  const Value& operator*() const { return v_; }
  const Value* operator->() const { return &v_; }
  Iter& operator++() { ++i_; load(); return *this; }
  Iter operator++(int) { auto c=*this; ++*this; return c; }
  bool operator==(const Iter& o) const { return i_==o.i_; }
  bool operator!=(const Iter& o) const { return i_!=o.i_; }
private:
  void load() { if (i_<end_) v_ = mk_(i_); }
  Maker mk_; std::size_t i_=0, end_=0; Value v_;
};

template<int cd,int dim>
struct EntityMaker { const MeshData<dim>* m = nullptr; const std::vector<std::size_t>* order=nullptr; Entity<cd,dim> operator()(std::size_t i) const { return {m, (cd==0 && order) ? (*order)[i] : i}; } };
template<int dim>
struct IntersectionMaker { const MeshData<dim>* m = nullptr; std::size_t e = 0; Intersection<dim> operator()(std::size_t i) const { return {m, e, int(i)}; } };

template<int dim>
class IndexSet {
public:
  using IndexType = std::size_t;
  using Types = std::vector<Dune::GeometryType>;
  static constexpr int dimension = dim;
  template<int cd> struct Codim { using Entity = Mock::Entity<cd,dim>; };
  IndexSet(const MeshData<dim>* m) : m_(m) {}
  template<int cc> IndexType index(const Entity<cc,dim>& e) const { return e.info().index; }
  template<int cc> IndexType subIndex(const Entity<cc,dim>& e, int i, unsigned int codim) const requires (cc>0)
  { return subIndex(Entity<0,dim>(m_, e.info().element), subNumber(e,i,codim), codim); }
  IndexType subIndex(const Entity<0,dim>& e, int i, unsigned int codim) const
  { return m_->entities[codim][m_->elements[e.number()].sub[codim][i]].index; }
  IndexType size(int codim) const { return m_->size(codim); }
  IndexType size(Dune::GeometryType gt) const
  {
    if (gt.dim()>dim) return 0;
    auto& s = m_->sizes[dim-gt.dim()];
    auto it = s.find(gt.id()>>1);
    return it==s.end() ? 0 : it->second;
  }
  Types types(int codim) const { return m_->types[codim]; }
  template<class E> bool contains(const E& e) const { return e.mesh()==m_; }
private:
  const MeshData<dim>* m_;
};

template<int dim>
class IdSet {
public:
  using IdType = std::size_t;
  static constexpr int dimension = dim;
  template<int cd> struct Codim { using Entity = Mock::Entity<cd,dim>; };
  template<int cc> IdType id(const Entity<cc,dim>& e) const { return e.info().id; }
  template<int cc> IdType subId(const Entity<cc,dim>& e, int i, unsigned int codim) const requires (cc>0)
  { return subId(Entity<0,dim>(m_, e.info().element), subNumber(e,i,codim), codim); }
  IdSet(const MeshData<dim>* m) : m_(m) {}
  IdType subId(const Entity<0,dim>& e, int i, unsigned int codim) const
  { return m_->entities[codim][m_->elements[e.number()].sub[codim][i]].id; }
private:
  const MeshData<dim>* m_;
};

template<int dim>
class Grid {
public:
  static constexpr int dimension = dim;
  static constexpr int dimensionworld = wd<dim>;
  using ctype = double;
  using LeafGridView = GridView<dim>;
  using LevelGridView = GridView<dim>;
  using HierarchicIterator = HierarchicIter<dim>;
  using GlobalIdSet = IdSet<dim>;
  using LocalIdSet = IdSet<dim>;
  template<int cd> struct Codim {
    using Entity = Mock::Entity<cd,dim>;
    using EntitySeed = typename Entity::EntitySeed;
    using Geometry = typename Entity::Geometry;
    using LocalGeometry = typename Entity::LocalGeometry;
  };
  struct Traits {
    using GlobalIdSet = IdSet<dim>; using LocalIdSet = IdSet<dim>;
    using LeafIndexSet = Mock::IndexSet<dim>; using LevelIndexSet = Mock::IndexSet<dim>;
    using LeafGridView = Mock::GridView<dim>; using LevelGridView = Mock::GridView<dim>;
    template<int cd> struct Codim {
      using Entity = Mock::Entity<cd,dim>;
      using EntitySeed = typename Entity::EntitySeed;
      using Geometry = typename Entity::Geometry;
      using LocalGeometry = typename Entity::LocalGeometry;
    };
  };
  struct CollectiveCommunication { int rank() const { return 0; } int size() const { return 1; } };
  using Communication = CollectiveCommunication;

  Grid(std::unique_ptr<MeshData<dim>> m, std::vector<std::size_t> order={}) : m_(std::move(m)), order_(std::move(order)), indexSet_(m_.get()), idSet_(m_.get()) {}
  Grid(const Grid&) = delete;
  GridView<dim> leafGridView() const;
  GridView<dim> levelGridView(int) const;
  int maxLevel() const { return 0; }
  const IdSet<dim>& globalIdSet() const { return idSet_; }
  const IdSet<dim>& localIdSet() const { return idSet_; }
  const IndexSet<dim>& indexSet() const { return indexSet_; }
  const IndexSet<dim>& leafIndexSet() const { return indexSet_; }
  const MeshData<dim>* mesh() const { return m_.get(); }
  int size(int codim) const { return m_->size(codim); }
  int size(Dune::GeometryType t) const { return indexSet_.size(t); }
  template<class Seed> Mock::Entity<Seed::codimension,dim> entity(const Seed& s) const { return {m_.get(), s.n}; }
  std::size_t numBoundarySegments() const { std::size_t n=0; for (auto& f : m_->faceNeighbors) n += f.size()==1; return n; }
  const std::vector<std::size_t>* order() const { return order_.empty() ? nullptr : &order_; }
  Communication comm() const { return {}; }
private:
  std::unique_ptr<MeshData<dim>> m_;
  std::vector<std::size_t> order_;
  IndexSet<dim> indexSet_;
  IdSet<dim> idSet_;
};

template<int dim>
class GridView {
public:
  using Grid = Mock::Grid<dim>;
  using IndexSet = Mock::IndexSet<dim>;
  using Traits = GridView;
  using ctype = double;
  using Intersection = Mock::Intersection<dim>;
  using IntersectionIterator = Iter<IntersectionMaker<dim>, Intersection>;
  static constexpr int dimension = dim;
  static constexpr int dimensionworld = wd<dim>;
  static constexpr bool conforming = true;
  template<int cd> struct Codim {
    using Entity = Mock::Entity<cd,dim>;
    using EntitySeed = typename Entity::EntitySeed;
    using Geometry = typename Entity::Geometry;
    using LocalGeometry = typename Entity::LocalGeometry;
    using Iterator = Iter<EntityMaker<cd,dim>, Entity>;
    template<Dune::PartitionIteratorType pit> struct Partition { using Iterator = Iter<EntityMaker<cd,dim>, Entity>; };
  };
  GridView(const Grid* g) : g_(g) {}
  const Grid& grid() const { return *g_; }
  const IndexSet& indexSet() const { return g_->indexSet(); }
  int size(int codim) const { return indexSet().size(codim); }
  int size(Dune::GeometryType t) const { return indexSet().size(t); }
  template<class E> bool contains(const E& e) const { return indexSet().contains(e); }
  template<int cd, Dune::PartitionIteratorType pit = Dune::All_Partition>
  typename Codim<cd>::Iterator begin() const { return {EntityMaker<cd,dim>{g_->mesh(), g_->order()}, 0, g_->mesh()->size(cd)}; }
  template<int cd, Dune::PartitionIteratorType pit = Dune::All_Partition>
  typename Codim<cd>::Iterator end() const { return {EntityMaker<cd,dim>{g_->mesh(), g_->order()}, g_->mesh()->size(cd), g_->mesh()->size(cd)}; }
  IntersectionIterator ibegin(const Entity<0,dim>& e) const { auto n = g_->mesh()->elements[e.number()].sub[1].size(); return {IntersectionMaker<dim>{g_->mesh(), e.number()}, 0, n}; }
  IntersectionIterator iend(const Entity<0,dim>& e) const { auto n = g_->mesh()->elements[e.number()].sub[1].size(); return {IntersectionMaker<dim>{g_->mesh(), e.number()}, n, n}; }
  auto comm() const { return g_->comm(); }
  int overlapSize(int) const { return 0; }
  int ghostSize(int) const { return 0; }
  bool isConforming() const { return true; }
private:
  const Grid* g_;
};

template<int dim> GridView<dim> Grid<dim>::leafGridView() const { return GridView<dim>(this); }
template<int dim> GridView<dim> Grid<dim>::levelGridView(int) const { return GridView<dim>(this); }

// range generators found by ADL, as for Dune grid views
template<int dim> auto elements(const GridView<dim>& gv) { return Dune::IteratorRange(gv.template begin<0>(), gv.template end<0>()); }
template<int dim> auto vertices(const GridView<dim>& gv) { return Dune::IteratorRange(gv.template begin<dim>(), gv.template end<dim>()); }
template<int dim> auto facets(const GridView<dim>& gv) { return Dune::IteratorRange(gv.template begin<1>(), gv.template end<1>()); }
template<int dim> auto intersections(const GridView<dim>& gv, const Entity<0,dim>& e) { return Dune::IteratorRange(gv.ibegin(e), gv.iend(e)); }

} // namespace Mock

#if defined(MOCK_FIXED_CUBE) || defined(MOCK_FIXED_SIMPLEX)
#include <dune/grid/common/capabilities.hh>
namespace Dune::Capabilities {
  template<int dim> struct hasSingleGeometryType<Mock::Grid<dim>> {
    static const bool v = true;
#ifdef MOCK_FIXED_CUBE
    static const unsigned int topologyId = Dune::GeometryTypes::cube(dim).id();
#else
    static const unsigned int topologyId = Dune::GeometryTypes::simplex(dim).id();
#endif
  };
}
#endif

namespace Mock {
// ---------------------------------------------------------------------
// mesh generators
// ---------------------------------------------------------------------

// all automorphisms of a reference element as vertex permutations
template<int dim>
const std::vector<std::vector<int>>& automorphisms(Dune::GeometryType gt)
{
  static std::map<unsigned, std::vector<std::vector<int>>> cache;
  auto it = cache.find(gt.id());
  if (it!=cache.end()) return it->second;
  auto re = Dune::referenceElement<double,dim>(gt);
  int n = re.size(dim);
  // subentity vertex sets
  std::set<std::vector<int>> subs;
  for (int c=1; c<dim; ++c)
    for (int i=0; i<re.size(c); ++i) {
      std::vector<int> s;
      for (int j=0; j<re.size(i,c,dim); ++j) s.push_back(re.subEntity(i,c,j,dim));
      std::sort(s.begin(), s.end());
      subs.insert(s);
    }
  std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
  std::vector<std::vector<int>> result;
  do {
    bool ok=true;
    for (auto& s : subs) {
      std::vector<int> t; for (int x : s) t.push_back(p[x]);
      std::sort(t.begin(), t.end());
      if (!subs.count(t)) { ok=false; break; }
    }
    if (ok) result.push_back(p);
  } while (std::next_permutation(p.begin(), p.end()));
  return cache[gt.id()] = result;
}

struct MeshOptions {
  bool shuffle = true;      // random entity numbering and ids
  bool renumber = true;     // random local vertex numbering (element automorphisms)
  bool positiveOnly = false;// keep only orientation preserving renumberings
  double perturb = 0.2;     // relative random vertex displacement of interior vertices
  bool affineMap = true;    // apply a random affine map to all vertices
  bool randomOrder = true;  // random element traversal order
};

template<int dim> double signedDet(const MeshData<dim>& m, const typename MeshData<dim>::Element& el)
{
  std::vector<Dune::FieldVector<double,dim>> c;
  for (auto v : el.v) { c.emplace_back(); for (int i=0;i<dim;++i) c.back()[i] = m.vertices[v][i]; }
  Dune::MultiLinearGeometry<double,dim,dim> g(el.type, c);
  auto re = Dune::referenceElement<double,dim>(el.type);
  return g.jacobian(re.position(0,0)).determinant();
}

template<int dim, class RNG>
std::shared_ptr<Grid<dim>> finish(std::unique_ptr<MeshData<dim>> m, RNG& rng, const MeshOptions& o)
{
  if (o.renumber)
    for (auto& el : m->elements) {
      const auto& A = automorphisms<dim>(el.type);
      for (int tries=0; tries<200; ++tries) {
        auto& p = A[rng()%A.size()];
        auto v = el.v;
        for (std::size_t i=0; i<v.size(); ++i) v[i] = el.v[p[i]];
        auto old = el.v; el.v = v;
        if (!o.positiveOnly || signedDet(*m, el)>0) break;
        el.v = old;
      }
    }
  m->finalize(rng, o.shuffle);
  std::vector<std::size_t> order;
  if (o.randomOrder) { order.resize(m->elements.size()); std::iota(order.begin(), order.end(), 0); std::shuffle(order.begin(), order.end(), rng); }
  return std::make_shared<Grid<dim>>(std::move(m), order);
}

// surfaces: the additional coordinates are a smooth function of the first ones
template<int dim, class RNG>
void embed(MeshData<dim>& m, RNG& rng)
{
  auto u = [&]{ return 2.0*double(rng()%100001)/100000.0-1.0; };
  for (int k=dim; k<wd<dim>; ++k) {
    double c[2*dim+1]; for (auto& x : c) x=u();
    for (auto& v : m.vertices) { v[k]=c[2*dim]; for (int i=0;i<dim;++i) v[k] += c[i]*v[i]+0.2*c[dim+i]*v[i]*v[i]; }
  }
}

template<int dim, class RNG>
void distort(MeshData<dim>& m, RNG& rng, const MeshOptions& o, double h, const std::vector<bool>& fixed)
{
  auto u = [&]{ return 2.0*double(rng()%100001)/100000.0-1.0; };
  for (std::size_t i=0; i<m.vertices.size(); ++i)
    if (!fixed[i] && o.perturb>0)
      for (int d=0; d<dim; ++d) m.vertices[i][d] += o.perturb*h*u();
  if (o.affineMap) {
    Dune::FieldMatrix<double,dim,dim> A(0); Dune::FieldVector<double,dim> b(0);
    do { for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) A[i][j] = (i==j ? 1.0 : 0.0) + 0.35*u(); } while (A.determinant()<0.4);
    for (int i=0;i<dim;++i) b[i] = u();
    for (auto& v : m.vertices) { auto w=v; for (int i=0;i<dim;++i) { v[i]=b[i]; for (int j=0;j<dim;++j) v[i] += A[i][j]*w[j]; } }
  }
  embed<dim>(m, rng);
}

// kind 2d: 0 = quads, 1 = triangles, 2 = mixed ; 1d: lines
template<class RNG>
std::shared_ptr<Grid<1>> makeMesh1(RNG& rng, int n, MeshOptions o={})
{
  auto m = std::make_unique<MeshData<1>>();
  double x=0;
  for (int i=0;i<=n;++i) { m->vertices.emplace_back(0.0); m->vertices.back()[0]=x; x += 0.2 + double(rng()%1000)/1000.0; }
  for (int i=0;i<n;++i) { typename MeshData<1>::Element e; e.type = Dune::GeometryTypes::line; e.v = {std::size_t(i),std::size_t(i+1)}; m->elements.push_back(e); }
  embed<1>(*m, rng);
  // permute vertex numbers
  return finish<1>(std::move(m), rng, o);
}

template<class RNG>
std::shared_ptr<Grid<2>> makeMesh2(RNG& rng, int nx, int ny, int kind, MeshOptions o={})
{
  auto m = std::make_unique<MeshData<2>>();
  std::vector<bool> fixed;
  for (int j=0;j<=ny;++j) for (int i=0;i<=nx;++i) { m->vertices.emplace_back(0.0); m->vertices.back()[0]=i; m->vertices.back()[1]=j; fixed.push_back(false); }
  auto vid=[&](int i,int j){ return std::size_t(j*(nx+1)+i); };
  for (int j=0;j<ny;++j) for (int i=0;i<nx;++i) {
    bool quad = kind==0 || (kind==2 && rng()%2);
    std::size_t a=vid(i,j), b=vid(i+1,j), c=vid(i,j+1), d=vid(i+1,j+1);
    typename MeshData<2>::Element e;
    if (quad) { e.type=Dune::GeometryTypes::quadrilateral; e.v={a,b,c,d}; m->elements.push_back(e); }
    else {
      e.type=Dune::GeometryTypes::triangle;
      if (rng()%2) { e.v={a,b,d}; m->elements.push_back(e); e.v={a,d,c}; m->elements.push_back(e); }
      else { e.v={a,b,c}; m->elements.push_back(e); e.v={b,d,c}; m->elements.push_back(e); }
    }
  }
  distort<2>(*m, rng, o, 1.0, fixed);
  return finish<2>(std::move(m), rng, o);
}

// kind 3d: 0 hexes, 1 tets (Kuhn), 2 prisms+hexes, 3 hexes+pyramids, 4 prisms only
template<class RNG>
std::shared_ptr<Grid<3>> makeMesh3(RNG& rng, int nx, int ny, int nz, int kind, MeshOptions o={})
{
  auto m = std::make_unique<MeshData<3>>();
  std::vector<bool> fixed;
  auto vid=[&](int i,int j,int k){ return std::size_t((k*(ny+1)+j)*(nx+1)+i); };
  for (int k=0;k<=nz;++k) for (int j=0;j<=ny;++j) for (int i=0;i<=nx;++i) { m->vertices.emplace_back(0.0); m->vertices.back()[0]=i; m->vertices.back()[1]=j; m->vertices.back()[2]=k; fixed.push_back(false); }
  std::map<std::pair<int,int>,int> column;
  for (int k=0;k<nz;++k) for (int j=0;j<ny;++j) for (int i=0;i<nx;++i) {
    std::array<std::size_t,8> v;
    for (int c=0;c<8;++c) v[c]=vid(i+(c&1), j+((c>>1)&1), k+((c>>2)&1));
    typename MeshData<3>::Element e;
    if (kind==0) { e.type=Dune::GeometryTypes::hexahedron; e.v.assign(v.begin(),v.end()); m->elements.push_back(e); }
    else if (kind==1) {
      std::array<int,3> p={0,1,2};
      e.type=Dune::GeometryTypes::tetrahedron;
      do {
        int c=0; e.v={v[0]};
        for (int d : p) { c |= 1<<d; e.v.push_back(v[c]); }
        m->elements.push_back(e);
      } while (std::next_permutation(p.begin(),p.end()));
    }
    else if (kind==2 || kind==4) {
      auto key=std::make_pair(i,j);
      if (!column.count(key)) column[key] = kind==4 ? 1+rng()%2 : rng()%3;
      int t=column[key];
      if (t==0) { e.type=Dune::GeometryTypes::hexahedron; e.v.assign(v.begin(),v.end()); m->elements.push_back(e); }
      else {
        e.type=Dune::GeometryTypes::prism;
        std::vector<std::array<int,3>> tris = t==1 ? std::vector<std::array<int,3>>{{0,1,3},{0,3,2}} : std::vector<std::array<int,3>>{{0,1,2},{1,3,2}};
        for (auto& tr : tris) { e.v={v[tr[0]],v[tr[1]],v[tr[2]],v[tr[0]+4],v[tr[1]+4],v[tr[2]+4]}; m->elements.push_back(e); }
      }
    }
    else {
      if (rng()%2) { e.type=Dune::GeometryTypes::hexahedron; e.v.assign(v.begin(),v.end()); m->elements.push_back(e); }
      else {
        typename MeshData<3>::Coord c(0); for (auto x : v) c += m->vertices[x]; c/=8;
        m->vertices.push_back(c); fixed.push_back(false);
        std::size_t top=m->vertices.size()-1;
        e.type=Dune::GeometryTypes::pyramid;
        auto re = Dune::referenceElement<double,3>(Dune::GeometryTypes::hexahedron);
        for (int f=0; f<6; ++f) {
          e.v.clear();
          for (int q=0;q<4;++q) e.v.push_back(v[re.subEntity(f,1,q,3)]);
          e.v.push_back(top);
          m->elements.push_back(e);
        }
      }
    }
  }
  auto oo=o; oo.perturb *= 0.6;
  distort<3>(*m, rng, oo, 1.0, fixed);
  return finish<3>(std::move(m), rng, o);
}

} // namespace Mock
