// P01: completeness and consistency of global index sets
#include "spaces.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
template<class Mk, class Fac> void body(const char*, Mk mk, Fac factory, Spaces::Opt opt)
{
  int n = VF::scale(6,60);
  for (int i=0;i<n;++i) {
    auto grid = mk();
    auto basis = Dune::Functions::BasisFactory::makeBasis(grid->leafGridView(), factory);
    VF::checkIndexTree(basis, "idx", {opt.allowDuplicates});
  }
}
SPACES_MAIN
