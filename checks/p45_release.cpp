// The same without assertions: what they evaluate must have no effect that matters. (The class gets another name here, as its
// functions may not be merged with those with assertions.)
#include "algo.hpp"
#undef DLAF_ASSERT
#undef DLAF_ASSERT_MODERATE
#undef DLAF_ASSERT_HEAVY
#define DLAF_ASSERT(...)
#define DLAF_ASSERT_MODERATE(...)
#define DLAF_ASSERT_HEAVY(...)
#define FileHDF5 FileHDF5Release
#include "p45.hpp"

void files_release(int gr, int gc) {
  files<double, dlaf::matrix::internal::FileHDF5Release>(gr, gc, 2, 1);
}
