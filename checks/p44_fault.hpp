#pragma once
namespace p44 {
// The error put into the results: an offset (or NaN) added to an element
struct Fault {
  int what = 0;  // 0 none, 1 the matrix, 2 the eigenvalues
  long i = 0, j = 0;
  bool nan = false;
};
extern Fault fault;
// stop as soon as the options have been accepted
extern bool only_options;
}
