// Dense operator algebra.
#include "fbstab/components/dense_data.h"
#include "ops.h"
using namespace fbstab;

ENTRY dense_gemv(int nz, int nl, int nv, int abcase) {
  MatrixXd H = SymM("H", nz, nz), G = SymM("G", nl, nz), A = SymM("A", nv, nz);
  VectorXd f = SymV("f", nz), h = SymV("h", nl), b = SymV("b", nv);
  DenseData data(&H, &f, &G, &h, &A, &b);
  sx_assert(data.nz() == nz && data.nl() == nl && data.nv() == nv, "data sizes");
  CheckOps(data, H, f, G, h, A, b, abcase);
  sx_reach("end");
}
