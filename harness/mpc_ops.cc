// MPC operator algebra against the explicit block matrices.
#include "fbstab/components/mpc_data.h"
#include "mpc.h"
#include "ops.h"
using namespace fbstab;

ENTRY mpc_gemv(int N, int nx, int nu, int nc, int abcase) {
  MpcProblem p(N, nx, nu, nc);
  p.Fill(0);
  MpcData data(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d,
               &p.x0);
  sx_assert(data.N() == N && data.nx() == nx && data.nu() == nu && data.nc() == nc,
            "data sizes");
  CheckOps(data, p.Hm(), p.fv(), p.Gm(), p.hv(), p.Am(), p.bv(), abcase);
  sx_reach("end");
}
