// One problem of either class behind the Data interface, with its explicit
// matrices.
#pragma once
#include "fbstab/components/dense_data.h"
#include "fbstab/components/mpc_data.h"
#include "mpc.h"

struct Prob {
  MatrixXd H, G, A;
  VectorXd f, h, b;
  std::unique_ptr<MpcProblem> mpc;
  std::unique_ptr<fbstab::Data> data;
  int nz, nl, nv;
  // kind 0: dense with (p,q,r) = (nz,nl,nv); 1: MPC with (N,nx,nu,nc) = (p,q,r,s)
  // concrete: 0 everything arbitrary, 1 matrices concrete and vectors arbitrary
  Prob(int kind, int p, int q, int r, int s, int concrete = 0) {
    if (kind == 0) {
      nz = p;
      nl = q;
      nv = r;
      if (!concrete) {
        H = SymS("H", nz);
        G = SymM("G", nl, nz);
        A = SymM("A", nv, nz);
      } else {
        H.resize(nz, nz);
        G.resize(nl, nz);
        A.resize(nv, nz);
        for (int j = 0; j < nz; j++) {
          for (int i = 0; i < nz; i++) H(i, j) = i == j ? nz + 1 : ((i * j + i + j) % 3 - 1) * 0.5;
          for (int i = 0; i < nl; i++) G(i, j) = 1 + ((i + 2 * j) % 3) - (i == j);
          for (int i = 0; i < nv; i++) A(i, j) = ((3 * i + j + i / 4) % 4) - 1;
        }
      }
      f = SymV("f", nz);
      h = SymV("h", nl);
      b = SymV("b", nv);
      data.reset(new fbstab::DenseData(&H, &f, &G, &h, &A, &b));
    } else {
      mpc.reset(new MpcProblem(p, q, r, s));
      MpcProblem& m = *mpc;
      m.Fill(concrete ? 2 : 0, true, !concrete, !concrete);
      if (!concrete) {
        // Q(i) and R(i) are symmetric
        for (int k = 0; k <= p; k++) {
          auto Q = m.Q(k), R = m.R(k);
          for (int j = 0; j < q; j++)
            for (int i = 0; i < j; i++) Q(i, j) = Q(j, i);
          for (int j = 0; j < r; j++)
            for (int i = 0; i < j; i++) R(i, j) = R(j, i);
        }
      }
      nz = m.nz();
      nl = m.nl();
      nv = m.nv();
      H = m.Hm();
      G = m.Gm();
      A = m.Am();
      f = m.fv();
      h = m.hv();
      b = m.bv();
      data.reset(new fbstab::MpcData(&m.Q, &m.R, &m.S, &m.q, &m.r, &m.A, &m.B, &m.c, &m.E,
                                     &m.L, &m.d, &m.x0));
    }
  }
  // b - A z
  std::vector<double> Margin(const VectorXd& z) const {
    std::vector<double> y = MulR(A, z);
    for (int i = 0; i < nv; i++) y[i] = b(i) - y[i];
    return y;
  }
};
