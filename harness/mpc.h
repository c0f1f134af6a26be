// MPC problems with symbolic data and their explicit block matrices, built from
// the problem statement in fbstab_mpc.h.
#pragma once
#include "tools/matrix_sequence.h"
#include "util.h"

struct MpcProblem {
  int N, nx, nu, nc;
  fbstab::MatrixSequence Q, R, S, q, r, A, B, c, E, L, d;
  VectorXd x0;
  MpcProblem(int N_, int nx_, int nu_, int nc_)
      : N(N_), nx(nx_), nu(nu_), nc(nc_),
        Q(N + 1, nx, nx), R(N + 1, nu, nu), S(N + 1, nu, nx), q(N + 1, nx),
        r(N + 1, nu), A(N, nx, nx), B(N, nx, nu), c(N, nx), E(N + 1, nc, nx),
        L(N + 1, nc, nu), d(N + 1, nc), x0(nx) {}
  int nz() const { return (N + 1) * (nx + nu); }
  int nl() const { return (N + 1) * nx; }
  int nv() const { return (N + 1) * nc; }
  static void Sym(fbstab::MatrixSequence* s, const char* n) {
    double* p = s->data();
    for (int i = 0; i < s->size(); i++) p[i] = sx_real(n);
  }
  static void Zero(fbstab::MatrixSequence* s) {
    for (int i = 0; i < s->size(); i++) s->data()[i] = 0;
  }
  // hess: 0 arbitrary square Q,R,S; 1 positive semidefinite [Q S';S R] = L L'
  // for one state and one control; 2 concrete
  void Fill(int hess, bool vectors = true, bool dyn = true, bool con = true) {
    if (hess == 0) {
      Sym(&Q, "Q");
      Sym(&R, "R");
      Sym(&S, "S");
    } else if (hess == 1) {
      for (int k = 0; k <= N; k++) {
        MatrixXd H = SymPSD("Hk", nx + nu);
        auto Qk = Q(k), Rk = R(k), Sk = S(k);
        for (int i = 0; i < nx; i++)
          for (int j = 0; j < nx; j++) Qk(i, j) = H(i, j);
        for (int i = 0; i < nu; i++)
          for (int j = 0; j < nu; j++) Rk(i, j) = H(nx + i, nx + j);
        for (int i = 0; i < nu; i++)
          for (int j = 0; j < nx; j++) Sk(i, j) = H(nx + i, j);
      }
    } else {
      // diagonally dominant stages, so [Q S';S R] > 0; stage 0 has Q = S = 0
      // when hess is 3 (singular)
      for (int k = 0; k <= N; k++) {
        auto Qk = Q(k), Rk = R(k), Sk = S(k);
        for (int i = 0; i < nx; i++)
          for (int j = 0; j < nx; j++) Qk(i, j) = i == j ? 4 + k : 1;
        for (int i = 0; i < nu; i++)
          for (int j = 0; j < nu; j++) Rk(i, j) = i == j ? 5 + k : -1;
        for (int i = 0; i < nu; i++)
          for (int j = 0; j < nx; j++) Sk(i, j) = (i + j + k) % 2 ? 0.5 : -0.25;
        if (hess == 3) {
          Qk.setZero();
          Sk.setZero();
          if (k == N) Rk.setZero();
        }
      }
    }
    if (dyn) {
      Sym(&A, "A");
      Sym(&B, "B");
    } else {
      for (int k = 0; k < N; k++) {
        auto Ak = A(k), Bk = B(k);
        for (int i = 0; i < nx; i++)
          for (int j = 0; j < nx; j++) Ak(i, j) = i == j ? 1 : (j > i ? 0.5 : -0.25);
        for (int i = 0; i < nx; i++)
          for (int j = 0; j < nu; j++) Bk(i, j) = 1 + i - j + k;
      }
    }
    if (con) {
      Sym(&E, "E");
      Sym(&L, "L");
    } else {
      for (int k = 0; k <= N; k++) {
        auto Ek = E(k), Lk = L(k);
        for (int i = 0; i < nc; i++)
          for (int j = 0; j < nx; j++) Ek(i, j) = ((i + 2 * j + k) % 3) - 1;
        for (int i = 0; i < nc; i++)
          for (int j = 0; j < nu; j++) Lk(i, j) = ((i + j) % 3) - 1 + (k == 0);
      }
    }
    if (vectors) {
      Sym(&q, "q");
      Sym(&r, "r");
      Sym(&c, "c");
      Sym(&d, "d");
      x0 = SymV("x0", nx);
    }
  }
  MatrixXd Hm() const {
    MatrixXd m = MatrixXd::Zero(nz(), nz());
    int w = nx + nu;
    for (int k = 0; k <= N; k++) {
      auto Qk = Q(k), Rk = R(k), Sk = S(k);
      for (int i = 0; i < nx; i++)
        for (int j = 0; j < nx; j++) m(k * w + i, k * w + j) = Qk(i, j);
      for (int i = 0; i < nu; i++)
        for (int j = 0; j < nu; j++) m(k * w + nx + i, k * w + nx + j) = Rk(i, j);
      for (int i = 0; i < nu; i++)
        for (int j = 0; j < nx; j++) {
          m(k * w + nx + i, k * w + j) = Sk(i, j);
          m(k * w + j, k * w + nx + i) = Sk(i, j);
        }
    }
    return m;
  }
  // G z = h encodes A(i)x(i) + B(i)u(i) - x(i+1) = -c(i) and -x(0) = -x0
  MatrixXd Gm() const {
    MatrixXd m = MatrixXd::Zero(nl(), nz());
    int w = nx + nu;
    for (int i = 0; i < nx; i++) m(i, i) = -1;
    for (int k = 0; k < N; k++) {
      auto Ak = A(k), Bk = B(k);
      for (int i = 0; i < nx; i++) {
        for (int j = 0; j < nx; j++) m((k + 1) * nx + i, k * w + j) = Ak(i, j);
        for (int j = 0; j < nu; j++) m((k + 1) * nx + i, k * w + nx + j) = Bk(i, j);
        m((k + 1) * nx + i, (k + 1) * w + i) = -1;
      }
    }
    return m;
  }
  MatrixXd Am() const {
    MatrixXd m = MatrixXd::Zero(nv(), nz());
    int w = nx + nu;
    for (int k = 0; k <= N; k++) {
      auto Ek = E(k), Lk = L(k);
      for (int i = 0; i < nc; i++) {
        for (int j = 0; j < nx; j++) m(k * nc + i, k * w + j) = Ek(i, j);
        for (int j = 0; j < nu; j++) m(k * nc + i, k * w + nx + j) = Lk(i, j);
      }
    }
    return m;
  }
  VectorXd fv() const {
    VectorXd m(nz());
    int w = nx + nu;
    for (int k = 0; k <= N; k++) {
      for (int i = 0; i < nx; i++) m(k * w + i) = q(k)(i, 0);
      for (int i = 0; i < nu; i++) m(k * w + nx + i) = r(k)(i, 0);
    }
    return m;
  }
  VectorXd hv() const {
    VectorXd m(nl());
    for (int i = 0; i < nx; i++) m(i) = -x0(i);
    for (int k = 0; k < N; k++)
      for (int i = 0; i < nx; i++) m((k + 1) * nx + i) = -c(k)(i, 0);
    return m;
  }
  VectorXd bv() const {
    VectorXd m(nv());
    for (int k = 0; k <= N; k++)
      for (int i = 0; i < nc; i++) m(k * nc + i) = -d(k)(i, 0);
    return m;
  }
};
