// Stands in for the external QDLDL library (not in the repository): the same three
// functions with the same documented arguments, written for the checks.
#pragma once
#include <Eigen/Dense>
#include <stdexcept>
#include <vector>

#include "sx.h"
#include "tools/qdldl/qdldl_types.h"

// Elimination tree of an upper triangular CSC matrix; work, Lnz, etree: n each.
// Returns the number of entries of L, -1 for a matrix that is not upper triangular
// with every column nonempty.
inline QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, QDLDL_int* work,
                             QDLDL_int* Lnz, QDLDL_int* etree) {
  for (QDLDL_int i = 0; i < n; i++) {
    work[i] = 0;
    Lnz[i] = 0;
    etree[i] = -1;
    if (Ap[i] == Ap[i + 1]) return -1;
  }
  for (QDLDL_int j = 0; j < n; j++) {
    work[j] = j;
    for (QDLDL_int p = Ap[j]; p < Ap[j + 1]; p++) {
      QDLDL_int i = Ai[p];
      if (i > j) return -1;
      while (work[i] != j) {
        if (etree[i] == -1) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
        i = etree[i];
      }
    }
  }
  QDLDL_int sum = 0;
  for (QDLDL_int i = 0; i < n; i++) sum += Lnz[i];
  return sum;
}

// A = L D L'; Lp: n + 1; Li, Lx: entries of L; D, Dinv: n; Lnz, etree: from
// QDLDL_etree; bwork, fwork: n; iwork: 3n.
inline QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax,
                              QDLDL_int* Lp, QDLDL_int* Li, QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv,
                              const QDLDL_int* Lnz, const QDLDL_int* etree, QDLDL_bool* bwork, QDLDL_int* iwork,
                              QDLDL_float* fwork) {
  QDLDL_bool* marked = bwork;
  QDLDL_int *order = iwork, *stack = iwork + n, *next = iwork + 2 * n;
  QDLDL_float* y = fwork;
  QDLDL_int positive = 0;
  Lp[0] = 0;
  for (QDLDL_int i = 0; i < n; i++) {
    Lp[i + 1] = Lp[i] + Lnz[i];
    marked[i] = 0;
    y[i] = 0.0;
    D[i] = 0.0;
    next[i] = Lp[i];
  }
  for (QDLDL_int k = 0; k < n; k++) {
    QDLDL_int count = 0;
    for (QDLDL_int p = Ap[k]; p < Ap[k + 1]; p++) {
      QDLDL_int b = Ai[p];
      if (b == k) {
        D[k] = Ax[p];
        continue;
      }
      y[b] = Ax[p];
      if (marked[b]) continue;
      QDLDL_int len = 0;
      for (; b != -1 && b < k && !marked[b]; b = etree[b]) {
        marked[b] = 1;
        stack[len++] = b;
      }
      while (len) order[count++] = stack[--len];
    }
    while (count) {
      const QDLDL_int c = order[--count], end = next[c];
      const QDLDL_float v = y[c];
      for (QDLDL_int p = Lp[c]; p < end; p++) y[Li[p]] -= Lx[p] * v;
      Li[end] = k;
      Lx[end] = v * Dinv[c];
      D[k] -= v * Lx[end];
      next[c]++;
      y[c] = 0.0;
      marked[c] = 0;
    }
    if (D[k] == 0.0) return -1;
    if (D[k] > 0.0) positive++;
    Dinv[k] = 1.0 / D[k];
  }
  return positive;
}

inline void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx,
                        const QDLDL_float* Dinv, QDLDL_float* x) {
  for (QDLDL_int i = 0; i < n; i++)
    for (QDLDL_int p = Lp[i]; p < Lp[i + 1]; p++) x[Li[p]] -= Lx[p] * x[i];
  for (QDLDL_int i = 0; i < n; i++) x[i] *= Dinv[i];
  for (QDLDL_int i = n - 1; i >= 0; i--)
    for (QDLDL_int p = Lp[i]; p < Lp[i + 1]; p++) x[i] -= Lx[p] * x[Li[p]];
}
