// reference semantics of the BLAS calls used by the MKL binding
#pragma once
static inline void cblas_dcopy(int n, const double *x, int ix, double *y, int iy) { for (int i = 0; i < n; ++i) y[i * iy] = x[i * ix]; }
static inline void cblas_dscal(int n, double a, double *x, int ix) { for (int i = 0; i < n; ++i) x[i * ix] = a * x[i * ix]; }
static inline void cblas_daxpy(int n, double a, const double *x, int ix, double *y, int iy) { for (int i = 0; i < n; ++i) y[i * iy] = a * x[i * ix] + y[i * iy]; }
