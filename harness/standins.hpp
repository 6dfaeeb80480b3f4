// Stand-in for MKL's batched gemm (not installed here), written from its documented meaning on top of plain loops,
// so that the library's TAT_USE_MKL_GEMM_BATCH code path can be executed.
#pragma once
#include <complex>
template<typename T>
void standin_gemm_batch(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* alpha, const T** a, const int* lda,
      const T** b, const int* ldb, const T* beta, T** c, const int* ldc, const int* group_count, const int* group_size) {
   long item = 0;
   for (int g = 0; g < *group_count; g++)
      for (int i = 0; i < group_size[g]; i++, item++)
         for (int x = 0; x < m[g]; x++)
            for (int y = 0; y < n[g]; y++) {
               T sum = 0;
               for (int z = 0; z < k[g]; z++) {
                  T p = ta[g] == 'N' ? a[item][x + long(z) * lda[g]] : a[item][z + long(x) * lda[g]];
                  T q = tb[g] == 'N' ? b[item][z + long(y) * ldb[g]] : b[item][y + long(z) * ldb[g]];
                  sum += p * q;
               }
               T& out = c[item][x + long(y) * ldc[g]];
               out = beta[g] == T(0) ? alpha[g] * sum : alpha[g] * sum + beta[g] * out;
            }
}
#define STANDIN(L, T)                                                                                                                        \
   extern "C" void L##gemm_batch_(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* alpha, const T** a,     \
         const int* lda, const T** b, const int* ldb, const T* beta, T** c, const int* ldc, const int* gc, const int* gs) {                  \
      standin_gemm_batch<T>(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc, gc, gs);                                                   \
   }
STANDIN(s, float)
STANDIN(d, double)
STANDIN(c, std::complex<float>)
STANDIN(z, std::complex<double>)
