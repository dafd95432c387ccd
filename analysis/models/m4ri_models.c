/* Specifications of external M4RI primitives, written as reference code for the analyses
 * (never compiled into the library, never executed). */
#include <m4ri/m4ri.h>

void mzd_set_ui(mzd_t *A, unsigned int const value) {
  word const mask_end = A->high_bitmask;
  for (rci_t i = 0; i < A->nrows; ++i) {
    word *row = A->rows[i];
    for (wi_t j = 0; j < A->width - 1; ++j) row[j] = 0;
    row[A->width - 1] &= ~mask_end;
  }
  if (value % 2 == 0) return;
  for (rci_t i = 0; i < (A->nrows < A->ncols ? A->nrows : A->ncols); ++i) mzd_write_bit(A, i, i, 1);
}

void mzd_copy_row(mzd_t *B, rci_t i, mzd_t const *A, rci_t j) {
  wi_t const width = A->width - 1;
  word const *a = A->rows[j];
  word *b = B->rows[i];
  word const mask_end = A->high_bitmask;
  for (wi_t k = 0; k < width; ++k) b[k] = a[k];
  b[width] = (b[width] & ~mask_end) | (a[width] & mask_end);
}

void mzd_row_add(mzd_t *M, rci_t const sourcerow, rci_t const destrow) {
  word const *a = M->rows[sourcerow];
  word *b = M->rows[destrow];
  wi_t const width = M->width - 1;
  for (wi_t k = 0; k < width; ++k) b[k] ^= a[k];
  b[width] ^= a[width] & M->high_bitmask;
}

mzd_t *mzd_copy(mzd_t *B, mzd_t const *A) {
  if (B == A) return B;
  if (B == NULL) B = mzd_init(A->nrows, A->ncols);
  else if (B->nrows < A->nrows || B->ncols < A->ncols) m4ri_die("mzd_copy: Target matrix is too small.");
  for (rci_t i = 0; i < A->nrows; ++i) mzd_copy_row(B, i, A, i);
  return B;
}
