// The row store of the repository behind plain types: mat.cpp is C++, the headers of the repository are C.
#include <stdlib.h>
#include <string.h>
#include "Matrix.h"
#include "RowColViews.h"
extern void *mc_malloc(size_t); extern void mc_free(void *);
typedef struct { size_t m, n, nnz, n_alloc; int *i; RowRange *p; double *x; } Mir;
#pragma weak remove_coeff
#pragma weak count_rows
#pragma weak matrix_new_no_extra_space
static void put(Matrix *A, const Mir *a) { memset(A, 0, sizeof *A); A->m = a->m; A->n = a->n; A->nnz = a->nnz; A->n_alloc = a->n_alloc; A->i = a->i; A->p = a->p; A->x = a->x; }
static void get(Mir *a, const Matrix *A) { a->m = A->m; a->n = A->n; a->nnz = A->nnz; a->n_alloc = A->n_alloc; a->i = A->i; a->p = A->p; a->x = A->x; }
_Static_assert(sizeof(RowRange) == 2 * sizeof(int), "row ranges");
int shim_new(Mir *a, int k, const double *x, const int *i, const int *p, size_t m, size_t n, size_t nnz) { Matrix *A = k ? matrix_new_no_extra_space(x, i, p, m, n, nnz) : matrix_new(x, i, p, m, n, nnz); if (!A) return 0; get(a, A); mc_free(A); return 1; }
int shim_transpose(Mir *t, const Mir *a, int *work) { Matrix A; put(&A, a); Matrix *T = transpose(&A, work); if (!T) return 0; get(t, T); mc_free(T); return 1; }
int shim_shift(Mir *a, int row, int extra, int max) { Matrix A; put(&A, a); int r = shift_row(&A, row, extra, max); get(a, &A); return r; }
double shim_set(Mir *a, int row, int col, double v, int *size) { Matrix A; put(&A, a); double r = insert_or_update_coeff(&A, row, col, v, size); get(a, &A); return r; }
int shim_can_remove(void) { return remove_coeff != 0; }
void shim_remove(Mir *a, int row, int col, int *size) { RowView v; memset(&v, 0, sizeof v); v.vals = a->x + a->p[row].start; v.cols = a->i + a->p[row].start; v.len = size; v.range = a->p + row; v.i = row; remove_coeff(&v, col); }
int shim_can_count(void) { return count_rows != 0; }
void shim_count(const Mir *a, int *sizes) { Matrix A; put(&A, a); count_rows(&A, sizes); }
int shim_can_tight(void) { return matrix_new_no_extra_space != 0; }
void shim_compact(Mir *a, const int *rs, const int *cs, int *map) { Matrix A; put(&A, a); remove_extra_space(&A, rs, cs, true, map); get(a, &A); }
void shim_free(Mir *a) { Matrix *A = (Matrix *) mc_malloc(sizeof *A); put(A, a); free_matrix(A); mc_free(a); }
