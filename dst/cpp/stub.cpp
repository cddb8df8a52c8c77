// What the program is linked with in place of the MPI and FFTW libraries: forwards every call to the simulator.
#include "mpi.h"
#include "fftw3-mpi.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <streambuf>
#undef printf
#undef fprintf
#undef puts
#undef exit

typedef long (*callback)(int op, const long *i, void **p);
static callback call;
enum { INIT, FINALIZE, ABORT, RANK, SIZE, BARRIER, BCAST, REDUCE, ALLREDUCE, GATHER, ALLGATHER, SEND, RECV, WTIME, TEXT,
       LOCALSIZE, PLAN, EXECUTE, DESTROY, INITIALIZED };

struct Exit { int code; };
struct Buf : std::streambuf {
  int err;
  int overflow(int c) { if (c != EOF) { char b = (char) c; xsputn(&b, 1); } return c; }
  std::streamsize xsputn(const char *s, std::streamsize n) {
    long i[] = {(long) n, err};
    void *p[] = {(void *) s};
    call(TEXT, i, p);
    return n;
  }
};

static long go(int op, std::initializer_list<long> i, std::initializer_list<const void *> p) {
  long a[12] = {0};
  void *b[6] = {0};
  int n = 0;
  for (long x : i) a[n++] = x;
  n = 0;
  for (const void *x : p) b[n++] = (void *) x;
  return call(op, a, b);
}

extern "C" {
int spectral_main(int, char **);
static Buf out, err;
int dst_start(callback c, int argc, char **argv) {
  call = c;
  err.err = 1;
  std::cout.rdbuf(&out);
  std::cerr.rdbuf(&err);
  try {
    return spectral_main(argc, argv);
  } catch (Exit &e) {
    return e.code;
  }
}
int MPI_Init(int *, char ***) { return go(INIT, {}, {}); }
int MPI_Init_thread(int *, char ***, int need, int *got) { *got = need; return go(INIT, {}, {}); }
int MPI_Initialized(int *f) { *f = go(INITIALIZED, {}, {}); return 0; }
int MPI_Finalize() { return go(FINALIZE, {}, {}); }
int MPI_Abort(MPI_Comm, int c) { return go(ABORT, {c}, {}); }
double MPI_Wtime() { double t; go(WTIME, {}, {&t}); return t; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = go(RANK, {}, {}); return 0; }
int MPI_Comm_size(MPI_Comm, int *r) { *r = go(SIZE, {}, {}); return 0; }
int MPI_Barrier(MPI_Comm) { return go(BARRIER, {}, {}); }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm) { return go(BCAST, {n, d, root}, {b}); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm) { return go(REDUCE, {n, d, o, root}, {s, r}); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm) { return go(ALLREDUCE, {n, d, o}, {s, r}); }
int MPI_Gather(const void *s, int n, MPI_Datatype d, void *r, int m, MPI_Datatype e, int root, MPI_Comm) { return go(GATHER, {n, d, m, e, root}, {s, r}); }
int MPI_Allgather(const void *s, int n, MPI_Datatype d, void *r, int m, MPI_Datatype e, MPI_Comm) { return go(ALLGATHER, {n, d, m, e}, {s, r}); }
int MPI_Send(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm) { return go(SEND, {n, d, to, tag}, {b}); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Status *) { return go(RECV, {n, d, from, tag}, {b}); }

static int text(int e, const char *f, va_list v) {
  char *s;
  int n = vasprintf(&s, f, v);
  long i[] = {n, e};
  void *p[] = {s};
  call(TEXT, i, p);
  free(s);
  return n;
}
int dst_printf(const char *f, ...) { va_list v; va_start(v, f); int n = text(0, f, v); va_end(v); return n; }
int dst_fprintf(FILE *h, const char *f, ...) { va_list v; va_start(v, f); int n = text(h == stderr, f, v); va_end(v); return n; }
int dst_puts(const char *s) { return dst_printf("%s\n", s); }
void dst_exit(int c) { throw Exit{c}; }

// FFTW
struct Plan { long id; double *r; fftw_complex *c; int fwd; };
void fftw_mpi_init(void) {}
void fftw_mpi_cleanup(void) {}
void fftw_cleanup(void) {}
void *fftw_malloc(size_t n) { void *p; if (posix_memalign(&p, 64, n ? n : 1)) return 0; memset(p, 0xff, n); return p; }
double *fftw_alloc_real(size_t n) { return (double *) fftw_malloc(n*sizeof(double)); }
fftw_complex *fftw_alloc_complex(size_t n) { return (fftw_complex *) fftw_malloc(n*sizeof(fftw_complex)); }
void fftw_free(void *p) { free(p); }
ptrdiff_t fftw_mpi_local_size_3d_transposed(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, MPI_Comm, ptrdiff_t *n0, ptrdiff_t *s0, ptrdiff_t *n1, ptrdiff_t *s1) {
  long r[4];
  ptrdiff_t n = go(LOCALSIZE, {a, b, c, 1}, {r});
  *n0 = r[0]; *s0 = r[1]; *n1 = r[2]; *s1 = r[3];
  return n;
}
ptrdiff_t fftw_mpi_local_size_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, MPI_Comm, ptrdiff_t *n0, ptrdiff_t *s0) {
  long r[4];
  ptrdiff_t n = go(LOCALSIZE, {a, b, c, 0}, {r});
  *n0 = r[0]; *s0 = r[1];
  return n;
}
static fftw_plan plan(int fwd, ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, double *r, fftw_complex *z, unsigned f) {
  Plan *p = (Plan *) malloc(sizeof(Plan));
  p->r = r; p->c = z; p->fwd = fwd;
  p->id = go(PLAN, {fwd, a, b, c, !!(f & FFTW_MPI_TRANSPOSED_OUT), !!(f & FFTW_MPI_TRANSPOSED_IN), !!(f & FFTW_ESTIMATE)}, {r, z});
  return (fftw_plan) p;
}
fftw_plan fftw_mpi_plan_dft_r2c_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, double *in, fftw_complex *o, MPI_Comm, unsigned f) { return plan(1, a, b, c, in, o, f); }
fftw_plan fftw_mpi_plan_dft_c2r_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, fftw_complex *in, double *o, MPI_Comm, unsigned f) { return plan(0, a, b, c, o, in, f); }
void fftw_mpi_execute_dft_r2c(const fftw_plan q, double *in, fftw_complex *o) { Plan *p = (Plan *) q; go(EXECUTE, {p->id, 1}, {in, o}); }
void fftw_mpi_execute_dft_c2r(const fftw_plan q, fftw_complex *in, double *o) { Plan *p = (Plan *) q; go(EXECUTE, {p->id, 0}, {o, in}); }
void fftw_execute(const fftw_plan q) { Plan *p = (Plan *) q; go(EXECUTE, {p->id, p->fwd}, {p->r, p->c}); }
void fftw_destroy_plan(fftw_plan q) { Plan *p = (Plan *) q; go(DESTROY, {p->id}, {}); free(p); }
}
