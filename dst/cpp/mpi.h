// Stand-in for the MPI library: every call goes to the simulator (see cppsim.py).
#ifndef DST_MPI_H
#define DST_MPI_H
#include <stddef.h>
#include <stdio.h>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef ptrdiff_t MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, n; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_DATATYPE_NULL 0
#define MPI_DOUBLE 1
#define MPI_FLOAT 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_CHAR 5
#define MPI_BYTE 6
#define MPI_DOUBLE_COMPLEX 7
#define MPI_C_DOUBLE_COMPLEX 7
#define MPI_UNSIGNED 8
#define MPI_UNSIGNED_LONG 9
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_IN_PLACE ((void *) -1)
#define MPI_INFO_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#ifdef __cplusplus
extern "C" {
#endif
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
// The program's standard output, per process
int dst_printf(const char *, ...);
int dst_fprintf(FILE *, const char *, ...);
int dst_puts(const char *);
void dst_exit(int);     // of this process, not of the simulator
#ifdef __cplusplus
}
#include <cstdio>
#include <cstdlib>
namespace std { using ::dst_printf; using ::dst_fprintf; using ::dst_puts; using ::dst_exit; }
namespace MPI {
struct Datatype { int v; operator int() const { return v; } };
struct Op { int v; operator int() const { return v; } };
static const Datatype DOUBLE = {MPI_DOUBLE}, FLOAT = {MPI_FLOAT}, INT = {MPI_INT}, LONG = {MPI_LONG}, CHAR = {MPI_CHAR},
    BYTE = {MPI_BYTE}, DOUBLE_COMPLEX = {MPI_DOUBLE_COMPLEX};
static const Op SUM = {MPI_SUM}, MIN = {MPI_MIN}, MAX = {MPI_MAX}, PROD = {MPI_PROD};
static void *const IN_PLACE = MPI_IN_PLACE;
inline void Init() { MPI_Init(0, 0); }
inline void Init(int &c, char **&v) { MPI_Init(&c, &v); }
inline int Init_thread(int &c, char **&v, int need) { int got; MPI_Init_thread(&c, &v, need, &got); return got; }
inline int Init_thread(int need) { int got; MPI_Init_thread(0, 0, need, &got); return got; }
inline bool Is_initialized() { int f; MPI_Initialized(&f); return f; }
inline void Finalize() { MPI_Finalize(); }
inline double Wtime() { return MPI_Wtime(); }
struct Comm {
  int v;
  operator int() const { return v; }
  int Get_rank() const { int r; MPI_Comm_rank(v, &r); return r; }
  int Get_size() const { int r; MPI_Comm_size(v, &r); return r; }
  void Barrier() const { MPI_Barrier(v); }
  void Abort(int c) const { MPI_Abort(v, c); }
  void Bcast(void *b, int n, const Datatype &d, int root) const { MPI_Bcast(b, n, d.v, root, v); }
  void Reduce(const void *s, void *r, int n, const Datatype &d, const Op &o, int root) const { MPI_Reduce(s, r, n, d.v, o.v, root, v); }
  void Allreduce(const void *s, void *r, int n, const Datatype &d, const Op &o) const { MPI_Allreduce(s, r, n, d.v, o.v, v); }
  void Gather(const void *s, int n, const Datatype &d, void *r, int m, const Datatype &e, int root) const { MPI_Gather(s, n, d.v, r, m, e.v, root, v); }
  void Allgather(const void *s, int n, const Datatype &d, void *r, int m, const Datatype &e) const { MPI_Allgather(s, n, d.v, r, m, e.v, v); }
  void Send(const void *b, int n, const Datatype &d, int to, int tag) const { MPI_Send(b, n, d.v, to, tag, v); }
  void Recv(void *b, int n, const Datatype &d, int from, int tag) const { MPI_Recv(b, n, d.v, from, tag, v, 0); }
};
typedef Comm Intracomm;
static const Comm COMM_WORLD = {MPI_COMM_WORLD};
}
#endif
#define printf(...) dst_printf(__VA_ARGS__)
#define fprintf(...) dst_fprintf(__VA_ARGS__)
#define puts(s) dst_puts(s)
#define exit(c) dst_exit(c)
#endif
