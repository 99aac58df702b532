// Contracts of the Octave functions: arguments, how many of them, what is
// rejected (an error, or nothing returned) and what comes back.
#pragma once
#include "bind.h"

// An argument: a matrix or a string.
struct Arg : Mat<double> { const std::string *s; bool str, single, own; long k; };
typedef const Arg &A;
struct List { long n; Mat<double> v[2]; };

static inline Str text(A a) { need(a.str); return *a.s; }
static inline double scalar(A a) { need(a.m == 1 && a.n == 1); return a.p[0]; }

// The result, and the error status if two outputs are asked for.
static inline void result(List *ret, const double *p, dream_idx_type m, dream_idx_type n, SIRError e, int nout)
{
  ret->n = 1;
  ret->v[0].p = p; ret->v[0].nd = 2; ret->v[0].m = m; ret->v[0].n = n;
  if (nout == 2) {
    double *q = new double[1];
    q[0] = (double) e;
    ret->n = 2;
    ret->v[1].p = q; ret->v[1].nd = 2; ret->v[1].m = 1; ret->v[1].n = 1;
  }
}
