// Stand-in for the OpenCL C dialect: the kernels of opencl/*.cl are compiled as
// they are, as functions of one work item.
#include <math.h>
#include <stddef.h>

static int dv_work_item;

#define __kernel static
#define kernel static
#define __global
#define global
#define __constant const
#define __private
static inline size_t get_global_id(unsigned) { return dv_work_item; }
static inline double native_sqrt(double x) { return sqrt(x); }
static inline float native_sqrt(float x) { return sqrt(x); }
static inline double half_sqrt(double x) { return sqrt(x); }
static inline float half_sqrt(float x) { return sqrt(x); }
