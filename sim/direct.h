#pragma once
#include <cstdio>
#include <cstdint>
extern "C" {
#include "ta_libc.h"
}
struct Direct { // one function of the direct API behind uniform signatures
  const char *name, *in; int nopt; const char* out; // in: O H L C V I price components, R other real arrays
  int (*batch)(int, int, const void**, const double*, int*, int*, void**);
  int (*sbatch)(int, int, const void**, const double*, int*, int*, void**); // float inputs
  int (*lookback)(const double*);
  int (*init)(void**, const double*);
  int (*state)(void*, const void**, void**);
  int (*bstate)(void*, int, int, const void**, int*, int*, void**);
  int (*freest)(void**);
  int (*save)(void*, FILE*);
  int (*load)(void**, FILE*);
  void (*age)(void*, uint64_t* size, uint64_t* index, const uint64_t* put); // look-back and bar counter of a stream; put: moves the counter
};
extern const Direct DIRECT[]; extern const int NDIRECT;
const Direct* direct_by_name(const char*);
