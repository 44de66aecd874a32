// Small executable reference models of the indicators (everything but the candlestick patterns, see cdlref.h).
#pragma once
#include "core.h"
struct RefSet { unsigned un[TA_FUNC_UNST_ALL]; int compat; uint64_t noise = 0; };
struct RefOut { int lookback = 0; vector<vector<double>> v; }; // v[output][bar]; NaN: not delivered, or not decided by the model
bool ref_known(const string& fn);
int ref_lookback(const string& fn, const vector<double>& opt, const RefSet& s);
// what a batch call whose first requested bar is `start` delivers over the n bars of `in`
RefOut ref_eval(const string& fn, const vector<double>& opt, const RefSet& s, const vector<const double*>& in, int n, int start);
