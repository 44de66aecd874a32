#pragma once
#include "core.h"
struct CandleSet { int range, period; double factor; };
bool cdl_known(const string& fn);
unsigned cdl_mask(const string& fn);                         // the settings the pattern is documented to use
int cdl_lookback(const string& fn, const CandleSet* cs);
void cdl_eval(const string& fn, const Feed& f, const CandleSet* cs, double pen, vector<int>& val, vector<char>& ambiguous);
void cdl_defaults(CandleSet* cs); // the documented default settings
