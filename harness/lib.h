// The library under test, as a C++ client sees it.
#pragma once
#include <complex.h>
#include <complex>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <glib.h>
#include <fitsio.h>
extern "C" {
#pragma push_macro("complex")
#undef complex
#define complex _Complex
#include "exchange.h"
#include "oifile.h"
#include "oifilter.h"
#include "oiiter.h"
#include "oicheck.h"
#include "oimerge.h"
#include "datemjd.h"
#undef complex
#pragma pop_macro("complex")
}
