// Force-included in the sanitized variant: Blitz++'s own precondition checks (element access and slicing in range, conforming
// shapes) are turned on as monitors, except in the constructor of Range: blitz calls the empty Range(0,-1) invalid, yet yields
// the empty slice that callers with nothing to address mean by it.
#pragma once
#define BZ_DEBUG
#include <blitz/blitz.h>
#pragma push_macro("BZPRECHECK")
#undef BZPRECHECK
#define BZPRECHECK(X,Y)
#include <blitz/range.h>
#pragma pop_macro("BZPRECHECK")
#include <blitz/array.h>
