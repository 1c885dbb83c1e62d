#pragma once
/* freestanding stand-in for <math.h> (cross targets only): declarations, no bodies */
#define D1(n) double n(double); float n##f(float);
#define D2(n) double n(double,double); float n##f(float,float);
D1(sin) D1(cos) D1(tan) D1(asin) D1(acos) D1(atan) D1(sqrt) D1(fabs) D1(floor) D1(ceil) D1(round) D1(trunc) D1(exp) D1(log) D1(cbrt) D1(rint) D1(exp2)
D2(atan2) D2(pow) D2(fmod) D2(fmin) D2(fmax) D2(hypot)
double modf(double,double*); float modff(float,float*);
#undef D1
#undef D2
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define NAN __builtin_nanf("")
#define INFINITY __builtin_inff()
#define HUGE_VALF __builtin_huge_valf()
