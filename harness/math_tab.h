/* name, result, arguments, floating-point exceptions that are errors (written by tools/gen_math.py) */
M1(acos, d, d, FE_INVALID)
M1(acosf, f, f, FE_INVALID)
M1(acosh, d, d, FE_INVALID)
M1(acoshf, f, f, FE_INVALID)
M1(acoshl, l, l, FE_INVALID)
M1(acosl, l, l, FE_INVALID)
M1(asin, d, d, FE_INVALID | FE_UNDERFLOW)
M1(asinf, f, f, FE_INVALID | FE_UNDERFLOW)
M1(asinh, d, d, FE_UNDERFLOW)
M1(asinhf, f, f, FE_UNDERFLOW)
M1(asinhl, l, l, FE_UNDERFLOW)
M1(asinl, l, l, FE_INVALID | FE_UNDERFLOW)
M1(atan, d, d, FE_UNDERFLOW)
M2(atan2, d, d, d, FE_UNDERFLOW)
M2(atan2f, f, f, f, FE_UNDERFLOW)
M2(atan2l, l, l, l, FE_UNDERFLOW)
M1(atanf, f, f, FE_UNDERFLOW)
M1(atanh, d, d, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(atanhf, f, f, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(atanhl, l, l, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(atanl, l, l, FE_UNDERFLOW)
M1(cbrt, d, d, NOERR)
M1(cbrtf, f, f, NOERR)
M1(cbrtl, l, l, NOERR)
M1(ceil, d, d, NOERR)
M1(ceilf, f, f, NOERR)
M1(ceill, l, l, NOERR)
M2(copysign, d, d, d, NOERR)
M2(copysignf, f, f, f, NOERR)
M2(copysignl, l, l, l, NOERR)
M1(cos, d, d, FE_INVALID)
M1(cosf, f, f, FE_INVALID)
M1(cosh, d, d, FE_OVERFLOW)
M1(coshf, f, f, FE_OVERFLOW)
M1(coshl, l, l, FE_OVERFLOW)
M1(cosl, l, l, FE_INVALID)
M1(erf, d, d, FE_UNDERFLOW)
M1(erfc, d, d, FE_UNDERFLOW)
M1(erfcf, f, f, FE_UNDERFLOW)
M1(erfcl, l, l, FE_UNDERFLOW)
M1(erff, f, f, FE_UNDERFLOW)
M1(erfl, l, l, FE_UNDERFLOW)
M1(exp, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M1(exp2, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M1(exp2f, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M1(exp2l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(expf, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M1(expl, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(expm1, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M1(expm1f, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M1(expm1l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(fabs, d, d, NOERR)
M1(fabsf, f, f, NOERR)
M1(fabsl, l, l, NOERR)
M2(fdim, d, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M2(fdimf, f, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M2(fdiml, l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(floor, d, d, NOERR)
M1(floorf, f, f, NOERR)
M1(floorl, l, l, NOERR)
M3(fma, d, d, d, d, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M3(fmaf, f, f, f, f, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M3(fmal, l, l, l, l, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M2(fmax, d, d, d, NOERR)
M2(fmaxf, f, f, f, NOERR)
M2(fmaxl, l, l, l, NOERR)
M2(fmin, d, d, d, NOERR)
M2(fminf, f, f, f, NOERR)
M2(fminl, l, l, l, NOERR)
M2(fmod, d, d, d, FE_INVALID | FE_UNDERFLOW)
M2(fmodf, f, f, f, FE_INVALID | FE_UNDERFLOW)
M2(fmodl, l, l, l, FE_INVALID | FE_UNDERFLOW)
M2(hypot, d, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M2(hypotf, f, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M2(hypotl, l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(ilogb, d, d, FE_INVALID)
M1(ilogbf, f, f, FE_INVALID)
M1(ilogbl, l, l, FE_INVALID)
M1(j0, d, d, FE_UNDERFLOW)
M1(j1, d, d, FE_UNDERFLOW)
M2(jn, d, i, d, FE_UNDERFLOW)
M2(ldexp, d, d, i, FE_OVERFLOW | FE_UNDERFLOW)
M2(ldexpf, f, f, i, FE_OVERFLOW | FE_UNDERFLOW)
M2(ldexpl, l, l, i, FE_OVERFLOW | FE_UNDERFLOW)
M1(lgamma, d, d, FE_DIVBYZERO | FE_OVERFLOW)
M1(lgammaf, f, f, FE_DIVBYZERO | FE_OVERFLOW)
M1(lgammal, l, l, FE_DIVBYZERO | FE_OVERFLOW)
M1(llrint, Q, d, FE_INVALID)
M1(llrintf, Q, f, FE_INVALID)
M1(llrintl, Q, l, FE_INVALID)
M1(llround, Q, d, FE_INVALID)
M1(llroundf, Q, f, FE_INVALID)
M1(llroundl, Q, l, FE_INVALID)
M1(log, d, d, FE_INVALID | FE_DIVBYZERO)
M1(log10, d, d, FE_INVALID | FE_DIVBYZERO)
M1(log10f, f, f, FE_INVALID | FE_DIVBYZERO)
M1(log10l, l, l, FE_INVALID | FE_DIVBYZERO)
M1(log1p, d, d, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(log1pf, f, f, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(log1pl, l, l, FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW)
M1(log2, d, d, FE_INVALID | FE_DIVBYZERO)
M1(log2f, f, f, FE_INVALID | FE_DIVBYZERO)
M1(log2l, l, l, FE_INVALID | FE_DIVBYZERO)
M1(logb, d, d, FE_DIVBYZERO)
M1(logbf, f, f, FE_DIVBYZERO)
M1(logbl, l, l, FE_DIVBYZERO)
M1(logf, f, f, FE_INVALID | FE_DIVBYZERO)
M1(logl, l, l, FE_INVALID | FE_DIVBYZERO)
M1(lrint, L, d, FE_INVALID)
M1(lrintf, L, f, FE_INVALID)
M1(lrintl, L, l, FE_INVALID)
M1(lround, L, d, FE_INVALID)
M1(lroundf, L, f, FE_INVALID)
M1(lroundl, L, l, FE_INVALID)
M1(nearbyint, d, d, NOERR)
M1(nearbyintf, f, f, NOERR)
M1(nearbyintl, l, l, NOERR)
M2(nextafter, d, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M2(nextafterf, f, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M2(nextafterl, l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M2(nexttoward, d, d, l, FE_OVERFLOW | FE_UNDERFLOW)
M2(nexttowardf, f, f, l, FE_OVERFLOW | FE_UNDERFLOW)
M2(nexttowardl, l, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M2(pow, d, d, d, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M2(powf, f, f, f, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M2(powl, l, l, l, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M2(remainder, d, d, d, FE_INVALID)
M2(remainderf, f, f, f, FE_INVALID)
M2(remainderl, l, l, l, FE_INVALID)
M1(rint, d, d, NOERR)
M1(rintf, f, f, NOERR)
M1(rintl, l, l, NOERR)
M1(round, d, d, NOERR)
M1(roundf, f, f, NOERR)
M1(roundl, l, l, NOERR)
M2(scalbln, d, d, L, FE_OVERFLOW | FE_UNDERFLOW)
M2(scalblnf, f, f, L, FE_OVERFLOW | FE_UNDERFLOW)
M2(scalblnl, l, l, L, FE_OVERFLOW | FE_UNDERFLOW)
M2(scalbn, d, d, i, FE_OVERFLOW | FE_UNDERFLOW)
M2(scalbnf, f, f, i, FE_OVERFLOW | FE_UNDERFLOW)
M2(scalbnl, l, l, i, FE_OVERFLOW | FE_UNDERFLOW)
M1(sin, d, d, FE_INVALID | FE_UNDERFLOW)
M1(sinf, f, f, FE_INVALID | FE_UNDERFLOW)
M1(sinh, d, d, FE_OVERFLOW | FE_UNDERFLOW)
M1(sinhf, f, f, FE_OVERFLOW | FE_UNDERFLOW)
M1(sinhl, l, l, FE_OVERFLOW | FE_UNDERFLOW)
M1(sinl, l, l, FE_INVALID | FE_UNDERFLOW)
M1(sqrt, d, d, FE_INVALID)
M1(sqrtf, f, f, FE_INVALID)
M1(sqrtl, l, l, FE_INVALID)
M1(tan, d, d, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M1(tanf, f, f, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M1(tanh, d, d, FE_UNDERFLOW)
M1(tanhf, f, f, FE_UNDERFLOW)
M1(tanhl, l, l, FE_UNDERFLOW)
M1(tanl, l, l, FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW)
M1(tgamma, d, d, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M1(tgammaf, f, f, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M1(tgammal, l, l, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M1(trunc, d, d, NOERR)
M1(truncf, f, f, NOERR)
M1(truncl, l, l, NOERR)
M1(y0, d, d, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M1(y1, d, d, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M2(yn, d, i, d, FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
M1(cabs, d, D, NOERR)
M1(cabsf, f, F, NOERR)
M1(cabsl, l, Z, NOERR)
M1(cacos, D, D, NOERR)
M1(cacosf, F, F, NOERR)
M1(cacosh, D, D, NOERR)
M1(cacoshf, F, F, NOERR)
M1(cacoshl, Z, Z, NOERR)
M1(cacosl, Z, Z, NOERR)
M1(carg, d, D, NOERR)
M1(cargf, f, F, NOERR)
M1(cargl, l, Z, NOERR)
M1(casin, D, D, NOERR)
M1(casinf, F, F, NOERR)
M1(casinh, D, D, NOERR)
M1(casinhf, F, F, NOERR)
M1(casinhl, Z, Z, NOERR)
M1(casinl, Z, Z, NOERR)
M1(catan, D, D, NOERR)
M1(catanf, F, F, NOERR)
M1(catanh, D, D, NOERR)
M1(catanhf, F, F, NOERR)
M1(catanhl, Z, Z, NOERR)
M1(catanl, Z, Z, NOERR)
M1(ccos, D, D, NOERR)
M1(ccosf, F, F, NOERR)
M1(ccosh, D, D, NOERR)
M1(ccoshf, F, F, NOERR)
M1(ccoshl, Z, Z, NOERR)
M1(ccosl, Z, Z, NOERR)
M1(cexp, D, D, NOERR)
M1(cexpf, F, F, NOERR)
M1(cexpl, Z, Z, NOERR)
M1(cimag, d, D, NOERR)
M1(cimagf, f, F, NOERR)
M1(cimagl, l, Z, NOERR)
M1(clog, D, D, NOERR)
M1(clogf, F, F, NOERR)
M1(clogl, Z, Z, NOERR)
M1(conj, D, D, NOERR)
M1(conjf, F, F, NOERR)
M1(conjl, Z, Z, NOERR)
M2(cpow, D, D, D, NOERR)
M2(cpowf, F, F, F, NOERR)
M2(cpowl, Z, Z, Z, NOERR)
M1(cproj, D, D, NOERR)
M1(cprojf, F, F, NOERR)
M1(cprojl, Z, Z, NOERR)
M1(creal, d, D, NOERR)
M1(crealf, f, F, NOERR)
M1(creall, l, Z, NOERR)
M1(csin, D, D, NOERR)
M1(csinf, F, F, NOERR)
M1(csinh, D, D, NOERR)
M1(csinhf, F, F, NOERR)
M1(csinhl, Z, Z, NOERR)
M1(csinl, Z, Z, NOERR)
M1(csqrt, D, D, NOERR)
M1(csqrtf, F, F, NOERR)
M1(csqrtl, Z, Z, NOERR)
M1(ctan, D, D, NOERR)
M1(ctanf, F, F, NOERR)
M1(ctanh, D, D, NOERR)
M1(ctanhf, F, F, NOERR)
M1(ctanhl, Z, Z, NOERR)
M1(ctanl, Z, Z, NOERR)
