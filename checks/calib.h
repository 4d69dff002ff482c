// largest error in units of the tolerance, for the calibration of tolerances
#pragma once
#ifdef PBT_CALIBRATE
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
static inline void calibrate(const std::string &what, double err, double tol,
                             const std::string &where) {
    static std::map<std::string, double> worst;
    static FILE *f = fopen("/tmp/cal/out", "a");
    if (!f) return;
    setlinebuf(f);
    double r = err / tol;
    if (!(r <= worst[what])) {
        worst[what] = r;
        fprintf(f, "%s %.3g = %.4g of %.4g %s\n", what.c_str(), r, err, tol,
                where.c_str());
    }
}
#define CAL(what, err, tol, where) calibrate(what, (double)(err), (double)(tol), where)
#else
#define CAL(what, err, tol, where) ((void)0)
#endif
