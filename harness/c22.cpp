// C22: contract of LogStats: class invariant over the ghost sums of the logarithms
#include "vf.h"
#include <cmath>
#include "log-stats.h"

// representation invariant for a ghost history with n samples, sum S1 of logs, sum S2 of squared logs:
//   count = n,  n*m = S1,  s = S2 - S1^2/n
// inductive step: from ANY state satisfying the invariant (any history length), one more sample keeps it
VC(logstats_step)
    {
    const long n = vf_nat("n");
    const double S1 = vf_real("S1"), S2 = vf_real("S2");
    LogStats L; L.n = n; L.m = S1/n; L.s = S2 - S1*S1/n;
    const double x = vf_pos("x"), l = std::log(x);
    L.add(x);
    ENSURES("count of samples", L.count() == n + 1);
    EQ("invariant: mean of the logarithms", L.m, (S1 + l)/(n + 1));
    EQ("invariant: sum of squared deviations", L.s, S2 + l*l - (S1 + l)*(S1 + l)/(n + 1));
    }
VC(logstats_first)
    {
    LogStats L;
    ENSURES("empty count", L.count() == 0);
    const double x = vf_pos("x");
    L.add(x);
    ENSURES("count of samples", L.count() == 1);
    EQ("invariant: mean of the logarithms", L.m, std::log(x));
    EQ("invariant: sum of squared deviations", L.s, 0.0);
    EQ("geometric mean of one sample", L.mean(), x);
    EQ("deviation of one sample", L.stddev(), 0.0);
    }
VC(logstats_report)
    {
    const long n = vf_nat("n");
    const double S1 = vf_real("S1"), D = vf_pos("D");     // D: sum of squared deviations
    LogStats L; L.n = n; L.m = S1/n; L.s = D;
    EQ("geometric mean", L.mean(), std::exp(S1/n));
    EQ("logarithmic standard deviation", L.stddev(), sqrt(D/n));
    ENSURES("reading does not change the count", L.count() == n);
    }
// whole histories through the public interface only
VC(logstats_history)
    {
    const int n = vf_int("n", 1, 5);
    LogStats L;
    double S1 = 0, S2 = 0, lg[5];
    for (int i = 0; i < n; i++) { const double x = vf_pos("x"); L.add(x); lg[i] = std::log(x); S1 += lg[i]; }
    for (int i = 0; i < n; i++) S2 += (lg[i] - S1/n)*(lg[i] - S1/n);
    ENSURES("count of samples", L.count() == n);
    EQ("geometric mean of a history", std::log(L.mean()), S1/n);
    const double sd = L.stddev();
    EQ("logarithmic deviation of a history", sd*sd, S2/n);
    ENSURES("deviation is not negative", sd >= 0);
    }
