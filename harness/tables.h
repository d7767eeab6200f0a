// Arithmetic function tables up to 2^20, by definition from the smallest-factor table. Shared by the oracles.
#pragma once
#include "ref.h"
namespace ref {
struct Tables {
    std::vector<int> primes; std::vector<int> pi, mu, phi, mertens, pi1, pi3, sqfree; std::vector<i64> psum, phisum; std::vector<int> spf, lpf /* biggest prime factor */;
    Tables() {
        spf = spf_table(); int n = (int)spf.size(); pi.assign(n, 0); mu.assign(n, 0); phi.assign(n, 0); mertens.assign(n, 0); pi1.assign(n, 0); pi3.assign(n, 0); psum.assign(n, 0); phisum.assign(n, 0); sqfree.assign(n, 0); lpf.assign(n, 1);
        mu[1] = phi[1] = 1; mertens[1] = 1; phisum[1] = 1; sqfree[1] = 1;
        for (int i = 2; i < n; i++) {
            int p = spf[i], r = i / p; mu[i] = r % p == 0 ? 0 : -mu[r]; phi[i] = phi[r] * (r % p == 0 ? p : p - 1); lpf[i] = r > 1 ? lpf[r] : i;
            bool pr = p == i; if (pr) primes.push_back(i);
            pi[i] = pi[i - 1] + pr; pi1[i] = pi1[i - 1] + (pr && i % 4 == 1); pi3[i] = pi3[i - 1] + (pr && i % 4 == 3); psum[i] = psum[i - 1] + (pr ? i : 0); phisum[i] = phisum[i - 1] + phi[i];
            mertens[i] = mertens[i - 1] + mu[i]; sqfree[i] = sqfree[i - 1] + (mu[i] != 0);
        }
    }
};
inline const Tables& T() { static Tables t; return t; }
// the primes up to r, plus `extra` more, in an exactly sized heap array
inline std::vector<int> primes_upto(i64 r, int extra = 0) { const auto& p = T().primes; size_t k = std::upper_bound(p.begin(), p.end(), (int)r) - p.begin(); k = std::min(p.size(), k + extra); return std::vector<int>(p.begin(), p.begin() + k); }
} // ref
