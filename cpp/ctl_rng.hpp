// Forced include (-include) for the controlled build of the C++ extension.
// Every standard random source is replaced with one that asks an explorer for its
// answer, so that all answers can be enumerated.  The sources under test are unedited.
#ifndef VERIF_CTL_RNG_HPP
#define VERIF_CTL_RNG_HPP
#include <random>
#include <algorithm>
#include <numeric>
#include <vector>
#include <array>
#include <iostream>
#include <iterator>
#include <functional>
#include <string>
#include <map>
#include <set>
#include <memory>
#include <utility>
#include <cmath>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <cstring>

extern "C" {
// kind 0: uniform integer with n outcomes, 1: unit real on a grid of n cells,
// 2: raw engine output, 3: malformed request (empty range)
typedef long (*verif_pick_t)(long kind, long n);
__attribute__((weak, visibility("default"))) verif_pick_t verif_pick_cb = nullptr;
__attribute__((weak, visibility("default"))) long verif_grid = 8;
}

namespace std {
inline long verif_pick(long kind, long n) {
    if (!verif_pick_cb) { fprintf(stderr, "verif: no explorer attached\n"); abort(); }
    return verif_pick_cb(kind, n);
}
inline double verif_unit() { return (verif_pick(1, verif_grid) + 0.5) / verif_grid; }

struct verif_engine {
    typedef uint64_t result_type;
    verif_engine() {}
    template<class S> explicit verif_engine(S const &) {}
    template<class S> void seed(S const &) {}
    void seed() {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~(result_type)0; }
    result_type operator()() { return verif_pick(2, 24); }
    void discard(unsigned long long) {}
};

template<class T=int> struct verif_uid {
    typedef T result_type;
    T lo, hi;
    explicit verif_uid(T a=0, T b=numeric_limits<T>::max()) : lo(a), hi(b) {}
    template<class E> T operator()(E &) {
        if (hi < lo) { verif_pick(3, (long)hi - (long)lo); return lo; }
        return lo + (T)verif_pick(0, (long)hi - (long)lo + 1);
    }
    T a() const { return lo; }  T b() const { return hi; }
    T min() const { return lo; } T max() const { return hi; }
    void reset() {}
};
template<class T=double> struct verif_urd {
    typedef T result_type;
    T lo, hi;
    explicit verif_urd(T a=0, T b=1) : lo(a), hi(b) {}
    template<class E> T operator()(E &) { return lo + (hi - lo) * (T)verif_unit(); }
    T a() const { return lo; }  T b() const { return hi; }
    T min() const { return lo; } T max() const { return hi; }
    void reset() {}
};
struct verif_bernoulli {
    typedef bool result_type;
    double pp;
    explicit verif_bernoulli(double p=0.5) : pp(p) {}
    template<class E> bool operator()(E &) {
        if (pp == 0.5) return verif_pick(0, 2);
        return verif_unit() < pp;
    }
    double p() const { return pp; }
    void reset() {}
};
template<class R, size_t bits, class E> R verif_canon(E &) { return (R)verif_unit(); }
template<class It, class E> void verif_shuffle(It f, It l, E &) {
    for (long i = (l - f) - 1; i > 0; --i) std::swap(f[i], f[verif_pick(0, i + 1)]);
}
}
#define mt19937_64 verif_engine
#define mt19937 verif_engine
#define default_random_engine verif_engine
#define uniform_int_distribution verif_uid
#define uniform_real_distribution verif_urd
#define bernoulli_distribution verif_bernoulli
#define generate_canonical verif_canon
#define shuffle verif_shuffle
#endif
