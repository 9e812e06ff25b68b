//@ property P02
//@ file convcheck
// Contracts of MaRC::extrema (lib/marc/extrema.h): tracking of data extrema.
#include "vspec.h"
#include <marc/extrema.h>
#include <cmath>
#include <limits>
using MaRC::extrema;

template <typename T> struct nd;
template <> struct nd<double>  { static double  get(char const* n) { return nd_f64(n); } };
template <> struct nd<float>   { static float   get(char const* n) { return nd_f32(n); } };
template <> struct nd<uint8_t> { static uint8_t get(char const* n) { return nd_u8(n); } };
template <> struct nd<int16_t> { static int16_t get(char const* n) { return nd_i16(n); } };
template <> struct nd<int32_t> { static int32_t get(char const* n) { return nd_i32(n); } };
template <> struct nd<int64_t> { static int64_t get(char const* n) { return nd_i64(n); } };

template <typename T> bool nan_(T) { return false; }
template <> bool nan_(double v) { return v != v; }
template <> bool nan_(float v) { return v != v; }

// bounds held without clipping: not NaN, finite (float), exactly convertible through double (64 bit)
template <typename T> bool exact(T) { return true; }
template <> bool exact(double v) { return v == v; }
template <> bool exact(float v) { return v == v && v <= std::numeric_limits<float>::max() && v >= std::numeric_limits<float>::lowest(); }
template <> bool exact(int64_t v) { return v <= (int64_t(1) << 53) && v >= -(int64_t(1) << 53); }

// an arbitrary extrema object satisfying the class invariant: each bound absent or not NaN
template <typename T> struct any {
    bool hl = nd_bool("has_min"), hh = nd_bool("has_max");
    T lo = nd<T>::get("min"), hi = nd<T>::get("max");
    extrema<T> e;
    any() {
        v_assume(exact(lo) && exact(hi));
        if (hl) e.minimum(lo);
        if (hh) e.maximum(hi);
    }
};

// an arbitrary extrema object built by updates only: empty, or both bounds known
template <typename T> struct upd {
    bool hl = nd_bool("nonempty"), hh = hl;
    T lo = nd<T>::get("min"), hi = nd<T>::get("max");
    extrema<T> e;
    upd() {
        v_assume(lo <= hi);
        if (hl) { e.update(lo); e.update(hi); }
    }
};

template <typename T> void get_set() {
    any<T> a;
    v_assert(bool(a.e.minimum()) == a.hl, "minimum is present exactly when it was set");
    v_assert(bool(a.e.maximum()) == a.hh, "maximum is present exactly when it was set");
    if (a.hl) v_assert(*a.e.minimum() == a.lo, "minimum is the value set");
    if (a.hh) v_assert(*a.e.maximum() == a.hi, "maximum is the value set");
    v_assert(a.e.is_valid() == (a.hl && a.hh && a.lo <= a.hi), "valid exactly when both are set and ordered");
    v_cover("end");
    a.e.reset();
    v_assert(!a.e.minimum() && !a.e.maximum(), "reset clears both extrema");
}

template <typename T, template <typename> class A> void update_datum() {
    A<T> a;
    T d = nd<T>::get("datum");
    v_assume(!nan_(d));
    a.e.update(d);
    v_assert(bool(a.e.minimum()) && bool(a.e.maximum()), "both extrema are known after an update");
    v_assert(*a.e.minimum() == (a.hl && a.lo <= d ? a.lo : d), "minimum is the smaller of the old minimum and the datum");
    v_assert(*a.e.maximum() == (a.hh && a.hi >= d ? a.hi : d), "maximum is the larger of the old maximum and the datum");
    v_cover("end");
}

template <typename T, template <typename> class A> void update_extrema() {
    A<T> a, b;
    a.e.update(b.e);
    v_assert(bool(a.e.minimum()) == (a.hl || b.hl), "merged minimum is known when either is");
    v_assert(bool(a.e.maximum()) == (a.hh || b.hh), "merged maximum is known when either is");
    if (a.hl || b.hl) {
        T want = !a.hl ? b.lo : !b.hl ? a.lo : a.lo <= b.lo ? a.lo : b.lo;
        v_assert(*a.e.minimum() == want, "merged minimum is the smaller one");
    }
    if (a.hh || b.hh) {
        T want = !a.hh ? b.hi : !b.hh ? a.hi : a.hi >= b.hi ? a.hi : b.hi;
        v_assert(*a.e.maximum() == want, "merged maximum is the larger one");
    }
    v_cover("end");
}

template <typename T> void construct() {
    T lo = nd<T>::get("min"), hi = nd<T>::get("max");
    v_assume((nan_(lo) || exact(lo)) && (nan_(hi) || exact(hi)));
    bool bad = nan_(lo) || nan_(hi) || lo > hi;
    bool thrown = false;
    try {
        extrema<T> e(lo, hi);
        v_assert(e.is_valid(), "constructed extrema are valid");
        v_assert(*e.minimum() == lo && *e.maximum() == hi, "constructed extrema hold the given values");
        T d = nd<T>::get("datum");
        v_assert(e.in_range(d) == (d >= lo && d <= hi), "in_range is membership in the closed interval");
        v_cover("constructed");
    } catch (std::invalid_argument const&) {
        thrown = true;
        v_cover("rejected");
    }
    v_assert(thrown == bad, "construction is rejected exactly for NaN or minimum above maximum");
}

template <typename T> void set_nan() {
    extrema<T> e;
    T v = nd<T>::get("v");
    bool thrown = false;
    try { if (nd_bool("which")) e.minimum(v); else e.maximum(v); }
    catch (std::invalid_argument const&) { thrown = true; }
    v_assert(thrown == nan_(v), "setting a bound is rejected exactly for NaN");
    v_cover("end");
}

// a bound given as any double is clipped to the range of the map data type
template <typename T> void clip() {
    double m = nd_f64("m");
    v_assume(m == m);
    extrema<T> e;
    bool w = nd_bool("which");
    if (w) e.minimum(m); else e.maximum(m);
    T r = w ? *e.minimum() : *e.maximum();
    double lo = double(std::numeric_limits<T>::lowest()), hi = double(std::numeric_limits<T>::max());
    v_assert(double(r) >= lo && double(r) <= hi, "a bound lies within the map data type");
    if (m <= lo) v_assert(double(r) == lo, "a bound below the type range is clipped to its lowest value");
    if (m >= hi) v_assert(double(r) >= hi * (1 - 1e-15), "a bound above the type range is clipped to its largest value");
    if (m > lo && m < hi * (1 - 1e-15)) v_assert(r == T(m), "a bound within the type range is kept");
    v_cover("end");
}

// in_range with absent bounds, as used by the map factory
template <typename T> void swap_() {
    any<T> a, b;
    a.e.swap(b.e);
    v_assert(bool(a.e.minimum()) == b.hl && bool(b.e.minimum()) == a.hl, "swap exchanges minima");
    v_assert(bool(a.e.maximum()) == b.hh && bool(b.e.maximum()) == a.hh, "swap exchanges maxima");
    if (b.hl) v_assert(*a.e.minimum() == b.lo, "swap exchanges minimum values");
    if (a.hl) v_assert(*b.e.minimum() == a.lo, "swap exchanges minimum values (2)");
    if (b.hh) v_assert(*a.e.maximum() == b.hi, "swap exchanges maximum values");
    if (a.hh) v_assert(*b.e.maximum() == a.hi, "swap exchanges maximum values (2)");
    v_cover("end");
}

// what a bound given as a double becomes in extrema of type T
template <typename T> bool clipped(double m, T r) {
    double const lo = double(std::numeric_limits<T>::lowest()), hi = double(std::numeric_limits<T>::max());
    if (m <= lo) return double(r) == lo;
    if (m >= hi) return double(r) >= hi * (1 - 1e-15);
    return m >= hi * (1 - 1e-15) || r == T(m);
}
// conversion of extrema to another data type; each limit may be absent
template <typename T> void convert() {
    double const lo = nd_f64("lo"), hi = nd_f64("hi");
    v_assume(lo == lo && hi == hi);
    bool const hl = nd_bool("has_lo"), hh = nd_bool("has_hi");
    extrema<double> d;
    if (hl) d.minimum(lo);
    if (hh) d.maximum(hi);
    extrema<T> e(d);
    v_assert(bool(e.minimum()) == hl && bool(e.maximum()) == hh, "converted extrema have the same limits");
    if (hl) v_assert(clipped<T>(lo, *e.minimum()), "converted minimum");
    if (hh) v_assert(clipped<T>(hi, *e.maximum()), "converted maximum");
    e.reset();
    v_assert(!e.minimum() && !e.maximum() && !e.is_valid(), "reset extrema hold nothing");
    v_cover("end");
}
template <typename T> void range() {
    any<T> a;
    T const v = nd<T>::get("v");
    if (a.hl && a.hh)
        v_assert(a.e.in_range(v) == (v >= a.lo && v <= a.hi), "in range: between both limits");
    v_assert(a.e.is_valid() == (a.hl && a.hh && a.lo <= a.hi), "valid: both limits known and in order");
    extrema<T> c(a.e);
    v_assert(bool(c.minimum()) == a.hl && bool(c.maximum()) == a.hh, "a copy has the same limits");
    if (a.hl) v_assert(*c.minimum() == a.lo, "a copy has the same minimum");
    if (a.hh) v_assert(*c.maximum() == a.hi, "a copy has the same maximum");
    v_cover("end");
}
//@ fn h_convert_u8
HARNESS(h_convert_u8) { convert<uint8_t>(); }
//@ fn h_convert_i16
HARNESS(h_convert_i16) { convert<int16_t>(); }
//@ fn h_convert_i32
HARNESS(h_convert_i32) { convert<int32_t>(); }
//@ fn h_convert_i64
HARNESS(h_convert_i64) { convert<int64_t>(); }
//@ fn h_convert_f32
HARNESS(h_convert_f32) { convert<float>(); }
//@ fn h_range_f64
HARNESS(h_range_f64) { range<double>(); }
//@ fn h_range_f32
HARNESS(h_range_f32) { range<float>(); }
//@ fn h_range_u8
HARNESS(h_range_u8) { range<uint8_t>(); }
//@ fn h_range_i32
HARNESS(h_range_i32) { range<int32_t>(); }

//@ fn h_get_set_f64
HARNESS(h_get_set_f64) { get_set<double>(); }
//@ fn h_get_set_u8
HARNESS(h_get_set_u8) { get_set<uint8_t>(); }
//@ fn h_get_set_i64
HARNESS(h_get_set_i64) { get_set<int64_t>(); }
//@ fn h_update_f64
HARNESS(h_update_f64) { update_datum<double, any>(); }
//@ fn h_update_f32
HARNESS(h_update_f32) { update_datum<float, any>(); }
//@ fn h_update_u8
HARNESS(h_update_u8) { update_datum<uint8_t, any>(); }
//@ fn h_update_i16
HARNESS(h_update_i16) { update_datum<int16_t, upd>(); }
//@ fn h_update_i32
HARNESS(h_update_i32) { update_datum<int32_t, upd>(); }
//@ fn h_update_i64
HARNESS(h_update_i64) { update_datum<int64_t, upd>(); }
//@ fn h_merge_f64
HARNESS(h_merge_f64) { update_extrema<double, any>(); }
//@ fn h_merge_i32
HARNESS(h_merge_i32) { update_extrema<int32_t, upd>(); }
//@ fn h_construct_f64
HARNESS(h_construct_f64) { construct<double>(); }
//@ fn h_construct_f32
HARNESS(h_construct_f32) { construct<float>(); }
//@ fn h_construct_i16
HARNESS(h_construct_i16) { construct<int16_t>(); }
//@ fn h_set_nan_f64
HARNESS(h_set_nan_f64) { set_nan<double>(); }
//@ fn h_set_nan_f32
HARNESS(h_set_nan_f32) { set_nan<float>(); }
//@ fn h_swap_f64
HARNESS(h_swap_f64) { swap_<double>(); }
//@ fn h_clip_u8
HARNESS(h_clip_u8) { clip<uint8_t>(); }
//@ fn h_clip_i16
HARNESS(h_clip_i16) { clip<int16_t>(); }
//@ fn h_clip_i32
HARNESS(h_clip_i32) { clip<int32_t>(); }
//@ fn h_clip_i64
HARNESS(h_clip_i64) { clip<int64_t>(); }
//@ fn h_clip_f32
HARNESS(h_clip_f32) { clip<float>(); }
