// Contract language of the verification harnesses.
// Symbolic side: /verif/vc interprets these functions; native side: rt/native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
double   nd_f64(char const*);
double   nd_f64_in(char const*, double lo, double hi);
float    nd_f32(char const*);
uint64_t nd_u64(char const*);
uint64_t nd_u64_in(char const*, uint64_t lo, uint64_t hi);
int64_t  nd_i64(char const*);
uint32_t nd_u32(char const*);
int32_t  nd_i32(char const*);
uint16_t nd_u16(char const*);
int16_t  nd_i16(char const*);
uint8_t  nd_u8(char const*);
bool     nd_bool(char const*);
void     v_assume(bool);
void     v_assert(bool, char const*);
void     v_lemma(bool, char const*);
void     v_eq(double, double, double tol, char const*);
void     v_le(double, double, double tol, char const*);
void     v_cover(char const*);
void     v_watch(void const*, int width);
void     v_watch_index(uint64_t);
void     v_inv(bool (*)(), char const*);
void     v_inv_at(uint64_t, bool (*)(), char const*);
void*    v_alloc(char const*, std::size_t n, std::size_t elem_size);
void*    v_replicate(char const*, void const* proto, std::size_t stride, std::size_t n);
void*    v_ptrs(char const*, std::size_t elem_stride, std::size_t ptr_off, void* objs,
                std::size_t obj_stride, std::size_t n);
double   v_uf(char const* name, double (*native)(double, double), double x, double y);
bool     v_symbolic();
uint64_t v_same(uint64_t);     // the argument
}
#define HARNESS(name) extern "C" void name()
#define V_TRY try
