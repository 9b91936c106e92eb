/* Interruption explorer (P13): an operation of the library is single-stepped
   and, at every single instruction boundary inside it, another operation is
   run from the signal handler, on the same stack.  Both must give what they
   give when run alone.  The list of operations is generated (lib/intr.py).  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ffi.h>
typedef signed char i8; typedef short i16; typedef int i32; typedef long i64; typedef float f32; typedef double f64; typedef long double ld; typedef unsigned char u8;
typedef struct { f64 a; i32 b; } Sdi; typedef struct { f32 a, b; } Sff; typedef struct { i64 a, b; } Sll; typedef struct { f64 a, b; } Sdd; typedef struct { i64 a; f64 b; } Sld; typedef struct { i64 a, b, c; } Slll; typedef struct { char c[37]; } S37; typedef struct { char c[3]; } S3; typedef struct { ld a; } SL;
typedef void *ptr;
static uint64_t mixh (uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 31); }
#define INTS(T) static uint64_t hash_##T (uint64_t h, T v) { return mixh (h, (uint64_t) v); } static T make_##T (uint64_t h) { return (T) (h >> 7); }
INTS (i8) INTS (i16) INTS (i32) INTS (i64)
static uint64_t bits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
static uint64_t hash_f32 (uint64_t h, f32 v) { return mixh (h, bits (v)); } static f32 make_f32 (uint64_t h) { return (f32)(int)(h >> 40) * 0.5f; }
static uint64_t hash_f64 (uint64_t h, f64 v) { return mixh (h, bits (v)); } static f64 make_f64 (uint64_t h) { return (f64)(int)(h >> 33) * 0.125; }
static uint64_t hash_ld (uint64_t h, ld v) { return mixh (h, bits ((double) v)); } static ld make_ld (uint64_t h) { return (ld)(int)(h >> 34) * 0.375L; }
static uint64_t hash_ptr (uint64_t h, ptr v) { return mixh (h, (uint64_t) v); } static ptr make_ptr (uint64_t h) { return (ptr) (h | 1); }
static uint64_t hash_Sdi (uint64_t h, Sdi v) { return hash_i32 (hash_f64 (h, v.a), v.b); } static Sdi make_Sdi (uint64_t h) { Sdi r; memset (&r, 0, sizeof r); r.a = make_f64 (h); r.b = make_i32 (h * 3); return r; }
static uint64_t hash_Sff (uint64_t h, Sff v) { return hash_f32 (hash_f32 (h, v.a), v.b); } static Sff make_Sff (uint64_t h) { Sff r = { make_f32 (h), make_f32 (h * 5) }; return r; }
static uint64_t hash_Sll (uint64_t h, Sll v) { return mixh (mixh (h, v.a), v.b); } static Sll make_Sll (uint64_t h) { Sll r = { h, h * 7 }; return r; }
static uint64_t hash_Sdd (uint64_t h, Sdd v) { return hash_f64 (hash_f64 (h, v.a), v.b); } static Sdd make_Sdd (uint64_t h) { Sdd r = { make_f64 (h), make_f64 (h * 9) }; return r; }
static uint64_t hash_Sld (uint64_t h, Sld v) { return hash_f64 (mixh (h, v.a), v.b); } static Sld make_Sld (uint64_t h) { Sld r = { h, make_f64 (h * 9) }; return r; }
static uint64_t hash_Slll (uint64_t h, Slll v) { return mixh (mixh (mixh (h, v.a), v.b), v.c); } static Slll make_Slll (uint64_t h) { Slll r = { h, h * 3, h * 11 }; return r; }
static uint64_t hash_S37 (uint64_t h, S37 v) { for (int i = 0; i < 37; i++) h = mixh (h, v.c[i]); return h; } static S37 make_S37 (uint64_t h) { S37 r; for (int i = 0; i < 37; i++) r.c[i] = (char) (h >> (i % 13)) + i; return r; }
static uint64_t hash_S3 (uint64_t h, S3 v) { for (int i = 0; i < 3; i++) h = mixh (h, v.c[i]); return h; } static S3 make_S3 (uint64_t h) { S3 r; for (int i = 0; i < 3; i++) r.c[i] = (char) (h >> (i * 9)); return r; }
static uint64_t hash_SL (uint64_t h, SL v) { return hash_ld (h, v.a); } static SL make_SL (uint64_t h) { SL r; memset (&r, 0, sizeof r); r.a = make_ld (h); return r; }
#define FT_i8 ffi_type_sint8
#define FT_i16 ffi_type_sint16
#define FT_i32 ffi_type_sint32
#define FT_i64 ffi_type_sint64
#define FT_f32 ffi_type_float
#define FT_f64 ffi_type_double
#define FT_ld ffi_type_longdouble
#define FT_ptr ffi_type_pointer
static ffi_type *E_Sdi[] = { &ffi_type_double, &ffi_type_sint32, 0 }, *E_Sff[] = { &ffi_type_float, &ffi_type_float, 0 }, *E_Sll[] = { &ffi_type_sint64, &ffi_type_sint64, 0 }, *E_Sdd[] = { &ffi_type_double, &ffi_type_double, 0 }, *E_Sld[] = { &ffi_type_sint64, &ffi_type_double, 0 }, *E_Slll[] = { &ffi_type_sint64, &ffi_type_sint64, &ffi_type_sint64, 0 }, *E_S37[38], *E_S3[] = { &ffi_type_schar, &ffi_type_schar, &ffi_type_schar, 0 }, *E_SL[] = { &ffi_type_longdouble, 0 };
#define ST(n) static ffi_type FT_##n = { 0, 0, FFI_TYPE_STRUCT, E_##n };
ST (Sdi) ST (Sff) ST (Sll) ST (Sdd) ST (Sld) ST (Slll) ST (S37) ST (S3) ST (SL)
enum { CALL, CLOS, CALLCLOS, GOCALL, GOCLOS, RAW, PREP, RAWCLOS, JRAW, JRAWCLOS, DYNCLOS, NPATH };
static char *rwx_next, *rwx_end;
static void *dyn_mem (void) { if (!rwx_next || rwx_next + 128 > rwx_end) { rwx_next = mmap (0, 65536, PROT_READ|PROT_WRITE|PROT_EXEC, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); rwx_end = rwx_next + 65536; } rwx_next += 128; return rwx_next - 128; }
static void bad_setup (const char *what) { fprintf (stderr, "setup: %s\n", what); exit (3); }
