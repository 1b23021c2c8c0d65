// Contract intrinsics understood by /verif/engine.  A contract is a C++ function that assumes its
// precondition, calls the REAL function from /repo, and checks its postcondition.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vc_assume(bool);
void vc_check(bool, const char *);
void vc_cover(const char *);
void vc_hint(bool);
void vc_old(bool);
void vc_assume_all(const char *);
void vc_check_all(const char *, const char *);
bool vc_all(const char *);
void vc_snapshot();
void vc_writes(const void *, size_t);
void vc_frame(const char *);
void *vc_ghost();
uint64_t vc_any_u64();
uint32_t vc_any_u32();
uint8_t vc_any_u8();
bool vc_any_bool();
int64_t vc_sel(bool, int64_t, int64_t);
uint64_t vc_fn1(uint64_t, uint64_t);
uint64_t vc_fn2(uint64_t, uint64_t, uint64_t);
uint64_t vc_fn3(uint64_t, uint64_t, uint64_t, uint64_t);
}
#define VC extern "C"
