/* Common vocabulary of the proof units. A unit is a C file that includes the
 * real source file(s) of /repo, gives the loop contracts of the annotated loops
 * (VF_LOOP_<name>) and one entry function per contract: it assumes the
 * precondition over unconstrained inputs, calls the real function once and
 * asserts the postcondition. */
#ifndef VF_PROOF_H
#define VF_PROOF_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
typedef unsigned char vf_u8;
size_t nondet_size(void);
unsigned int nondet_uint(void);
int nondet_int(void);
unsigned char nondet_u8(void);
unsigned long nondet_ulong(void);
void *nondet_ptr(void);
#define VF_REQUIRES(c) __CPROVER_assume(c)
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ENSURES(c, msg) __CPROVER_assert(c, "ENSURES " msg)
/* reachability witness: must FAIL, otherwise the contract is vacuous */
#define VF_REACH(name) __CPROVER_assert(0, "REACH " name)
/* largest buffer considered: the address space cbmc gives one object */
#ifndef VF_MAX
#define VF_MAX (((size_t) 1) << 40)
#endif
#define INV __CPROVER_loop_invariant
#define ASSIGNS __CPROVER_assigns
#define DECR __CPROVER_decreases
#define OBJ(p) __CPROVER_object_whole(p)
#define OFFS(p) ((size_t) __CPROVER_POINTER_OFFSET(p))
#define SAME(p, q) __CPROVER_same_object(p, q)
#define VF_INF [__CPROVER_constant_infinity_uint]
#endif
