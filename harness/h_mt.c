// Mersenne Twister (header only): seeding, regeneration, tempering, indices.
//@src str/str.c
//@job R01 func=H_seed engine=sx unwind=1 defs=X=1
//@job R01 func=H_draw unwind=626 defs=X=1
//@job R01 func=H_step engine=sx unwind=1 defs=X=1
//@job R01 func=H_self engine=sx unwind=1 defs=X=1
//@job R01 func=H_real unwind=626 defs=X=1
#include "vp.h"
#include <stdint.h>
#include "mtwister/mtwister.h"
static uint64_t temper(uint64_t y){
	y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
	return y;
}
static uint64_t twist(uint64_t a, uint64_t b, uint64_t m){
	uint32_t const y = ((uint32_t)a & 0x80000000u) | ((uint32_t)b & 0x7fffffffu);
	return m ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
}
static struct MTRand R; static uint64_t W[624];
void H_seed(void){
	uint64_t const seed = vp_u64();
	R = MT_SeedRand(seed);
	uint64_t w = seed;
	for( int i=0;i<624;i++ ) { vp_assert(R.mt[i]==w, "every word of the state comes from the seed"); w *= 6069; }
	vp_assert(R.index==624, "a seeded generator makes its first numbers on the first draw");
	vp_reach("seeded");
}
/* a draw that needs new words: from every state */
void H_draw(void){
	for( int i=0;i<624;i++ ) W[i] = R.mt[i] = vp_u64();
	R.index = 624;
	uint64_t const r = MT_GenRand_UInt(&R);
	for( int i=0;i<624;i++ ) W[i] = twist(W[i], W[(i+1)%624], W[(i+397)%624]);
	for( int i=0;i<624;i++ ) vp_assert(R.mt[i]==W[i], "a regeneration follows the recurrence");
	vp_assert(R.index==1 && r==temper(W[0]), "the first number is the first new word");
	vp_reach("regenerated");
}
/* a draw from every state & position that needs none */
void H_step(void){
	uint64_t const i = vp_pick(0, 623);
	for( int k=0;k<624;k++ ) W[k] = R.mt[k] = vp_u64();
	R.index = i;
	uint64_t const r = MT_GenRand_UInt(&R);
	vp_assert(r==temper(W[i]), "a number is the next word of the state");
	vp_assert(R.index==i+1, "every word is drawn once");
	uint64_t d = 0;
	for( int k=0;k<624;k++ ) d |= R.mt[k] ^ W[k];
	vp_assert(d==0, "drawing leaves the state alone");
	vp_reach("drawn");
}
/* a generator that was never seeded seeds itself */
void H_self(void){
	uint64_t w = 4357;
	for( int k=0;k<624;k++ ) { R.mt[k] = vp_u64(); W[k] = w; w *= 6069; }
	R.index = vp_u64(); vp_assume(R.index > 624);
	uint64_t const r = MT_GenRand_UInt(&R);
	for( int i=0;i<624;i++ ) W[i] = twist(W[i], W[(i+1)%624], W[(i+397)%624]);
	uint64_t d = 0;
	for( int k=0;k<624;k++ ) d |= R.mt[k] ^ W[k];
	vp_assert(d==0 && R.index==1 && r==temper(W[0]), "positions outside of the state start over with the default seed");
	vp_reach("started over");
}
void H_real(void){
	uint64_t const w = vp_u64();
	R.mt[5] = w; R.index = 5;
	double const d = MT_GenRand_F64(&R);
	vp_assert(d >= 0.0 && d <= 1.0, "floating numbers are between 0 & 1");
	vp_assert(R.index==6, "every word is drawn once");
	double const e = (double)temper(w) / (double)SIZE_MAX;
	vp_assert(d==e, "floating numbers are the drawn word, scaled");
	vp_reach("real");
}
