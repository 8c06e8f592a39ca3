// C01: the 64-bit NTT field is exact. Oracle: 128-bit integer arithmetic mod p.
#include <INTorus.hpp>

#include "pbt.hpp"
using namespace pbt;
using cuHEpp::INTorus;
static constexpr uint64_t P = 0xFFFFFFFF00000001ULL;
static_assert(cuHEpp::P == P);
typedef unsigned __int128 u128;

static uint64_t operand(Case &c)
{
    switch (c.below(7)) {
    case 0: return c.below(4);
    case 1: return P - 1 - c.below(4);
    case 2: {  // sparse 32-bit halves
        uint64_t h[6] = {0, 1, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu};
        uint64_t v = h[c.below(6)] << 32 | h[c.below(6)];
        return v >= P ? v - P : v;
    }
    case 3: {
        uint64_t v = (1ULL << c.below(64)) + c.range(-2, 2);
        return v >= P ? v % P : v;
    }
    case 4: {  // random low or high half only
        uint64_t v = c.flip() ? c.below(1ULL << 32) << 32 : c.below(1ULL << 32);
        return v >= P ? v - P : v;
    }
    case 5: return c.below(1ULL << (1 + c.below(63)));
    default: return c.below(P);
    }
}
static uint64_t mulmod(uint64_t a, uint64_t b) { return (uint64_t)((u128)a * b % P); }
static uint64_t powmod(uint64_t a, uint64_t e)
{
    uint64_t r = 1;
    for (; e; e >>= 1, a = mulmod(a, a)) if (e & 1) r = mulmod(r, a);
    return r;
}

// A chain of operations on one accumulator, followed step by step by the model.
PROPERTY_PURE(chain, 3000000, 100000000)
{
    uint64_t m = operand(c);
    INTorus x(m, false);
    c.note("%#" PRIx64, m);
    int len = 1 + c.below(c.chance(1, 4) ? 12 : 3);
    for (int s = 0; s < len; s++) {
        int op = c.below(7);
        uint64_t b = op < 6 ? operand(c) : 0, old = m;
        INTorus y(b, false);
        const char *nm = "";
        switch (op) {
        case 0: nm = "+"; m = (uint64_t)(((u128)m + b) % P); x = x + y; break;
        case 1: nm = "+="; m = (uint64_t)(((u128)m + b) % P); x += y; break;
        case 2: nm = "-"; m = (uint64_t)(((u128)m + P - b) % P); x = x - y; break;
        case 3: nm = "-="; m = (uint64_t)(((u128)m + P - b) % P); x -= y; break;
        case 4: nm = "*"; m = mulmod(m, b); x = x * y; break;
        case 5: nm = "*="; m = mulmod(m, b); x *= y; break;
        case 6:
            nm = "<<";
            b = c.below(192);
            m = mulmod(m, powmod(2, b));
            x = x << (uint32_t)b;
            break;
        }
        c.note(" %s %#" PRIx64, nm, b);
        c.label(nm);
        if (y.value != (op < 6 ? b : 0)) c.fail("operand of %s changed", nm);
        if (x.value != m) c.fail("%#" PRIx64 " %s %#" PRIx64 " gave %#" PRIx64 ", expected %#" PRIx64, old, nm, b, x.value, m);
        if (old > 1 && b > 1) c.nontrivial();
    }
}
// self-operands: x op x through the compound forms
PROPERTY_PURE(aliased, 20000, 1000000)
{
    uint64_t m = operand(c);
    c.note("%#" PRIx64, m);
    if (m > 1) c.nontrivial();
    INTorus a(m, false), b(m, false), d(m, false);
    a += a;
    b -= b;
    d *= d;
    if (a.value != (uint64_t)((u128)m * 2 % P)) c.fail("x += x gave %#" PRIx64 " for x=%#" PRIx64, a.value, m);
    if (b.value != 0) c.fail("x -= x gave %#" PRIx64 " for x=%#" PRIx64, b.value, m);
    if (d.value != mulmod(m, m)) c.fail("x *= x gave %#" PRIx64 " for x=%#" PRIx64, d.value, m);
}
PROPERTY_PURE(construct, 20000, 1000000)
{
    uint64_t v = c.flip() ? P - 3 + c.below(7) : c.word<uint64_t>();
    c.note("INTorus(%#" PRIx64 ")", v);
    if (v >= P) c.nontrivial();
    INTorus x(v);
    if (x.value != v % P) c.fail("INTorus(%#" PRIx64 ") = %#" PRIx64, v, x.value);
    if (INTorus().value != 0) c.fail("INTorus() is not zero");
}
// every shift amount for every operand class
PROPERTY_PURE(shift_all, 60000, 2000000)
{
    uint64_t m = operand(c), e = m;
    c.note("%#" PRIx64 " << 0..191", m);
    if (m) c.nontrivial();
    for (uint32_t l = 0; l < 192; l++) {
        INTorus r = INTorus(m, false) << l;
        if (r.value != e) c.fail("%#" PRIx64 " << %u gave %#" PRIx64 ", expected %#" PRIx64, m, l, r.value, e);
        e = mulmod(e, 2);
    }
}
PROPERTY_PURE(power, 10000, 400000)
{
    uint64_t m = operand(c), e = c.chance(1, 3) ? (1ULL << c.below(15)) : c.chance(1, 10) ? c.below(40000) : c.below(300);
    c.note("%#" PRIx64 "^%" PRIu64, m, e);
    if (m > 1 && e > 1) c.nontrivial();
    INTorus r = INTorus(m, false).Pow(e);
    if (r.value != powmod(m, e)) c.fail("%#" PRIx64 "^%" PRIu64 " gave %#" PRIx64, m, e, r.value);
}
PROPERTY_PURE(invpow2, 500, 20000)
{
    uint32_t b = 1 + c.below(31);
    uint64_t m = operand(c);
    c.note("InvPow2(%u), x=%#" PRIx64, b, m);
    c.nontrivial();
    INTorus i = cuHEpp::InvPow2(b);
    if (i.value >= P || mulmod(i.value, 1ULL << b) != 1) c.fail("InvPow2(%u) = %#" PRIx64 " is not 2^-%u", b, i.value, b);
    if (((INTorus(m, false) << b) * i).value != m) c.fail("x*2^%u*InvPow2(%u) != x", b, b);
}
