// C22: big-integer arithmetic is exact. Reference: GMP.
#include "mpi.hpp"
#include <climits>
static bool same(const Z& a, const Z& b)
{
    return mpz_cmp(a.v, b.v) == 0;
}
static void expect(const char* op, const mbedtls_mpi& got, const Z& want)
{
    Z g = value(got);
    if (!same(g, want)) {
        viol(op, "got %s want %s", S(g).c_str(), S(want).c_str());
    }
}
static void expect_ok(const char* op, int ret)
{
    if (ret != 0) {
        viol(op, "returned error -0x%04x", -ret);
    }
}
static Z gen(size_t maxbits)
{
    Z      z;
    size_t bits = rng().below(8) == 0 ? rng().below(4) : rng().chance(1, 3) ? 64 * rng().range(0, maxbits / 64) + rng().below(3) : rng().range(1, maxbits);
    switch (rng().below(9)) {
    case 0: break;
    case 1:
    case 2: // 2^k + small
        mpz_setbit(z.v, bits);
        if (rng().chance(1, 2)) mpz_add_ui(z.v, z.v, rng().below(3));
        else mpz_sub_ui(z.v, z.v, rng().below(3));
        break;
    case 3: { // limbs drawn from extreme values
        size_t n = bits / 64 + 1;
        for (size_t i = 0; i < n; i++) {
            uint64_t l;
            switch (rng().below(7)) {
            case 0: l = 0; break;
            case 1: l = ~0ull; break;
            case 2: l = 1; break;
            case 3: l = 1ull << 63; break;
            case 4: l = ~0ull >> 1; break;
            case 5: l = 0xffffffffull << (32 * rng().below(2)); break;
            default: l = rng().next();
            }
            mpz_mul_2exp(z.v, z.v, 64);
            mpz_add_ui(z.v, z.v, l);
        }
        break;
    }
    case 4: // sparse
        for (unsigned i = 0; i < 4; i++) mpz_setbit(z.v, rng().below(bits + 1));
        break;
    default: {
        z = Z::be(rng().bytes(bits / 8 + 1));
        mpz_fdiv_r_2exp(z.v, z.v, bits);
    }
    }
    return z;
}
static Z gens(size_t maxbits)
{
    Z z = gen(maxbits);
    if (rng().chance(1, 3)) mpz_neg(z.v, z.v);
    return z;
}
static mbedtls_mpi_sint gen_int()
{
    switch (rng().below(8)) {
    case 0: return (mbedtls_mpi_sint)rng().below(20) - 10;
    case 1: return INT64_MAX - (mbedtls_mpi_sint)rng().below(3);
    case 2: return INT64_MIN + (mbedtls_mpi_sint)rng().below(3);
    case 3: return (mbedtls_mpi_sint)1 << rng().below(63);
    case 4: return ((mbedtls_mpi_sint)1 << 32) - 1 + (mbedtls_mpi_sint)rng().below(3);
    case 5: return (mbedtls_mpi_sint)(uint32_t)rng().next();
    default: return (mbedtls_mpi_sint)rng().next();
    }
}
static Z zint(mbedtls_mpi_sint i)
{
    Z z;
    mpz_set_si(z.v, i);
    return z;
}
static int sgn(int x)
{
    return x < 0 ? -1 : x > 0;
}
// where the result goes: a fresh number, a used one (larger or smaller), or an operand
enum Dst { FRESH, USED, ALIAS_A, ALIAS_B };
static const char* dname(int d)
{
    static const char* n[] = {"fresh", "used", "=A", "=B"};
    return n[d];
}

struct Case
{
    M    a, b, x;
    Z    A, B;
    int  dst;
    bool one; // A and B are the same object
    mbedtls_mpi *pa, *pb, *px;
    Case(const Z& A_, const Z& B_, bool may_same = true) : A(A_), B(B_)
    {
        unsigned h = (unsigned)rng().next();
        load(a, A, h);
        load(b, B, h / 64);
        one = may_same && rng().chance(1, 12);
        if (one) B = A;
        pa  = a;
        pb  = one ? pa : (mbedtls_mpi*)b;
        dst = (int)rng().below(4);
        px  = dst == ALIAS_A ? pa : dst == ALIAS_B ? pb : (mbedtls_mpi*)x;
        if (dst == USED) load(x, gens(rng().chance(1, 4) ? 3000 : 200), 1 + (unsigned)rng().below(6));
    }
    // operands which are not the destination keep their values
    void inputs(const char* op)
    {
        if (px != pa && !same(value(*pa), A)) viol("operand-changed", "%s changed its first operand", op);
        if (px != pb && !same(value(*pb), B)) viol("operand-changed", "%s changed its second operand", op);
    }
};

static void binary_ops(const Z& A, const Z& B)
{
    Z w;
#define BIN(NAME, FN, ...)                                                                          \
    {                                                                                               \
        Case c(A, B);                                                                               \
        note("%s dst=%s same=%d A=%s B=%s", NAME, dname(c.dst), c.one, S(c.A).c_str(), S(c.B).c_str()); \
        __VA_ARGS__;                                                                                \
        int r = FN(c.px, c.pa, c.pb);                                                               \
        expect_ok(NAME, r);                                                                         \
        if (r == 0) expect(NAME, *c.px, w);                                                         \
        c.inputs(NAME);                                                                             \
        tally(NAME);                                                                                \
    }
    BIN("add_mpi", mbedtls_mpi_add_mpi, mpz_add(w.v, c.A.v, c.B.v))
    BIN("sub_mpi", mbedtls_mpi_sub_mpi, mpz_sub(w.v, c.A.v, c.B.v))
    BIN("mul_mpi", mbedtls_mpi_mul_mpi, mpz_mul(w.v, c.A.v, c.B.v))
    BIN("add_abs", mbedtls_mpi_add_abs, Z x; Z y; mpz_abs(x.v, c.A.v); mpz_abs(y.v, c.B.v); mpz_add(w.v, x.v, y.v))
    BIN("gcd", mbedtls_mpi_gcd, mpz_gcd(w.v, c.A.v, c.B.v))
    {
        Case c(A, B);
        note("sub_abs dst=%s same=%d A=%s B=%s", dname(c.dst), c.one, S(c.A).c_str(), S(c.B).c_str());
        int r = mbedtls_mpi_sub_abs(c.px, c.pa, c.pb);
        if (mpz_cmpabs(c.A.v, c.B.v) < 0) {
            EXPECT("sub_abs-negative", r != 0);
        } else {
            Z x, y;
            mpz_abs(x.v, c.A.v);
            mpz_abs(y.v, c.B.v);
            mpz_sub(w.v, x.v, y.v);
            expect_ok("sub_abs", r);
            if (r == 0) expect("sub_abs", *c.px, w);
        }
        c.inputs("sub_abs");
        tally("sub_abs");
    }
    { // comparisons
        Case c(A, B);
        note("cmp same=%d A=%s B=%s", c.one, S(c.A).c_str(), S(c.B).c_str());
        int want = sgn(mpz_cmp(c.A.v, c.B.v)), wanta = sgn(mpz_cmpabs(c.A.v, c.B.v));
        if (sgn(mbedtls_mpi_cmp_mpi(c.pa, c.pb)) != want) viol("cmp_mpi", "got %d want %d", mbedtls_mpi_cmp_mpi(c.pa, c.pb), want);
        if (sgn(mbedtls_mpi_cmp_abs(c.pa, c.pb)) != wanta) viol("cmp_abs", "got %d want %d", mbedtls_mpi_cmp_abs(c.pa, c.pb), wanta);
        tally("cmp");
    }
    seenf("bin%zu/%zu/%d%d", mpz_sizeinbase(A.v, 2), mpz_sizeinbase(B.v, 2), mpz_sgn(A.v), mpz_sgn(B.v));
}
static void division(const Z& A, const Z& B)
{
    // Q and R each: absent, fresh, or an operand
    M    a, b, q, r;
    unsigned h = (unsigned)rng().next();
    load(a, A, h);
    load(b, B, h / 64);
    if (rng().chance(1, 2)) load(q, gens(500), 1);
    if (rng().chance(1, 2)) load(r, gens(500), 1);
    int          qm = (int)rng().below(5), rm = (int)rng().below(5);
    mbedtls_mpi* t[] = {nullptr, q, q, a, b};
    mbedtls_mpi* u[] = {nullptr, r, r, a, b};
    mbedtls_mpi *pq = t[qm], *pr = u[rm];
    if (pq == pr && pq != nullptr) pr = r;
    note("div_mpi Q%d R%d A=%s B=%s", qm, rm, S(A).c_str(), S(B).c_str());
    int ret = mbedtls_mpi_div_mpi(pq, pr, a, b);
    if (mpz_sgn(B.v) == 0) {
        EXPECT("div-by-zero", ret != 0);
        tally("div_zero");
    } else {
        Z wq, wr;
        mpz_tdiv_qr(wq.v, wr.v, A.v, B.v);
        expect_ok("div_mpi", ret);
        if (ret == 0) {
            if (pq) expect("div-quotient", *pq, wq);
            if (pr) expect("div-remainder", *pr, wr);
        }
        if (pq != a && pr != a && !same(value(a.v), A)) viol("operand-changed", "division changed A");
        if (pq != b && pr != b && !same(value(b.v), B)) viol("operand-changed", "division changed B");
        tally("divisions");
        if (mpz_cmpabs(A.v, B.v) >= 0) tally("divisions_long");
    }
    { // modular reduction
        Case c(A, B);
        note("mod_mpi dst=%s same=%d A=%s B=%s", dname(c.dst), c.one, S(c.A).c_str(), S(c.B).c_str());
        int rr = mbedtls_mpi_mod_mpi(c.px, c.pa, c.pb);
        if (mpz_sgn(c.B.v) <= 0) {
            EXPECT("mod-undefined", rr != 0);
        } else {
            Z w;
            mpz_mod(w.v, c.A.v, c.B.v);
            expect_ok("mod_mpi", rr);
            if (rr == 0) expect("mod_mpi", *c.px, w);
        }
        c.inputs("mod_mpi");
        tally("reductions");
    }
    seenf("div%zu/%zu/%d%d/%d%d", mpz_sizeinbase(A.v, 2), mpz_sizeinbase(B.v, 2), mpz_sgn(A.v), mpz_sgn(B.v), qm, rm);
}
// quotient digits that the estimate of long division overshoots
static void division_hard()
{
    Z q, b, r, a;
    b = gen(64 * (2 + rng().below(8)));
    if (mpz_sgn(b.v) == 0) return;
    if (rng().chance(1, 2)) { // divisor with a small second limb, top limb just a power
        mpz_set_ui(b.v, 1);
        mpz_mul_2exp(b.v, b.v, 64 * (1 + rng().below(6)) + rng().below(64));
        mpz_add_ui(b.v, b.v, rng().below(5));
    }
    q = gen(64 * (1 + rng().below(8)));
    switch (rng().below(3)) {
    case 0: break;
    case 1: mpz_sub_ui(r.v, b.v, 1); break;
    default: mpz_set_ui(r.v, rng().below(3));
    }
    mpz_mul(a.v, q.v, b.v);
    mpz_add(a.v, a.v, r.v);
    if (rng().chance(1, 4)) mpz_neg(a.v, a.v);
    if (rng().chance(1, 4)) mpz_neg(b.v, b.v);
    division(a, b);
    tally("divisions_hard");
}
static void small_ints(const Z& A, mbedtls_mpi_sint b)
{
    Z w, zb = zint(b);
    {
        Case c(A, zb, false);
        if (c.dst == ALIAS_B) c.px = c.x;
        note("add_int dst=%s A=%s b=%lld", dname(c.dst), S(A).c_str(), (long long)b);
        mpz_add(w.v, A.v, zb.v);
        int r = mbedtls_mpi_add_int(c.px, c.pa, b);
        expect_ok("add_int", r);
        if (r == 0) expect("add_int", *c.px, w);
        c.inputs("add_int");
    }
    {
        Case c(A, zb, false);
        if (c.dst == ALIAS_B) c.px = c.x;
        note("sub_int dst=%s A=%s b=%lld", dname(c.dst), S(A).c_str(), (long long)b);
        mpz_sub(w.v, A.v, zb.v);
        int r = mbedtls_mpi_sub_int(c.px, c.pa, b);
        expect_ok("sub_int", r);
        if (r == 0) expect("sub_int", *c.px, w);
        c.inputs("sub_int");
    }
    {
        Case c(A, zb, false);
        if (c.dst == ALIAS_B) c.px = c.x;
        note("mul_int dst=%s A=%s b=%llu", dname(c.dst), S(A).c_str(), (unsigned long long)b);
        mpz_mul_ui(w.v, A.v, (unsigned long)b);
        int r = mbedtls_mpi_mul_int(c.px, c.pa, (mbedtls_mpi_uint)b);
        expect_ok("mul_int", r);
        if (r == 0) expect("mul_int", *c.px, w);
        c.inputs("mul_int");
    }
    {
        M a, q, r;
        load(a, A, (unsigned)rng().next());
        bool         al = rng().chance(1, 2);
        mbedtls_mpi *pq = al ? (mbedtls_mpi*)a : (mbedtls_mpi*)q, *pr = rng().chance(1, 3) ? nullptr : (mbedtls_mpi*)r;
        note("div_int alias=%d A=%s b=%lld", al, S(A).c_str(), (long long)b);
        int ret = mbedtls_mpi_div_int(pq, pr, a, b);
        if (b == 0) {
            EXPECT("div_int-by-zero", ret != 0);
        } else {
            Z wr;
            mpz_tdiv_qr(w.v, wr.v, A.v, zb.v);
            expect_ok("div_int", ret);
            if (ret == 0) {
                expect("div_int", *pq, w);
                if (pr) expect("div_int-remainder", *pr, wr);
            }
        }
    }
    {
        M a;
        load(a, A, (unsigned)rng().next());
        mbedtls_mpi_uint r = 77;
        note("mod_int A=%s b=%lld", S(A).c_str(), (long long)b);
        int ret = mbedtls_mpi_mod_int(&r, a, b);
        if (b <= 0) {
            EXPECT("mod_int-undefined", ret != 0);
        } else {
            mpz_mod(w.v, A.v, zb.v);
            expect_ok("mod_int", ret);
            if (ret == 0 && mpz_cmp_ui(w.v, r) != 0) viol("mod_int", "got %llu want %s", (unsigned long long)r, S(w).c_str());
        }
        note("cmp_int A=%s b=%lld", S(A).c_str(), (long long)b);
        int want = sgn(mpz_cmp(A.v, zb.v));
        if (sgn(mbedtls_mpi_cmp_int(a, b)) != want) viol("cmp_int", "got %d want %d", mbedtls_mpi_cmp_int(a, b), want);
        note("lset b=%lld", (long long)b);
        expect_ok("lset", mbedtls_mpi_lset(a, b));
        expect("lset", a.v, zb);
        int again = sgn(mbedtls_mpi_cmp_int(a, b));
        if (again != 0) viol("cmp_int-equal", "got %d", again);
    }
    tally("small_ints");
    seenf("int%zu/%lld", mpz_sizeinbase(A.v, 2), (long long)b);
}
static void exponentiation(size_t bits, size_t ebits)
{
    Z N = gen(bits), A = gens(rng().chance(1, 4) ? bits * 2 : bits), E = gen(ebits);
    if (rng().chance(1, 20)) mpz_neg(N.v, N.v);
    if (rng().chance(1, 20)) mpz_neg(E.v, E.v);
    if (!rng().chance(1, 8)) mpz_setbit(N.v, 0);
    if (rng().chance(1, 8) && mpz_sgn(N.v) != 0) { // multiples of the modulus
        mpz_mul_si(A.v, N.v, (long)rng().below(5) - 2);
    }
    M    n, a, e, x, rr;
    unsigned h = (unsigned)rng().next();
    load(n, N, h);
    load(a, A, h / 64);
    load(e, E, h / 4096);
    bool use_rr = rng().chance(1, 2), alias = rng().chance(1, 3);
    for (int k = 0; k < (use_rr ? 3 : 1); k++) {
        note("exp_mod alias=%d rr=%d/%d A=%s E=%s N=%s", alias, use_rr, k, S(A).c_str(), S(E).c_str(), S(N).c_str());
        mbedtls_mpi* px = alias ? (mbedtls_mpi*)a : (mbedtls_mpi*)x;
        int          r  = mbedtls_mpi_exp_mod(px, a, e, n, use_rr ? (mbedtls_mpi*)rr : nullptr);
        if (mpz_sgn(N.v) <= 0 || mpz_even_p(N.v) || mpz_sgn(E.v) < 0) {
            EXPECT("exp-undefined", r != 0);
            tally("exp_undefined");
            break;
        }
        Z w;
        mpz_powm(w.v, A.v, E.v, N.v);
        expect_ok("exp_mod", r);
        if (r != 0) break;
        expect("exp_mod", *px, w);
        if (!alias && !same(value(a.v), A)) viol("operand-changed", "exp_mod changed its base");
        if (!same(value(e.v), E) || !same(value(n.v), N)) viol("operand-changed", "exp_mod changed its exponent or modulus");
        tally("exponentiations");
        if (k > 0) tally("exponentiations_cached");
        // another base and exponent under the same cached constant
        A = gens(bits);
        E = gen(ebits);
        load(a, A, (unsigned)rng().next());
        load(e, E, (unsigned)rng().next());
    }
    seenf("exp%zu/%zu/%zu", mpz_sizeinbase(N.v, 2), mpz_sizeinbase(E.v, 2), mpz_sizeinbase(A.v, 2));
}
static void inversion(size_t bits)
{
    Z N = gen(bits), A = gens(rng().chance(1, 4) ? bits * 2 : bits);
    if (rng().chance(1, 16)) mpz_neg(N.v, N.v);
    if (rng().chance(1, 6)) { // share a factor
        Z f = gen(bits / 4 + 2);
        mpz_mul(N.v, N.v, f.v);
        mpz_mul(A.v, A.v, f.v);
    }
    Case c(A, N, false);
    note("inv_mod dst=%s A=%s N=%s", dname(c.dst), S(A).c_str(), S(N).c_str());
    int r = mbedtls_mpi_inv_mod(c.px, c.pa, c.pb);
    Z   w;
    if (mpz_cmp_ui(N.v, 1) <= 0 || !mpz_invert(w.v, A.v, N.v)) {
        EXPECT("inverse-undefined", r != 0);
        tally("inverse_undefined");
    } else {
        expect_ok("inv_mod", r);
        if (r == 0) expect("inv_mod", *c.px, w);
        c.inputs("inv_mod");
        tally("inversions");
        if (mpz_even_p(N.v)) tally("inversions_even_modulus");
    }
    seenf("inv%zu/%zu/%d", mpz_sizeinbase(N.v, 2), mpz_sizeinbase(A.v, 2), mpz_sgn(A.v));
}
static void bits_and_shifts(const Z& A, size_t maxbits)
{
    M a;
    load(a, A, (unsigned)rng().next());
    size_t bl = mpz_sgn(A.v) == 0 ? 0 : mpz_sizeinbase(A.v, 2);
    note("bit queries A=%s", S(A).c_str());
    if (mbedtls_mpi_bitlen(a) != bl) viol("bitlen", "got %zu want %zu", mbedtls_mpi_bitlen(a), bl);
    if (mbedtls_mpi_size(a) != (bl + 7) / 8) viol("size", "got %zu want %zu", mbedtls_mpi_size(a), (bl + 7) / 8);
    size_t lsb = mpz_sgn(A.v) == 0 ? 0 : mpz_scan1(A.v, 0);
    if (mbedtls_mpi_lsb(a) != lsb) viol("lsb", "got %zu want %zu", mbedtls_mpi_lsb(a), lsb);
    Z m;
    mpz_abs(m.v, A.v);
    for (unsigned k = 0; k < 6; k++) {
        size_t pos = k == 0 ? bl : k == 1 && bl ? bl - 1 : k == 2 ? 64 * rng().below(maxbits / 64 + 2) : rng().below(maxbits + 200);
        note("get_bit %zu A=%s", pos, S(A).c_str());
        if (mbedtls_mpi_get_bit(a, pos) != mpz_tstbit(m.v, pos)) viol("get_bit", "bit %zu is %d", pos, mpz_tstbit(m.v, pos));
        M b;
        load(b, A, (unsigned)rng().next());
        unsigned char v = (unsigned char)rng().below(2);
        note("set_bit %zu=%d A=%s", pos, v, S(A).c_str());
        Z w = m;
        if (v) mpz_setbit(w.v, pos);
        else mpz_clrbit(w.v, pos);
        if (mpz_sgn(A.v) < 0) mpz_neg(w.v, w.v);
        if (mpz_sgn(A.v) != 0 || b.v.s == 1) {
            expect_ok("set_bit", mbedtls_mpi_set_bit(b, pos, v));
            expect("set_bit", b.v, w);
        }
        EXPECT("set_bit-value", mbedtls_mpi_set_bit(b, pos, (unsigned char)(2 + rng().below(254))) != 0);
    }
    for (unsigned k = 0; k < 5; k++) {
        size_t n = k == 0 ? 0 : k == 1 ? 64 * rng().below(8) : k == 2 ? bl : k == 3 ? bl + rng().below(140) : rng().below(maxbits);
        M      l, r;
        load(l, A, (unsigned)rng().next());
        load(r, A, (unsigned)rng().next());
        Z w;
        note("shift_l %zu A=%s", n, S(A).c_str());
        mpz_mul_2exp(w.v, A.v, n);
        expect_ok("shift_l", mbedtls_mpi_shift_l(l, n));
        expect("shift_l", l.v, w);
        note("shift_r %zu A=%s", n, S(A).c_str());
        mpz_tdiv_q_2exp(w.v, A.v, n);
        expect_ok("shift_r", mbedtls_mpi_shift_r(r, n));
        expect("shift_r", r.v, w);
        tally("shifts");
        seenf("sh%zu/%zu", bl, n);
    }
    // copies, swaps, conditional moves, resizing
    Z B = gens(maxbits);
    {
        Case c(A, B, false);
        note("copy A=%s", S(A).c_str());
        expect_ok("copy", mbedtls_mpi_copy(c.px, c.pa));
        expect("copy", *c.px, A);
        c.inputs("copy");
    }
    {
        M x, y;
        load(x, A, (unsigned)rng().next());
        load(y, B, (unsigned)rng().next());
        mbedtls_mpi_swap(x, y);
        expect("swap", x.v, B);
        expect("swap", y.v, A);
    }
    {
        M x, y;
        load(x, A, (unsigned)rng().next());
        load(y, B, (unsigned)rng().next());
        unsigned char f = rng().chance(1, 2) ? 0 : (unsigned char)(1 + rng().below(255));
        note("cond_assign %d A=%s B=%s", f, S(A).c_str(), S(B).c_str());
        expect_ok("cond_assign", mbedtls_mpi_safe_cond_assign(x, y, f));
        expect("cond_assign", x.v, f ? B : A);
        expect("cond_assign-source", y.v, B);
        load(x, A, (unsigned)rng().next());
        note("cond_swap %d A=%s B=%s", f, S(A).c_str(), S(B).c_str());
        expect_ok("cond_swap", mbedtls_mpi_safe_cond_swap(x, y, f));
        expect("cond_swap", x.v, f ? B : A);
        expect("cond_swap", y.v, f ? A : B);
        size_t limbs = rng().below(20);
        note("shrink %zu A=%s", limbs, S(A).c_str());
        load(x, A, (unsigned)rng().next());
        expect_ok("shrink", mbedtls_mpi_shrink(x, limbs));
        expect("shrink", x.v, A);
        EXPECT("shrink-size", x.v.n >= limbs);
        expect_ok("grow", mbedtls_mpi_grow(x, limbs + 3));
        expect("grow", x.v, A);
    }
    tally("bit_cases");
}
static void conversions(const Z& A)
{
    // binary
    M      a, b;
    size_t len = mag(A).size();
    if (mpz_sgn(A.v) == 0) len = 0;
    load(a, A, (unsigned)rng().next());
    Z m;
    mpz_abs(m.v, A.v);
    for (size_t n : {len, len + 1, len + rng().below(40)}) {
        Guard g(n);
        note("write_binary %zu bytes A=%s", n, S(A).c_str());
        int r = mbedtls_mpi_write_binary(a, g.data(), n);
        expect_ok("write_binary", r);
        if (r == 0 && g.str() != m.to_be(n)) viol("write_binary", "got %s", hex(g.str()).c_str());
        EXPECT("write_binary-bounds", g.front_ok());
        Guard in(m.to_be(n));
        in.ro();
        load(b, gens(600), 1);
        note("read_binary %zu bytes %s", n, S(m).c_str());
        expect_ok("read_binary", mbedtls_mpi_read_binary(b, in.data(), n));
        expect("read_binary", b.v, m);
    }
    if (len > 0) {
        size_t n = rng().below(len);
        Guard  g(n);
        note("write_binary into %zu of %zu bytes", n, len);
        EXPECT("write_binary-small", mbedtls_mpi_write_binary(a, g.data(), n) != 0);
        EXPECT("write_binary-bounds", g.front_ok());
    }
    // text
    int radix = (int)rng().range(2, 16);
    if (mpz_sgn(A.v) == 0) load(a, A, 1); // a value that was set
    Bytes text = A.str(radix);
    for (size_t n : {text.size() + 8, text.size() + 40}) {
        std::vector<char> buf(n + 16, 'Q');
        size_t            ol = 0;
        note("write_string radix %d into %zu A=%s", radix, n, S(A).c_str());
        int r = mbedtls_mpi_write_string(a, radix, buf.data(), n, &ol);
        if (r != 0) {
            // asks for at most a factor of two (power-of-two radix estimate), then works
            EXPECT("write_string-need", ol > n);
            EXPECT("write_string-small-untouched", std::all_of(buf.begin() + n, buf.end(), [](char ch) { return ch == 'Q'; }));
            size_t need = ol;
            std::vector<char> big(need + 16, 'Q');
            r = mbedtls_mpi_write_string(a, radix, big.data(), need, &ol);
            n   = need;
            buf = big;
        }
        expect_ok("write_string", r);
        if (r != 0) continue;
        EXPECT("write_string-bounds", std::all_of(buf.begin() + n, buf.end(), [](char ch) { return ch == 'Q'; }));
        std::string s(buf.data());
        if (ol != s.size() + 1) viol("write_string-olen", "olen %zu for %zu characters", ol, s.size());
        Z back;
        if (mpz_set_str(back.v, s.c_str(), radix) != 0 || !same(back, A)) viol("write_string", "radix %d: %s", radix, s.substr(0, 200).c_str());
        tally("texts_written");
    }
    if (text.size() > 8) {
        size_t            n = rng().below(text.size());
        std::vector<char> buf(n + 16, 'Q');
        size_t            ol = 0;
        note("write_string radix %d into %zu (too small) A=%s", radix, n, S(A).c_str());
        EXPECT("write_string-small", mbedtls_mpi_write_string(a, radix, buf.data(), n, &ol) != 0);
        EXPECT("write_string-small-untouched", std::all_of(buf.begin() + n, buf.end(), [](char ch) { return ch == 'Q'; }));
    }
    for (int form = 0; form < 3; form++) {
        std::string t = text;
        if (form == 1) {
            for (auto& ch : t) ch = (char)toupper(ch);
        }
        if (form == 2) t.insert(t[0] == '-' ? 1 : 0, rng().below(40), '0');
        load(b, gens(600), 1);
        note("read_string radix %d %s", radix, t.substr(0, 300).c_str());
        expect_ok("read_string", mbedtls_mpi_read_string(b, radix, t.c_str()));
        expect("read_string", b.v, A);
        tally("texts_read");
    }
    { // invalid characters anywhere, invalid radix
        std::string t   = text;
        char        bad = "xgzG-+ /:@`.\x80\xff"[rng().below(14)];
        size_t      pos = rng().below(t.size() + 1);
        bool sign = bad == '-' && pos == 0 && t[0] != '-';
        if (radix < 16 && rng().chance(1, 2)) {
            bad  = radix < 10 ? char('0' + radix) : char('a' + radix - 10);
            sign = false;
        }
        t.insert(pos, 1, bad);
        if (!sign) {
            note("read_string radix %d of %s", radix, t.substr(0, 300).c_str());
            EXPECT("read_string-invalid", mbedtls_mpi_read_string(b, radix, t.c_str()) != 0);
            tally("texts_invalid");
        }
        int bads[] = {0, 1, 17, -1, 36, INT_MAX, INT_MIN};
        int rx     = bads[rng().below(7)];
        char   buf[64];
        size_t ol;
        EXPECT("read_string-radix", mbedtls_mpi_read_string(b, rx, "1") != 0);
        M one;
        load(one, Z(1), 1);
        EXPECT("write_string-radix", mbedtls_mpi_write_string(one, rx, buf, sizeof buf, &ol) != 0);
    }
    seenf("conv%d/%zu", radix, text.size());
    tally("conversions");
}
struct Feed
{
    Bytes b;
    int   fail;
};
static int feed(void* p, unsigned char* out, size_t n)
{
    Feed* f = static_cast<Feed*>(p);
    if (f->fail) return -77;
    f->b = rng().bytes(n);
    memcpy(out, f->b.data(), n);
    return 0;
}
static void randoms()
{
    for (size_t n : {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9), (size_t)rng().below(1024), size_t(1024)}) {
        M    x;
        Feed f{"", 0};
        load(x, gens(400), 1);
        note("fill_random %zu", n);
        int r = mbedtls_mpi_fill_random(x, n, feed, &f);
        expect_ok("fill_random", r);
        if (r == 0) expect("fill_random", x.v, Z::be(f.b));
        if (n > 0) {
            f.fail = 1;
            EXPECT("fill_random-failure", mbedtls_mpi_fill_random(x, n, feed, &f) != 0);
        }
        seenf("fill%zu", n);
    }
    M    x;
    Feed f{"", 0};
    EXPECT("fill_random-large", mbedtls_mpi_fill_random(x, 1025, feed, &f) != 0);
}
void vh::run()
{
    bool     t = ctx().thorough;
    unsigned n = t ? 8000 : 1500;
    // every pair of tiny values
    if (mine(0)) {
        for (long i = -9; i <= 9; i++)
            for (long j = -9; j <= 9; j++)
                for (int k = 0; k < 6; k++) {
                    binary_ops(Z(i), Z(j));
                    division(Z(i), Z(j));
                    small_ints(Z(i), j);
                }
    }
    for (unsigned i = 0; i < n; i++) {
        size_t mb = i % 10 == 0 ? 8500 : i % 3 == 0 ? 2100 : i % 3 == 1 ? 260 : 700;
        Z      A = gens(mb), B = gens(rng().chance(1, 3) ? mb / 2 + 1 : mb);
        if (rng().chance(1, 8)) { // close to each other
            B = A;
            if (rng().chance(1, 2)) mpz_neg(B.v, B.v);
            mpz_add_ui(B.v, B.v, rng().below(3));
        }
        binary_ops(A, B);
        division(A, B);
        division_hard();
        division_hard();
        small_ints(A, gen_int());
        small_ints(gens(130), gen_int());
        bits_and_shifts(A, mb);
        conversions(gens(mb > 2100 ? 2100 : mb));
        conversions(gens(130));
        inversion(i % 8 == 0 ? 2100 : 300);
        inversion(70);
        exponentiation(i % 16 == 0 ? 2100 : 400, i % 16 == 0 ? 2100 : 700);
        exponentiation(130, rng().chance(1, 2) ? 30 : 260);
        if (i % 16 == 0) randoms();
    }
    sample("gcd, division, exponentiation and conversions compared with GMP for operands up to 8500 bits");
}
