// ---- arithmetic lemmas (all proved) ----
pub open spec fn is_prime(p: int) -> bool { p > 1 && forall|d: int| 1 < d < p ==> #[trigger] (p % d) != 0 }
// number of significant bits
pub open spec fn blen(a: int) -> nat decreases a { if a <= 0 { 0 } else { 1 + blen(a / 2) } }
pub open spec fn prod(vs: Seq<BigInt>, n: int) -> int decreases n { if n <= 0 { 1 } else { prod(vs, n - 1) * vs[n - 1]@ } }

pub proof fn lemma_mod_unique(a: int, m: int, q: int, r: int)
    requires m > 0, a == q * m + r, 0 <= r < m
    ensures a % m == r, a / m == q
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, m, q, r);
}
pub proof fn lemma_mod_small(a: int, m: int)
    requires 0 <= a < m
    ensures a % m == a
{ vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat); }
pub proof fn lemma_mod_range(a: int, m: int)
    requires m > 0
    ensures 0 <= a % m < m, a == m * (a / m) + a % m
{ vstd::arithmetic::div_mod::lemma_mod_bound(a, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m); }
pub proof fn lemma_mod_shift(a: int, k: int, m: int)
    requires m > 0
    ensures (a + k * m) % m == a % m
{
    lemma_mod_range(a, m);
    assert(a + k * m == (a / m + k) * m + a % m) by(nonlinear_arith) requires a == m * (a / m) + a % m;
    lemma_mod_unique(a + k * m, m, a / m + k, a % m);
}
pub proof fn lemma_mod_idem(a: int, m: int)
    requires m > 0
    ensures (a % m) % m == a % m
{ lemma_mod_range(a, m); lemma_mod_small(a % m, m); }
// congruence: same residue iff difference is a multiple
pub proof fn lemma_cong(a: int, b: int, k: int, m: int)
    requires m > 0, a == b + k * m
    ensures a % m == b % m
{ lemma_mod_shift(b, k, m); }
pub proof fn lemma_cong_inv(a: int, b: int, m: int) -> (k: int)
    requires m > 0, a % m == b % m
    ensures a == b + k * m
{
    lemma_mod_range(a, m); lemma_mod_range(b, m);
    let k = a / m - b / m;
    assert(a == b + k * m) by(nonlinear_arith) requires a == m * (a / m) + a % m, b == m * (b / m) + b % m, a % m == b % m, k == a / m - b / m;
    k
}
pub proof fn lemma_mod_mul_cong(a: int, b: int, c: int, m: int)
    requires m > 0, a % m == b % m
    ensures (a * c) % m == (b * c) % m, (c * a) % m == (c * b) % m
{
    let k = lemma_cong_inv(a, b, m);
    assert(a * c == b * c + (k * c) * m) by(nonlinear_arith) requires a == b + k * m;
    lemma_cong(a * c, b * c, k * c, m);
    assert(a * c == c * a && b * c == c * b) by(nonlinear_arith);
}
pub proof fn lemma_mod_add_cong(a: int, b: int, c: int, d: int, m: int)
    requires m > 0, a % m == b % m, c % m == d % m
    ensures (a + c) % m == (b + d) % m, (a - c) % m == (b - d) % m
{
    let k = lemma_cong_inv(a, b, m);
    let l = lemma_cong_inv(c, d, m);
    assert(a + c == b + d + (k + l) * m) by(nonlinear_arith) requires a == b + k * m, c == d + l * m;
    lemma_cong(a + c, b + d, k + l, m);
    assert(a - c == b - d + (k - l) * m) by(nonlinear_arith) requires a == b + k * m, c == d + l * m;
    lemma_cong(a - c, b - d, k - l, m);
}
pub proof fn lemma_mod_mul2(a: int, b: int, c: int, d: int, m: int)
    requires m > 0, a % m == b % m, c % m == d % m
    ensures (a * c) % m == (b * d) % m
{ lemma_mod_mul_cong(a, b, c, m); lemma_mod_mul_cong(c, d, b, m); }

pub proof fn lemma_modulus(a: int, b: int)
    requires b > 0
    ensures trem(trem(a, b) + b, b) == a % b, 0 <= a % b < b
{
    lemma_mod_range(a, b);
    if a >= 0 {
        assert(trem(a, b) == a % b) by(nonlinear_arith) requires a == b * (a / b) + a % b, trem(a, b) == a - (a / b) * b;
        lemma_mod_shift(a % b, 1, b); lemma_mod_idem(a, b);
        let x = a % b + b;
        lemma_mod_range(x, b);
        assert(trem(x, b) == x % b) by(nonlinear_arith) requires x == b * (x / b) + x % b, trem(x, b) == x - (x / b) * b;
    } else {
        let n = -a;
        lemma_mod_range(n, b);
        let t = trem(a, b);
        assert(t == -(n % b)) by(nonlinear_arith) requires n == b * (n / b) + n % b, t == a - (-(n / b)) * b, n == -a;
        let x = t + b;
        assert(x > 0);
        lemma_mod_range(x, b);
        assert(trem(x, b) == x % b) by(nonlinear_arith) requires x == b * (x / b) + x % b, trem(x, b) == x - (x / b) * b;
        // x = a + (n/b)*b + b
        assert(x == a + (n / b + 1) * b) by(nonlinear_arith) requires x == -(n % b) + b, n == b * (n / b) + n % b, n == -a;
        lemma_mod_shift(a, n / b + 1, b);
    }
}
pub proof fn lemma_prime_inv(a: int, p: int) -> (x: int)
    requires is_prime(p), 0 < a < p
    ensures (a * x) % p == 1
    decreases a
{
    if a == 1 { lemma_mod_small(1, p); 1 } else {
        let q = p / a; let r = p % a;
        lemma_mod_range(p, a);
        assert(r != 0);
        let y = lemma_prime_inv(r, p);
        let x = -(q * y);
        // a * x = -a q y = -(p - r) y = r y - p y
        assert(a * x == r * y + (-y) * p) by(nonlinear_arith) requires p == a * q + r, x == -(q * y);
        lemma_mod_shift(r * y, -y, p);
        x
    }
}
pub proof fn lemma_div_exists(a: int, p: int)
    requires p > 1, 0 <= a < p
    ensures is_prime(p) && a != 0 ==> (exists|x: int| #[trigger] (a * x) % p == 1),
        a == 0 ==> !(exists|x: int| #[trigger] (a * x) % p == 1)
{
    if is_prime(p) && a != 0 { let x = lemma_prime_inv(a, p); assert((a * x) % p == 1); }
    if a == 0 {
        assert forall|x: int| #[trigger] (a * x) % p != 1 by { assert(a * x == 0) by(nonlinear_arith) requires a == 0; lemma_mod_small(0, p); }
    }
}
// (left * inv) % p times right is left
pub proof fn lemma_div_all(l: int, r: int, p: int)
    requires p > 1
    ensures forall|x: int| (#[trigger] (r * x) % p == 1) ==> (((l * x) % p) * r) % p == l % p
{
    assert forall|x: int| (#[trigger] (r * x) % p == 1) implies (((l * x) % p) * r) % p == l % p by {
        lemma_mod_idem(l * x, p);
        lemma_mod_mul_cong((l * x) % p, l * x, r, p);
        assert((l * x) * r == l * (r * x)) by(nonlinear_arith);
        lemma_mod_small(1, p);
        lemma_mod_mul_cong(r * x, 1, l, p);
    }
}
pub proof fn lemma_idiv(l: int, r: int, p: int)
    requires 0 <= l < p, 0 <= r < p
    ensures r > 0 ==> 0 <= l / r < p
{
    if r > 0 {
        lemma_mod_range(l, r);
        assert(0 <= l / r <= l) by(nonlinear_arith) requires l == r * (l / r) + l % r, 0 <= l % r < r, l >= 0, r > 0;
    }
}
// in a prime field a product of invertible elements is invertible
pub proof fn lemma_prime_mul_nonzero(a: int, b: int, p: int)
    requires is_prime(p), a % p != 0, b % p != 0
    ensures (a * b) % p != 0
{
    lemma_mod_range(a, p); lemma_mod_range(b, p);
    let x = lemma_prime_inv(a % p, p);
    lemma_mod_idem(a, p);
    lemma_mod_mul_cong(a % p, a, x, p);
    if (a * b) % p == 0 {
        lemma_mod_small(0, p);
        lemma_mod_mul_cong(a * b, 0, x, p);
        assert((a * b) * x == (a * x) * b) by(nonlinear_arith);
        assert(0 * x == 0);
        lemma_mod_small(1, p);
        lemma_mod_mul_cong(a * x, 1, b, p);
        assert(1 * b == b);
    }
}
pub proof fn lemma_prod_nonzero(vs: Seq<BigInt>, n: int, p: int)
    requires is_prime(p), 0 <= n <= vs.len(), forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i])@ % p != 0
    ensures prod(vs, n) % p != 0
    decreases n
{
    if n == 0 { lemma_mod_small(1, p); } else {
        lemma_prod_nonzero(vs, n - 1, p);
        lemma_prime_mul_nonzero(prod(vs, n - 1), vs[n - 1]@, p);
    }
}
pub proof fn lemma_multi_inv_step(part: int, pr: int, inv: int, v: int, p: int)
    requires p > 1, part % p == pr % p, (inv * (pr * v)) % p == 1
    ensures (((part * inv) % p) * v) % p == 1, (((inv * v) % p) * pr) % p == 1
{
    lemma_mod_idem(part * inv, p);
    lemma_mod_mul_cong((part * inv) % p, part * inv, v, p);
    assert((part * inv) * v == part * (inv * v)) by(nonlinear_arith);
    lemma_mod_mul_cong(part, pr, inv * v, p);
    assert(pr * (inv * v) == inv * (pr * v)) by(nonlinear_arith);
    lemma_mod_idem(inv * v, p);
    lemma_mod_mul_cong((inv * v) % p, inv * v, pr, p);
    assert((inv * v) * pr == inv * (pr * v)) by(nonlinear_arith);
}
// ---- powers of two, bit lengths ----
pub proof fn lemma_ipow_2(n: nat) ensures ipow(2, n) == ipow2(n), ipow2(n) > 0 decreases n
{ if n > 0 { lemma_ipow_2((n - 1) as nat); } }
pub proof fn lemma_ipow_2_all() ensures forall|n: nat| #[trigger] ipow(2, n) == ipow2(n), forall|n: nat| #[trigger] ipow2(n) > 0
{
    assert forall|n: nat| #[trigger] ipow(2, n) == ipow2(n) by { lemma_ipow_2(n); }
    assert forall|n: nat| #[trigger] ipow2(n) > 0 by { lemma_ipow_2(n); }
}
pub proof fn lemma_blen_bound(a: int)
    requires a >= 0
    ensures a < ipow2(blen(a)), a > 0 ==> blen(a) >= 1 && ipow2((blen(a) - 1) as nat) <= a
    decreases a
{
    if a > 0 {
        lemma_blen_bound(a / 2);
        if a / 2 > 0 { assert(blen(a) >= 2); }
        else { assert(a == 1); assert(blen(0) == 0); assert(blen(1) == 1 + blen(0)) ; assert(ipow2(0) == 1); assert(ipow2(1) == 2) by { reveal_with_fuel(ipow2, 3); } }
    }
}
pub proof fn lemma_ipow2_mono(a: nat, b: nat) requires a <= b ensures ipow2(a) <= ipow2(b), 0 < ipow2(a) decreases b
{ lemma_ipow_2(a); if a < b { lemma_ipow2_mono(a, (b - 1) as nat); } }
pub proof fn lemma_bitlen_unique(a: int, n: nat)
    requires a > 0, is_bitlen(a, n)
    ensures n == blen(a)
{
    lemma_blen_bound(a);
    if n < blen(a) { lemma_ipow2_mono(n, (blen(a) - 1) as nat); }
    if n > blen(a) { lemma_ipow2_mono(blen(a), (n - 1) as nat); }
}
pub proof fn lemma_blen_all()
    ensures forall|a: int, n: nat| a >= 0 && #[trigger] is_bitlen(a, n) ==> n == blen(a)
{
    assert forall|a: int, n: nat| a >= 0 && #[trigger] is_bitlen(a, n) implies n == blen(a) by { if a > 0 { lemma_bitlen_unique(a, n); } }
}
pub proof fn lemma_blen_mono(a: int, b: int) requires 0 <= a <= b ensures blen(a) <= blen(b) decreases b
{ if a > 0 { lemma_blen_mono(a / 2, b / 2); } }
pub proof fn lemma_ipow2_add(a: nat, b: nat) ensures ipow2(a + b) == ipow2(a) * ipow2(b) decreases a
{
    if a > 0 {
        lemma_ipow2_add((a - 1) as nat, b);
        assert((2 * ipow2((a - 1) as nat)) * ipow2(b) == 2 * (ipow2((a - 1) as nat) * ipow2(b))) by(nonlinear_arith);
        assert(((a - 1) as nat + b) as nat == (a + b - 1) as nat);
    } else { assert(1 * ipow2(b) == ipow2(b)); }
}
// a & (2^b - 1) keeps the b low bits
pub proof fn lemma_and_mask(a: int, b: nat)
    requires a >= 0
    ensures nat_and(a, ipow2(b) - 1) == a % ipow2(b)
    decreases a, b
{
    lemma_ipow_2(b);
    if a == 0 { lemma_mod_small(0, ipow2(b)); }
    else if b == 0 { assert(ipow2(0) == 1); assert(a % 1 == 0) by(nonlinear_arith); }
    else {
        let m = ipow2((b - 1) as nat);
        lemma_ipow_2((b - 1) as nat);
        assert((ipow2(b) - 1) / 2 == m - 1 && (ipow2(b) - 1) % 2 == 1 && ipow2(b) - 1 > 0);
        lemma_and_mask(a / 2, (b - 1) as nat);
        lemma_mod_range(a / 2, m);
        let q = (a / 2) / m;
        let r = 2 * ((a / 2) % m) + a % 2;
        assert(a == q * ipow2(b) + r) by(nonlinear_arith) requires a == 2 * (a / 2) + a % 2, a / 2 == m * q + (a / 2) % m, ipow2(b) == 2 * m, r == 2 * ((a / 2) % m) + a % 2;
        lemma_mod_unique(a, ipow2(b), q, r);
    }
}
pub proof fn lemma_shift_facts(x: int, k: int, p: int)
    requires 0 <= x < p, 0 <= k < p, p > 6, p % 2 == 1
    ensures
        forall|j: nat| #[trigger] nat_and(x * ipow2(j), ipow2(blen(p)) - 1) == (x * ipow2(j)) % ipow2(blen(p)),
        forall|j: nat| 0 <= #[trigger] (x * ipow2(j)),
        0 <= ipow2(blen(p)) - 1,
        k >= blen(p) ==> (x * ipow2(k as nat)) % ipow2(blen(p)) == 0,
        0int % p == 0,
        k >= blen(x) ==> x / ipow2(k as nat) == 0,
        0 <= x / ipow2(k as nat) <= x,
{
    let b = blen(p);
    assert forall|j: nat| 0 <= #[trigger] (x * ipow2(j)) by { lemma_ipow_2(j); assert(x * ipow2(j) >= 0) by(nonlinear_arith) requires x >= 0, ipow2(j) > 0; }
    assert forall|j: nat| #[trigger] nat_and(x * ipow2(j), ipow2(blen(p)) - 1) == (x * ipow2(j)) % ipow2(blen(p)) by { lemma_ipow_2(j); assert(x * ipow2(j) >= 0) by(nonlinear_arith) requires x >= 0, ipow2(j) > 0; lemma_and_mask(x * ipow2(j), b); }
    lemma_ipow_2(b);
    lemma_mod_small(0, p);
    if k >= b {
        lemma_ipow2_add((k - b) as nat, b);
        lemma_ipow_2((k - b) as nat);
        assert(((k - b) as nat + b) as nat == k as nat);
        let c = ipow2((k - b) as nat);
        assert(x * ipow2(k as nat) == 0 + (x * c) * ipow2(b)) by(nonlinear_arith) requires ipow2(k as nat) == c * ipow2(b);
        lemma_mod_shift(0, x * c, ipow2(b));
        lemma_mod_small(0, ipow2(b));
    }
    lemma_ipow_2(k as nat);
    let d = ipow2(k as nat);
    if k >= blen(x) {
        lemma_blen_bound(x);
        lemma_ipow2_mono(blen(x), k as nat);
        assert(x == 0 * d + x);
        lemma_mod_unique(x, d, 0, x);
    }
    lemma_mod_range(x, d);
    assert(0 <= x / d <= x) by(nonlinear_arith) requires x == d * (x / d) + x % d, 0 <= x % d < d, x >= 0, d > 0;
}
pub proof fn lemma_tdiv_facts(a: int, b: int) requires a >= 0, b > 0 ensures tdiv(a, b) == a / b {}
// ---- bit vectors ----
pub proof fn lemma_bits_push0(s: Seq<u8>)
    requires all_bits(s)
    ensures all_bits(s.push(0)), bits_val(s.push(0)) == bits_val(s)
    decreases s.len()
{
    let t = s.push(0);
    if s.len() == 0 {
        assert(t.subrange(1, 1) =~= Seq::<u8>::empty());
        assert(bits_val(Seq::<u8>::empty()) == 0);
    } else {
        let s1 = s.subrange(1, s.len() as int);
        assert(t.subrange(1, t.len() as int) =~= s1.push(0));
        lemma_bits_push0(s1);
    }
}
pub proof fn lemma_bits_flip(s: Seq<u8>, t: Seq<u8>)
    requires all_bits(s), s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == 1 - s[j]
    ensures all_bits(t), bits_val(t) == ipow2(s.len()) - 1 - bits_val(s)
    decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.subrange(1, s.len() as int);
        let t1 = t.subrange(1, t.len() as int);
        assert forall|j: int| 0 <= j < s1.len() implies #[trigger] t1[j] == 1 - s1[j] by { assert(t[j + 1] == 1 - s[j + 1]); }
        assert(all_bits(s1)) by { assert forall|j: int| 0 <= j < s1.len() implies (#[trigger] s1[j] == 0 || s1[j] == 1) by { assert(s[j + 1] == 0 || s[j + 1] == 1); } }
        lemma_bits_flip(s1, t1);
        assert(s[0] == 0 || s[0] == 1);
        assert(t[0] == 1 - s[0]);
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j] == 0 || t[j] == 1) by { assert(s[j] == 0 || s[j] == 1); }
        assert(s1.len() == (s.len() - 1) as nat);
    }
}
