// Fixed-point decimals: an integer number of 10^-18 units ("attos"), with the rounding
// the ledger uses (truncation toward zero after multiplication and division).
module dec {
  pure val ONE: int = 10^18
  pure def i(n: int): int = n * ONE
  // n / 10^d as a decimal
  pure def frac(n: int, d: int): int = (n * ONE) / (10^d)

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def dmin(a: int, b: int): int = if (a < b) a else b
  pure def dmax(a: int, b: int): int = if (a > b) a else b
  pure def clamp(x: int, lo: int, hi: int): int = if (x < lo) lo else if (x > hi) hi else x

  // division truncating toward zero, for b != 0
  pure def tdiv(a: int, b: int): int = {
    val q = abs(a) / abs(b)
    if ((a < 0) != (b < 0)) -q else q
  }
  pure def dmul(a: int, b: int): int = tdiv(a * b, ONE)
  pure def ddiv(a: int, b: int): int = if (b == 0) 0 else tdiv(a * ONE, b)

  // rounding to a token's divisibility (unit in attos, amount >= 0)
  pure def roundDown(v: int, unit: int): int = (v / unit) * unit
  pure def roundUp(v: int, unit: int): int = ((v + unit - 1) / unit) * unit

  // Number of bits of |v|
  pure def bits(v: int): int = {
    val a = abs(v)
    0.to(191).fold(0, (m, k) => if (a >= 2^k and k + 1 > m) k + 1 else m)
  }

  // What remains of a decimal stored with a 5 bit exponent and 11 bit significand.
  // ok is false when it cannot be stored.
  pure def dfloat(v: int): { ok: bool, v: int } = {
    val pos = dmax((bits(v) * 30103) / 100000, 3)
    val unit = 10^(pos - 3)
    val sig = tdiv(v, unit)
    val big = sig > 1024 or sig < -1023
    val sig2 = if (big) tdiv(sig, 10) else sig
    val e2 = if (big) pos - 2 else pos - 3
    if (v == 0) { ok: true, v: 0 } else { ok: e2 < 32 and sig2 <= 1024 and sig2 >= -1023, v: sig2 * 10^e2 }
  }

  // Two quantities so close that rounding could decide their order: within a billionth of each
  // other without being equal, or equal only after rounding.
  pure def close(a: int, b: int): bool =
    if (a == b) a % (10^6) != 0 else abs(a - b) <= 10^9 + abs(a) / (10^12)

  run dfloatTest = all {
    assert(dfloat(i(1)) == { ok: true, v: i(1) }),
    assert(dfloat(frac(15, 2)) == { ok: true, v: frac(15, 2) }),
    assert(dfloat(frac(123456, 3)) == { ok: true, v: i(123) }),
    assert(dfloat(i(10000)) == { ok: true, v: i(10000) }),
    assert(dfloat(frac(1024, 3)).v == frac(1024, 3)),
    assert(dfloat(frac(1025, 3)).v == frac(102, 2)),
    assert(dmul(-3, frac(5, 1)) == -1),
    assert(roundUp(11, 10) == 20),
    assert(bits(1023) == 10),
  }
}
