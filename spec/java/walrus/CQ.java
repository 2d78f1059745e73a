package walrus;

import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * TLC value: an exact complex rational (re + i*im)/den, or the non-number NaN
 * (what a float NaN/inf recorded from the implementation becomes; it is
 * unequal to everything and no comparison with it is true).
 */
public final class CQ extends Value {
  private static final long serialVersionUID = 1L;
  static final BigInteger B0 = BigInteger.ZERO, B1 = BigInteger.ONE;
  public static final CQ NAN = new CQ(B0, B0, B1, true);
  public static final CQ ZERO = new CQ(B0, B0, B1, false);
  public static final CQ ONE = new CQ(B1, B0, B1, false);
  public static final CQ I = new CQ(B0, B1, B1, false);

  final BigInteger re, im, den;
  final boolean nan;

  private CQ(BigInteger re, BigInteger im, BigInteger den, boolean nan) {
    this.re = re; this.im = im; this.den = den; this.nan = nan;
  }

  private static int tz(BigInteger x) { return x.signum() == 0 ? Integer.MAX_VALUE : x.getLowestSetBit(); }

  static CQ make(BigInteger re, BigInteger im, BigInteger den) {
    if (den.signum() == 0) return NAN;
    if (den.signum() < 0) { re = re.negate(); im = im.negate(); den = den.negate(); }
    if (re.signum() == 0 && im.signum() == 0) return ZERO;
    if (den.equals(B1)) return new CQ(re, im, den, false);
    int t = Math.min(tz(den), Math.min(tz(re), tz(im)));
    if (t > 0) { re = re.shiftRight(t); im = im.shiftRight(t); den = den.shiftRight(t); }
    if (den.bitLength() - 1 != den.getLowestSetBit()) {
      BigInteger g = den.gcd(re);
      if (!g.equals(B1)) g = g.gcd(im);
      if (!g.equals(B1)) { re = re.divide(g); im = im.divide(g); den = den.divide(g); }
    }
    return new CQ(re, im, den, false);
  }

  static CQ of(long n) { return n == 0 ? ZERO : new CQ(BigInteger.valueOf(n), B0, B1, false); }

  static CQ frac(long n, long d) { return make(BigInteger.valueOf(n), B0, BigInteger.valueOf(d)); }

  static CQ ofDouble(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
    if (x == 0) return ZERO;
    long bits = Double.doubleToLongBits(x);
    int e = (int) ((bits >> 52) & 0x7ff);
    long m = bits & ((1L << 52) - 1);
    if (e == 0) e++; else m |= 1L << 52;
    e -= 1075;
    BigInteger b = BigInteger.valueOf(bits < 0 ? -m : m);
    return e >= 0 ? make(b.shiftLeft(e), B0, B1) : make(b, B0, B1.shiftLeft(-e));
  }

  CQ add(CQ o) {
    if (nan || o.nan) return NAN;
    if (this == ZERO) return o;
    if (o == ZERO) return this;
    if (den.equals(o.den)) return make(re.add(o.re), im.add(o.im), den);
    int t1 = den.getLowestSetBit(), t2 = o.den.getLowestSetBit();
    if (den.bitLength() - 1 == t1 && o.den.bitLength() - 1 == t2) {
      if (t1 >= t2) { int s = t1 - t2; return make(re.add(o.re.shiftLeft(s)), im.add(o.im.shiftLeft(s)), den); }
      int s = t2 - t1; return make(re.shiftLeft(s).add(o.re), im.shiftLeft(s).add(o.im), o.den);
    }
    return make(re.multiply(o.den).add(o.re.multiply(den)), im.multiply(o.den).add(o.im.multiply(den)), den.multiply(o.den));
  }

  CQ neg() { return nan ? NAN : new CQ(re.negate(), im.negate(), den, false); }
  CQ sub(CQ o) { return add(o.neg()); }

  CQ mul(CQ o) {
    if (nan || o.nan) return NAN;
    if (this == ZERO || o == ZERO) return ZERO;
    if (im.signum() == 0) {
      if (o.im.signum() == 0) return make(re.multiply(o.re), B0, den.multiply(o.den));
      return make(re.multiply(o.re), re.multiply(o.im), den.multiply(o.den));
    }
    if (o.im.signum() == 0) return make(re.multiply(o.re), im.multiply(o.re), den.multiply(o.den));
    return make(re.multiply(o.re).subtract(im.multiply(o.im)), re.multiply(o.im).add(im.multiply(o.re)), den.multiply(o.den));
  }

  CQ conj() { return nan ? NAN : new CQ(re, im.negate(), den, false); }

  CQ inv() {
    if (nan) return NAN;
    if (im.signum() == 0) return re.signum() == 0 ? NAN : make(den, B0, re);
    BigInteger m = re.multiply(re).add(im.multiply(im));
    return make(re.multiply(den), im.negate().multiply(den), m);
  }

  CQ div(CQ o) { return o.im.signum() == 0 && !o.nan && !nan ? make(re.multiply(o.den), im.multiply(o.den), den.multiply(o.re)) : mul(o.inv()); }
  CQ real() { return nan ? NAN : make(re, B0, den); }
  CQ imag() { return nan ? NAN : make(im, B0, den); }
  CQ abs2() { return nan ? NAN : make(re.multiply(re).add(im.multiply(im)), B0, den.multiply(den)); }

  int cmpRe(CQ o) { return re.multiply(o.den).compareTo(o.re.multiply(den)); }

  /** nearest multiple of 2^-bits (both parts) */
  CQ round(int bits) {
    if (nan) return NAN;
    if (den.bitLength() - 1 == den.getLowestSetBit() && den.bitLength() - 1 <= bits) return this;
    return make(re.shiftLeft(bits + 1).add(den).divide(den.shiftLeft(1)), im.shiftLeft(bits + 1).add(den).divide(den.shiftLeft(1)), B1.shiftLeft(bits));
  }

  double dbl() { return nan ? Double.NaN : new java.math.BigDecimal(re).divide(new java.math.BigDecimal(den), new java.math.MathContext(25)).doubleValue(); }
  double dblIm() { return nan ? Double.NaN : new java.math.BigDecimal(im).divide(new java.math.BigDecimal(den), new java.math.MathContext(25)).doubleValue(); }

  @Override public byte getKind() { return USERVALUE; }
  @Override public String getKindString() { return "exact complex rational"; }
  @Override public int compareTo(Object obj) {
    if (!(obj instanceof CQ)) return obj == this ? 0 : 1;
    CQ o = (CQ) obj;
    if (nan || o.nan) return o == this ? 0 : (nan ? (o.nan ? 0 : 1) : -1);
    int c = cmpRe(o);
    return c != 0 ? c : im.multiply(o.den).compareTo(o.im.multiply(den));
  }
  @Override public boolean equals(Object o) { return o instanceof CQ && compareTo(o) == 0; }
  @Override public boolean member(Value v) { return false; }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) { return ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { return exs.length == 0 ? this : exs[exs.length - 1].value; }
  @Override public int size() { return 1; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, "CQ"), canon()); }
  @Override public void write(IValueOutputStream vos) throws java.io.IOException { throw new java.io.IOException("CQ values cannot be spilled to disk"); }
  String canon() { return nan ? "nan" : re + (im.signum() == 0 ? "" : (im.signum() > 0 ? "+" : "") + im + "i") + (den.equals(B1) ? "" : "/" + den); }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    if (nan) return sb.append("NaN");
    String c = canon();
    if (c.length() <= 40) return sb.append(c);
    sb.append("~").append(dbl());
    if (im.signum() != 0) sb.append(im.signum() > 0 ? "+" : "").append(dblIm()).append("i");
    return sb;
  }
}
