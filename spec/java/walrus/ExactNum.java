package walrus;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluation of the operators of ExactNum.tla on exact complex rationals. */
public final class ExactNum {
  static final int PREC = 240;

  static CQ n(Value v) {
    if (v instanceof CQ) return (CQ) v;
    if (v instanceof IntValue) return CQ.of(((IntValue) v).val);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof LazyValue || v instanceof FcnLambdaValue) throw new RuntimeException("unevaluated value where a number is expected: " + v);
    throw new RuntimeException("not a number: " + v);
  }

  static int i(Value v) { return ((IntValue) v).val; }

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  /** number syntax: part or part;part, part = hex float | n | n/d */
  static CQ parse(String s) {
    int k = s.indexOf(';');
    if (k < 0) return part(s);
    return part(s.substring(0, k)).add(part(s.substring(k + 1)).mul(CQ.I));
  }

  static CQ part(String s) {
    try {
      if (s.indexOf('x') >= 0) return CQ.ofDouble(Double.parseDouble(s));
      int k = s.indexOf('/');
      if (k >= 0) return CQ.make(new BigInteger(s.substring(0, k)), CQ.B0, new BigInteger(s.substring(k + 1)));
      return CQ.make(new BigInteger(s), CQ.B0, CQ.B1);
    } catch (NumberFormatException e) { return CQ.NAN; }
  }

  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "Num", module = "ExactNum", warn = false)
  public static Value num(Value v) { return n(v); }

  @TLAPlusOperator(identifier = "Nums", module = "ExactNum", warn = false)
  public static Value nums(Value v) {
    if (v instanceof CQ || v instanceof IntValue || v instanceof StringValue) return n(v);
    Value[] e = elems(v);
    Value[] r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = nums(e[i]);
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "Frac", module = "ExactNum", warn = false)
  public static Value frac(Value a, Value b) { return CQ.frac(i(a), i(b)); }
  @TLAPlusOperator(identifier = "Cx", module = "ExactNum", warn = false)
  public static Value cx(Value a, Value b) { return n(a).add(n(b).mul(CQ.I)); }
  @TLAPlusOperator(identifier = "Add", module = "ExactNum", warn = false)
  public static Value add(Value a, Value b) { return n(a).add(n(b)); }
  @TLAPlusOperator(identifier = "Sub", module = "ExactNum", warn = false)
  public static Value sub(Value a, Value b) { return n(a).sub(n(b)); }
  @TLAPlusOperator(identifier = "Mul", module = "ExactNum", warn = false)
  public static Value mul(Value a, Value b) { return n(a).mul(n(b)); }
  @TLAPlusOperator(identifier = "Div", module = "ExactNum", warn = false)
  public static Value div(Value a, Value b) { return n(a).div(n(b)); }
  @TLAPlusOperator(identifier = "Neg", module = "ExactNum", warn = false)
  public static Value neg(Value a) { return n(a).neg(); }
  @TLAPlusOperator(identifier = "Conj", module = "ExactNum", warn = false)
  public static Value conj(Value a) { return n(a).conj(); }
  @TLAPlusOperator(identifier = "Re", module = "ExactNum", warn = false)
  public static Value re(Value a) { return n(a).real(); }
  @TLAPlusOperator(identifier = "Im", module = "ExactNum", warn = false)
  public static Value im(Value a) { return n(a).imag(); }
  @TLAPlusOperator(identifier = "Abs2", module = "ExactNum", warn = false)
  public static Value abs2(Value a) { return n(a).abs2(); }
  @TLAPlusOperator(identifier = "Pow", module = "ExactNum", warn = false)
  public static Value pow(Value a, Value k) {
    int e = i(k);
    CQ x = n(a);
    if (e < 0) { x = x.inv(); e = -e; }
    CQ r = CQ.ONE;
    while (e > 0) { if ((e & 1) == 1) r = r.mul(x); x = x.mul(x); e >>= 1; }
    return r;
  }
  @TLAPlusOperator(identifier = "IsNum", module = "ExactNum", warn = false)
  public static Value isNum(Value a) { return b(!n(a).nan); }
  @TLAPlusOperator(identifier = "IsRealNum", module = "ExactNum", warn = false)
  public static Value isReal(Value a) { CQ x = n(a); return b(!x.nan && x.im.signum() == 0); }
  @TLAPlusOperator(identifier = "IsInteger", module = "ExactNum", warn = false)
  public static Value isInteger(Value a) { CQ x = n(a); return b(!x.nan && x.im.signum() == 0 && x.den.equals(CQ.B1)); }
  @TLAPlusOperator(identifier = "ToInt", module = "ExactNum", warn = false)
  public static Value toInt(Value a) { return IntValue.gen(n(a).re.divide(n(a).den).intValueExact()); }
  @TLAPlusOperator(identifier = "Eq", module = "ExactNum", warn = false)
  public static Value eq(Value a, Value c) { CQ x = n(a), y = n(c); return b(!x.nan && !y.nan && x.compareTo(y) == 0); }
  @TLAPlusOperator(identifier = "Leq", module = "ExactNum", warn = false)
  public static Value leq(Value a, Value c) { CQ x = n(a), y = n(c); return b(!x.nan && !y.nan && x.cmpRe(y) <= 0); }
  @TLAPlusOperator(identifier = "Lt", module = "ExactNum", warn = false)
  public static Value lt(Value a, Value c) { CQ x = n(a), y = n(c); return b(!x.nan && !y.nan && x.cmpRe(y) < 0); }
  @TLAPlusOperator(identifier = "Within", module = "ExactNum", warn = false)
  public static Value within(Value a, Value c, Value tol) {
    CQ x = n(a), y = n(c), t = n(tol);
    if (x.nan || y.nan || t.nan) return b(false);
    return b(t.re.signum() >= 0 && x.sub(y).abs2().cmpRe(t.mul(t)) <= 0);
  }
  @TLAPlusOperator(identifier = "Round", module = "ExactNum", warn = false)
  public static Value round(Value a, Value k) { return n(a).round(i(k)); }

  static CQ sqrt(CQ x) {
    if (x.nan || x.re.signum() < 0) return CQ.NAN;
    if (x.re.signum() == 0) return CQ.ZERO;
    // scale so that the result has about PREC significant bits
    int mag = x.re.bitLength() - x.den.bitLength();
    int s = PREC - mag / 2;
    if (s < 0) s = 0;
    BigInteger v = x.re.shiftLeft(2 * s).divide(x.den);
    return CQ.make(v.sqrt(), CQ.B0, CQ.B1.shiftLeft(s));
  }
  @TLAPlusOperator(identifier = "Sqrt", module = "ExactNum", warn = false)
  public static Value sqrtV(Value a) { return sqrt(n(a)); }
  @TLAPlusOperator(identifier = "Abs", module = "ExactNum", warn = false)
  public static Value absV(Value a) { CQ x = n(a); return x.nan ? CQ.NAN : x.im.signum() == 0 ? (x.re.signum() < 0 ? x.neg() : x) : sqrt(x.abs2()); }

  /** exp(z) by halving and Taylor, about PREC bits */
  static CQ exp(CQ z) {
    if (z.nan) return CQ.NAN;
    int k = 0;
    CQ y = z.round(PREC + 80);
    CQ q = CQ.frac(1, 16);
    while (y.abs2().cmpRe(q) > 0) { y = y.mul(CQ.frac(1, 2)); k++; if (k > 40) return CQ.NAN; }
    CQ term = CQ.ONE, sum = CQ.ONE;
    for (int j = 1; j < 90; j++) { term = term.mul(y).mul(CQ.frac(1, j)).round(PREC + 80); sum = sum.add(term); if (term == CQ.ZERO) break; }
    for (int j = 0; j < k; j++) sum = sum.mul(sum).round(PREC + 80);
    return sum;
  }
  @TLAPlusOperator(identifier = "Exp", module = "ExactNum", warn = false)
  public static Value expV(Value a) { return exp(n(a)); }

  /** log of a positive real, Newton on exp */
  static CQ log(CQ x) {
    if (x.nan || x.re.signum() <= 0) return CQ.NAN;
    int e = x.re.bitLength() - x.den.bitLength();
    CQ m = e >= 0 ? CQ.make(x.re, CQ.B0, x.den.shiftLeft(e)) : CQ.make(x.re.shiftLeft(-e), CQ.B0, x.den);
    return ln1(m).add(CQ.of(e).mul(LN2)).round(PREC + 40);
  }
  static CQ ln1(CQ m) { // m in (1/2, 2): 2 artanh((m-1)/(m+1))
    CQ t = m.sub(CQ.ONE).div(m.add(CQ.ONE)).round(PREC + 60);
    CQ t2 = t.mul(t).round(PREC + 60), p = t, s = CQ.ZERO;
    for (int j = 1; j < 400; j += 2) { s = s.add(p.mul(CQ.frac(1, j)).round(PREC + 60)); p = p.mul(t2).round(PREC + 60); if (p == CQ.ZERO) break; }
    return s.mul(CQ.of(2));
  }
  static final CQ LN2 = ln1(CQ.frac(4, 3)).add(ln1(CQ.frac(3, 2)));
  @TLAPlusOperator(identifier = "Log", module = "ExactNum", warn = false)
  public static Value logV(Value a) { return log(n(a)); }

  /** sum / product of all values of a function or sequence */
  static Value[] vals(Value f) {
    if (f instanceof TupleValue) return ((TupleValue) f).elems;
    if (f instanceof FcnRcdValue) return ((FcnRcdValue) f).values;
    Value r = f.toFcnRcd();
    if (r instanceof FcnRcdValue) return ((FcnRcdValue) r).values;
    throw new RuntimeException("not a function: " + f);
  }
  @TLAPlusOperator(identifier = "SumF", module = "ExactNum", warn = false)
  public static Value sumF(Value f) { CQ s = CQ.ZERO; for (Value v : vals(f)) s = s.add(n(v)); return s; }
  @TLAPlusOperator(identifier = "ProdF", module = "ExactNum", warn = false)
  public static Value prodF(Value f) { CQ s = CQ.ONE; for (Value v : vals(f)) s = s.mul(n(v)); return s; }
  /** [x |-> weight] sums of pairs <<number, number>>; used for value-and-scale recursions */
  @TLAPlusOperator(identifier = "MaxAbs", module = "ExactNum", warn = false)
  public static Value maxAbs(Value f) {
    CQ m = CQ.ZERO;
    java.util.ArrayDeque<Value> st = new java.util.ArrayDeque<>();
    st.push(f);
    while (!st.isEmpty()) {
      Value v = st.pop();
      if (v instanceof CQ || v instanceof IntValue || v instanceof StringValue) { CQ a = n(v).abs2(); if (a.nan) return CQ.NAN; if (a.cmpRe(m) > 0) m = a; }
      else for (Value w : vals(v)) st.push(w);
    }
    return sqrt(m);
  }
  @TLAPlusOperator(identifier = "Show", module = "ExactNum", warn = false)
  public static Value show(Value a) { CQ x = n(a); return new StringValue(x.nan ? "nan" : x.im.signum() == 0 ? "" + x.dbl() : x.dbl() + (x.im.signum() > 0 ? "+" : "") + x.dblIm() + "j"); }
  @TLAPlusOperator(identifier = "Hex", module = "ExactNum", warn = false)
  public static Value hex(Value a) { CQ x = n(a); return new StringValue(x.nan ? "nan" : Double.toHexString(x.dbl()) + ";" + Double.toHexString(x.dblIm())); }
  @TLAPlusOperator(identifier = "++", module = "ExactNum", warn = false)
  public static Value pAdd(Value a, Value b) { return n(a).add(n(b)); }
  @TLAPlusOperator(identifier = "--", module = "ExactNum", warn = false)
  public static Value pSub(Value a, Value b) { return n(a).sub(n(b)); }
  @TLAPlusOperator(identifier = "**", module = "ExactNum", warn = false)
  public static Value pMul(Value a, Value b) { return n(a).mul(n(b)); }
  @TLAPlusOperator(identifier = "//", module = "ExactNum", warn = false)
  public static Value pDiv(Value a, Value b) { return n(a).div(n(b)); }
}
