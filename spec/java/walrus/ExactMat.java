package walrus;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluation of the matrix operators of ExactMat.tla (sequences of rows of exact numbers). */
public final class ExactMat {
  static CQ[][] mat(Value v) {
    Value[] rows = ExactNum.elems(v);
    CQ[][] m = new CQ[rows.length][];
    for (int i = 0; i < m.length; i++) m[i] = vec(rows[i]);
    return m;
  }
  static CQ[] vec(Value v) {
    Value[] e = ExactNum.elems(v);
    CQ[] r = new CQ[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ExactNum.n(e[i]);
    return r;
  }
  static Value val(CQ[][] m) { Value[] r = new Value[m.length]; for (int i = 0; i < r.length; i++) r[i] = new TupleValue(m[i]); return new TupleValue(r); }

  @TLAPlusOperator(identifier = "MMul", module = "ExactMat", warn = false)
  public static Value mmul(Value a, Value b) {
    CQ[][] x = mat(a), y = mat(b);
    int n = x.length, k = y.length, m = k == 0 ? 0 : y[0].length;
    CQ[][] r = new CQ[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { CQ s = CQ.ZERO; for (int l = 0; l < k; l++) s = s.add(x[i][l].mul(y[l][j])); r[i][j] = s; }
    return val(r);
  }
  /** rows [A | B] reduced; returns det(A) and A^-1 B (null when singular) */
  static CQ elim(CQ[][] a, CQ[][] b) {
    int n = a.length;
    CQ det = CQ.ONE;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int r = c; r < n; r++) { if (a[r][c].nan) return CQ.NAN; if (a[r][c].compareTo(CQ.ZERO) != 0 && (p < 0 || a[r][c].re.bitLength() + a[r][c].den.bitLength() < a[p][c].re.bitLength() + a[p][c].den.bitLength())) p = r; }
      if (p < 0) return CQ.ZERO;
      if (p != c) { CQ[] t = a[p]; a[p] = a[c]; a[c] = t; if (b != null) { t = b[p]; b[p] = b[c]; b[c] = t; } det = det.neg(); }
      CQ piv = a[c][c];
      det = det.mul(piv);
      CQ ip = piv.inv();
      int lo = b == null ? c + 1 : 0;
      for (int r = lo; r < n; r++) {
        if (r == c || a[r][c].compareTo(CQ.ZERO) == 0) continue;
        CQ f = a[r][c].mul(ip);
        for (int j = c; j < n; j++) a[r][j] = a[r][j].sub(f.mul(a[c][j]));
        if (b != null) for (int j = 0; j < b[r].length; j++) b[r][j] = b[r][j].sub(f.mul(b[c][j]));
      }
      if (b != null) { for (int j = c; j < n; j++) a[c][j] = a[c][j].mul(ip); for (int j = 0; j < b[c].length; j++) b[c][j] = b[c][j].mul(ip); }
    }
    return det;
  }
  @TLAPlusOperator(identifier = "Det", module = "ExactMat", warn = false)
  public static Value det(Value a) { return elim(mat(a), null); }
  @TLAPlusOperator(identifier = "Inverse", module = "ExactMat", warn = false)
  public static Value inverse(Value a) {
    CQ[][] x = mat(a);
    int n = x.length;
    CQ[][] y = new CQ[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) y[i][j] = i == j ? CQ.ONE : CQ.ZERO;
    CQ d = elim(x, y);
    if (d.nan || d.compareTo(CQ.ZERO) == 0) for (CQ[] r : y) java.util.Arrays.fill(r, CQ.NAN);
    return val(y);
  }
  @TLAPlusOperator(identifier = "MRound", module = "ExactMat", warn = false)
  public static Value mround(Value a, Value bits) {
    CQ[][] x = mat(a);
    int k = ExactNum.i(bits);
    for (CQ[] r : x) for (int j = 0; j < r.length; j++) r[j] = r[j].round(k);
    return val(x);
  }
  /** Hafnian (loops TRUE: loop hafnian) by first-element expansion with a table over vertex subsets */
  @TLAPlusOperator(identifier = "FastHaf", module = "ExactMat", warn = false)
  public static Value fastHaf(Value a, Value loops) {
    CQ[][] x = mat(a);
    int n = x.length;
    boolean lp = ((BoolValue) loops).val;
    if (n > 20) throw new RuntimeException("FastHaf: too large");
    CQ[] t = new CQ[1 << n];
    t[0] = CQ.ONE;
    for (int s = 1; s < (1 << n); s++) {
      int i = Integer.numberOfTrailingZeros(s);
      int rest = s & (s - 1);
      CQ v = CQ.ZERO;
      if (lp) v = x[i][i].mul(t[rest]);
      if (lp || Integer.bitCount(s) % 2 == 0)
        for (int j = i + 1; j < n; j++) if ((rest >> j & 1) == 1) v = v.add(x[i][j].mul(t[rest & ~(1 << j)]));
      t[s] = v;
    }
    return t[(1 << n) - 1];
  }
  /** permanent by row expansion with a table over column subsets */
  @TLAPlusOperator(identifier = "FastPerm", module = "ExactMat", warn = false)
  public static Value fastPerm(Value a) {
    CQ[][] x = mat(a);
    int n = x.length;
    if (n > 20) throw new RuntimeException("FastPerm: too large");
    CQ[] t = new CQ[1 << n];
    t[0] = CQ.ONE;
    for (int s = 1; s < (1 << n); s++) {
      int i = Integer.bitCount(s) - 1;
      CQ v = CQ.ZERO;
      for (int j = 0; j < n; j++) if ((s >> j & 1) == 1) v = v.add(x[i][j].mul(t[s & ~(1 << j)]));
      t[s] = v;
    }
    return t[(1 << n) - 1];
  }

  /** table of repeated loop hafnians: entry rpt (0 <= rpt <= c) by the definition's recursion */
  static CQ[] repTable(CQ[][] x, CQ[] d, int[] c, boolean renorm) {
    int n = c.length, sz = 1;
    int[] st = new int[n];
    for (int i = n - 1; i >= 0; i--) { st[i] = sz; sz *= c[i] + 1; }
    if (sz > 4000000) throw new RuntimeException("RepHaf: table too large");
    CQ[] t = new CQ[sz];
    int[] r = new int[n];
    t[0] = CQ.ONE;
    for (int k = 1; k < sz; k++) {
      int q = k, f = -1;
      for (int i = 0; i < n; i++) { r[i] = q / st[i]; q %= st[i]; if (f < 0 && r[i] > 0) f = i; }
      int b = k - st[f];
      CQ v = d[f].mul(t[b]);
      for (int j = f; j < n; j++) {
        int m = j == f ? r[j] - 1 : r[j];
        if (m > 0) v = v.add(x[f][j].mul(CQ.of(m)).mul(t[b - st[j]]));
      }
      t[k] = v;
    }
    return t;
  }
  static int[] ints(Value v) {
    Value[] e = ExactNum.elems(v);
    int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
    return r;
  }
  @TLAPlusOperator(identifier = "RepHaf", module = "ExactMat", warn = false)
  public static Value repHaf(Value a, Value d, Value rpt) {
    CQ[] t = repTable(mat(a), vec(d), ints(rpt), false);
    return t[t.length - 1];
  }
  /** flattened (row-major) table of RepHaf for all indices 0 <= i < cutoff */
  @TLAPlusOperator(identifier = "RepHafTable", module = "ExactMat", warn = false)
  public static Value repHafTable(Value a, Value d, Value cut) {
    int[] c = ints(cut);
    for (int i = 0; i < c.length; i++) c[i]--;
    return new TupleValue(repTable(mat(a), vec(d), c, false));
  }
}
