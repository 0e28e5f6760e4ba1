// Java side of Dbl.tla: IEEE double arithmetic for TLC.  A double is its 16
// hex digit bit pattern, a vector is a tuple of those, a matrix a tuple of rows.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import java.math.BigInteger;

public class Dbl {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    return Double.longBitsToDouble(new BigInteger(s, 16).longValue());
  }
  private static Value s(double x) {
    return new StringValue(String.format("%016x", Double.doubleToRawLongBits(x)));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] t(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static double[] vec(Value v) {
    Value[] e = t(v);
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; ++i) r[i] = d(e[i]);
    return r;
  }
  private static Value tup(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; ++i) e[i] = s(x[i]);
    return new TupleValue(e);
  }
  private static double[][] mat(Value v) {
    Value[] e = t(v);
    double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; ++i) r[i] = vec(e[i]);
    return r;
  }
  private static boolean near(double x, double y, double rel, double abs) {
    if (x == y) return true;
    return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y));
  }

  public static Value DInt(Value n) { return s(((IntValue) n).val); }
  public static Value DLit(Value t) {
    String w = ((StringValue) t).val.toString();
    return s(w.equals("nan") ? Double.NaN : w.equals("inf") ? Double.POSITIVE_INFINITY : Double.parseDouble(w));
  }
  public static Value DShow(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value DLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value DLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value DEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value DFin(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static Value DNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value DAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value DSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value DMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value DDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value DNeg(Value x) { return s(-d(x)); }
  public static Value DAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value DSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value DSin(Value x) { return s(Math.sin(d(x))); }
  public static Value DCos(Value x) { return s(Math.cos(d(x))); }
  public static Value DAtan2(Value y, Value x) { return s(Math.atan2(d(y), d(x))); }
  public static Value DMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value DMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value DPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  public static Value DNear(Value x, Value y, Value rel, Value abs) {
    return b(near(d(x), d(y), d(rel), d(abs)));
  }
  // |x * den - num| <= 1e-9 * max(1, |num|)
  public static Value DIsRat(Value x, Value num, Value den) {
    double n = ((IntValue) num).val, q = ((IntValue) den).val;
    return b(Math.abs(d(x) * q - n) <= 1e-9 * Math.max(1, Math.abs(n)));
  }
  // the integer a double equals exactly, or the default
  public static Value DToInt(Value x, Value dflt) {
    double v = d(x);
    int i = (int) v;
    return (i == v) ? IntValue.gen(i) : dflt;
  }

  public static Value VAdd(Value x, Value y) {
    double[] a = vec(x), c = vec(y);
    for (int i = 0; i < a.length; ++i) a[i] += c[i];
    return tup(a);
  }
  public static Value VSub(Value x, Value y) {
    double[] a = vec(x), c = vec(y);
    for (int i = 0; i < a.length; ++i) a[i] -= c[i];
    return tup(a);
  }
  public static Value VScale(Value k, Value x) {
    double[] a = vec(x);
    double q = d(k);
    for (int i = 0; i < a.length; ++i) a[i] *= q;
    return tup(a);
  }
  public static Value VMul(Value x, Value y) {
    double[] a = vec(x), c = vec(y);
    for (int i = 0; i < a.length; ++i) a[i] *= c[i];
    return tup(a);
  }
  public static Value VDot(Value x, Value y) {
    double[] a = vec(x), c = vec(y);
    double r = 0;
    for (int i = 0; i < a.length; ++i) r += a[i] * c[i];
    return s(r);
  }
  public static Value VNorm(Value x) {
    double r = 0;
    for (double v : vec(x)) r += v * v;
    return s(Math.sqrt(r));
  }
  public static Value VMaxAbs(Value x) {
    double r = 0;
    for (double v : vec(x)) r = (Double.isNaN(v) || Double.isNaN(r)) ? Double.NaN : Math.max(r, Math.abs(v));
    return s(r);
  }
  public static Value VFin(Value x) {
    for (double v : vec(x)) if (Double.isNaN(v) || Double.isInfinite(v)) return b(false);
    return b(true);
  }
  public static Value VEq(Value x, Value y) {
    double[] a = vec(x), c = vec(y);
    if (a.length != c.length) return b(false);
    for (int i = 0; i < a.length; ++i) if (!(a[i] == c[i])) return b(false);
    return b(true);
  }
  // norm wise: max|x-y| <= abs + rel * max(max|x|, max|y|)
  public static Value VNear(Value x, Value y, Value rel, Value abs) {
    double[] a = vec(x), c = vec(y);
    if (a.length != c.length) return b(false);
    double m = 0, e = 0;
    for (int i = 0; i < a.length; ++i) {
      if (a[i] == c[i]) continue;
      double q = Math.abs(a[i] - c[i]);
      if (Double.isNaN(q)) return b(false);
      e = Math.max(e, q);
    }
    for (int i = 0; i < a.length; ++i) m = Math.max(m, Math.max(Math.abs(a[i]), Math.abs(c[i])));
    return b(e <= d(abs) + d(rel) * m);
  }
  public static Value VIn(Value lo, Value x, Value hi) {
    double[] l = vec(lo), a = vec(x), h = vec(hi);
    for (int i = 0; i < a.length; ++i) if (!(l[i] <= a[i] && a[i] <= h[i])) return b(false);
    return b(true);
  }
  public static Value VClamp(Value lo, Value x, Value hi) {
    double[] l = vec(lo), a = vec(x), h = vec(hi);
    for (int i = 0; i < a.length; ++i) a[i] = Math.min(Math.max(a[i], l[i]), h[i]);
    return tup(a);
  }
  public static Value MV(Value m, Value x) {
    double[][] A = mat(m);
    double[] v = vec(x), r = new double[A.length];
    for (int i = 0; i < A.length; ++i) for (int j = 0; j < v.length; ++j) r[i] += A[i][j] * v[j];
    return tup(r);
  }
  public static Value MTV(Value m, Value x, Value n) {
    double[][] A = mat(m);
    double[] v = vec(x), r = new double[((IntValue) n).val];
    for (int i = 0; i < A.length; ++i) for (int j = 0; j < r.length; ++j) r[j] += A[i][j] * v[i];
    return tup(r);
  }
  // squared column norms
  public static Value MColSq(Value m, Value n) {
    double[][] A = mat(m);
    double[] r = new double[((IntValue) n).val];
    for (int i = 0; i < A.length; ++i) for (int j = 0; j < r.length; ++j) r[j] += A[i][j] * A[i][j];
    return tup(r);
  }
  // solves (A'A + diag(D)^2) x = rhs for an n column A; <<>> if numerically singular
  public static Value MSolve(Value m, Value dd, Value rhs, Value nn) {
    int n = ((IntValue) nn).val;
    double[][] A = mat(m);
    double[] D = vec(dd), b = vec(rhs);
    double[][] H = new double[n][n + 1];
    for (double[] row : A) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H[i][j] += row[i] * row[j];
    for (int i = 0; i < n; ++i) { H[i][i] += D[i] * D[i]; H[i][n] = b[i]; }
    for (int k = 0; k < n; ++k) {
      int p = k;
      for (int i = k; i < n; ++i) if (Math.abs(H[i][k]) > Math.abs(H[p][k])) p = i;
      double[] q = H[p]; H[p] = H[k]; H[k] = q;
      if (H[k][k] == 0) return new TupleValue(new Value[0]);
      for (int i = 0; i < n; ++i) if (i != k) {
        double f = H[i][k] / H[k][k];
        if (f != 0) for (int j = k; j <= n; ++j) H[i][j] -= f * H[k][j];
      }
    }
    double[] x = new double[n];
    for (int i = 0; i < n; ++i) x[i] = H[i][n] / H[i][i];
    return tup(x);
  }
  // eigenvalues of a symmetric matrix, ascending (cyclic Jacobi)
  private static double[] eig(double[][] H) {
    int n = H.length;
    double[] e = jacobi(H, new double[n][n]);
    java.util.Arrays.sort(e);
    return e;
  }
  // the same, unsorted, with the eigenvectors in the columns of V
  private static double[] jacobi(double[][] H, double[][] V) {
    int n = H.length;
    for (int i = 0; i < n; ++i) V[i][i] = 1;
    for (int sweep = 0; sweep < 60; ++sweep) {
      double off = 0, dia = 0;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j) dia += H[i][i] * H[i][i]; else off += H[i][j] * H[i][j];
      if (off <= 1e-34 * dia || off == 0) break;
      for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
        if (H[p][q] == 0) continue;
        double th = (H[q][q] - H[p][p]) / (2 * H[p][q]);
        double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; ++k) { double a = H[k][p], b = H[k][q]; H[k][p] = c * a - s * b; H[k][q] = s * a + c * b; }
        for (int k = 0; k < n; ++k) { double a = H[p][k], b = H[q][k]; H[p][k] = c * a - s * b; H[q][k] = s * a + c * b; }
        for (int k = 0; k < n; ++k) { double a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
      }
    }
    double[] e = new double[n];
    for (int i = 0; i < n; ++i) e[i] = H[i][i];
    return e;
  }
  private static double[][] gram(double[][] A, int n) {
    double[][] H = new double[n][n];
    for (double[] row : A) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H[i][j] += row[i] * row[j];
    return H;
  }
  // eigenvalues of M'M, ascending
  public static Value MEig(Value m, Value nn) {
    return tup(eig(gram(mat(m), ((IntValue) nn).val)));
  }
  // the pseudo-inverse of M'M that keeps the k largest eigenvalues
  public static Value MPinv(Value m, Value nn, Value kk) {
    int n = ((IntValue) nn).val, k = ((IntValue) kk).val;
    double[][] V = new double[n][n], P = new double[n][n];
    double[] e = jacobi(gram(mat(m), n), V);
    Integer[] o = new Integer[n];
    for (int i = 0; i < n; ++i) o[i] = i;
    java.util.Arrays.sort(o, (a, b) -> Double.compare(e[b], e[a]));
    for (int t = 0; t < k && t < n; ++t)
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) P[i][j] += V[i][o[t]] * V[j][o[t]] / e[o[t]];
    Value[] r = new Value[n];
    for (int i = 0; i < n; ++i) r[i] = tup(P[i]);
    return new TupleValue(r);
  }
  // the rank of a matrix of integers
  public static Value MRank(Value m, Value nn) {
    int n = ((IntValue) nn).val, rank = 0;
    Value[] rows = t(m);
    BigInteger[][] A = new BigInteger[rows.length][n];
    for (int i = 0; i < rows.length; ++i) {
      Value[] e = t(rows[i]);
      for (int j = 0; j < n; ++j) A[i][j] = BigInteger.valueOf(((IntValue) e[j]).val);
    }
    for (int c = 0; c < n && rank < A.length; ++c) {
      int p = rank;
      while (p < A.length && A[p][c].signum() == 0) ++p;
      if (p == A.length) continue;
      BigInteger[] q = A[p]; A[p] = A[rank]; A[rank] = q;
      for (int i = rank + 1; i < A.length; ++i) {
        BigInteger f = A[i][c], g = A[rank][c];
        if (f.signum() != 0) for (int j = c; j < n; ++j) A[i][j] = A[i][j].multiply(g).subtract(A[rank][j].multiply(f));
      }
      ++rank;
    }
    return IntValue.gen(rank);
  }
  // smallest over largest singular value of A with its columns divided by D
  public static Value MRcond(Value m, Value dd, Value nn) {
    int n = ((IntValue) nn).val;
    double[][] A = mat(m);
    double[] D = vec(dd);
    double[][] H = new double[n][n];
    for (double[] row : A) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H[i][j] += row[i] / D[i] * row[j] / D[j];
    for (double[] r : H) for (double v : r) if (Double.isNaN(v) || Double.isInfinite(v)) return s(0);
    double[] e = eig(H);
    if (n == 0 || !(e[n - 1] > 0)) return s(0);
    return s(Math.sqrt(Math.max(0, e[0]) / e[n - 1]));
  }
  private static double erf(double x) {
    double a = Math.abs(x);
    if (a > 6) return Math.signum(x);
    double sum = 0, term = a;
    for (int n = 0; n < 400; ++n) {
      sum += term / (2 * n + 1);
      term *= -a * a / (n + 1);
      if (Math.abs(term) < 1e-18 * Math.abs(sum) && n > 3) break;
    }
    // the series loses accuracy for large arguments: continued fraction there
    if (a > 2) {
      double f = 0;
      for (int k = 200; k > 0; --k) f = (k / 2.0) / (a + f);
      return Math.signum(x) * (1 - Math.exp(-a * a) / Math.sqrt(Math.PI) / (a + f));
    }
    return Math.signum(x) * 2 / Math.sqrt(Math.PI) * sum;
  }
  // elementary functions by name
  public static Value DFun(Value name, Value xx) {
    double x = d(xx), r;
    switch (((StringValue) name).val.toString()) {
      case "abs": case "fabs": r = Math.abs(x); break;
      case "log": r = Math.log(x); break;
      case "log10": r = Math.log10(x); break;
      case "log1p": r = Math.log1p(x); break;
      case "log2": r = Math.log(x) / Math.log(2); break;
      case "exp": r = Math.exp(x); break;
      case "exp2": r = Math.pow(2, x); break;
      case "expm1": r = Math.expm1(x); break;
      case "sqrt": r = Math.sqrt(x); break;
      case "cbrt": r = Math.cbrt(x); break;
      case "sin": r = Math.sin(x); break;
      case "cos": r = Math.cos(x); break;
      case "tan": r = Math.tan(x); break;
      case "asin": r = Math.asin(x); break;
      case "acos": r = Math.acos(x); break;
      case "atan": r = Math.atan(x); break;
      case "sinh": r = Math.sinh(x); break;
      case "cosh": r = Math.cosh(x); break;
      case "tanh": r = Math.tanh(x); break;
      case "floor": r = Math.floor(x); break;
      case "ceil": r = Math.ceil(x); break;
      case "sign": r = Math.signum(x); break;
      case "norm": r = x * x; break;
      case "erf": r = erf(x); break;
      case "erfc": r = 1 - erf(x); break;
      default: throw new RuntimeException("DFun " + name);
    }
    return s(r);
  }
}
