package fclv;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the operators of Real64.tla in IEEE double arithmetic. */
public class Overrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { Overrides.class }; }

  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    long u = Double.doubleToLongBits(x == 0 ? 0.0 : x);
    return new TupleValue(IntValue.gen((int) (u >> 32)), IntValue.gen((int) u));
  }
  static double[] v(Value w) {
    TupleValue t = (TupleValue) w.toTuple();
    return new double[] { d(t.elems[0]), d(t.elems[1]), d(t.elems[2]) };
  }
  static Value vec(double a, double b, double c) { return new TupleValue(new Value[] { r(a), r(b), r(c) }); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double dot(double[] a, double[] b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

  @TLAPlusOperator(identifier = "R", module = "Real64") public static Value R(Value n) { return r(((IntValue) n).val); }
  @TLAPlusOperator(identifier = "RQ", module = "Real64") public static Value RQ(Value n, Value m) { return r((double) ((IntValue) n).val / (double) ((IntValue) m).val); }
  @TLAPlusOperator(identifier = "RAdd", module = "Real64") public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "RSub", module = "Real64") public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "RMul", module = "Real64") public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Real64") public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Real64") public static Value RNeg(Value a) { return r(-d(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Real64") public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Real64") public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "Real64") public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "Real64") public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "RMin", module = "Real64") public static Value RMin(Value a, Value b) { return r(Math.min(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RMax", module = "Real64") public static Value RMax(Value a, Value b) { return r(Math.max(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RLe", module = "Real64") public static Value RLe(Value a, Value b) { return bool(d(a) <= d(b)); }
  @TLAPlusOperator(identifier = "RLt", module = "Real64") public static Value RLt(Value a, Value b) { return bool(d(a) < d(b)); }
  @TLAPlusOperator(identifier = "RFin", module = "Real64") public static Value RFin(Value a) { double x = d(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  @TLAPlusOperator(identifier = "RStr", module = "Real64") public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
  @TLAPlusOperator(identifier = "RFloor", module = "Real64") public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }

  // the vector operators have ordinary TLA+ definitions; these are for speed
  @TLAPlusOperator(identifier = "VAdd", module = "Real64") public static Value VAdd(Value a, Value b) { double[] x = v(a), y = v(b); return vec(x[0] + y[0], x[1] + y[1], x[2] + y[2]); }
  @TLAPlusOperator(identifier = "VSub", module = "Real64") public static Value VSub(Value a, Value b) { double[] x = v(a), y = v(b); return vec(x[0] - y[0], x[1] - y[1], x[2] - y[2]); }
  @TLAPlusOperator(identifier = "VScale", module = "Real64") public static Value VScale(Value s, Value a) { double k = d(s); double[] x = v(a); return vec(k * x[0], k * x[1], k * x[2]); }
  @TLAPlusOperator(identifier = "VDot", module = "Real64") public static Value VDot(Value a, Value b) { return r(dot(v(a), v(b))); }
  @TLAPlusOperator(identifier = "VCross", module = "Real64") public static Value VCross(Value a, Value b) {
    double[] x = v(a), y = v(b);
    return vec(x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]);
  }
  @TLAPlusOperator(identifier = "VNorm", module = "Real64") public static Value VNorm(Value a) { double[] x = v(a); return r(Math.sqrt(dot(x, x))); }
  @TLAPlusOperator(identifier = "VDist", module = "Real64") public static Value VDist(Value a, Value b) {
    double[] x = v(a), y = v(b); double p = x[0] - y[0], q = x[1] - y[1], s = x[2] - y[2];
    return r(Math.sqrt(p * p + q * q + s * s));
  }
  @TLAPlusOperator(identifier = "MulMV", module = "Real64") public static Value MulMV(Value m, Value a) {
    TupleValue t = (TupleValue) m.toTuple(); double[] x = v(a);
    return vec(dot(v(t.elems[0]), x), dot(v(t.elems[1]), x), dot(v(t.elems[2]), x));
  }
  @TLAPlusOperator(identifier = "MulMTV", module = "Real64") public static Value MulMTV(Value m, Value a) {
    TupleValue t = (TupleValue) m.toTuple(); double[] x = v(a), p = v(t.elems[0]), q = v(t.elems[1]), s = v(t.elems[2]);
    return vec(p[0] * x[0] + q[0] * x[1] + s[0] * x[2], p[1] * x[0] + q[1] * x[1] + s[1] * x[2], p[2] * x[0] + q[2] * x[1] + s[2] * x[2]);
  }
  @TLAPlusOperator(identifier = "MaxDot", module = "Real64") public static Value MaxDot(Value n, Value ps) {
    TupleValue t = (TupleValue) ps.toTuple(); double[] x = v(n); double b = Double.NEGATIVE_INFINITY;
    for (Value p : t.elems) b = Math.max(b, dot(v(p), x));
    return r(b);
  }
  @TLAPlusOperator(identifier = "MinDot", module = "Real64") public static Value MinDot(Value n, Value ps) {
    TupleValue t = (TupleValue) ps.toTuple(); double[] x = v(n); double b = Double.POSITIVE_INFINITY;
    for (Value p : t.elems) b = Math.min(b, dot(v(p), x));
    return r(b);
  }
  @TLAPlusOperator(identifier = "ArgMaxDot", module = "Real64") public static Value ArgMaxDot(Value n, Value ps) {
    TupleValue t = (TupleValue) ps.toTuple(); double[] x = v(n); double b = Double.NEGATIVE_INFINITY; int k = 0, at = 1;
    for (Value p : t.elems) { ++k; double q = dot(v(p), x); if (q > b) { b = q; at = k; } }
    return IntValue.gen(at);
  }

  // ---- Poly
  static double[] sub(double[] a, double[] b) { return new double[] { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
  static double[] add(double[] a, double k, double[] b) { return new double[] { a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2] }; }
  static double norm(double[] a) { return Math.sqrt(dot(a, a)); }
  static double[] cross(double[] x, double[] y) { return new double[] { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] }; }
  static double[][] tri(Value w) {
    TupleValue t = (TupleValue) w.toTuple();
    return new double[][] { v(t.elems[0]), v(t.elems[1]), v(t.elems[2]) };
  }
  static double ptSeg(double[] x, double[] p, double[] q) {
    double[] d = sub(q, p); double dd = dot(d, d);
    double t = dd <= 0 ? 0 : Math.max(0, Math.min(1, dot(sub(x, p), d) / dd));
    return norm(sub(x, add(p, t, d)));
  }
  static double segSeg(double[] p, double[] q, double[] r, double[] s) {
    double[] u = sub(q, p), w2 = sub(s, r), w = sub(p, r);
    double a = dot(u, u), b = dot(u, w2), c = dot(w2, w2), dd = dot(u, w), e = dot(w2, w), D = a * c - b * b;
    double best = Math.min(Math.min(ptSeg(p, r, s), ptSeg(q, r, s)), Math.min(ptSeg(r, p, q), ptSeg(s, p, q)));
    if (D > 0) {
      double t = (b * e - c * dd) / D, z = (a * e - b * dd) / D;
      if (t >= 0 && t <= 1 && z >= 0 && z <= 1) best = Math.min(best, norm(sub(add(p, t, u), add(r, z, w2))));
    }
    return best;
  }
  static boolean inside(double[][] t, double[] n, double l, double[] x, double m) {
    for (int i = 0; i < 3; ++i) {
      double[] d = sub(t[(i + 1) % 3], t[i]);
      if (!(m * norm(d) * l <= dot(n, cross(d, sub(x, t[i]))))) return false;
    }
    return l > 0;
  }
  static double ptTri(double[] x, double[][] t) {
    double[] n = cross(sub(t[1], t[0]), sub(t[2], t[0])); double l = norm(n);
    if (inside(t, n, l, x, 0)) return Math.abs(dot(n, sub(x, t[0]))) / l;
    return Math.min(Math.min(ptSeg(x, t[0], t[1]), ptSeg(x, t[1], t[2])), ptSeg(x, t[2], t[0]));
  }
  static boolean pierce(double[] p, double[] q, double[][] t, double m) {
    double[] n = cross(sub(t[1], t[0]), sub(t[2], t[0])); double l = norm(n);
    if (!(l > 0)) return false;
    double a = dot(n, sub(p, t[0])) / l, b = dot(n, sub(q, t[0])) / l;
    if (!((m <= a && b <= -m && b < a) || (m <= b && a <= -m && a < b))) return false;
    return inside(t, n, l, add(p, a / (a - b), sub(q, p)), m);
  }
  static boolean triCross(double[][] a, double[][] b, double m) {
    for (int i = 0; i < 3; ++i) if (pierce(a[i], a[(i + 1) % 3], b, m) || pierce(b[i], b[(i + 1) % 3], a, m)) return true;
    return false;
  }
  static double triTri(double[][] a, double[][] b) {
    if (triCross(a, b, 0)) return 0;
    double best = Double.POSITIVE_INFINITY;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) best = Math.min(best, segSeg(a[i], a[(i + 1) % 3], b[j], b[(j + 1) % 3]));
      best = Math.min(best, Math.min(ptTri(a[i], b), ptTri(b[i], a)));
    }
    return best;
  }
  @TLAPlusOperator(identifier = "SegDist", module = "Poly") public static Value SegDist(Value p, Value q, Value x, Value y) { return r(segSeg(v(p), v(q), v(x), v(y))); }
  @TLAPlusOperator(identifier = "PtTriDist", module = "Poly") public static Value PtTriDist(Value x, Value t) { return r(ptTri(v(x), tri(t))); }
  @TLAPlusOperator(identifier = "TriDist", module = "Poly") public static Value TriDist(Value a, Value b) { return r(triTri(tri(a), tri(b))); }
  @TLAPlusOperator(identifier = "TriCross", module = "Poly") public static Value TriCross(Value a, Value b, Value m) { return bool(triCross(tri(a), tri(b), d(m))); }
}
