// Java implementations of the operators declared in Prim.tla (TLC operator overrides).
// They are pure functions on strings; Prim.tla states their laws as ASSUMEs (MCPrim.tla).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

public final class VPrim {
  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static Value str(String x) { return new StringValue(x); }
  private static final class R { BigInteger n, d; R(BigInteger n, BigInteger d) { this.n = n; this.d = d; } }
  private static R p(Value v) {
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    String x = s(v); int i = x.indexOf('/');
    if (i < 0) return new R(new BigInteger(x), BigInteger.ONE);
    return new R(new BigInteger(x.substring(0, i)), new BigInteger(x.substring(i + 1)));
  }
  private static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("rational division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return str(n + "/" + d);
  }
  private static int cmp(R a, R b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  @TLAPlusOperator(identifier = "RAdd", module = "Prim", warn = false)
  public static Value radd(Value a, Value b) { R x = p(a), y = p(b); return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)); }
  @TLAPlusOperator(identifier = "RSub", module = "Prim", warn = false)
  public static Value rsub(Value a, Value b) { R x = p(a), y = p(b); return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)); }
  @TLAPlusOperator(identifier = "RMul", module = "Prim", warn = false)
  public static Value rmul(Value a, Value b) { R x = p(a), y = p(b); return mk(x.n.multiply(y.n), x.d.multiply(y.d)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Prim", warn = false)
  public static Value rdiv(Value a, Value b) { R x = p(a), y = p(b); return mk(x.n.multiply(y.d), x.d.multiply(y.n)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Prim", warn = false)
  public static Value rneg(Value a) { R x = p(a); return mk(x.n.negate(), x.d); }
  @TLAPlusOperator(identifier = "RCmp", module = "Prim", warn = false)
  public static Value rcmp(Value a, Value b) { return IntValue.gen(Integer.signum(cmp(p(a), p(b)))); }
  @TLAPlusOperator(identifier = "RLt", module = "Prim", warn = false)
  public static Value rlt(Value a, Value b) { return cmp(p(a), p(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RSign", module = "Prim", warn = false)
  public static Value rsign(Value a) { return IntValue.gen(p(a).n.signum()); }
  @TLAPlusOperator(identifier = "ROf", module = "Prim", warn = false)
  public static Value rof(Value a) { R x = p(a); return mk(x.n, x.d); }
  @TLAPlusOperator(identifier = "RAbs", module = "Prim", warn = false)
  public static Value rabs(Value a) { R x = p(a); return mk(x.n.abs(), x.d); }
  // exact value of a decimal text such as -1234.50
  @TLAPlusOperator(identifier = "RDec", module = "Prim", warn = false)
  public static Value rdec(Value a) {
    BigDecimal b = new BigDecimal(s(a));
    if (b.scale() <= 0) return mk(b.toBigIntegerExact(), BigInteger.ONE);
    return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  // 1/10^k
  @TLAPlusOperator(identifier = "RTenth", module = "Prim", warn = false)
  public static Value rtenth(Value a) { return mk(BigInteger.ONE, BigInteger.TEN.pow(((IntValue) a).val)); }
  // least k with 10^k >= denominator
  @TLAPlusOperator(identifier = "RDecimals", module = "Prim", warn = false)
  public static Value rdecimals(Value a) { BigInteger d = p(a).d, t = BigInteger.ONE; int k = 0; while (t.compareTo(d) < 0) { t = t.multiply(BigInteger.TEN); k++; } return IntValue.gen(k); }
  // least k such that a * 10^k is an integer (RDecimals when there is none)
  @TLAPlusOperator(identifier = "RDecNeed", module = "Prim", warn = false)
  public static Value rdecneed(Value a) { BigInteger d = p(a).d, r = d; BigInteger two = BigInteger.TWO, five = BigInteger.valueOf(5); int k2 = 0, k5 = 0;
    while (r.mod(two).signum() == 0) { r = r.divide(two); k2++; }
    while (r.mod(five).signum() == 0) { r = r.divide(five); k5++; }
    return r.equals(BigInteger.ONE) ? IntValue.gen(Math.max(k2, k5)) : rdecimals(a); }
  // denominator of a rational, as a rational
  @TLAPlusOperator(identifier = "RDenom", module = "Prim", warn = false)
  public static Value rdenom(Value a) { return mk(p(a).d, BigInteger.ONE); }
  // TRUE iff r is an exact decimal with at most k fractional digits
  @TLAPlusOperator(identifier = "RIsDecimal", module = "Prim", warn = false)
  public static Value risdec(Value a, Value k) { R x = p(a); return BigInteger.TEN.pow(((IntValue) k).val).mod(x.d).signum() == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  // nearest IEEE double (ties to even), as an exact rational
  private static double nearest(R x) {
    if (x.n.signum() == 0) return 0.0;
    BigInteger n = x.n.abs(), d = x.d;
    int shift = 66 - (n.bitLength() - d.bitLength());
    BigInteger q, rem;
    BigInteger[] qr = shift >= 0 ? n.shiftLeft(shift).divideAndRemainder(d) : n.divideAndRemainder(d.shiftLeft(-shift));
    q = qr[0]; rem = qr[1];
    // q has 66 or 67 bits; keep a sticky bit, then round to 53
    if (rem.signum() != 0) q = q.setBit(0).or(BigInteger.ONE);
    int drop = q.bitLength() - 53;
    BigInteger low = q.and(BigInteger.ONE.shiftLeft(drop).subtract(BigInteger.ONE));
    BigInteger half = BigInteger.ONE.shiftLeft(drop - 1);
    q = q.shiftRight(drop);
    int c = low.compareTo(half);
    if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
    double r = Math.scalb((double) q.longValueExact(), drop - shift);
    return x.n.signum() < 0 ? -r : r;
  }
  private static Value ofDouble(double v) {
    BigDecimal b = new BigDecimal(v);
    if (b.scale() <= 0) return mk(b.toBigInteger(), BigInteger.ONE);
    return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  @TLAPlusOperator(identifier = "RNearest64", module = "Prim", warn = false)
  public static Value rnear(Value a) { return ofDouble(nearest(p(a))); }

  // ---- strings: order by code point (which is the order of the UTF-8 bytes)
  private static int scmp(String a, String b) {
    int i = 0, j = 0;
    while (i < a.length() && j < b.length()) {
      int x = a.codePointAt(i), y = b.codePointAt(j);
      if (x != y) return x < y ? -1 : 1;
      i += Character.charCount(x); j += Character.charCount(y);
    }
    return (a.length() - i > 0) ? 1 : (b.length() - j > 0 ? -1 : 0);
  }
  @TLAPlusOperator(identifier = "SLt", module = "Prim", warn = false)
  public static Value slt(Value a, Value b) { return scmp(s(a), s(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "SStarts", module = "Prim", warn = false)
  public static Value sstarts(Value a, Value b) { return s(a).startsWith(s(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "SContains", module = "Prim", warn = false)
  public static Value scontains(Value a, Value b) { return s(a).contains(s(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "SSplit", module = "Prim", warn = false)
  public static Value ssplit(Value a, Value sep) {
    String x = s(a), q = s(sep); ArrayList<Value> out = new ArrayList<>(); int i = 0;
    while (true) { int j = q.isEmpty() ? -1 : x.indexOf(q, i); if (j < 0) { out.add(str(x.substring(i))); break; } out.add(str(x.substring(i, j))); i = j + q.length(); }
    return new TupleValue(out.toArray(new Value[0]));
  }
  @TLAPlusOperator(identifier = "SJoin", module = "Prim", warn = false)
  public static Value sjoin(Value a, Value sep) {
    TupleValue t = (TupleValue) a.toTuple(); StringBuilder b = new StringBuilder();
    for (int i = 0; i < t.elems.length; i++) { if (i > 0) b.append(s(sep)); b.append(s(t.elems[i])); }
    return str(b.toString());
  }
  @TLAPlusOperator(identifier = "SReplace", module = "Prim", warn = false)
  public static Value sreplace(Value a, Value f, Value t) { return str(s(a).replace(s(f), s(t))); }
  @TLAPlusOperator(identifier = "SUpper", module = "Prim", warn = false)
  public static Value supper(Value a) { return str(s(a).toUpperCase(java.util.Locale.ROOT)); }
  @TLAPlusOperator(identifier = "SLower", module = "Prim", warn = false)
  public static Value slower(Value a) { return str(s(a).toLowerCase(java.util.Locale.ROOT)); }
  @TLAPlusOperator(identifier = "SOfInt", module = "Prim", warn = false)
  public static Value sofint(Value a) { return str(Integer.toString(((IntValue) a).val)); }
  @TLAPlusOperator(identifier = "SDropPrefix", module = "Prim", warn = false)
  public static Value sdrop(Value a, Value b) { String x = s(a), y = s(b); return str(x.startsWith(y) ? x.substring(y.length()) : x); }
  // code points, as integers (used by the layout and lexical modules)
  @TLAPlusOperator(identifier = "SCodes", module = "Prim", warn = false)
  public static Value scodes(Value a) { int[] c = s(a).codePoints().toArray(); Value[] v = new Value[c.length]; for (int i = 0; i < c.length; i++) v[i] = IntValue.gen(c[i]); return new TupleValue(v); }
  @TLAPlusOperator(identifier = "SOfCodes", module = "Prim", warn = false)
  public static Value sofcodes(Value a) { TupleValue t = (TupleValue) a.toTuple(); StringBuilder b = new StringBuilder(); for (Value v : t.elems) b.appendCodePoint(((IntValue) v).val); return str(b.toString()); }

  // the number with k decimals, rounded to the nearest, halves away from zero
  @TLAPlusOperator(identifier = "RFixed", module = "Prim", warn = false)
  public static Value rfixed(Value a, Value k) {
    R x = p(a); int n = ((IntValue) k).val;
    BigInteger two = BigInteger.TWO, q = x.n.abs().multiply(BigInteger.TEN.pow(n)).multiply(two).add(x.d).divide(x.d.multiply(two));
    String t = q.toString();
    while (t.length() <= n) t = "0" + t;
    if (n > 0) t = t.substring(0, t.length() - n) + "." + t.substring(t.length() - n);
    return str((x.n.signum() < 0 ? "-" : "") + t);
  }
  @TLAPlusOperator(identifier = "SLetterEnd", module = "Prim", warn = false)
  public static Value sletterend(Value a) { String x = s(a); return x.length() > 0 && Character.isLetter(x.codePointBefore(x.length())) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  // a word starts after anything that is neither letter, digit, underscore nor apostrophe-like mark within a word
  @TLAPlusOperator(identifier = "STitle", module = "Prim", warn = false)
  public static Value stitle(Value a) {
    StringBuilder b = new StringBuilder(); int prev = ' ';
    for (int c : s(a).codePoints().toArray()) {
      boolean sep = prev <= 127 ? !(prev >= '0' && prev <= '9' || prev >= 'a' && prev <= 'z' || prev >= 'A' && prev <= 'Z' || prev == '_')
                                : !(Character.isLetter(prev) || Character.isDigit(prev)) && Character.isWhitespace(prev);
      b.appendCodePoint(sep ? Character.toTitleCase(c) : c);
      prev = c;
    }
    return str(b.toString());
  }
  @TLAPlusOperator(identifier = "SWords", module = "Prim", warn = false)
  public static Value swords(Value a) {
    ArrayList<Value> out = new ArrayList<>();
    for (String w : s(a).replaceAll("\u001b\\[[0-9;]*m", "").split("[ \\n]+")) if (w.length() > 0) out.add(str(w));
    return new TupleValue(out.toArray(new Value[0]));
  }

  // ---- Sums.tla
  private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static final UniqueString Kk = UniqueString.uniqueStringOf("k"), Kv = UniqueString.uniqueStringOf("v"),
      Kn = UniqueString.uniqueStringOf("n"), Kt = UniqueString.uniqueStringOf("t");
  private static Value fld(Value r, UniqueString n) {
    RecordValue x = (RecordValue) r.toRcd();
    for (int i = 0; i < x.names.length; i++) if (x.names[i].equals(n)) return x.values[i];
    throw new RuntimeException("no field " + n);
  }
  private static void norm(Value v) { v.normalize(); }
  private static R add(R x, R y) {
    if (x.d.equals(y.d)) return new R(x.n.add(y.n), x.d);
    BigInteger n = x.n.multiply(y.d).add(y.n.multiply(x.d)), d = x.d.multiply(y.d), g = n.gcd(d);
    return g.signum() == 0 || g.equals(BigInteger.ONE) ? new R(n, d) : new R(n.divide(g), d.divide(g));
  }
  private static Value fcn(java.util.Map<Value, Value> m) {
    Value[] dom = new Value[m.size()], val = new Value[m.size()];
    int i = 0;
    for (java.util.Map.Entry<Value, Value> e : m.entrySet()) { dom[i] = e.getKey(); val[i++] = e.getValue(); }
    FcnRcdValue f = new FcnRcdValue(dom, val, false);
    f.normalize();
    return f;
  }
  private static int vcmp(Value a, Value b) { return a.compareTo(b); }
  @TLAPlusOperator(identifier = "SumBy", module = "Sums", warn = false)
  public static Value sumBy(Value kvs) {
    java.util.TreeMap<Value, R> m = new java.util.TreeMap<>(VPrim::vcmp);
    for (Value x : seq(kvs)) {
      Value[] kv = seq(x);
      norm(kv[0]);
      R r = p(kv[1]), o = m.get(kv[0]);
      m.put(kv[0], o == null ? r : add(o, r));
    }
    java.util.TreeMap<Value, Value> out = new java.util.TreeMap<>(VPrim::vcmp);
    for (java.util.Map.Entry<Value, R> e : m.entrySet()) out.put(e.getKey(), mk(e.getValue().n, e.getValue().d));
    return fcn(out);
  }
  @TLAPlusOperator(identifier = "PrefixSums", module = "Sums", warn = false)
  public static Value prefixSums(Value kvs) {
    java.util.TreeMap<Value, R> m = new java.util.TreeMap<>(VPrim::vcmp);
    Value[] q = seq(kvs), out = new Value[q.length];
    for (int i = 0; i < q.length; i++) {
      Value[] kv = seq(q[i]);
      norm(kv[0]);
      R r = p(kv[1]), o = m.get(kv[0]);
      r = o == null ? r : add(o, r);
      m.put(kv[0], r);
      out[i] = mk(r.n, r.d);
    }
    return new TupleValue(out);
  }
  private static final class Acc { R v; java.util.TreeSet<Value> n = new java.util.TreeSet<>(VPrim::vcmp), t = new java.util.TreeSet<>(VPrim::vcmp); }
  private static void addAll(java.util.TreeSet<Value> to, Value set) {
    ValueVec vv = ((SetEnumValue) set.toSetEnum()).elems;
    for (int i = 0; i < vv.size(); i++) to.add(vv.elementAt(i));
  }
  private static Value setOf(java.util.TreeSet<Value> s) {
    SetEnumValue v = new SetEnumValue(s.toArray(new Value[0]), false);
    v.normalize();
    return v;
  }
  @TLAPlusOperator(identifier = "Merge", module = "Sums", warn = false)
  public static Value merge(Value cs) {
    java.util.TreeMap<Value, Acc> m = new java.util.TreeMap<>(VPrim::vcmp);
    for (Value c : seq(cs)) {
      Value k = fld(c, Kk);
      norm(k);
      Acc a = m.get(k);
      R r = p(fld(c, Kv));
      if (a == null) { a = new Acc(); a.v = r; m.put(k, a); } else a.v = add(a.v, r);
      addAll(a.n, fld(c, Kn));
      addAll(a.t, fld(c, Kt));
    }
    java.util.TreeMap<Value, Value> out = new java.util.TreeMap<>(VPrim::vcmp);
    for (java.util.Map.Entry<Value, Acc> e : m.entrySet()) {
      Acc a = e.getValue();
      if (a.v.n.signum() == 0) continue;
      RecordValue r = new RecordValue(new UniqueString[] { Kn, Kt, Kv }, new Value[] { setOf(a.n), setOf(a.t), mk(a.v.n, a.v.d) }, false);
      r.normalize();
      out.put(e.getKey(), r);
    }
    return fcn(out);
  }
}
