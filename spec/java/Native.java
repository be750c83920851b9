import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import tlc2.value.impl.*;

/** Executable definitions of the operators of Native.tla. */
public class Native {
  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  private static Value v(String x) { return new StringValue(x); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static long l(Value x) { return Long.parseLong(s(x)); }
  private static Value l(long x) { return v(Long.toString(x)); }
  private static final Value BAD = new StringValue("!");

  private static String text(Value codes, int from, int to) {
    TupleValue t = (TupleValue) codes.toTuple();
    StringBuilder sb = new StringBuilder();
    for (int i = Math.max(from, 1) - 1; i < to && i < t.elems.length; i++)
      sb.appendCodePoint(((IntValue) t.elems[i]).val);
    return sb.toString();
  }
  public static Value Text(Value codes) { return v(text(codes, 1, Integer.MAX_VALUE)); }
  public static Value Slice(Value codes, Value a, Value b) {
    return v(text(codes, ((IntValue) a).val, ((IntValue) b).val));
  }
  public static Value Codes(Value str) {
    int[] cp = s(str).codePoints().toArray();
    Value[] e = new Value[cp.length];
    for (int i = 0; i < cp.length; i++) e[i] = IntValue.gen(cp[i]);
    return new TupleValue(e);
  }
  public static Value Utf8(Value codes) {
    StringBuilder sb = new StringBuilder();
    for (byte x : text(codes, 1, Integer.MAX_VALUE).getBytes(StandardCharsets.UTF_8))
      sb.append(String.format("%02x", x & 255));
    return v(sb.toString());
  }
  public static Value StrCat(Value seq) {
    StringBuilder sb = new StringBuilder();
    for (Value e : ((TupleValue) seq.toTuple()).elems) sb.append(s(e));
    return v(sb.toString());
  }
  public static Value Contains(Value a, Value b) { return b(s(a).contains(s(b))); }
  public static Value Size(Value str) { return IntValue.gen(s(str).length()); }
  public static Value Split(Value str) {
    String[] p = s(str).split("\\.", -1);
    Value[] e = new Value[p.length];
    for (int i = 0; i < p.length; i++) e[i] = v(p[i]);
    return new TupleValue(e);
  }
  public static Value Listed(Value set) {
    Value[] e = ((SetEnumValue) set.toSetEnum()).elems.toArray();
    java.util.Arrays.sort(e, (x, y) -> x.toString().compareTo(y.toString()));
    return new TupleValue(java.util.Arrays.stream(e).distinct().toArray(Value[]::new));
  }
  private static Value inputs;
  public static synchronized Value ReadInputs(Value file) throws Exception {
    if (inputs == null) {
      Value r = (Value) tlc2.overrides.Json.deserialize((StringValue) file);
      r = (Value) r.toTuple();
      r.deepNormalize();
      inputs = r;
    }
    return inputs;
  }
  public static Value Emit(Value str) {
    byte[] line = ("@@" + s(str) + "\n").getBytes(StandardCharsets.UTF_8);
    synchronized (Native.class) {
      System.out.write(line, 0, line.length);
      System.out.flush();
    }
    return BoolValue.ValTrue;
  }
  public static Value Quote(Value str) {
    StringBuilder sb = new StringBuilder();
    for (char c : s(str).toCharArray()) {
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    return v(sb.toString());
  }
  public static Value Num(Value n) { return v(Integer.toString(((IntValue) n).val)); }
  public static Value Small(Value a) { return IntValue.gen(Integer.parseInt(s(a))); }
  public static Value IsSmall(Value a) {
    if (s(a).equals("!")) return b(false);
    long x = l(a);
    return b(x == (int) x);
  }

  public static Value IParse(Value str, Value base) {
    try {
      return l(Long.parseLong(s(str), ((IntValue) base).val));
    } catch (NumberFormatException e) {
      return BAD;
    }
  }
  public static Value IHex32(Value str) { return l(Long.parseLong(s(str), 16)); }
  private static Value big(BigInteger r) { return r.bitLength() < 64 ? l(r.longValue()) : BAD; }
  private static BigInteger B(Value x) { return new BigInteger(s(x)); }
  public static Value IAdd(Value a, Value c) { return big(B(a).add(B(c))); }
  public static Value ISub(Value a, Value c) { return big(B(a).subtract(B(c))); }
  public static Value IMul(Value a, Value c) { return big(B(a).multiply(B(c))); }
  public static Value IDiv(Value a, Value c) { return l(c) == 0 ? BAD : big(B(a).divide(B(c))); }
  public static Value IRem(Value a, Value c) {
    if (l(c) == 0 || (l(a) == Long.MIN_VALUE && l(c) == -1)) return BAD;
    return l(l(a) % l(c));
  }
  public static Value IShl(Value a, Value c) {
    long n = l(c);
    if (n < 0 || n > 63 || l(a) < 0) return BAD;
    return big(B(a).shiftLeft((int) n));
  }
  public static Value IShr(Value a, Value c) {
    long n = l(c);
    return n < 0 || n > 63 ? BAD : l(l(a) >>> n);
  }
  public static Value IPow(Value a, Value c) {
    BigInteger r = BigInteger.ONE;
    long n = l(c);
    if (n < 0 || n > 4096) return BAD;
    for (long i = 0; i < n; i++) {
      r = r.multiply(B(a));
      if (r.bitLength() >= 64) return BAD;
    }
    return l(r.longValue());
  }
  public static Value ILt(Value a, Value c) { return b(l(a) < l(c)); }
  public static Value ILow8(Value a) { return IntValue.gen((int) (l(a) & 255)); }
  public static Value I32(Value a) { return b(l(a) == (int) l(a)); }

  private static double d(Value x) {
    String t = s(x);
    return t.equals("nan") ? Double.NaN : Double.longBitsToDouble(Long.parseUnsignedLong(t, 16));
  }
  private static Value d(double x) {
    return v(Double.isNaN(x) ? "nan" : String.format("%016x", Double.doubleToRawLongBits(x)));
  }
  public static Value FParse(Value str) {
    String t = s(str);
    if (t.equals("NaN") || t.endsWith("Infinity")) return d(Double.parseDouble(t));
    double x = Double.parseDouble(t);
    if (Double.isInfinite(x)) return BAD;
    if (Math.abs(x) < Double.MIN_NORMAL
        && new java.math.BigDecimal(x).compareTo(new java.math.BigDecimal(t)) != 0) return BAD;
    return d(x);
  }
  public static Value FAdd(Value a, Value c) { return d(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return d(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return d(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return d(d(a) / d(c)); }
  public static Value FRem(Value a, Value c) { return d(d(a) % d(c)); }
  public static Value FPow(Value a, Value c) {
    double x = d(a), n = d(c), r = Math.pow(x, n);
    if (Double.isNaN(x) || Double.isNaN(n) || Double.isInfinite(x) || Double.isInfinite(n)) return v("?");
    if (n == 0) return d(1.0);
    if (x == 0 || x == 1 || x == -1 && n == Math.rint(n)) return d(r);
    if (Double.isInfinite(r) || r == 0 || Double.isNaN(r)) return v("?");
    /* exact results only: small integral powers of short significands */
    if (n == Math.rint(n) && Math.abs(n) <= 64) {
      try {
        java.math.BigDecimal e = new java.math.BigDecimal(x).pow((int) Math.abs(n));
        if (n < 0) e = java.math.BigDecimal.ONE.divide(e);
        double k = e.doubleValue();
        if (new java.math.BigDecimal(k).compareTo(e) == 0) return d(k);
      } catch (RuntimeException ex) {
        return v("?");
      }
    }
    return v("?");
  }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
}
