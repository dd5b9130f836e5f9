import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides for Rat.tla: canonical rationals over BigInteger. */
public class Rat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("Rat: zero denominator");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    Q(BigInteger n, BigInteger d, boolean canonical) { this.n = n; this.d = d; }
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    Q neg() { return new Q(n.negate(), d, true); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    Q pow(int k) {
      if (k >= 0) return new Q(n.pow(k), d.pow(k), true);
      return new Q(d.pow(-k), n.pow(-k));
    }
    BigInteger floor() { return d.equals(BigInteger.ONE) ? n : n.subtract(n.mod(d)).divide(d); }
    BigDecimal dec(MathContext mc) { return new BigDecimal(n).divide(new BigDecimal(d), mc); }
    boolean isInt() { return d.equals(BigInteger.ONE); }
    @Override public String toString() { return isInt() ? n.toString() : n + "/" + d; }
  }
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
  static final MathContext MC = new MathContext(75), OUT = new MathContext(55);
  static final ConcurrentHashMap<Object, Q> cache = new ConcurrentHashMap<>();

  static final class RV extends StringValue {   // a string that remembers the rational it denotes
    final Q q;
    RV(String t, Q q) { super(t); this.q = q; }
  }
  static Q of(Value v) {
    if (v instanceof RV) return ((RV) v).q;
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE, true);
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Q q = cache.get(u);
      if (q == null) {
        q = parse(u.toString());
        if (cache.size() > 400000) cache.clear();
        cache.put(u, q);
      }
      return q;
    }
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Q parse(String s) {
    int i = s.indexOf('/');
    if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE, true);
    return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)), true);
  }
  static Q fromDec(BigDecimal b) {
    return b.scale() >= 0 ? new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                          : new Q(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }
  static final ConcurrentHashMap<String, StringValue> vals = new ConcurrentHashMap<>();
  static final StringValue[] small = new StringValue[4096];
  static Value val(Q q) {
    boolean sm = q.isInt() && q.n.bitLength() < 12 && q.n.signum() >= 0;
    if (sm && small[q.n.intValue()] != null) return small[q.n.intValue()];
    String t = q.toString();
    StringValue s = vals.get(t);          // TLC's own string table is a bottleneck
    if (s != null) return s;
    s = new RV(t, q);
    if (vals.size() > 400000) vals.clear();
    vals.put(t, s);
    if (sm) small[q.n.intValue()] = s;
    return s;
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value a) { return val(of(a)); }
  public static Value Q(Value a, Value b) { return val(of(a).div(of(b))); }
  public static Value RDec(Value s) { return val(fromDec(new BigDecimal(((StringValue) s).val.toString()))); }
  public static Value RRec(Value s) {
    if (s instanceof IntValue) return val(of(s));
    String t = ((StringValue) s).val.toString();
    return t.indexOf('/') >= 0 ? s : val(fromDec(new BigDecimal(t)));
  }
  public static Value RAdd(Value a, Value b) { return val(of(a).add(of(b))); }
  public static Value RSub(Value a, Value b) { return val(of(a).sub(of(b))); }
  public static Value RMul(Value a, Value b) { return val(of(a).mul(of(b))); }
  public static Value RDiv(Value a, Value b) { return val(of(a).div(of(b))); }
  public static Value RNeg(Value a) { return val(of(a).neg()); }
  public static Value RPow(Value a, Value k) {
    Q e = of(k);
    if (!e.isInt()) throw new RuntimeException("RPow: integer power expected");
    return val(of(a).pow(e.n.intValueExact()));
  }
  public static Value RLt(Value a, Value b) { return bool(of(a).cmp(of(b)) < 0); }
  public static Value RLe(Value a, Value b) { return bool(of(a).cmp(of(b)) <= 0); }
  public static Value REq(Value a, Value b) { return bool(of(a).cmp(of(b)) == 0); }
  public static Value RMax(Value a, Value b) { return of(a).cmp(of(b)) >= 0 ? R(a) : R(b); }
  public static Value RMin(Value a, Value b) { return of(a).cmp(of(b)) <= 0 ? R(a) : R(b); }
  public static Value RFloor(Value a) { return IntValue.gen(of(a).floor().intValueExact()); }
  public static Value RCeil(Value a) { return IntValue.gen(of(a).neg().floor().negate().intValueExact()); }
  public static Value RIsInt(Value a) { return bool(of(a).isInt()); }
  public static Value RRnd(Value a, Value k) {
    int s = ((IntValue) k).val; Q q = of(a);
    if (q.isInt()) return val(q);
    BigDecimal b = new BigDecimal(q.n).divide(new BigDecimal(q.d), s, RoundingMode.HALF_EVEN);
    return val(fromDec(b));
  }
  static boolean within(Q a, Q b, Q t) {
    Q m = ONE; if (a.abs().cmp(m) > 0) m = a.abs(); if (b.abs().cmp(m) > 0) m = b.abs();
    return a.sub(b).abs().cmp(m.mul(t)) <= 0;
  }
  static final Q T35 = new Q(BigInteger.ONE, BigInteger.TEN.pow(35));
  public static Value RNear(Value a, Value b) { return bool(within(of(a), of(b), T35)); }
  public static Value RTol(Value a, Value b, Value t) { return bool(within(of(a), of(b), of(t))); }

  // ---- transcendental functions, to ~50 significant digits
  static final ConcurrentHashMap<BigDecimal, BigDecimal> exps = new ConcurrentHashMap<>(), lns = new ConcurrentHashMap<>();
  static BigDecimal exp(BigDecimal x) {
    BigDecimal r = exps.get(x);
    if (r == null) {
      r = exp0(x);
      if (exps.size() > 200000) exps.clear();
      exps.put(x, r);
    }
    return r;
  }
  static BigDecimal ln(BigDecimal x) {
    BigDecimal r = lns.get(x);
    if (r == null) {
      r = ln0(x);
      if (lns.size() > 200000) lns.clear();
      lns.put(x, r);
    }
    return r;
  }
  static BigDecimal exp0(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ONE;
    int k = Math.max(0, (int) Math.ceil(Math.log(Math.abs(x.doubleValue()) + 1e-300) / Math.log(2)) + 12);
    MathContext mc = new MathContext(75 + k / 2 + 5);
    BigDecimal y = x.divide(new BigDecimal(BigInteger.ONE.shiftLeft(k)), mc), t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 200; i++) {
      t = t.multiply(y, mc).divide(BigDecimal.valueOf(i), mc);
      s = s.add(t, mc);
      if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(90)) < 0) break;
    }
    for (int i = 0; i < k; i++) s = s.multiply(s, mc);
    return s;
  }
  static BigDecimal ln0(BigDecimal a) {
    if (a.signum() <= 0) throw new ArithmeticException("ln of non-positive");
    if (a.compareTo(BigDecimal.ONE) == 0) return BigDecimal.ZERO;
    // a = m * 10^e with m near 1 handled through doubles
    double d0 = a.round(new MathContext(17)).doubleValue();
    BigDecimal y = new BigDecimal(Math.log(d0));
    for (int i = 0; i < 5; i++) {   // Newton on exp: y += 2 (a - e^y)/(a + e^y)
      BigDecimal e = exp0(y);
      BigDecimal dl = a.subtract(e).multiply(BigDecimal.valueOf(2)).divide(a.add(e), MC);
      y = y.add(dl, MC);
      if (dl.signum() == 0 || dl.abs().compareTo(BigDecimal.ONE.movePointLeft(72)) < 0) break;
    }
    return y;
  }
  public static Value RExp(Value a) {
    Q q = of(a);
    if (q.n.signum() == 0) return val(ONE);
    return val(fromDec(exp(q.dec(MC)).round(OUT)));
  }
  public static Value RLn(Value a) { return val(fromDec(ln(of(a).dec(MC)).round(OUT))); }
  static Q sqrtExact(Q q) {
    BigInteger n = q.n.sqrt(), d = q.d.sqrt();
    if (n.multiply(n).equals(q.n) && d.multiply(d).equals(q.d)) return new Q(n, d);
    return null;
  }
  public static Value RSqrt(Value a) {
    Q q = of(a); Q e = sqrtExact(q);
    if (e != null) return val(e);
    return val(fromDec(q.dec(MC).sqrt(OUT)));
  }
  static BigInteger iroot(BigInteger a, int k) { // exact k-th root or null
    if (a.signum() < 0) return null;
    if (a.equals(BigInteger.ZERO) || a.equals(BigInteger.ONE)) return a;
    BigInteger x = BigInteger.ONE.shiftLeft(a.bitLength() / k + 1);
    while (true) {
      BigInteger y = x.multiply(BigInteger.valueOf(k - 1)).add(a.divide(x.pow(k - 1))).divide(BigInteger.valueOf(k));
      if (y.compareTo(x) >= 0) break;
      x = y;
    }
    return x.pow(k).equals(a) ? x : null;
  }
  public static Value RPowR(Value a, Value b) {
    Q x = of(a), e = of(b);
    if (e.isInt()) return val(x.pow(e.n.intValueExact()));
    if (x.n.signum() == 0) { if (e.n.signum() > 0) return val(ZERO); throw new ArithmeticException("0^negative"); }
    if (x.cmp(ONE) == 0) return val(ONE);
    if (e.d.bitLength() < 12) {
      int k = e.d.intValue();
      BigInteger rn = iroot(x.n, k), rd = iroot(x.d, k);
      if (rn != null && rd != null) return val(new Q(rn, rd).pow(e.n.intValueExact()));
    }
    BigDecimal y = ln(x.dec(MC)).multiply(e.dec(MC), MC);
    return val(fromDec(exp(y).round(OUT)));
  }
  public static Value RPhi(Value a) {
    BigDecimal x = of(a).dec(MC);
    if (Math.abs(x.doubleValue()) > 12) return val(x.signum() > 0 ? ONE : ZERO);
    BigDecimal t = x, s = x, x2 = x.multiply(x, MC);
    for (int i = 1; i < 2000; i++) {
      t = t.multiply(x2, MC).divide(BigDecimal.valueOf(2 * i + 1), MC);
      s = s.add(t, MC);
      if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(85)) < 0) break;
    }
    BigDecimal pi = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");
    BigDecimal phi = exp(x2.negate().divide(BigDecimal.valueOf(2), MC)).divide(pi.multiply(BigDecimal.valueOf(2)).sqrt(MC), MC);
    return val(fromDec(phi.multiply(s, MC).add(new BigDecimal("0.5")).round(new MathContext(45))));
  }
  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t instanceof TupleValue) return ((TupleValue) t).elems;
    Value f = s.toFcnRcd();
    if (f instanceof FcnRcdValue) return ((FcnRcdValue) f).values;
    throw new RuntimeException("Rat: sequence expected: " + s);
  }
  public static Value RSum(Value s) { Q r = ZERO; for (Value v : elems(s)) r = r.add(of(v)); return val(r); }
  public static Value RProd(Value s) { Q r = ONE; for (Value v : elems(s)) r = r.mul(of(v)); return val(r); }
  static String str(Q q) { return q.isInt() && q.n.bitLength() < 64 ? q.n.toString() : q.dec(new MathContext(25)).toString(); }
  public static Value RStr(Value a) { return new StringValue(str(of(a))); }

  public static Value Mat(Value f) {
    if (f instanceof FcnLambdaValue) {
      Value t = f.toFcnRcd(); t.deepNormalize(); return t;
    }
    f.deepNormalize(); return f;
  }

  // ---- I/O
  static PrintWriter out;
  static synchronized void line(String s) {
    try {
      if (out == null) {
        String p = System.getProperty("actm.out");
        if (p == null) return;
        out = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(p, true), StandardCharsets.UTF_8)));
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Rat.class) { out.flush(); out.close(); } }));
      }
      out.println(s);
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  static void json(Value v, StringBuilder b) {
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      b.append('"');
      for (int i = 0; i < s.length(); i++) { char c = s.charAt(i);
        if (c == '"' || c == '\\') b.append('\\'); b.append(c); }
      b.append('"');
    } else if (v instanceof IntValue) b.append(((IntValue) v).val);
    else if (v instanceof BoolValue) b.append(((BoolValue) v).val ? "true" : "false");
    else if (v instanceof ModelValue) b.append('"').append(v.toString()).append('"');
    else if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; b.append('{');
      for (int i = 0; i < r.names.length; i++) { if (i > 0) b.append(',');
        b.append('"').append(r.names[i].toString()).append("\":"); json(r.values[i], b); }
      b.append('}');
    } else if (v instanceof TupleValue) {
      b.append('['); Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
      b.append(']');
    } else if (v instanceof SetEnumValue) {
      v.normalize(); b.append('['); ValueVec e = ((SetEnumValue) v).elems;
      for (int i = 0; i < e.size(); i++) { if (i > 0) b.append(','); json(e.elementAt(i), b); }
      b.append(']');
    } else {
      Value r = v.toRcd(); if (r instanceof RecordValue) { json(r, b); return; }
      Value t = v.toTuple(); if (t instanceof TupleValue) { json(t, b); return; }
      Value f = v.toFcnRcd();
      if (f instanceof FcnRcdValue) {   // general function: list of pairs
        FcnRcdValue g = (FcnRcdValue) f; g.normalize(); Value[] dom = g.getDomainAsValues();
        b.append('[');
        for (int i = 0; i < dom.length; i++) { if (i > 0) b.append(',');
          b.append('['); json(dom[i], b); b.append(','); json(g.values[i], b); b.append(']'); }
        b.append(']'); return;
      }
      throw new RuntimeException("Emit: cannot encode " + v.getClass() + " " + v);
    }
  }
  public static Value Emit(Value r) { StringBuilder b = new StringBuilder(); json(r, b); line(b.toString()); return BoolValue.ValTrue; }
  public static Value Param(Value name, Value dflt) {
    String s = System.getProperty("actm." + ((StringValue) name).val.toString());
    return s == null || s.isEmpty() ? dflt : IntValue.gen(Integer.parseInt(s));
  }
  public static Value ParamStr(Value name, Value dflt) {
    String s = System.getProperty("actm." + ((StringValue) name).val.toString());
    return s == null || s.isEmpty() ? dflt : new StringValue(s);
  }
  public static Value Hash(Value k, Value n) {
    long z = 0x9E3779B97F4A7C15L;
    String s = k.toString();
    for (int i = 0; i < s.length(); i++) { z ^= s.charAt(i); z *= 0x100000001B3L; z ^= z >>> 29; }
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L; z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL; z ^= z >>> 31;
    return IntValue.gen((int) Long.remainderUnsigned(z, ((IntValue) n).val));
  }

  // ---- JSON reader (numbers become decimal rationals, objects records)
  static final ConcurrentHashMap<String, Value> loaded = new ConcurrentHashMap<>();
  public static Value Load(Value name) {
    String p = System.getProperty("actm." + ((StringValue) name).val.toString());
    return loaded.computeIfAbsent(p, k -> {
      try { String s = new String(Files.readAllBytes(Paths.get(k)), StandardCharsets.UTF_8);
        int[] i = {0}; Value v = rd(s, i); v.deepNormalize(); return v;
      } catch (IOException e) { throw new RuntimeException(e); } });
  }
  static void ws(String s, int[] i) { while (i[0] < s.length() && Character.isWhitespace(s.charAt(i[0]))) i[0]++; }
  static Value rd(String s, int[] i) {
    ws(s, i); char c = s.charAt(i[0]);
    if (c == '{') { i[0]++; ArrayList<UniqueString> ns = new ArrayList<>(); ArrayList<Value> vs = new ArrayList<>();
      ws(s, i);
      while (s.charAt(i[0]) != '}') { Value k = rd(s, i); ws(s, i); i[0]++; Value v = rd(s, i);
        ns.add(((StringValue) k).val); vs.add(v); ws(s, i); if (s.charAt(i[0]) == ',') { i[0]++; ws(s, i); } }
      i[0]++; return new RecordValue(ns.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false); }
    if (c == '[') { i[0]++; ArrayList<Value> vs = new ArrayList<>(); ws(s, i);
      while (s.charAt(i[0]) != ']') { vs.add(rd(s, i)); ws(s, i); if (s.charAt(i[0]) == ',') { i[0]++; ws(s, i); } }
      i[0]++; return new TupleValue(vs.toArray(new Value[0])); }
    if (c == '"') { StringBuilder b = new StringBuilder(); i[0]++;
      while (s.charAt(i[0]) != '"') { if (s.charAt(i[0]) == '\\') i[0]++; b.append(s.charAt(i[0]++)); }
      i[0]++; return new StringValue(b.toString()); }
    if (s.startsWith("true", i[0])) { i[0] += 4; return BoolValue.ValTrue; }
    if (s.startsWith("false", i[0])) { i[0] += 5; return BoolValue.ValFalse; }
    if (s.startsWith("null", i[0])) { i[0] += 4; return new StringValue("null"); }
    int j = i[0]; while (i[0] < s.length() && "+-.eE0123456789".indexOf(s.charAt(i[0])) >= 0) i[0]++;
    String t = s.substring(j, i[0]);
    if (t.matches("-?\\d{1,9}")) return IntValue.gen(Integer.parseInt(t));
    return val(fromDec(new BigDecimal(t)));
  }
}
