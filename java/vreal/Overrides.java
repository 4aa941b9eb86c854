package vreal;

import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Java implementations of the operators that spec/RealArith.tla and spec/LinAlg.tla define. */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { Overrides.class }; }

    static final String M = "RealArith";
    static Big b(Value v) {
        if (v instanceof RealValue) return ((RealValue) v).v;
        if (v instanceof IntValue) return Big.of(((IntValue) v).val);
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            switch (s) { case "nan": return Big.NAN; case "inf": return Big.PINF; case "-inf": return Big.NINF; }
        }
        throw new RuntimeException("not a number: " + v);
    }
    static Value r(Big x) { return new RealValue(x); }
    static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static Big[] vec(Value v) {
        Value[] e = seq(v);
        Big[] o = new Big[e.length];
        for (int i = 0; i < e.length; i++) o[i] = b(e[i]);
        return o;
    }
    static Big[][] mat(Value v) {
        Value[] e = seq(v);
        Big[][] o = new Big[e.length][];
        for (int i = 0; i < e.length; i++) o[i] = vec(e[i]);
        return o;
    }
    static Value rv(Big[] x) {
        Value[] o = new Value[x.length];
        for (int i = 0; i < x.length; i++) o[i] = r(x[i]);
        return new TupleValue(o);
    }
    static Value rm(Big[][] x) {
        Value[] o = new Value[x.length];
        for (int i = 0; i < x.length; i++) o[i] = rv(x[i]);
        return new TupleValue(o);
    }
    static Big dot(Big[] a, Big[] c) {
        if (a.length != c.length) throw new RuntimeException("dot: lengths " + a.length + " and " + c.length);
        Big s = Big.ZERO;
        for (int i = 0; i < a.length; i++) s = s.add(a[i].mul(c[i]));
        return s;
    }

    @TLAPlusOperator(identifier = "RInt", module = M, warn = false) public static Value RInt(Value a) { return r(b(a)); }
    @TLAPlusOperator(identifier = "RAdd", module = M, warn = false) public static Value RAdd(Value a, Value c) { return r(b(a).add(b(c))); }
    @TLAPlusOperator(identifier = "RSub", module = M, warn = false) public static Value RSub(Value a, Value c) { return r(b(a).sub(b(c))); }
    @TLAPlusOperator(identifier = "RMul", module = M, warn = false) public static Value RMul(Value a, Value c) { return r(b(a).mul(b(c))); }
    @TLAPlusOperator(identifier = "RDiv", module = M, warn = false) public static Value RDiv(Value a, Value c) { return r(b(a).div(b(c))); }
    @TLAPlusOperator(identifier = "RNeg", module = M, warn = false) public static Value RNeg(Value a) { return r(b(a).neg()); }
    @TLAPlusOperator(identifier = "RAbs", module = M, warn = false) public static Value RAbs(Value a) { return r(b(a).abs()); }
    @TLAPlusOperator(identifier = "RSign", module = M, warn = false) public static Value RSign(Value a) { return r(Big.of(b(a).signum())); }
    @TLAPlusOperator(identifier = "RLeq", module = M, warn = false) public static Value RLeq(Value a, Value c) { return bool(b(a).le(b(c))); }
    @TLAPlusOperator(identifier = "RLt", module = M, warn = false) public static Value RLt(Value a, Value c) { return bool(b(a).lt(b(c))); }
    @TLAPlusOperator(identifier = "REq", module = M, warn = false) public static Value REq(Value a, Value c) { Big x = b(a), y = b(c); return bool(!x.isNaN() && !y.isNaN() && x.compareTo(y) == 0); }
    @TLAPlusOperator(identifier = "RMax", module = M, warn = false) public static Value RMax(Value a, Value c) { Big x = b(a), y = b(c); return r(x.isNaN() || y.isNaN() ? Big.NAN : x.compareTo(y) >= 0 ? x : y); }
    @TLAPlusOperator(identifier = "RMin", module = M, warn = false) public static Value RMin(Value a, Value c) { Big x = b(a), y = b(c); return r(x.isNaN() || y.isNaN() ? Big.NAN : x.compareTo(y) <= 0 ? x : y); }
    @TLAPlusOperator(identifier = "RIsFinite", module = M, warn = false) public static Value RIsFinite(Value a) { return bool(b(a).finite()); }
    @TLAPlusOperator(identifier = "RIsNaN", module = M, warn = false) public static Value RIsNaN(Value a) { return bool(b(a).isNaN()); }
    @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false) public static Value RSqrt(Value a) { return r(b(a).sqrt()); }
    @TLAPlusOperator(identifier = "RExp", module = M, warn = false) public static Value RExp(Value a) { return r(b(a).exp()); }
    @TLAPlusOperator(identifier = "RLog", module = M, warn = false) public static Value RLog(Value a) { return r(b(a).log()); }
    @TLAPlusOperator(identifier = "RLog1p", module = M, warn = false) public static Value RLog1p(Value a) { return r(b(a).log1p()); }
    @TLAPlusOperator(identifier = "RAsinh", module = M, warn = false) public static Value RAsinh(Value a) { return r(b(a).asinh()); }
    @TLAPlusOperator(identifier = "RPowI", module = M, warn = false) public static Value RPowI(Value a, Value n) { return r(b(a).powi(((IntValue) n).val)); }
    @TLAPlusOperator(identifier = "RPow", module = M, warn = false) public static Value RPow(Value a, Value y) { return r(b(a).pow(b(y))); }
    @TLAPlusOperator(identifier = "RPi", module = M, warn = false) public static Value RPi() { return r(Big.PI); }
    @TLAPlusOperator(identifier = "RNaN", module = M, warn = false) public static Value RNaN() { return r(Big.NAN); }
    @TLAPlusOperator(identifier = "RInf", module = M, warn = false) public static Value RInf() { return r(Big.PINF); }
    @TLAPlusOperator(identifier = "RLGamma", module = M, warn = false) public static Value RLGamma(Value a) { return r(b(a).lgamma()); }
    @TLAPlusOperator(identifier = "RDigamma", module = M, warn = false) public static Value RDigamma(Value a) { return r(b(a).digamma()); }
    @TLAPlusOperator(identifier = "RTrigamma", module = M, warn = false) public static Value RTrigamma(Value a) { return r(b(a).trigamma()); }
    @TLAPlusOperator(identifier = "RGammaP", module = M, warn = false) public static Value RGammaP(Value a, Value x) { return r(Big.gammaP(b(a), b(x))); }
    @TLAPlusOperator(identifier = "RGammaQ", module = M, warn = false) public static Value RGammaQ(Value a, Value x) { return r(Big.gammaQ(b(a), b(x))); }
    @TLAPlusOperator(identifier = "RBetaI", module = M, warn = false) public static Value RBetaI(Value a, Value c, Value x) { return r(Big.betaI(b(a), b(c), b(x))); }
    @TLAPlusOperator(identifier = "RNormCdf", module = M, warn = false) public static Value RNormCdf(Value a) { return r(b(a).normCdf()); }
    @TLAPlusOperator(identifier = "RClose", module = M, warn = false) public static Value RClose(Value a, Value c, Value rt, Value at) { return bool(close(b(a), b(c), b(rt), b(at))); }
    static boolean close(Big x, Big y, Big rt, Big at) {
        if (x.isNaN() || y.isNaN()) return false;
        if (!x.finite() || !y.finite()) return x.equals(y);
        Big m = x.abs().compareTo(y.abs()) >= 0 ? x.abs() : y.abs();
        return x.sub(y).abs().le(at.add(rt.mul(m)));
    }
    @TLAPlusOperator(identifier = "VClose", module = M, warn = false) public static Value VClose(Value a, Value c, Value rt, Value at) {
        Big[] x = vec(a), y = vec(c);
        if (x.length != y.length) return bool(false);
        Big rr = b(rt), aa = b(at);
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], rr, aa)) return bool(false);
        return bool(true);
    }

    @TLAPlusOperator(identifier = "RSum", module = M, warn = false) public static Value RSum(Value s) {
        Big t = Big.ZERO; for (Big x : vec(s)) t = t.add(x); return r(t);
    }
    @TLAPlusOperator(identifier = "RDot", module = M, warn = false) public static Value RDot(Value a, Value c) { return r(dot(vec(a), vec(c))); }
    @TLAPlusOperator(identifier = "RDot3", module = M, warn = false) public static Value RDot3(Value a, Value c, Value d) {
        Big[] x = vec(a), y = vec(c), z = vec(d); Big s = Big.ZERO;
        if (x.length != y.length || x.length != z.length) throw new RuntimeException("RDot3: lengths");
        for (int i = 0; i < x.length; i++) s = s.add(x[i].mul(y[i]).mul(z[i]));
        return r(s);
    }
    @TLAPlusOperator(identifier = "VMaxAbs", module = M, warn = false) public static Value VMaxAbs(Value s) {
        Big t = Big.ZERO; for (Big x : vec(s)) { if (x.isNaN()) return r(Big.NAN); if (x.abs().compareTo(t) > 0) t = x.abs(); } return r(t);
    }
    // vectors
    interface F2 { Big f(Big a, Big c); }
    static Value zip(Value a, Value c, F2 f) {
        Big[] x = vec(a), y = vec(c);
        if (x.length != y.length) throw new RuntimeException("vector lengths " + x.length + " and " + y.length);
        Big[] o = new Big[x.length];
        for (int i = 0; i < o.length; i++) o[i] = f.f(x[i], y[i]);
        return rv(o);
    }
    static final String L = "LinAlg";
    @TLAPlusOperator(identifier = "VAdd", module = L, warn = false) public static Value VAdd(Value a, Value c) { return zip(a, c, Big::add); }
    @TLAPlusOperator(identifier = "VSub", module = L, warn = false) public static Value VSub(Value a, Value c) { return zip(a, c, Big::sub); }
    @TLAPlusOperator(identifier = "VMul", module = L, warn = false) public static Value VMul(Value a, Value c) { return zip(a, c, Big::mul); }
    @TLAPlusOperator(identifier = "VDiv", module = L, warn = false) public static Value VDiv(Value a, Value c) { return zip(a, c, Big::div); }
    @TLAPlusOperator(identifier = "VScale", module = L, warn = false) public static Value VScale(Value k, Value a) {
        Big kk = b(k); Big[] x = vec(a), o = new Big[x.length];
        for (int i = 0; i < o.length; i++) o[i] = kk.mul(x[i]); return rv(o);
    }
    @TLAPlusOperator(identifier = "MatVec", module = L, warn = false) public static Value MatVec(Value a, Value v) {
        Value[] rows = seq(a); Big[] x = vec(v), o = new Big[rows.length];
        for (int i = 0; i < o.length; i++) o[i] = dot(vec(rows[i]), x); return rv(o);
    }
    @TLAPlusOperator(identifier = "MatMul", module = L, warn = false) public static Value MatMul(Value a, Value c) {
        Big[][] x = mat(a), y = mat(c); int n = x.length, k = y.length, m = k == 0 ? 0 : y[0].length;
        Big[][] o = new Big[n][m];
        for (int i = 0; i < n; i++) { if (x[i].length != k) throw new RuntimeException("MatMul: shapes");
            for (int j = 0; j < m; j++) { Big s = Big.ZERO; for (int l = 0; l < k; l++) s = s.add(x[i][l].mul(y[l][j])); o[i][j] = s; } }
        return rm(o);
    }
    @TLAPlusOperator(identifier = "MatAdd", module = L, warn = false) public static Value MatAdd(Value a, Value c) {
        Big[][] x = mat(a), y = mat(c), o = new Big[x.length][];
        for (int i = 0; i < x.length; i++) { o[i] = new Big[x[i].length]; for (int j = 0; j < o[i].length; j++) o[i][j] = x[i][j].add(y[i][j]); }
        return rm(o);
    }
    @TLAPlusOperator(identifier = "MatScale", module = L, warn = false) public static Value MatScale(Value k, Value a) {
        Big kk = b(k); Big[][] x = mat(a);
        for (Big[] row : x) for (int j = 0; j < row.length; j++) row[j] = kk.mul(row[j]);
        return rm(x);
    }
    /** X' diag(w) X */
    @TLAPlusOperator(identifier = "WGram", module = L, warn = false) public static Value WGram(Value xs, Value ws) {
        Big[][] x = mat(xs); Big[] w = vec(ws);
        if (x.length == 0 || w.length != x.length) throw new RuntimeException("WGram: shapes");
        int J = x[0].length; Big[][] o = new Big[J][J];
        for (Big[] row : o) java.util.Arrays.fill(row, Big.ZERO);
        for (int n = 0; n < x.length; n++) for (int i = 0; i < J; i++) { Big wi = w[n].mul(x[n][i]);
            for (int j = 0; j <= i; j++) o[i][j] = o[i][j].add(wi.mul(x[n][j])); }
        for (int i = 0; i < J; i++) for (int j = i + 1; j < J; j++) o[i][j] = o[j][i];
        return rm(o);
    }
    /** X' diag(w) y */
    @TLAPlusOperator(identifier = "WCross", module = L, warn = false) public static Value WCross(Value xs, Value ys, Value ws) {
        Big[][] x = mat(xs); Big[] y = vec(ys), w = vec(ws);
        if (x.length == 0 || w.length != x.length || y.length != x.length) throw new RuntimeException("WCross: shapes");
        int J = x[0].length; Big[] o = new Big[J]; java.util.Arrays.fill(o, Big.ZERO);
        for (int n = 0; n < x.length; n++) { Big wy = w[n].mul(y[n]); for (int i = 0; i < J; i++) o[i] = o[i].add(wy.mul(x[n][i])); }
        return rv(o);
    }
    /** Solution of A z = c by Gaussian elimination with partial pivoting; the empty sequence if A is singular. */
    @TLAPlusOperator(identifier = "Solve", module = L, warn = false) public static Value Solve(Value av, Value cv) {
        Big[][] a = mat(av); Big[] c = vec(cv);
        Big[][] rhs = new Big[c.length][1]; for (int i = 0; i < c.length; i++) rhs[i][0] = c[i];
        Big[][] z = gauss(a, rhs);
        if (z == null) return new TupleValue(new Value[0]);
        Big[] o = new Big[c.length]; for (int i = 0; i < o.length; i++) o[i] = z[i][0];
        return rv(o);
    }
    @TLAPlusOperator(identifier = "Inverse", module = L, warn = false) public static Value Inverse(Value av) {
        Big[][] a = mat(av); int n = a.length; Big[][] id = new Big[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) id[i][j] = i == j ? Big.ONE : Big.ZERO;
        Big[][] z = gauss(a, id);
        return z == null ? new TupleValue(new Value[0]) : rm(z);
    }
    static Big[][] gauss(Big[][] a, Big[][] c) {
        int n = a.length, m = n == 0 ? 0 : c[0].length;
        Big scale = Big.ZERO;
        for (Big[] row : a) for (Big x : row) { if (!x.finite()) return null; if (scale.lt(x.abs())) scale = x.abs(); }
        Big tiny = scale.scale(-140);
        for (int k = 0; k < n; k++) {
            int p = k; for (int i = k + 1; i < n; i++) if (a[p][k].abs().lt(a[i][k].abs())) p = i;
            if (a[p][k].abs().le(tiny)) return null;
            Big[] t = a[p]; a[p] = a[k]; a[k] = t; t = c[p]; c[p] = c[k]; c[k] = t;
            for (int i = 0; i < n; i++) { if (i == k) continue;
                Big f = a[i][k].div(a[k][k]); if (f.isZero()) continue;
                for (int j = k; j < n; j++) a[i][j] = a[i][j].sub(f.mul(a[k][j]));
                for (int j = 0; j < m; j++) c[i][j] = c[i][j].sub(f.mul(c[k][j])); }
        }
        Big[][] z = new Big[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) z[i][j] = c[i][j].div(a[i][i]);
        return z;
    }

    // ---------------------------------------------------------------- trace input
    static final ConcurrentHashMap<String, Value> CACHE = new ConcurrentHashMap<>();
    @TLAPlusOperator(identifier = "LoadTraces", module = M, warn = false) public static Value LoadTraces(Value path) {
        String p = ((StringValue) path).val.toString();
        return CACHE.computeIfAbsent(p, q -> {
            try {
                String f = q.startsWith("$") ? System.getProperty(q.substring(1)) : q;
                List<Value> out = new ArrayList<>();
                for (String line : Files.readAllLines(Paths.get(f), StandardCharsets.UTF_8))
                    if (!line.isEmpty()) out.add(new Json(line).parse());
                Value v = new TupleValue(out.toArray(new Value[0]));
                v.deepNormalize();
                return v;
            } catch (Exception e) { throw new RuntimeException(e); }
        });
    }
    static final class Json {
        final String s; int i = 0;
        Json(String s) { this.s = s; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value parse() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++; List<UniqueString> ks = new ArrayList<>(); List<Value> vs = new ArrayList<>();
                ws(); if (s.charAt(i) == '}') { i++; }
                else while (true) { ws(); String k = str(); ws(); i++; /* : */ vs.add(parse()); ks.add(UniqueString.uniqueStringOf(k)); ws(); if (s.charAt(i++) == '}') break; }
                return new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
            }
            if (c == '[') {
                i++; List<Value> vs = new ArrayList<>();
                ws(); if (s.charAt(i) == ']') { i++; }
                else while (true) { vs.add(parse()); ws(); if (s.charAt(i++) == ']') break; }
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(str());
            int st = i; while (i < s.length() && ",]} \t".indexOf(s.charAt(i)) < 0) i++;
            String t = s.substring(st, i);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("null");
                case "NaN": return r(Big.NAN);
                case "Infinity": return r(Big.PINF);
                case "-Infinity": return r(Big.NINF);
            }
            if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) return IntValue.gen(Integer.parseInt(t));
            return r(Big.of(Double.parseDouble(t)));
        }
        String str() {
            StringBuilder b = new StringBuilder(); i++;
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') return b.toString();
                if (c == '\\') { c = s.charAt(i++);
                    switch (c) { case 'n': b.append('\n'); break; case 't': b.append('\t'); break; case 'r': b.append('\r'); break;
                        case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break; default: b.append(c); }
                } else b.append(c);
            }
        }
    }
}
