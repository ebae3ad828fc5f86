package vs.core;

import java.time.LocalDate;
import java.util.LinkedHashMap;
import java.util.Locale;
import java.util.Map;

/** The i-th value of an endless sequence: in an expression, and in the data. */
public final class Seq {
    private Seq() { }

    public static final String[] KINDS = {"int", "dec", "str", "date", "time", "ver"};

    static String lit(final String kind, final int i) {
        switch (kind) {
            case "dec": return i / 100 + "." + String.format(Locale.ROOT, "%02d", i % 100);
            case "str": return "w" + i;
            case "date": return LocalDate.of(2020, 1, 1).plusDays(i % 30000).toString();
            case "time": return LocalDate.of(2024, 1, 5).plusDays(i / 86400) + String.format(Locale.ROOT, " %02d:%02d:%02d", i / 3600 % 24, i / 60 % 60, i % 60);
            case "ver": return i / 400 + "." + i / 20 % 20 + "." + i % 20;
            default: return String.valueOf(i);
        }
    }

    static String val(final String kind, final int i, final boolean typed) {
        switch (kind) {
            case "dec": return (typed ? "d:" : "f:") + lit(kind, i);
            case "date": return (typed ? "D:" : "s:") + lit(kind, i);
            case "time": return (typed ? "T:" : "s:") + (typed ? lit(kind, i).replace(' ', 'T') : lit(kind, i));
            case "int": return (typed ? "i:" : "l:") + i;
            default: return "s:" + lit(kind, i);
        }
    }

    /** The i-th call a "repeat" stands for. */
    public static Op op(final Op o, final int i) {
        final Map<?, ?> v = (Map<?, ?>) o.v;
        final Op p = new Op(o.f);
        p.obj = o.obj;
        p.data = o.data;
        p.def = (String) v.get("def");
        p.arity = o.f.equals("parse") ? 2 : 3;
        p.x = o.x == null || !v.containsKey("kind") ? o.x : o.x.replace("#", lit((String) v.get("kind"), i));
        return p;
    }

    /** All calls are the same. */
    static boolean same(final Op o) { return !((Map<?, ?>) o.v).containsKey("kind"); }

    /** The data of the i-th call. */
    @SuppressWarnings("unchecked")
    public static Object data(final Case c, final Op o, final int i) {
        final Map<?, ?> v = (Map<?, ?>) o.v;
        if (o.data < 0) return null;
        final Map<String, Object> m = new LinkedHashMap<>((Map<String, Object>) c.data.get(o.data));
        if (v.containsKey("set")) m.put((String) v.get("set"), val((String) v.get("kind"), i, Boolean.TRUE.equals(v.get("typed"))));
        return m;
    }

    /** Which of the answers are looked at: the first ones, those around powers of two, the last. */
    static boolean looked(final int i, final long n) {
        final int a = i & (i + 1), b = i & (i - 1), d = (i - 1) & (i - 2);
        return i < 2 || i == n - 1 || i > 16 && (a == 0 || b == 0 || d == 0) || i % 1000 == 1;
    }
}
