package vs.core;

import java.util.LinkedHashMap;
import java.util.Map;

/** One call a simulated client makes. */
public final class Op {
    public int uid = -1;
    /** evalB evalA parse make reg put del edit spoil clock tz locale sleep gc drop; repeat: f the kind of call, v what varies (see Seq), n how often */
    public String k;
    public int obj = -1;
    public String x;
    public String def;
    public int arity = 3;
    public int data = -1;
    public String f;
    public Object v;
    public long n;

    public Op(final String k) { this.k = k; }

    public Op copy() {
        final Op o = new Op(k);
        o.uid = uid; o.obj = obj; o.x = x; o.def = def; o.arity = arity; o.data = data; o.f = f; o.v = v; o.n = n;
        return o;
    }

    public boolean call() { return k.equals("evalB") || k.equals("evalA") || k.equals("parse"); }

    public boolean eval() { return k.equals("evalB") || k.equals("evalA"); }

    public Map<String, Object> json(final boolean withUid) {
        final Map<String, Object> m = new LinkedHashMap<>();
        if (withUid) m.put("uid", (long) uid);
        m.put("k", k);
        if (obj >= 0) m.put("obj", (long) obj);
        if (call()) {
            m.put("x", x);
            if (!k.equals("evalA")) { m.put("def", def); m.put("arity", (long) arity); }
        } else if (x != null) m.put("x", x);
        if (data >= 0) m.put("data", (long) data);
        if (f != null) { m.put("f", f); }
        if (f != null || v != null) m.put("v", v);
        if (n != 0) m.put("n", n);
        return m;
    }

    public static Op of(final Map<String, Object> m) {
        final Op o = new Op((String) m.get("k"));
        if (m.containsKey("uid")) o.uid = ((Long) m.get("uid")).intValue();
        if (m.containsKey("obj")) o.obj = ((Long) m.get("obj")).intValue();
        o.x = (String) m.get("x");
        o.def = (String) m.get("def");
        if (m.containsKey("arity")) o.arity = ((Long) m.get("arity")).intValue();
        if (m.containsKey("data")) o.data = ((Long) m.get("data")).intValue();
        o.f = (String) m.get("f");
        o.v = m.get("v");
        if (m.containsKey("n")) o.n = (Long) m.get("n");
        return o;
    }

    @Override public String toString() { return Json.write(json(true)); }
}
