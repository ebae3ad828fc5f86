package vs.core;

import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A caller changes its own data between its calls. */
public final class Edit {
    private Edit() { }

    /** o.f: the path of the entry, "" for the whole record; o.v: what it is to be, "absent" if it goes; o.n: 1 if the objects that are there are reused. */
    @SuppressWarnings("unchecked")
    static void real(final SimMap root, final Op o, final SimMap.Listener l) {
        SimMap m = root;
        if (o.f.isEmpty()) {
            fill(m, (Map<String, Object>) o.v, "", o.n == 1, l);
            return;
        }
        final String[] p = o.f.split("\\.");
        for (int i = 0; i < p.length - 1; i++) {
            final Object x = m.raw.get(p[i]);
            if (!(x instanceof SimMap)) return;
            m = (SimMap) x;
        }
        set(m, p[p.length - 1], o.v, o.f, o.n == 1, l);
    }

    private static void fill(final SimMap m, final Map<String, Object> v, final String path, final boolean reuse, final SimMap.Listener l) {
        m.raw.keySet().removeIf(k -> !v.containsKey(k));
        for (final Map.Entry<String, Object> e : v.entrySet()) set(m, e.getKey(), e.getValue(), path.isEmpty() ? e.getKey() : path + "." + e.getKey(), reuse, l);
    }

    @SuppressWarnings("unchecked")
    private static void set(final SimMap m, final String k, final Object v, final String path, final boolean reuse, final SimMap.Listener l) {
        if ("absent".equals(v)) { m.raw.remove(k); return; }
        final Object old = m.raw.get(k);
        if (reuse && old instanceof SimMap && v instanceof Map) { fill((SimMap) old, (Map<String, Object>) v, path, true, l); return; }
        final Object x = Val.decode(v, path, l);
        if (reuse && old != null && x != null) {
            if (old instanceof SimList && x instanceof SimList) { ((SimList) old).raw.clear(); ((SimList) old).raw.addAll(((SimList) x).raw); return; }
            if (old instanceof SimSet && x instanceof SimSet) { ((SimSet) old).raw.clear(); ((SimSet) old).raw.addAll(((SimSet) x).raw); return; }
            if (old instanceof StringBuilder && x instanceof StringBuilder) { ((StringBuilder) old).setLength(0); ((StringBuilder) old).append(x); return; }
            if (old instanceof Object[] && x instanceof Object[] && ((Object[]) old).length == ((Object[]) x).length) { System.arraycopy(x, 0, old, 0, ((Object[]) x).length); return; }
        }
        m.raw.put(k, x);
    }

    /** The same on the data's JSON form, which is left as it is; the changed copy is returned. */
    @SuppressWarnings("unchecked")
    public static Map<String, Object> json(final Map<String, Object> d, final Op o) {
        if (o.f.isEmpty()) {
            final Map<String, Object> m = new LinkedHashMap<>();
            for (final Map.Entry<String, Object> e : ((Map<String, Object>) o.v).entrySet()) if (!"absent".equals(e.getValue())) m.put(e.getKey(), e.getValue());
            return m;
        }
        return put(d, o.f.split("\\."), 0, o.v);
    }

    @SuppressWarnings("unchecked")
    private static Map<String, Object> put(final Map<String, Object> d, final String[] p, final int i, final Object v) {
        final Map<String, Object> m = new LinkedHashMap<>(d);
        if (i == p.length - 1) {
            if ("absent".equals(v)) m.remove(p[i]); else m.put(p[i], v);
            return m;
        }
        final Object x = m.get(p[i]);
        if (x instanceof Map) m.put(p[i], put((Map<String, Object>) x, p, i + 1, v));
        return m;
    }

    /** What is at a path, "absent" if nothing. */
    public static Object at(final Object d, final String path) {
        Object x = d;
        if (path.isEmpty()) return x;
        for (final String k : path.split("\\.")) {
            if (!(x instanceof Map) || !((Map<?, ?>) x).containsKey(k)) return "absent";
            x = ((Map<?, ?>) x).get(k);
        }
        return x;
    }
}
