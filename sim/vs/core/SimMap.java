package vs.core;

import java.util.AbstractMap;
import java.util.LinkedHashMap;
import java.util.Map;
import java.util.Set;

/** The caller's data context: a map that is a fault and scheduling point, and records what is done to it. */
public final class SimMap extends AbstractMap<String, Object> {
    public interface Listener {
        /** Before a read; may throw, block, or run other operations. */
        void before(Object m, String path);

        void after(Object m, String path, Object value);

        void mutated(Object m, String what);
    }

    public final Map<String, Object> raw = new LinkedHashMap<>();
    public final String path;
    private final Listener l;

    public SimMap(final String path, final Listener l) { this.path = path; this.l = l; }

    Listener listener() { return l; }

    private String p(final Object k) { return path.isEmpty() ? String.valueOf(k) : path + "." + k; }

    @Override public Object get(final Object k) {
        l.before(this, p(k));
        final Object v = raw.get(k);
        l.after(this, p(k), v);
        return v;
    }

    @Override public boolean containsKey(final Object k) {
        l.before(this, p(k));
        final boolean v = raw.containsKey(k);
        l.after(this, p(k), v);
        return v;
    }

    @Override public Object getOrDefault(final Object k, final Object d) {
        l.before(this, p(k));
        final Object v = raw.containsKey(k) ? raw.get(k) : d;
        l.after(this, p(k), v);
        return v;
    }

    @Override public Set<Map.Entry<String, Object>> entrySet() {
        l.before(this, p("*"));
        final Set<Map.Entry<String, Object>> s = new LinkedHashMap<>(raw).entrySet();
        l.after(this, p("*"), s);
        return s;
    }

    @Override public int size() { return raw.size(); }

    @Override public boolean isEmpty() { return raw.isEmpty(); }

    @Override public Object put(final String k, final Object v) { l.mutated(this, "put " + p(k)); return raw.put(k, v); }

    @Override public Object remove(final Object k) { l.mutated(this, "remove " + p(k)); return raw.remove(k); }

    @Override public void clear() { l.mutated(this, "clear " + path); raw.clear(); }

    @Override public boolean equals(final Object o) { return this == o; }

    @Override public int hashCode() { return 1; }

    @Override public String toString() { return "data" + (path.isEmpty() ? "" : ":" + path); }
}
