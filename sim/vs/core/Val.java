package vs.core;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.Collection;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Data values as text: the JSON form of a case's data context, and back. */
public final class Val {
    private Val() { }

    /** "i:5" "l:7" "d:1.50" "f:2.5" "s:abc" "b:true" "D:2024-01-01" "T:2024-01-01T10:00:00"; "g:" float, "h:" short, "y:" byte, "G:" big integer, "c:" character, "k:" mutable text, "e:" enum, "n:" null, "x:" an object that has no text; a JSON list; a JSON object (nested map). */
    public static Object decode(final Object j, final String path, final SimMap.Listener l) {
        if (j instanceof Map) {
            final SimMap m = new SimMap(path, l);
            for (final Map.Entry<?, ?> e : ((Map<?, ?>) j).entrySet()) {
                m.raw.put((String) e.getKey(), decode(e.getValue(), path.isEmpty() ? (String) e.getKey() : path + "." + e.getKey(), l));
            }
            return m;
        }
        if (j instanceof List) {
            final List<?> x = (List<?>) j;
            if (!x.isEmpty() && "@arr".equals(x.get(0))) {
                final Object[] a = new Object[x.size() - 1];
                for (int i = 1; i < x.size(); i++) a[i - 1] = decode(x.get(i), path, l);
                return a;
            }
            if (!x.isEmpty() && "@set".equals(x.get(0))) {
                final SimSet a = new SimSet(path, l);
                for (int i = 1; i < x.size(); i++) a.raw.add(decode(x.get(i), path, l));
                return a;
            }
            final SimList r = new SimList(path, l);
            for (final Object o : x) r.raw.add(decode(o, path, l));
            return r;
        }
        if (j == null) return null;
        final String s = (String) j;
        final String v = s.substring(2);
        switch (s.charAt(0)) {
            case 'i': return Integer.valueOf(v);
            case 'l': return Long.valueOf(v);
            case 'd': return new BigDecimal(v);
            case 'f': return Double.valueOf(v);
            case 's': return new String(v);
            case 'b': return Boolean.valueOf(v);
            case 'g': return Float.valueOf(v);
            case 'h': return Short.valueOf(v);
            case 'y': return Byte.valueOf(v);
            case 'G': return new java.math.BigInteger(v);
            case 'c': return v.charAt(0);
            case 'k': return new StringBuilder(v);
            case 'e': return java.time.DayOfWeek.valueOf(v);
            case 'n': return null;
            case 'x': return new Mute(v);
            case 'D': return LocalDate.parse(v);
            case 'T': return LocalDateTime.parse(v);
            default: throw new IllegalArgumentException(s);
        }
    }

    /** An object of the caller's that cannot be turned into text. */
    static final class Mute {
        final String id;
        Mute(final String id) { this.id = id; }
        @Override public String toString() { throw new IllegalStateException("no text for " + id); }
    }

    /** The same data in maps and lists of java.util: 1 hash maps, 2 sorted maps and linked lists, 3 concurrent ones, 4 unmodifiable ones. */
    static Object plain(final Object j, final int kind) {
        if (j instanceof Map) {
            final Map<String, Object> m = kind == 2 ? new TreeMap<>() : kind == 3 && !nulls(j) ? new java.util.concurrent.ConcurrentHashMap<>() : kind == 4 ? new java.util.LinkedHashMap<>() : new java.util.HashMap<>();
            for (final Map.Entry<?, ?> e : ((Map<?, ?>) j).entrySet()) {
                m.put((String) e.getKey(), plain(e.getValue(), kind));
            }
            return kind == 4 ? java.util.Collections.unmodifiableMap(m) : m;
        }
        if (j instanceof List) {
            final List<?> x = (List<?>) j;
            final boolean array = !x.isEmpty() && "@arr".equals(x.get(0)), set = !x.isEmpty() && "@set".equals(x.get(0));
            final Collection<Object> r = set ? new java.util.LinkedHashSet<>() : kind == 2 ? new java.util.LinkedList<>() : kind == 3 ? new java.util.concurrent.CopyOnWriteArrayList<>() : new java.util.ArrayList<>();
            for (int i = array || set ? 1 : 0; i < x.size(); i++) r.add(plain(x.get(i), kind));
            if (array) return r.toArray();
            return kind != 4 ? r : set ? java.util.Collections.unmodifiableSet((java.util.Set<?>) r) : java.util.Collections.unmodifiableList((List<?>) r);
        }
        return decode(j, "", null);
    }

    private static boolean nulls(final Object j) {
        for (final Object x : ((Map<?, ?>) j).values()) if (x == null || x instanceof String && ((String) x).startsWith("n:")) return true;
        return false;
    }

    /** Canonical text of a value, independent of identity. */
    public static String show(final Object o) {
        if (o == null) return "null";
        if (o instanceof SimMap) return show(((SimMap) o).raw);
        if (o instanceof SimList) return show(((SimList) o).raw);
        if (o instanceof SimSet) return show(((SimSet) o).raw);
        if (o instanceof Map) {
            final StringBuilder b = new StringBuilder("{");
            for (final Map.Entry<?, ?> e : new TreeMap<Object, Object>((Map<?, ?>) o).entrySet()) b.append(e.getKey()).append('=').append(show(e.getValue())).append(';');
            return b.append('}').toString();
        }
        if (o instanceof Collection) {
            final StringBuilder b = new StringBuilder(o instanceof List ? "[" : "<");
            for (final Object x : (Collection<?>) o) b.append(show(x)).append(',');
            return b.append(']').toString();
        }
        if (o instanceof Object[]) return "@" + show(java.util.Arrays.asList((Object[]) o));
        if (o instanceof Mute) return "Mute:" + ((Mute) o).id;
        return o.getClass().getSimpleName() + ":" + strip(String.valueOf(o));
    }

    public static String strip(final String s) { return s == null ? null : s.replaceAll("@[0-9a-f]{4,16}\\b", "@#").replaceAll("Lambda(\\$[0-9]+)?/0x[0-9a-f]+", "Lambda"); }
}
