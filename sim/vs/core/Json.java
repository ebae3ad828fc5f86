package vs.core;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON: Map, List, String, Long, Double, Boolean, null. */
public final class Json {
    private Json() { }

    public static Map<String, Object> obj(final Object... kv) {
        final Map<String, Object> m = new LinkedHashMap<>();
        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
        return m;
    }

    public static String write(final Object o) { final StringBuilder b = new StringBuilder(); w(b, o); return b.toString(); }

    private static void w(final StringBuilder b, final Object o) {
        if (o == null) b.append("null");
        else if (o instanceof String) q(b, (String) o);
        else if (o instanceof Map) {
            b.append('{');
            boolean f = true;
            for (final Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                if (!f) b.append(',');
                f = false;
                q(b, String.valueOf(e.getKey()));
                b.append(':');
                w(b, e.getValue());
            }
            b.append('}');
        } else if (o instanceof Iterable) {
            b.append('[');
            boolean f = true;
            for (final Object x : (Iterable<?>) o) { if (!f) b.append(','); f = false; w(b, x); }
            b.append(']');
        } else b.append(o);
    }

    private static void q(final StringBuilder b, final String s) {
        b.append('"');
        for (int i = 0; i < s.length(); i++) {
            final char c = s.charAt(i);
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        b.append('"');
    }

    public static Object read(final String s) { final P p = new P(s); final Object o = p.v(); return o; }

    private static final class P {
        final String s;
        int i;
        P(final String s) { this.s = s; }
        void ws() { while (i < s.length() && Character.isWhitespace(s.charAt(i))) i++; }
        Object v() {
            ws();
            final char c = s.charAt(i);
            if (c == '{') {
                i++;
                final Map<String, Object> m = new LinkedHashMap<>();
                ws();
                if (s.charAt(i) == '}') { i++; return m; }
                while (true) {
                    ws();
                    final String k = str();
                    ws();
                    i++;
                    m.put(k, v());
                    ws();
                    if (s.charAt(i++) == '}') return m;
                }
            }
            if (c == '[') {
                i++;
                final List<Object> l = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') { i++; return l; }
                while (true) {
                    l.add(v());
                    ws();
                    if (s.charAt(i++) == ']') return l;
                }
            }
            if (c == '"') return str();
            int j = i;
            while (j < s.length() && ",]} \n\r\t".indexOf(s.charAt(j)) < 0) j++;
            final String w = s.substring(i, j);
            i = j;
            switch (w) {
                case "true": return Boolean.TRUE;
                case "false": return Boolean.FALSE;
                case "null": return null;
                default: return w.contains(".") || w.contains("E") ? (Object) Double.valueOf(w) : (Object) Long.valueOf(w);
            }
        }
        String str() {
            final StringBuilder b = new StringBuilder();
            i++;
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') return b.toString();
                if (c == '\\') {
                    c = s.charAt(i++);
                    if (c == 'u') { b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; }
                    else if (c == 'n') b.append('\n');
                    else if (c == 't') b.append('\t');
                    else b.append(c);
                } else b.append(c);
            }
        }
    }
}
