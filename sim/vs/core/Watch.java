package vs.core;

import java.lang.reflect.Field;
import java.util.ArrayList;
import java.util.Collection;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Notices changes of java.util maps and lists the caller owns, also those that are taken back. */
final class Watch {
    private static final Field MAP = field(HashMap.class), LIST = field(java.util.AbstractList.class), TREE = field(TreeMap.class);

    private final List<Object> owners = new ArrayList<>();
    private final List<Object[]> was = new ArrayList<>();
    private final List<Integer> mods = new ArrayList<>();
    String seen;

    Watch(final Object[] roots) { for (final Object o : roots) add(o); }

    private static Field field(final Class<?> c) {
        try {
            final Field f = c.getDeclaredField("modCount");
            f.setAccessible(true);
            return f;
        } catch (final ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }

    private void add(final Object o) {
        if (!(o instanceof Map || o instanceof Collection || o instanceof Object[])) return;
        owners.add(o);
        final Object[] x = items(o);
        was.add(x);
        mods.add(mod(o));
        for (final Object i : x) add(i);
    }

    private static Object[] items(final Object o) {
        if (o instanceof Object[]) return ((Object[]) o).clone();
        if (o instanceof Collection) return ((Collection<?>) o).toArray();
        final List<Object> l = new ArrayList<>();
        for (final Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { l.add(e.getKey()); l.add(e.getValue()); }
        return l.toArray();
    }

    private static int mod(final Object o) {
        try {
            return o instanceof HashMap ? MAP.getInt(o) : o instanceof TreeMap ? TREE.getInt(o) : o instanceof java.util.AbstractList ? LIST.getInt(o) : 0;
        } catch (final ReflectiveOperationException e) { throw new IllegalStateException(e); }
    }

    void look() {
        if (seen != null) return;
        for (int i = 0; i < owners.size(); i++) {
            final Object o = owners.get(i);
            final Object[] a = was.get(i), b = items(o);
            boolean same = a.length == b.length;
            for (int k = 0; same && k < a.length; k++) same = a[k] == b[k];
            if (!same) { seen = Val.show(java.util.Arrays.asList(a)) + " in a " + o.getClass().getSimpleName() + " was " + Val.show(java.util.Arrays.asList(b)) + " at some moment"; return; }
            if (mod(o) != mods.get(i)) { seen = "a " + o.getClass().getSimpleName() + " with " + Val.show(java.util.Arrays.asList(a)) + " was changed and changed back"; return; }
        }
    }
}
