package vs.rt;

import java.lang.ref.ReferenceQueue;
import java.lang.ref.WeakReference;
import java.util.AbstractMap;
import java.util.AbstractSet;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.Iterator;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** Identity hash codes, and the iteration order of the JDK's immutable sets and maps, as a function of the simulated process. */
final class Ids {
    private Ids() { }

    private static final class Key extends WeakReference<Object> {
        final int h;
        Key(final Object o, final ReferenceQueue<Object> q) { super(o, q); h = System.identityHashCode(o); }
        @Override public int hashCode() { return h; }
        @Override public boolean equals(final Object o) { return this == o || o instanceof Key && get() != null && get() == ((Key) o).get(); }
    }

    private static final Map<Key, Integer> KNOWN = new HashMap<>();
    private static final ReferenceQueue<Object> GONE = new ReferenceQueue<>();
    private static int count;

    private static final ClassValue<Boolean> IDENTITY = new ClassValue<>() {
        @Override protected Boolean computeValue(final Class<?> c) {
            try {
                final Class<?> d = c.getMethod("hashCode").getDeclaringClass();
                return d == Object.class || d == Enum.class;
            } catch (final NoSuchMethodException | LinkageError e) { return false; }
        }
    };

    /** A new simulated process begins. */
    static void begin() { count = 0; }

    static boolean identity(final Object o) { return IDENTITY.get(o.getClass()); }

    static synchronized int of(final Object o, final long salt) {
        for (Object k; (k = GONE.poll()) != null;) KNOWN.remove(k);
        final Integer i = KNOWN.get(new Key(o, null));
        if (i != null) return i;
        final int h = (int) (Rng.mix(++count + salt * 0x9e3779b97f4a7c15L) >>> 33);
        KNOWN.put(new Key(o, GONE), h);
        return h;
    }

    private static long rank(final Object o, final long salt) { return Rng.mix((identity(o) ? of(o, salt) : o.hashCode()) ^ salt * 0x632be59bd9b4e019L); }

    static <T> Set<T> set(final Set<T> s, final long salt) {
        final List<T> l = new ArrayList<>(s);
        final Map<T, Long> at = new java.util.IdentityHashMap<>();
        for (final T x : l) at.put(x, rank(x, salt));
        l.sort((a, b) -> Long.compare(at.get(a), at.get(b)));
        return new Unordered<>(s, Collections.unmodifiableList(l));
    }

    private static boolean anyIdentity(final java.util.Collection<?> c) {
        for (final Object o : c) if (o != null && identity(o)) return true;
        return false;
    }

    /** The set as a HashSet of this process would order it. */
    static <T> Set<T> ordered(final Set<T> s, final long salt) {
        if (s.contains(null) || !anyIdentity(s)) return s;
        return new java.util.LinkedHashSet<>(set(s, salt));
    }

    static <K, V> Map<K, V> ordered(final Map<K, V> m, final long salt) {
        if (m.containsKey(null) || !anyIdentity(m.keySet())) return m;
        final Map<K, V> l = new java.util.LinkedHashMap<>();
        for (final K k : set(m.keySet(), salt)) l.put(k, m.get(k));
        return l;
    }

    static <K, V> Map<K, V> map(final Map<K, V> m, final long salt) {
        final Set<Map.Entry<K, V>> l = new Unordered<>(m.entrySet(), new ArrayList<>());
        for (final K k : set(m.keySet(), salt)) ((Unordered<Map.Entry<K, V>>) l).order.add(Map.entry(k, m.get(k)));
        return new AbstractMap<>() {
            @Override public Set<Entry<K, V>> entrySet() { return l; }
            @Override public V get(final Object k) { return m.get(k); }
            @Override public boolean containsKey(final Object k) { return m.containsKey(k); }
            @Override public V put(final K k, final V v) { throw new UnsupportedOperationException(); }
            @Override public V remove(final Object k) { throw new UnsupportedOperationException(); }
            @Override public void clear() { throw new UnsupportedOperationException(); }
        };
    }

    private static final class Unordered<T> extends AbstractSet<T> {
        final Set<T> s;
        final List<T> order;
        Unordered(final Set<T> s, final List<T> order) { this.s = s; this.order = order; }
        @Override public Iterator<T> iterator() {
            final Iterator<T> i = order.iterator();
            return new Iterator<>() {
                @Override public boolean hasNext() { return i.hasNext(); }
                @Override public T next() { return i.next(); }
            };
        }
        @Override public int size() { return s.size(); }
        @Override public boolean contains(final Object o) { return s.contains(o); }
        @Override public boolean remove(final Object o) { throw new UnsupportedOperationException(); }
        @Override public boolean removeIf(final java.util.function.Predicate<? super T> p) { throw new UnsupportedOperationException(); }
        @Override public boolean retainAll(final java.util.Collection<?> c) { throw new UnsupportedOperationException(); }
        @Override public boolean removeAll(final java.util.Collection<?> c) { throw new UnsupportedOperationException(); }
        @Override public void clear() { throw new UnsupportedOperationException(); }
    }
}
