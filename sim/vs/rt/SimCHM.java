package vs.rt;

import java.util.HashMap;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import java.util.function.BiFunction;
import java.util.function.Function;

/**
 * ConcurrentHashMap with the same per-key atomicity, but whose critical sections are held by a simulated lock, so that a
 * thread can be preempted inside a compute function (the real map holds a JVM monitor there, which pins the thread).
 */
public class SimCHM<K, V> extends ConcurrentHashMap<K, V> {
    private transient HashMap<Object, Mon> locks = new HashMap<>();

    public SimCHM() { super(); }
    public SimCHM(final int c) { super(c); }
    public SimCHM(final int c, final float f) { super(c, f); }
    public SimCHM(final int c, final float f, final int l) { super(c, f, l); }
    public SimCHM(final Map<? extends K, ? extends V> m) { super(m); }

    private Mon enter(final Object k, final boolean compute) {
        final SimThread t = Hook.cur;
        if (t == null || k == null || locks == null) return null;
        Hook.noYield++;
        final Mon m;
        try {
            m = locks.computeIfAbsent(k, x -> new Mon("map entry"));
        } finally {
            Hook.noYield--;
        }
        if (m.owner == t) {
            if (compute) throw new IllegalStateException("Recursive update");
        }
        m.users++;
        try {
            Hook.sched.lock(m, t, 1);
        } catch (final SimAbort e) {
            m.users--;
            throw e;
        }
        return m;
    }

    private void exit(final Object k, final Mon m) {
        if (m == null) return;
        final SimThread t = Hook.cur;
        if (t == null) return;
        Hook.sched.unlock(m, t);
        if (--m.users == 0) {
            Hook.noYield++;
            try { locks.remove(k); } finally { Hook.noYield--; }
        }
    }

    private static final int SITE = Hook.SITE_MAP;

    @Override public V put(final K k, final V v) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.put(k, v); } finally { exit(k, m); } }
    @Override public V putIfAbsent(final K k, final V v) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.putIfAbsent(k, v); } finally { exit(k, m); } }
    @Override public V remove(final Object k) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.remove(k); } finally { exit(k, m); } }
    @Override public boolean remove(final Object k, final Object v) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.remove(k, v); } finally { exit(k, m); } }
    @Override public V replace(final K k, final V v) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.replace(k, v); } finally { exit(k, m); } }
    @Override public boolean replace(final K k, final V o, final V n) { Hook.state(this, SITE); final Mon m = enter(k, false); try { return super.replace(k, o, n); } finally { exit(k, m); } }

    @Override public V computeIfAbsent(final K k, final Function<? super K, ? extends V> f) {
        if (k == null || f == null) throw new NullPointerException();
        Hook.state(this, SITE);
        final V cur = super.get(k);
        if (cur != null && Hook.cur == null) return cur;
        final Mon m = enter(k, true);
        if (m == null) return super.computeIfAbsent(k, f);
        try {
            V v = super.get(k);
            if (v != null) return v;
            v = f.apply(k);
            if (v != null) super.put(k, v);
            return v;
        } finally {
            exit(k, m);
        }
    }

    @Override public V computeIfPresent(final K k, final BiFunction<? super K, ? super V, ? extends V> f) {
        if (k == null || f == null) throw new NullPointerException();
        Hook.state(this, SITE);
        final Mon m = enter(k, true);
        if (m == null) return super.computeIfPresent(k, f);
        try {
            final V o = super.get(k);
            if (o == null) return null;
            final V v = f.apply(k, o);
            if (v != null) super.put(k, v); else super.remove(k);
            return v;
        } finally {
            exit(k, m);
        }
    }

    @Override public V compute(final K k, final BiFunction<? super K, ? super V, ? extends V> f) {
        if (k == null || f == null) throw new NullPointerException();
        Hook.state(this, SITE);
        final Mon m = enter(k, true);
        if (m == null) return super.compute(k, f);
        try {
            final V o = super.get(k);
            final V v = f.apply(k, o);
            if (v != null) super.put(k, v); else if (o != null) super.remove(k);
            return v;
        } finally {
            exit(k, m);
        }
    }

    // ---- keys without a hash code of their own come in an order of the simulated process ------------------------------

    /** Entries in that order, or null where the real order is reproducible. */
    private java.util.List<Map.Entry<K, V>> own() {
        if (Hook.cur == null || isEmpty()) return null;
        final java.util.List<Map.Entry<K, V>> l = new java.util.ArrayList<>(super.entrySet());
        boolean any = false;
        for (final Map.Entry<K, V> e : l) any |= Ids.identity(e.getKey());
        if (!any) return null;
        l.sort((a, b) -> Integer.compare(Hook.hashOf(a.getKey()), Hook.hashOf(b.getKey())));
        return l;
    }

    private <T> java.util.Iterator<T> walk(final java.util.List<Map.Entry<K, V>> l, final Function<Map.Entry<K, V>, T> f) {
        final java.util.Iterator<Map.Entry<K, V>> i = l.iterator();
        return new java.util.Iterator<T>() {
            Map.Entry<K, V> last;
            @Override public boolean hasNext() { return i.hasNext(); }
            @Override public T next() { return f.apply(last = i.next()); }
            @Override public void remove() { if (last == null) throw new IllegalStateException(); SimCHM.this.remove(last.getKey()); last = null; }
        };
    }

    @Override public java.util.Set<Map.Entry<K, V>> entrySet() {
        final java.util.Set<Map.Entry<K, V>> real = super.entrySet();
        final java.util.List<Map.Entry<K, V>> l = own();
        if (l == null) return real;
        return new java.util.AbstractSet<Map.Entry<K, V>>() {
            @Override public java.util.Iterator<Map.Entry<K, V>> iterator() { final java.util.List<Map.Entry<K, V>> x = own(); return x == null ? real.iterator() : walk(x, e -> e); }
            @Override public int size() { return real.size(); }
            @Override public boolean contains(final Object o) { return real.contains(o); }
            @Override public boolean remove(final Object o) { return real.remove(o); }
        };
    }

    @Override public java.util.Collection<V> values() {
        final java.util.Collection<V> real = super.values();
        final java.util.List<Map.Entry<K, V>> l = own();
        if (l == null) return real;
        return new java.util.AbstractCollection<V>() {
            @Override public java.util.Iterator<V> iterator() { final java.util.List<Map.Entry<K, V>> x = own(); return x == null ? real.iterator() : walk(x, Map.Entry::getValue); }
            @Override public int size() { return real.size(); }
        };
    }

    @Override public void forEach(final java.util.function.BiConsumer<? super K, ? super V> f) {
        final java.util.List<Map.Entry<K, V>> l = own();
        if (l == null) super.forEach(f);
        else for (final Map.Entry<K, V> e : l) f.accept(e.getKey(), e.getValue());
    }

    @Override public V merge(final K k, final V val, final BiFunction<? super V, ? super V, ? extends V> f) {
        if (k == null || f == null || val == null) throw new NullPointerException();
        Hook.state(this, SITE);
        final Mon m = enter(k, true);
        if (m == null) return super.merge(k, val, f);
        try {
            final V o = super.get(k);
            final V v = o == null ? val : f.apply(o, val);
            if (v != null) super.put(k, v); else super.remove(k);
            return v;
        } finally {
            exit(k, m);
        }
    }
}
