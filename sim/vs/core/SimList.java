package vs.core;

import java.util.AbstractList;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.Iterator;
import java.util.List;
import java.util.RandomAccess;
import java.util.function.UnaryOperator;

/** A list in the caller's data: reading it is a fault and scheduling point, and what is done to it is recorded. */
public final class SimList extends AbstractList<Object> implements RandomAccess {
    public final List<Object> raw = new ArrayList<>();
    private final String path;
    private final SimMap.Listener l;

    public SimList(final String path, final SimMap.Listener l) { this.path = path; this.l = l; }

    private void read() { if (l != null) l.before(this, path + "[]"); }

    private void seen() { if (l != null) l.after(this, path + "[]", raw); }

    private void changed(final String what) { if (l != null) l.mutated(this, what + " " + path); }

    @Override public Object get(final int i) {
        read();
        final Object v = raw.get(i);
        seen();
        return v;
    }

    @Override public int size() { return raw.size(); }

    @Override public Object[] toArray() {
        read();
        final Object[] a = raw.toArray();
        seen();
        return a;
    }

    @Override public <T> T[] toArray(final T[] x) {
        read();
        final T[] a = raw.toArray(x);
        seen();
        return a;
    }

    @Override public boolean contains(final Object o) {
        read();
        final boolean r = raw.contains(o);
        seen();
        return r;
    }

    @Override public Object set(final int i, final Object v) { changed("set an element of"); return raw.set(i, v); }

    @Override public void add(final int i, final Object v) { changed("add to"); modCount++; raw.add(i, v); }

    @Override public Object remove(final int i) { changed("remove from"); modCount++; return raw.remove(i); }

    @Override public void clear() { changed("clear"); modCount++; raw.clear(); }

    @Override public void sort(final Comparator<? super Object> c) { changed("sort"); modCount++; raw.sort(c); }

    @Override public void replaceAll(final UnaryOperator<Object> o) { changed("replace the elements of"); raw.replaceAll(o); }

    static final class It implements Iterator<Object> {
        private final Iterator<Object> i;
        private final Runnable read, seen, removed;
        It(final Iterator<Object> i, final Runnable read, final Runnable seen, final Runnable removed) { this.i = i; this.read = read; this.seen = seen; this.removed = removed; }
        @Override public boolean hasNext() { return i.hasNext(); }
        @Override public Object next() { read.run(); final Object v = i.next(); seen.run(); return v; }
        @Override public void remove() { removed.run(); i.remove(); }
    }

    @Override public Iterator<Object> iterator() { return new It(raw.iterator(), this::read, this::seen, () -> changed("remove from")); }

    @Override public String toString() { return raw.toString(); }
}
