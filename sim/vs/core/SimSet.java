package vs.core;

import java.util.AbstractSet;
import java.util.Iterator;
import java.util.LinkedHashSet;
import java.util.Set;

/** A set in the caller's data: reading it is a fault and scheduling point, and what is done to it is recorded. */
public final class SimSet extends AbstractSet<Object> {
    public final Set<Object> raw = new LinkedHashSet<>();
    private final String path;
    private final SimMap.Listener l;

    public SimSet(final String path, final SimMap.Listener l) { this.path = path; this.l = l; }

    private void read() { if (l != null) l.before(this, path + "[]"); }

    private void seen() { if (l != null) l.after(this, path + "[]", raw); }

    private void changed(final String what) { if (l != null) l.mutated(this, what + " " + path); }

    @Override public int size() { return raw.size(); }

    @Override public boolean contains(final Object o) {
        read();
        final boolean r = raw.contains(o);
        seen();
        return r;
    }

    @Override public boolean add(final Object v) { changed("add to"); return raw.add(v); }

    @Override public boolean remove(final Object v) { changed("remove from"); return raw.remove(v); }

    @Override public void clear() { changed("clear"); raw.clear(); }

    @Override public Iterator<Object> iterator() { return new SimList.It(raw.iterator(), this::read, this::seen, () -> changed("remove from")); }

    @Override public String toString() { return raw.toString(); }
}
