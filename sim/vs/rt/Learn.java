package vs.rt;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;

/**
 * Watches one serial run of a workload for places where its operations touch state that another operation touches too and one of
 * them changes. Those places are where an interleaving can matter; schedules are aimed at them.
 */
public final class Learn {
    /** What a site does: the field, array or call. */
    public static final class Access {
        final String owner, name;
        final char kind;               // r, w: field or static; a, A: array read, write; c: call
        final boolean init;            // in a static initialiser
        public Access(final String owner, final String name, final char kind, final boolean init) { this.owner = owner; this.name = name; this.kind = kind; this.init = init; }
    }

    private static final class Obj {
        int op;
        boolean shared;
        Map<String, Loc> at;
    }

    private static final class Loc {
        final List<int[]> by = new ArrayList<>();
        final Set<Integer> ops = new HashSet<>();
        boolean changed, later;
    }

    static Learn on;

    private final IdentityHashMap<Object, Obj> objs = new IdentityHashMap<>();
    private final Map<String, Obj> statics = new HashMap<>();
    private final List<Loc> locs = new ArrayList<>();
    private final Map<Long, Integer> hits = new HashMap<>();
    private final Map<Integer, Access> access;

    private Learn(final Map<Integer, Access> access) { this.access = access; }

    public static void start(final Map<Integer, Access> access) { on = new Learn(access); }

    /** How many of the places found last are changed by more than the initialisation of a class; they come first. */
    public static int later;

    /** For every place worth it, the operations, sites and passes that reach it. */
    public static List<List<int[]>> stop() {
        final Learn l = on;
        on = null;
        final List<List<int[]>> r = new ArrayList<>();
        later = 0;
        crossed = l.crossed();
        for (final boolean first : new boolean[] {true, false}) {
            for (final Loc x : l.locs) {
                if (!x.changed || x.ops.size() < 2 || x.later != first) continue;
                final List<int[]> c = new ArrayList<>();
                for (final int[] b : x.by) if (b[0] >= 0) c.add(b);
                if (!c.isEmpty()) r.add(c);
            }
            if (first) later = r.size();
        }
        return r;
    }

    private static int op() {
        final SimThread t = Hook.cur;
        return t == null || Hook.noYield != 0 ? -1 : t.background ? -2 - t.id : t.op < 0 ? -1 : t.op;
    }

    static void hit(final SimThread t, final int site) {
        final int n = on.hits.merge(((long) t.op << 32) | site, 1, Integer::sum);
        t.lastHit = t.op < 0 ? null : new int[] {t.op, site, n};
    }

    // ---- locks taken while others are held ----------------------------------------------------------------------------

    private final Map<SimThread, List<Mon>> held = new HashMap<>();
    private final Map<Mon, Map<Mon, List<int[]>>> order = new LinkedHashMap<>();

    /** The thread wants the lock, and may have it already. */
    static void wants(final SimThread t, final Mon m) {
        final List<Mon> h = on.held.get(t);
        if (h == null || h.isEmpty()) return;
        for (final Mon a : h) {
            if (a == m) continue;
            final List<int[]> at = on.order.computeIfAbsent(a, k -> new LinkedHashMap<>()).computeIfAbsent(m, k -> new ArrayList<>());
            if (t.lastHit != null && at.size() < 16) at.add(t.lastHit);
        }
    }

    static void locked(final SimThread t, final Mon m) { on.held.computeIfAbsent(t, k -> new ArrayList<>()).add(m); }

    static void unlocked(final SimThread t, final Mon m) {
        final List<Mon> h = on.held.get(t);
        if (h != null) h.remove(m);
    }

    private boolean reaches(final Mon from, final Mon to, final Set<Mon> seen) {
        if (from == to) return true;
        if (!seen.add(from)) return false;
        for (final Mon n : order.getOrDefault(from, Map.of()).keySet()) if (reaches(n, to, seen)) return true;
        return false;
    }

    /** Where a thread holds one lock and is about to take another that was also taken in the opposite order. */
    public static List<int[]> crossed = List.of();

    private List<int[]> crossed() {
        final List<int[]> r = new ArrayList<>();
        for (final Mon a : order.keySet()) for (final Map.Entry<Mon, List<int[]>> e : order.get(a).entrySet()) if (reaches(e.getKey(), a, new HashSet<>())) r.addAll(e.getValue());
        return r;
    }

    static void born(final Object o) {
        if (on.objs.containsKey(o)) return;
        final Obj x = new Obj();
        x.op = op();
        on.objs.put(o, x);
    }

    private static final Set<String> WRITES = Set.of("put", "putAll", "putIfAbsent", "remove", "removeIf", "clear", "add", "addAll", "set", "sort", "poll", "push", "pop", "offer", "computeIfAbsent", "computeIfPresent",
        "compute", "merge", "replace", "replaceAll", "addFirst", "addLast", "removeFirst", "removeLast", "pollFirst", "pollLast", "retainAll", "removeAll");

    static void access(final Object o, final int site) {
        final Access a = on.access.get(site);
        if (a != null) on.touch(o, site, a.kind == 'c' ? "#" : a.name, a.owner, a.kind == 'w' || a.kind == 'A' || a.kind == 'c' && writes(o, a.name), a.init);
    }

    static void mutable(final Object o, final int site) { on.touch(o, site, "#", null, true, false); }

    private static boolean writes(final Object o, final String name) { return !(o instanceof java.util.Collection || o instanceof Map) || WRITES.contains(name); }

    private void touch(final Object o, final int site, final String name, final String owner, final boolean write, final boolean init) {
        final int op = op();
        Obj x;
        if (o == null) {
            x = statics.computeIfAbsent(owner, k -> { final Obj n = new Obj(); n.op = -1; return n; });
        } else {
            final String cn = o.getClass().getName();
            if (cn.startsWith("java.util.ImmutableCollections") || cn.startsWith("vs.core")) return;
            x = objs.get(o);
            if (x == null) {
                x = new Obj();
                x.op = op;
                objs.put(o, x);
            }
        }
        if (x.op != op) x.shared = true;
        if (x.at == null) x.at = new LinkedHashMap<>();
        Loc l = x.at.get(name);
        if (l == null) {
            x.at.put(name, l = new Loc());
            locs.add(l);
        }
        if (write && (x.op < 0 && op != -1 || x.shared && op != -1)) {
            l.changed = true;
            l.later |= !init;
        }
        l.ops.add(op);
        if (l.by.size() < 48 && op >= 0) l.by.add(new int[] {op, site, on.hits.getOrDefault(((long) op << 32) | site, 0) + 1});
    }
}
