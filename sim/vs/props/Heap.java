package vs.props;

import java.lang.ref.Reference;
import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.Collections;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.Map;
import java.util.Set;
import java.util.TreeSet;
import java.util.regex.Matcher;
import java.util.regex.Pattern;
import vs.core.Engine;

/** Which requests can still be reached from the library's objects and statics. */
final class Heap {
    private Heap() { }

    private static final Pattern MARK = Pattern.compile("zq\\d+z|dq\\d+q");
    private static final Map<Class<?>, Field[]> FIELDS = new HashMap<>();

    static Set<String> marks(final Engine.Result r) {
        FIELDS.clear();
        final Set<String> out = new TreeSet<>();
        final Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
        final ArrayDeque<Object> q = new ArrayDeque<>();
        if (DEBUG) PARENT.clear();
        for (final Object o : r.objects) if (o != null) push(q, seen, o);
        for (final Object o : r.threadLocals) push(q, seen, o);
        for (final Class<?> c : new java.util.ArrayList<>(Engine.loaders.loaded(r.bridge.getClass().getClassLoader()))) statics(q, seen, c);
        while (!q.isEmpty()) {
            final Object o = q.poll();
            at = o;
            if (o instanceof String) {
                final Matcher m = MARK.matcher((String) o);
                while (m.find()) { out.add(m.group()); if (DEBUG) { for (Object p = o; p != null; p = PARENT.get(p)) System.err.print(" <- " + p.getClass().getName()); System.err.println(" " + m.group()); } }
                continue;
            }
            if (o instanceof Class || o instanceof ClassLoader || o instanceof Thread) continue;
            if (o instanceof Reference) {
                final Object x = ((Reference<?>) o).get();
                boolean dropped = false;
                for (final Object d : r.dropped) if (d == x) dropped = true;
                if (dropped) continue;
                if (o instanceof java.lang.ref.SoftReference && x != null) push(q, seen, x);
                // what the reference object itself carries: values of weak maps and thread locals, cache nodes
                for (Class<?> k = o.getClass(); k != null && !k.getName().startsWith("java.lang.ref."); k = k.getSuperclass()) {
                    for (final Field f : fields(k)) {
                        if (Modifier.isStatic(f.getModifiers())) continue;
                        try { push(q, seen, f.get(o)); } catch (final IllegalAccessException e) { throw new IllegalStateException(e); }
                    }
                }
                continue;
            }
            final Class<?> c = o.getClass();
            if (c.isArray()) {
                if (!c.getComponentType().isPrimitive()) for (int i = 0; i < Array.getLength(o); i++) push(q, seen, Array.get(o, i));
                continue;
            }
            // records are callers' objects: whoever holds on to one holds all that is in it
            if (o instanceof vs.core.SimMap) { push(q, seen, ((vs.core.SimMap) o).raw); continue; }
            if (o instanceof vs.core.SimList) { push(q, seen, ((vs.core.SimList) o).raw); continue; }
            if (o instanceof vs.core.SimSet) { push(q, seen, ((vs.core.SimSet) o).raw); continue; }
            final String n = c.getName();
            if (n.startsWith("vs.") && !n.startsWith("vs.rt.Sim") && !n.startsWith("vs.jdk.")) continue;
            for (Class<?> k = c; k != null && k != Object.class; k = k.getSuperclass()) {
                for (final Field f : fields(k)) {
                    if (Modifier.isStatic(f.getModifiers())) continue;
                    try { push(q, seen, f.get(o)); } catch (final IllegalAccessException e) { throw new IllegalStateException(e); }
                }
            }
        }
        FIELDS.clear();
        return out;
    }

    private static void statics(final ArrayDeque<Object> q, final Set<Object> seen, final Class<?> c) {
        for (final Field f : fields(c)) {
            if (!Modifier.isStatic(f.getModifiers())) continue;
            try { push(q, seen, f.get(null)); } catch (final IllegalAccessException | LinkageError e) { /* not initialised */ }
        }
    }

    private static Field[] fields(final Class<?> c) {
        return FIELDS.computeIfAbsent(c, k -> {
            final java.util.List<Field> l = new java.util.ArrayList<>();
            Field[] all;
            try { all = k.getDeclaredFields(); } catch (final LinkageError e) { all = new Field[0]; }
            for (final Field f : all) {
                if (f.getType().isPrimitive()) continue;
                try { f.setAccessible(true); l.add(f); } catch (final RuntimeException e) { /* closed module: JDK internals that hold no caller data */ }
            }
            return l.toArray(new Field[0]);
        });
    }

    private static void push(final ArrayDeque<Object> q, final Set<Object> seen, final Object o) { if (o != null && seen.add(o)) { q.add(o); if (DEBUG && at != null) PARENT.put(o, at); } }

    private static final boolean DEBUG = System.getenv("VS_DEBUG") != null;
    private static final Map<Object, Object> PARENT = new IdentityHashMap<>();
    private static Object at;
}
