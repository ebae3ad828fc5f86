package vs.core;

import java.lang.reflect.Method;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.Comparator;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Set;
import vs.rt.Hook;
import vs.rt.Rng;

/** The caller changes a tree it was given, through what its classes offer in public. */
final class Spoil {
    private Spoil() { }

    static void tree(final Object root, final Rng r) {
        Hook.noYield++;
        try {
            walk(root, r, Collections.newSetFromMap(new IdentityHashMap<>()));
        } finally {
            Hook.noYield--;
        }
    }

    private static boolean node(final Object o) { return o != null && o.getClass().getName().startsWith("com.github.sidhant92.boolparser.domain"); }

    @SuppressWarnings("unchecked")
    private static void walk(final Object n, final Rng r, final Set<Object> seen) {
        if (!node(n) || !seen.add(n)) return;
        final Method[] ms = n.getClass().getMethods();
        Arrays.sort(ms, Comparator.comparing(Method::getName).thenComparing(m -> Arrays.toString(m.getParameterTypes())));
        for (final Method m : ms) {
            if (m.getParameterCount() != 0 || !m.getName().startsWith("get") || m.getDeclaringClass() == Object.class) continue;
            final Object x;
            try { x = m.invoke(n); } catch (final ReflectiveOperationException e) { continue; }
            if (x instanceof Collection) {
                for (final Object o : ((Collection<?>) x).toArray()) walk(o, r, seen);
                try {
                    if (x instanceof List && r.chance(0.3)) Collections.reverse((List<?>) x);
                    else if (r.chance(0.4) && !((Collection<?>) x).isEmpty()) ((Collection<Object>) x).add(((Collection<?>) x).iterator().next());
                    else ((Collection<?>) x).clear();
                } catch (final UnsupportedOperationException e) {
                    // it does not offer to be changed
                }
            } else walk(x, r, seen);
        }
        for (final Method m : ms) {
            if (m.getParameterCount() != 1 || !m.getName().startsWith("set") || !r.chance(0.7)) continue;
            final Class<?> t = m.getParameterTypes()[0];
            Object v = null;
            if (t.isPrimitive()) continue;
            if (t.isEnum()) v = t.getEnumConstants()[r.below(t.getEnumConstants().length)];
            try { m.invoke(n, v); } catch (final ReflectiveOperationException | RuntimeException e) { /* it does not take it */ }
        }
    }
}
