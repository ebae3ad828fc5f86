package vs.rt;

import java.lang.reflect.InvocationHandler;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Proxy;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Optional;
import java.util.function.BiFunction;
import java.util.function.BinaryOperator;
import java.util.function.Consumer;
import java.util.function.Function;
import java.util.function.Predicate;
import java.util.function.ToDoubleFunction;
import java.util.function.ToIntFunction;
import java.util.function.ToLongFunction;
import java.util.stream.BaseStream;
import java.util.stream.DoubleStream;
import java.util.stream.IntStream;
import java.util.stream.LongStream;
import java.util.stream.Stream;

/** A parallel stream whose chunks run on simulated threads; the caller helps, as it does in the common pool. */
final class SimParallel implements InvocationHandler {
    private final Stream<?> s;

    private SimParallel(final Stream<?> s) { this.s = s; }

    static Stream<?> of(final Stream<?> s) {
        if (Hook.cur == null || Hook.noYield != 0) return s;
        return (Stream<?>) Proxy.newProxyInstance(SimParallel.class.getClassLoader(), new Class<?>[] {Stream.class}, new SimParallel(s));
    }

    static BaseStream<?, ?> parallel(final BaseStream<?, ?> s) { return s instanceof Stream && !Proxy.isProxyClass(s.getClass()) ? of((Stream<?>) s) : s; }

    private interface Each { void at(int i); }

    private static final class Chunk {
        int from, to;
        boolean taken, done;
    }

    private static void run(final Chunk c, final Each e, final Throwable[] err) {
        try {
            for (int i = c.from; i < c.to && err[0] == null; i++) { Hook.y(Hook.SITE_EXEC); e.at(i); }
        } catch (final SimAbort x) {
            throw x;
        } catch (final Throwable x) {
            if (err[0] == null) err[0] = x;
        } finally {
            c.done = true;
        }
    }

    private static void par(final int n, final Each e) {
        final Sched s = Hook.sched;
        final int k = Math.min(n, Math.max(1, Math.min(4, s.cpus)));
        final Chunk[] cs = new Chunk[k];
        for (int i = 0; i < k; i++) {
            cs[i] = new Chunk();
            cs[i].from = (int) ((long) n * i / k);
            cs[i].to = (int) ((long) n * (i + 1) / k);
        }
        final Throwable[] err = {null};
        final List<SimThread> helpers = new ArrayList<>();
        for (int i = 1; i < k; i++) {
            final Chunk c = cs[i];
            final SimThread t = s.spawn(() -> {
                if (c.taken) return;
                c.taken = true;
                run(c, e, err);
            }, true);
            t.op = Hook.cur.op;
            helpers.add(t);
            s.executorTasks++;
        }
        for (final Chunk c : cs) {
            if (c.taken) continue;
            c.taken = true;
            run(c, e, err);
        }
        final SimThread me = Hook.cur;
        for (int i = 1; i < k; i++) {
            while (!cs[i].done) {
                me.joinOn = helpers.get(i - 1);
                if (!s.switchOut(me)) throw new SimAbort("join while pinned");
            }
        }
        me.joinOn = null;
        if (err[0] != null) SimParallel.<RuntimeException>sneaky(err[0]);
    }

    @SuppressWarnings("unchecked")
    private static <T extends Throwable> void sneaky(final Throwable t) throws T { throw (T) t; }

    @SuppressWarnings("unchecked")
    @Override public Object invoke(final Object p, final Method m, final Object[] a) throws Throwable {
        final String n = m.getName();
        switch (n) {
            case "map": case "mapToInt": case "mapToLong": case "mapToDouble": case "flatMap": {
                final Object[] in = s.toArray();
                final Object[] out = new Object[in.length];
                switch (n) {
                    case "mapToInt": par(in.length, i -> out[i] = ((ToIntFunction<Object>) a[0]).applyAsInt(in[i])); return IntStream.of(Arrays.stream(out).mapToInt(x -> (Integer) x).toArray());
                    case "mapToLong": par(in.length, i -> out[i] = ((ToLongFunction<Object>) a[0]).applyAsLong(in[i])); return LongStream.of(Arrays.stream(out).mapToLong(x -> (Long) x).toArray());
                    case "mapToDouble": par(in.length, i -> out[i] = ((ToDoubleFunction<Object>) a[0]).applyAsDouble(in[i])); return DoubleStream.of(Arrays.stream(out).mapToDouble(x -> (Double) x).toArray());
                    case "flatMap": par(in.length, i -> { final Stream<?> x = ((Function<Object, Stream<?>>) a[0]).apply(in[i]); out[i] = x == null ? new Object[0] : x.toArray(); });
                        return of(Arrays.stream(out).flatMap(x -> Arrays.stream((Object[]) x)));
                    default: par(in.length, i -> out[i] = ((Function<Object, Object>) a[0]).apply(in[i])); return of(Arrays.stream(out));
                }
            }
            case "filter": {
                final Object[] in = s.toArray();
                final boolean[] ok = new boolean[in.length];
                par(in.length, i -> ok[i] = ((Predicate<Object>) a[0]).test(in[i]));
                final List<Object> l = new ArrayList<>();
                for (int i = 0; i < in.length; i++) if (ok[i]) l.add(in[i]);
                return of(l.stream());
            }
            case "peek": case "forEach": {
                final Object[] in = s.toArray();
                par(in.length, i -> ((Consumer<Object>) a[0]).accept(in[i]));
                return n.equals("peek") ? of(Arrays.stream(in)) : null;
            }
            case "anyMatch": case "allMatch": case "noneMatch": {
                final Object[] in = s.toArray();
                final boolean want = !n.equals("allMatch");
                final boolean[] hit = {false};
                par(in.length, i -> { if (!hit[0] && ((Predicate<Object>) a[0]).test(in[i]) == want) hit[0] = true; });
                return n.equals("anyMatch") == hit[0];
            }
            case "reduce": {
                final Object[] in = s.toArray();
                final int k = Math.min(in.length, 3);
                if (k < 2) {
                    if (a.length == 1) return in.length == 0 ? Optional.empty() : Optional.of(in[0]);
                    return in.length == 0 ? a[0] : ((BiFunction<Object, Object, Object>) a[1]).apply(a[0], in[0]);
                }
                final Object[] part = new Object[k];
                par(k, c -> {
                    final int from = in.length * c / k, to = in.length * (c + 1) / k;
                    Object v = a.length == 1 ? in[from] : a[0];
                    for (int i = from + (a.length == 1 ? 1 : 0); i < to; i++) v = a.length == 1 ? ((BinaryOperator<Object>) a[0]).apply(v, in[i]) : ((BiFunction<Object, Object, Object>) a[1]).apply(v, in[i]);
                    part[c] = v;
                });
                Object v = part[0];
                for (int c = 1; c < k; c++) v = ((BiFunction<Object, Object, Object>) a[a.length - 1]).apply(v, part[c]);
                return a.length == 1 ? Optional.of(v) : v;
            }
            case "sequential": return s;
            case "parallel": case "unordered": return p;
            case "isParallel": return true;
            default:
        }
        final Object r;
        try {
            r = m.invoke(s, a);
        } catch (final InvocationTargetException e) {
            throw e.getCause();
        }
        return r instanceof Stream ? of((Stream<?>) r) : r;
    }
}
