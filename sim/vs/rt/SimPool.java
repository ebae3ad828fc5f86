package vs.rt;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collection;
import java.util.Collections;
import java.util.List;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.Callable;
import java.util.concurrent.CancellationException;
import java.util.concurrent.Delayed;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.ForkJoinTask;
import java.util.concurrent.Future;
import java.util.concurrent.FutureTask;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.RejectedExecutionHandler;
import java.util.concurrent.RunnableScheduledFuture;
import java.util.concurrent.ScheduledFuture;
import java.util.concurrent.ScheduledThreadPoolExecutor;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.TimeoutException;

/** Thread pools, schedulers and timers whose threads are simulated. */
public final class SimPool {
    private SimPool() { }

    /** The tasks and worker threads of one pool. */
    public static final class Core {
        final int max;
        /** Its threads stay for ever once there is work. */
        final boolean lingers;
        final String what;
        final ArrayDeque<Runnable> queue = new ArrayDeque<>();
        int workers, idle;
        int ran;
        boolean down;
        final Sched owner = Hook.sched;

        Core(final String what, final int max, final boolean lingers) {
            this.what = what;
            this.max = Math.max(1, max);
            this.lingers = lingers;
            if (owner != null) owner.pools.add(this);
        }

        boolean submit(final Runnable r) {
            final Sched s = Hook.sched;
            if (s == null || Hook.cur == null || s != owner) { r.run(); return true; }
            Hook.y(Hook.SITE_EXEC);
            if (down) throw new RejectedExecutionException("shut down");
            s.executorTasks++;
            if (s.rejectNext > 0) {
                s.rejectNext--;
                s.executorRejected++;
                throw new RejectedExecutionException("injected");
            }
            queue.add(new Task(r, Hook.cur.work()));
            if (workers < max) {
                workers++;
                s.spawn(this::work, true);
            }
            return true;
        }

        private void work() {
            try {
                Runnable r;
                while ((r = queue.poll()) != null) {
                    ran++;
                    final Task k = (Task) r;
                    Hook.cur.origin = k.origin;
                    try { k.r.run(); } catch (final SimAbort e) { throw e; } catch (final Throwable e) { /* the worker dies and is replaced */ }
                    Hook.y(Hook.SITE_EXEC);
                }
            } finally {
                workers--;
            }
        }

        /** Threads that would still be there when everything is done. */
        public String leftover() { return !down && lingers && ran > 0 ? what : null; }

        void later(final Runnable r, final long delayMs, final long periodMs, final Cancel f) {
            final Sched s = Hook.sched;
            if (s == null || Hook.cur == null || s != owner) return;
            ran++;
            s.spawn(() -> {
                try {
                    Hook.sleep(Math.max(0, delayMs));
                    while (!down && !f.off()) {
                        r.run();
                        if (periodMs <= 0) return;
                        Hook.sleep(Math.max(1, periodMs));
                    }
                } catch (final InterruptedException e) { /* over */ }
            }, true);
        }
    }

    private static final class Task implements Runnable {
        final Runnable r;
        final int origin;
        Task(final Runnable r, final int origin) { this.r = r; this.origin = origin; }
        @Override public void run() { r.run(); }
    }

    interface Cancel { boolean off(); }

    static List<Runnable> stop(final Core c) {
        c.down = true;
        final List<Runnable> l = new ArrayList<>();
        for (final Runnable r : c.queue) l.add(((Task) r).r);
        c.queue.clear();
        return l;
    }

    static boolean await(final Core c, final long n, final TimeUnit u) throws InterruptedException {
        if (Hook.cur == null) return true;
        for (int i = 0; c.workers > 0 && i < 1000; i++) Hook.sleep(Math.max(1, u.toMillis(n) / 1000));
        return c.workers == 0;
    }

    /** A scheduled task. */
    static final class Later<V> extends FutureTask<V> implements RunnableScheduledFuture<V> {
        final long at;
        final boolean periodic;
        Later(final Callable<V> c, final long at, final boolean periodic) { super(c); this.at = at; this.periodic = periodic; }
        void tick() { if (periodic) runAndReset(); else run(); }
        @Override public boolean isPeriodic() { return periodic; }
        @Override public long getDelay(final TimeUnit u) { final Sched s = Hook.sched; return u.convert(at - (s == null ? at : s.nowMs), TimeUnit.MILLISECONDS); }
        @Override public int compareTo(final Delayed d) { return Long.compare(getDelay(TimeUnit.MILLISECONDS), d.getDelay(TimeUnit.MILLISECONDS)); }
    }

    static <V> Later<V> later(final Core core, final Callable<V> c, final long delay, final long period, final TimeUnit u) {
        final Sched s = Hook.sched;
        final long d = u.toMillis(delay), p = period <= 0 ? 0 : Math.max(1, u.toMillis(period));
        final Later<V> f = new Later<>(c, (s == null ? 0 : s.nowMs) + d, p > 0);
        core.later(f::tick, d, p, f::isDone);
        return f;
    }

    static Callable<Object> call(final Runnable r) { return () -> { r.run(); return null; }; }

    public static class Tpe extends ThreadPoolExecutor {
        private final Core core;
        public Tpe(final int c, final int m, final long k, final TimeUnit u, final BlockingQueue<Runnable> q) { super(c, m, k, u, q); core = core(c, m, q); }
        public Tpe(final int c, final int m, final long k, final TimeUnit u, final BlockingQueue<Runnable> q, final ThreadFactory f) { super(c, m, k, u, q, f); core = core(c, m, q); }
        public Tpe(final int c, final int m, final long k, final TimeUnit u, final BlockingQueue<Runnable> q, final RejectedExecutionHandler h) { super(c, m, k, u, q, h); core = core(c, m, q); }
        public Tpe(final int c, final int m, final long k, final TimeUnit u, final BlockingQueue<Runnable> q, final ThreadFactory f, final RejectedExecutionHandler h) { super(c, m, k, u, q, f, h); core = core(c, m, q); }
        private static Core core(final int c, final int m, final BlockingQueue<Runnable> q) { return new Core("a thread pool", q instanceof java.util.concurrent.SynchronousQueue ? m : Math.max(1, c), c > 0); }
        @Override public void execute(final Runnable r) { core.submit(() -> { beforeExecute(Thread.currentThread(), r); Throwable x = null; try { r.run(); } catch (final RuntimeException | Error e) { x = e; throw e; } finally { afterExecute(r, x); } }); }
        @Override public void shutdown() { core.down = true; }
        @Override public List<Runnable> shutdownNow() { return stop(core); }
        @Override public boolean isShutdown() { return core.down; }
        @Override public boolean isTerminated() { return core.down && core.workers == 0; }
        @Override public boolean awaitTermination(final long n, final TimeUnit u) throws InterruptedException { return await(core, n, u); }
    }

    public static class Stpe extends ScheduledThreadPoolExecutor {
        private final Core core;
        public Stpe(final int n) { super(n); core = new Core("a scheduler", n, true); }
        public Stpe(final int n, final ThreadFactory f) { super(n, f); core = new Core("a scheduler", n, true); }
        public Stpe(final int n, final RejectedExecutionHandler h) { super(n, h); core = new Core("a scheduler", n, true); }
        public Stpe(final int n, final ThreadFactory f, final RejectedExecutionHandler h) { super(n, f, h); core = new Core("a scheduler", n, true); }
        @Override public void execute(final Runnable r) { core.submit(r); }
        @Override public Future<?> submit(final Runnable r) { final FutureTask<Object> f = new FutureTask<>(r, null); core.submit(f); return f; }
        @Override public <T> Future<T> submit(final Runnable r, final T v) { final FutureTask<T> f = new FutureTask<>(r, v); core.submit(f); return f; }
        @Override public <T> Future<T> submit(final Callable<T> c) { final FutureTask<T> f = new FutureTask<>(c); core.submit(f); return f; }
        @Override public ScheduledFuture<?> schedule(final Runnable r, final long d, final TimeUnit u) { return later(core, call(r), d, 0, u); }
        @Override public <V> ScheduledFuture<V> schedule(final Callable<V> c, final long d, final TimeUnit u) { return later(core, c, d, 0, u); }
        @Override public ScheduledFuture<?> scheduleAtFixedRate(final Runnable r, final long d, final long p, final TimeUnit u) { return later(core, call(r), d, p, u); }
        @Override public ScheduledFuture<?> scheduleWithFixedDelay(final Runnable r, final long d, final long p, final TimeUnit u) { return later(core, call(r), d, p, u); }
        @Override public void shutdown() { core.down = true; }
        @Override public List<Runnable> shutdownNow() { return stop(core); }
        @Override public boolean isShutdown() { return core.down; }
        @Override public boolean isTerminated() { return core.down && core.workers == 0; }
        @Override public boolean awaitTermination(final long n, final TimeUnit u) throws InterruptedException { return await(core, n, u); }
    }

    /** A fork-join pool of its own; tasks forked inside it run where they are joined or on a simulated thread. */
    public static class Fjp extends ForkJoinPool {
        private final Core core;
        public Fjp() { super(1); core = new Core("a fork-join pool", Hook.availableProcessors(null), false); }
        public Fjp(final int n) { super(1); core = new Core("a fork-join pool", n, false); }
        public Fjp(final int n, final ForkJoinWorkerThreadFactory f, final Thread.UncaughtExceptionHandler h, final boolean a) { super(1); core = new Core("a fork-join pool", n, false); }
        @Override public void execute(final Runnable r) { core.submit(r); }
        @Override public void execute(final ForkJoinTask<?> t) { core.submit(t::quietlyInvoke); }
        @Override public <T> T invoke(final ForkJoinTask<T> t) { return t.invoke(); }
        @Override public <T> ForkJoinTask<T> submit(final ForkJoinTask<T> t) { core.submit(t::quietlyInvoke); return t; }
        @Override public <T> ForkJoinTask<T> submit(final Callable<T> c) { return submit(ForkJoinTask.adapt(c)); }
        @Override public <T> ForkJoinTask<T> submit(final Runnable r, final T v) { return submit(ForkJoinTask.adapt(r, v)); }
        @Override public ForkJoinTask<?> submit(final Runnable r) { return submit(ForkJoinTask.adapt(r)); }
        @Override public void shutdown() { core.down = true; super.shutdown(); }
        @Override public List<Runnable> shutdownNow() { stop(core); super.shutdownNow(); return new ArrayList<>(); }
        @Override public boolean isShutdown() { return core.down; }
    }

    public static class Tim extends java.util.Timer {
        private final Core core = new Core("a timer", 1, true);
        // a timer has its thread from the start
        { core.ran = 1; }
        public Tim() { super(true); super.cancel(); }
        public Tim(final boolean d) { super(true); super.cancel(); }
        public Tim(final String n) { super(true); super.cancel(); }
        public Tim(final String n, final boolean d) { super(true); super.cancel(); }
        private void at(final java.util.TimerTask t, final long d, final long p) {
            if (core.down) throw new IllegalStateException("Timer already cancelled.");
            core.later(t, d, p, () -> false);
        }
        private static long until(final java.util.Date d) { final Sched s = Hook.sched; return Math.max(0, d.getTime() - (s == null ? 0 : s.nowMs)); }
        @Override public void schedule(final java.util.TimerTask t, final long d) { at(t, d, 0); }
        @Override public void schedule(final java.util.TimerTask t, final java.util.Date d) { at(t, until(d), 0); }
        @Override public void schedule(final java.util.TimerTask t, final long d, final long p) { at(t, d, p); }
        @Override public void schedule(final java.util.TimerTask t, final java.util.Date d, final long p) { at(t, until(d), p); }
        @Override public void scheduleAtFixedRate(final java.util.TimerTask t, final long d, final long p) { at(t, d, p); }
        @Override public void scheduleAtFixedRate(final java.util.TimerTask t, final java.util.Date d, final long p) { at(t, until(d), p); }
        @Override public void cancel() { core.down = true; }
        @Override public int purge() { return 0; }
    }

    // ---- the common pool ----------------------------------------------------------------------------------------

    public static <T> ForkJoinTask<T> fork(final ForkJoinTask<T> t) {
        final Sched s = Hook.sched;
        if (s == null || Hook.cur == null || s.starve) { t.quietlyInvoke(); return t; }
        Hook.y(Hook.SITE_EXEC);
        s.executorTasks++;
        s.spawn(t::quietlyInvoke, true);
        return t;
    }

    public static void invokeAll(final ForkJoinTask<?> a, final ForkJoinTask<?> b) {
        fork(b);
        a.invoke();
        b.join();
    }

    public static void invokeAll(final ForkJoinTask<?>[] l) {
        for (int i = 1; i < l.length; i++) fork(l[i]);
        if (l.length > 0) l[0].invoke();
        for (int i = 1; i < l.length; i++) l[i].join();
    }

    public static <T extends ForkJoinTask<?>> Collection<T> invokeAll(final Collection<T> l) {
        invokeAll(l.toArray(new ForkJoinTask<?>[0]));
        return l;
    }
}
