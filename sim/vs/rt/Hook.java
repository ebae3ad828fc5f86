package vs.rt;

import java.time.Clock;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.Year;
import java.time.YearMonth;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.util.Collection;
import java.util.List;
import java.util.Random;
import java.util.UUID;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.Executor;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.ThreadLocalRandom;
import java.util.concurrent.TimeUnit;
import java.util.function.Supplier;

/** Target of every call the instrumenter inserts into the code under test and its libraries. */
public final class Hook {
    private Hook() { }

    public static final int SITE_MAP = 1;
    public static final int SITE_CLOCK = 2;
    public static final int SITE_LOOKUP = 3;
    public static final int SITE_OP = 4;
    public static final int SITE_LOCK = 5;
    public static final int SITE_EXEC = 6;
    public static final int SITE_FORMAT = 7;
    public static final int FIRST_SITE = 16;

    /** Hook for injected faults that fire at a chosen step of an operation. */
    public interface StepFaults {
        void onStep(SimThread t);
    }

    public static SimThread cur;
    public static Sched sched;
    public static int noYield;
    public static StepFaults stepFaults;
    public static long faultOom;
    public static long faultSoe;

    // ---- what belongs to the process or to the caller's thread ------------------------------------------------------

    /** Changes made to settings of the process and of the caller's threads, temporary ones included. */
    public static final java.util.Set<String> TOUCHED = new java.util.LinkedHashSet<>();

    private static void touched(final String what) {
        if (cur == null) return;
        TOUCHED.add(what);
    }

    private static boolean callers(final Thread t) { return cur != null && !cur.background && t == Thread.currentThread(); }

    public static void setDefaultLocale(final java.util.Locale l) { if (!l.equals(java.util.Locale.getDefault())) touched("the default locale was changed"); java.util.Locale.setDefault(l); yAgain(); }
    public static void setDefaultLocale(final java.util.Locale.Category c, final java.util.Locale l) { if (!l.equals(java.util.Locale.getDefault(c))) touched("the default locale was changed"); java.util.Locale.setDefault(c, l); yAgain(); }
    public static void setDefaultZone(final java.util.TimeZone z) { if (z == null || !z.equals(java.util.TimeZone.getDefault())) touched("the default time zone was changed"); java.util.TimeZone.setDefault(z); yAgain(); }
    public static void setOut(final java.io.PrintStream p) { if (p != System.out) touched("System.out was replaced"); System.setOut(p); yAgain(); }
    public static void setErr(final java.io.PrintStream p) { if (p != System.err) touched("System.err was replaced"); System.setErr(p); yAgain(); }
    public static void setIn(final java.io.InputStream p) { if (p != System.in) touched("System.in was replaced"); System.setIn(p); yAgain(); }
    public static String setProperty(final String k, final String v) { final String o = System.setProperty(k, v); if (!v.equals(o)) touched("the system property " + k + " was set"); yAgain(); return o; }
    public static String clearProperty(final String k) { final String o = System.clearProperty(k); if (o != null) touched("the system property " + k + " was removed"); yAgain(); return o; }
    public static void setUncaught(final Thread.UncaughtExceptionHandler h) { if (h != Thread.getDefaultUncaughtExceptionHandler()) touched("the default uncaught exception handler was replaced"); Thread.setDefaultUncaughtExceptionHandler(h); yAgain(); }
    public static void threadName(final Thread t, final String n) { if (callers(t) && !t.getName().equals(n)) touched("the calling thread was renamed"); t.setName(n); yAgain(); }
    public static void threadLoader(final Thread t, final ClassLoader l) { if (callers(t) && t.getContextClassLoader() != l) touched("the calling thread's context class loader was replaced"); t.setContextClassLoader(l); yAgain(); }
    /** Simulated threads are virtual: a priority has no effect, but a caller's own thread would notice. */
    public static void threadPriority(final Thread t, final int p) { if (callers(t) && p != Thread.NORM_PRIORITY) touched("the calling thread's priority was changed"); }
    public static void exit(final int status) { if (cur == null) return; touched("the process was told to exit"); throw new Error("the process was told to exit"); }
    public static void exit(final Runtime r, final int status) { exit(status); }

    private static void yAgain() { if (cur != null) y(SITE_LOOKUP); }

    public static void reset(final Sched s) {
        cur = null;
        sched = s;
        noYield = 0;
        stepFaults = null;
        STARTED.clear();
        INITS.clear();
        TOUCHED.clear();
        Ids.begin();
    }

    // ---- yield points -------------------------------------------------------------------------------------------

    public static void y(final int site) {
        final SimThread t = cur;
        if (t == null || noYield != 0) return;
        final Sched s = sched;
        t.step++;
        t.total++;
        s.totalSteps++;
        s.digest = (s.digest ^ (site * 8L + t.id)) * 1099511628211L;
        if (s.profile != null && site < s.profile.length) s.profile[site]++;
        if (Learn.on != null) Learn.hit(t, site);
        if (t.total >= t.nextAt || site == t.watchSite || t.step >= t.faultAt || t.total >= t.quantumAt || s.totalSteps > s.stepCap) slow(s, t, site);
    }

    /** A yield point before an access to the object (null: a static field). */
    public static void acc(final Object o, final int site) {
        if (Learn.on != null) Learn.access(o, site);
        y(site);
    }

    /** A yield point before a step of a call on an object with a state of its own. */
    static void state(final Object o, final int site) {
        if (Learn.on != null) Learn.mutable(o, site);
        y(site);
    }

    /** Work inside the JDK that grows with a size. */
    public static void bulk(final int n) { if (cur != null && noYield == 0) cur.bulk += n; }

    public static void bulk(final Object o) {
        if (cur == null || noYield != 0 || o == null) return;
        if (o instanceof CharSequence) { if (o.getClass().getClassLoader() == null) cur.bulk += ((CharSequence) o).length(); }
        else if (o.getClass().isArray()) cur.bulk += java.lang.reflect.Array.getLength(o);
        else if (o.getClass().getClassLoader() == null && (o instanceof java.util.List || o instanceof java.util.Queue || o instanceof java.util.concurrent.CopyOnWriteArraySet)) cur.bulk += ((Collection<?>) o).size();
    }

    /** An addition to a collection that is copied on every change. */
    public static void bulkCopied(final Object o) {
        if (cur != null && noYield == 0 && (o instanceof java.util.concurrent.CopyOnWriteArrayList || o instanceof java.util.concurrent.CopyOnWriteArraySet)) cur.bulk += ((Collection<?>) o).size();
    }

    public static void born(final Object o) { if (Learn.on != null) Learn.born(o); }

    private static void slow(final Sched s, final SimThread t, final int site) {
        if (s.totalSteps > s.stepCap) {
            s.stepCapHit = true;
            if (!s.switchOut(t)) throw new SimAbort("step cap");
            throw new SimAbort("step cap");
        }
        if (t.step >= t.faultAt) {
            t.faultAt = Long.MAX_VALUE;
            if (stepFaults != null) stepFaults.onStep(t);
        }
        if (t.total >= t.quantumAt) {
            if (s.othersIdle(t)) { t.quantumAt = t.total + Sched.QUANTUM; }
            else {
                s.lastSite = site;
                s.switchOut(t);
                return;
            }
        }
        if (t.total >= t.nextAt || site == t.watchSite) {
            if (s.policy.atPoint(s, t, site)) {
                s.lastSite = site;
                s.switchOut(t);
            }
        }
    }

    /** Block the current thread (state already set on it) until the scheduler resumes it. */
    public static boolean block(final SimThread t) { return sched.switchOut(t); }

    public static void clinitEnter() { noYield++; }

    public static void clinitExit() { if (noYield > 0) noYield--; }

    // ---- class initialisation, as the Java virtual machine specification describes it -------------------------------

    private static final class Init {
        Object owner;
        Throwable failed;
    }

    private static final java.util.IdentityHashMap<Class<?>, Init> INITS = new java.util.IdentityHashMap<>();
    private static final Object OUTSIDE = new Object();

    /** True when the caller has to run the initialiser; waits for another thread that is running it. */
    public static boolean initBegin(final Class<?> c) {
        final SimThread t = cur;
        final Object me = t == null ? OUTSIDE : t;
        Init i = INITS.get(c);
        if (i != null && i.failed == null) {
            if (i.owner == me) {
                if (Learn.on != null && t != null) Learn.wants(t, sched.mon(i, "the initialisation of class " + c.getSimpleName()));
                return false;
            }
            if (t == null || i.owner == OUTSIDE) return false;
            final Mon m = sched.mon(i, "the initialisation of class " + c.getSimpleName());
            initWaits++;
            sched.lock(m, t, 1);
            sched.unlock(m, t);
        }
        if (i != null) {
            if (i.failed != null) throw new NoClassDefFoundError("Could not initialize class " + c.getName());
            return false;
        }
        INITS.put(c, i = new Init());
        i.owner = me;
        if (t != null) {
            t.inits++;
            sched.lock(sched.mon(i, "the initialisation of class " + c.getSimpleName()), t, 1);
            y(SITE_LOCK);
        }
        return true;
    }

    public static long initWaits;

    public static void initEnd(final Class<?> c, final Throwable e) {
        final Init i = INITS.get(c);
        final SimThread t = cur;
        if (t != null) {
            t.inits--;
            final Mon m = sched.mons.get(i);
            if (m != null) sched.unlock(m, t);
        }
        if (e == null) return;
        i.failed = e;
        if (e instanceof Error) throw (Error) e;
        throw new ExceptionInInitializerError(e);
    }

    /** Before an allocation in the code under test. */
    public static void alloc() {
        final SimThread t = cur;
        if (t == null || noYield != 0 || t.inits != 0) return;
        if (++t.allocs == t.allocFault) {
            faultOom++;
            final OutOfMemoryError e = new OutOfMemoryError("injected");
            t.injected = e;
            throw e;
        }
    }

    /** On entry of a method of the code under test. */
    public static void enter() {
        final SimThread t = cur;
        if (t == null || noYield != 0 || t.inits != 0) return;
        if (++t.entries == t.entryFault) {
            faultSoe++;
            final StackOverflowError e = new StackOverflowError("injected");
            t.injected = e;
            throw e;
        }
    }

    public static void parse() {
        final Sched s = sched;
        if (s != null && cur != null && noYield == 0) s.parses++;
    }

    // ---- monitors -----------------------------------------------------------------------------------------------

    public static void monEnter(final Object o) {
        if (o == null) throw new NullPointerException();
        final SimThread t = cur;
        if (t == null) return;
        y(SITE_LOCK);
        sched.lock(sched.mon(o, null), t, 1);
    }

    public static void monExit(final Object o) {
        final SimThread t = cur;
        if (t == null || o == null) return;
        final Mon m = sched.mons.get(o);
        if (m != null) sched.unlock(m, t);
        // a point right after release, unless we are unwinding an abort
        if (!sched.inconclusive && !sched.stepCapHit) y(SITE_LOCK);
    }

    public static boolean holdsLock(final Object o) {
        final SimThread t = cur;
        if (t == null) return true;
        final Mon m = sched.mons.get(o);
        return m != null && m.owner == t;
    }

    public static void wait(final Object o) throws InterruptedException { wait(o, 0L); }

    public static void wait(final Object o, final long ms) throws InterruptedException {
        final SimThread t = cur;
        if (t == null) throw new IllegalMonitorStateException("wait outside the simulation");
        final Mon m = sched.mons.get(o);
        if (m == null || m.owner != t) throw new IllegalMonitorStateException();
        final int n = m.count;
        m.count = 1;
        sched.unlock(m, t);
        m.waitSet.add(t);
        if (ms > 0) t.wakeAt = sched.nowMs + ms;
        while (m.waitSet.contains(t)) {
            if (ms <= 0) t.blockedOn = m; 
            if (!sched.switchOut(t)) { sched.inconclusive = true; sched.inconclusiveWhy = "wait while pinned"; throw new SimAbort("wait while pinned"); }
            if (ms > 0 && t.wakeAt < 0) m.waitSet.remove(t);
            if (t.vt.isInterrupted()) { m.waitSet.remove(t); Thread.interrupted(); sched.lock(m, t, n); throw new InterruptedException(); }
        }
        t.wakeAt = -1;
        t.blockedOn = null;
        sched.lock(m, t, n);
    }

    public static void notify(final Object o) {
        if (cur == null) return;
        final Mon m = sched.mons.get(o);
        if (m == null || m.owner != cur) throw new IllegalMonitorStateException();
        if (!m.waitSet.isEmpty()) wake(m, m.waitSet.remove(0));
    }

    public static void notifyAll(final Object o) {
        if (cur == null) return;
        final Mon m = sched.mons.get(o);
        if (m == null || m.owner != cur) throw new IllegalMonitorStateException();
        while (!m.waitSet.isEmpty()) wake(m, m.waitSet.remove(0));
    }

    private static void wake(final Mon m, final SimThread t) {
        if (t.blockedOn == m) t.blockedOn = null;
        t.wakeAt = -1;
    }

    // ---- time ---------------------------------------------------------------------------------------------------

    public static final long BASE_MS = 1772366400000L; // 2026-03-01T12:00:00Z

    private static long clock() {
        y(SITE_CLOCK);
        final Sched s = sched;
        if (s == null) return BASE_MS;
        s.clockReads++;
        if (cur != null && cur.clockAt == 0) cur.clockAt = cur.step;
        return s.nowMs;
    }

    public static final class SimClock extends Clock {
        private final ZoneId zone;
        public SimClock(final ZoneId zone) { this.zone = zone; }
        @Override public ZoneId getZone() { return zone; }
        @Override public Clock withZone(final ZoneId z) { return new SimClock(z); }
        @Override public Instant instant() { return Instant.ofEpochMilli(clock()); }
        @Override public long millis() { return clock(); }
    }

    private static Clock dflt() { return new SimClock(ZoneId.systemDefault()); }

    public static long currentTimeMillis() { return clock(); }
    public static long nanoTime() { final Sched s = sched; return s == null ? 0 : (s.nowMs - BASE_MS) * 1000000L + s.totalSteps + s.nanoBase; }
    public static Instant instantNow() { return Instant.ofEpochMilli(clock()); }
    public static LocalDate localDateNow() { return LocalDate.now(dflt()); }
    public static LocalDate localDateNow(final ZoneId z) { return LocalDate.now(new SimClock(z)); }
    public static LocalDateTime localDateTimeNow() { return LocalDateTime.now(dflt()); }
    public static LocalDateTime localDateTimeNow(final ZoneId z) { return LocalDateTime.now(new SimClock(z)); }
    public static LocalTime localTimeNow() { return LocalTime.now(dflt()); }
    public static LocalTime localTimeNow(final ZoneId z) { return LocalTime.now(new SimClock(z)); }
    public static ZonedDateTime zonedDateTimeNow() { return ZonedDateTime.now(dflt()); }
    public static ZonedDateTime zonedDateTimeNow(final ZoneId z) { return ZonedDateTime.now(new SimClock(z)); }
    public static OffsetDateTime offsetDateTimeNow() { return OffsetDateTime.now(dflt()); }
    public static OffsetDateTime offsetDateTimeNow(final ZoneId z) { return OffsetDateTime.now(new SimClock(z)); }
    public static Year yearNow() { return Year.now(dflt()); }
    public static YearMonth yearMonthNow() { return YearMonth.now(dflt()); }
    public static Clock systemDefaultZone() { return dflt(); }
    public static Clock systemUTC() { return new SimClock(ZoneOffset.UTC); }
    public static Clock system(final ZoneId z) { return new SimClock(z); }
    public static java.util.Calendar calendarGetInstance() { final java.util.Calendar c = java.util.Calendar.getInstance(); c.setTimeInMillis(clock()); return c; }

    public static void sleep(final long ms) throws InterruptedException {
        final SimThread t = cur;
        if (t == null) return;
        if (Thread.interrupted()) throw new InterruptedException();
        t.wakeAt = sched.nowMs + Math.max(0, ms);
        sched.switchOut(t);
        t.wakeAt = -1;
    }
    public static void sleep(final java.time.Duration d) throws InterruptedException { sleep(d.toMillis()); }
    public static void sleep(final TimeUnit u, final long n) throws InterruptedException { sleep(u.toMillis(n)); }

    public static void parkNanos(final long n) {
        try { sleep(Math.max(1, n / 1_000_000)); } catch (final InterruptedException e) { Thread.currentThread().interrupt(); }
    }
    public static void parkNanos(final Object o, final long n) { parkNanos(n); }

    /** A wait with a timeout: the time passes only when nobody else can do anything. */
    private static boolean timed(final java.util.function.BooleanSupplier a, final long n, final TimeUnit u) throws InterruptedException {
        if (Thread.interrupted()) throw new InterruptedException();
        if (a.getAsBoolean()) return true;
        if (cur == null || n <= 0) return false;
        sleep(Math.max(1, u.toMillis(n)));
        return a.getAsBoolean();
    }
    public static boolean tryLock(final java.util.concurrent.locks.Lock l, final long n, final TimeUnit u) throws InterruptedException { y(SITE_LOCK); return timed(l::tryLock, n, u); }
    public static boolean tryAcquire(final java.util.concurrent.Semaphore x, final long n, final TimeUnit u) throws InterruptedException { y(SITE_LOCK); return timed(x::tryAcquire, n, u); }
    public static boolean tryAcquire(final java.util.concurrent.Semaphore x, final int k, final long n, final TimeUnit u) throws InterruptedException { y(SITE_LOCK); return timed(() -> x.tryAcquire(k), n, u); }
    public static boolean await(final java.util.concurrent.CountDownLatch x, final long n, final TimeUnit u) throws InterruptedException { y(SITE_LOCK); return timed(() -> x.getCount() == 0, n, u); }
    public static long tryWriteLock(final java.util.concurrent.locks.StampedLock x, final long n, final TimeUnit u) throws InterruptedException {
        y(SITE_LOCK);
        final long[] r = {0};
        timed(() -> (r[0] = x.tryWriteLock()) != 0, n, u);
        return r[0];
    }
    public static long tryReadLock(final java.util.concurrent.locks.StampedLock x, final long n, final TimeUnit u) throws InterruptedException {
        y(SITE_LOCK);
        final long[] r = {0};
        timed(() -> (r[0] = x.tryReadLock()) != 0, n, u);
        return r[0];
    }
    public static Object futureGet(final java.util.concurrent.Future<?> f, final long n, final TimeUnit u) throws Exception {
        y(SITE_LOCK);
        if (!timed(f::isDone, n, u)) throw new java.util.concurrent.TimeoutException();
        return f.get();
    }
    public static Object queuePoll(final java.util.concurrent.BlockingQueue<?> q, final long n, final TimeUnit u) throws InterruptedException {
        y(SITE_LOCK);
        final Object[] r = {null};
        timed(() -> (r[0] = q.poll()) != null, n, u);
        return r[0];
    }

    public static int availableProcessors(final Runtime r) { final Sched s = sched; return s == null ? 4 : s.cpus; }

    /** Keeps the referent of a weak or soft reference until a collection is injected. */
    public static void pin(final Object o) { final Sched s = sched; if (s != null && o != null) s.pins.put(o, Boolean.TRUE); }

    public static java.text.NumberFormat format(final java.text.NumberFormat f) { return f != null && f.getClass() == java.text.DecimalFormat.class ? new SimDecimalFormat((java.text.DecimalFormat) f) : f; }

    public static Thread startVirtual(final Runnable r) {
        final Thread t = Thread.ofVirtual().unstarted(r);
        threadStart2(t, r);
        return t;
    }
    private static void threadStart2(final Thread th, final Runnable r) {
        if (sched == null || cur == null) { r.run(); return; }
        STARTED.put(th, sched.spawn(r, true));
    }

    public static void yieldThread() {
        final SimThread t = cur;
        if (t == null) return;
        t.step++;
        t.total++;
        if (++sched.totalSteps > sched.stepCap) slow(sched, t, SITE_OP);
        sched.lastSite = SITE_OP;
        sched.yielded = t;
        sched.switchOut(t);
    }

    // ---- threads and executors ----------------------------------------------------------------------------------

    private static final java.util.IdentityHashMap<Thread, SimThread> STARTED = new java.util.IdentityHashMap<>();

    public static void threadStart(final Thread th) {
        if (sched == null || cur == null) { th.run(); return; }
        STARTED.put(th, sched.spawn(th::run, true));
    }

    public static void threadJoin(final Thread th) throws InterruptedException {
        final SimThread t = STARTED.get(th);
        final SimThread c = cur;
        if (t == null || c == null) return;
        while (!t.finished) {
            c.joinOn = t;
            if (!sched.switchOut(c)) throw new SimAbort("join while pinned");
        }
        c.joinOn = null;
    }
    public static void threadJoin(final Thread th, final long ms) throws InterruptedException { threadJoin(th); }

    public static final class SimExecutor extends AbstractExecutorService {
        private final SimPool.Core core;
        SimExecutor(final SimPool.Core core) { this.core = core; }
        @Override public void execute(final Runnable r) {
            if (core != null) { core.submit(r); return; }
            final Sched s = sched;
            if (s == null || cur == null) { r.run(); return; }
            y(SITE_EXEC);
            s.executorTasks++;
            if (s.rejectNext > 0) {
                s.rejectNext--;
                s.executorRejected++;
                throw new RejectedExecutionException("injected");
            }
            s.spawn(r, true);
        }
        @Override public void shutdown() { if (core != null) core.down = true; }
        @Override public List<Runnable> shutdownNow() { return core == null ? List.of() : SimPool.stop(core); }
        @Override public boolean isShutdown() { return core != null && core.down; }
        @Override public boolean isTerminated() { return core != null && core.down && core.workers == 0; }
        @Override public boolean awaitTermination(final long n, final TimeUnit u) throws InterruptedException { return core == null || SimPool.await(core, n, u); }
    }

    private static final SimExecutor EXEC = new SimExecutor(null);

    public static Executor commonPoolExecutor() { return EXEC; }
    private static ExecutorService pool(final String what, final int n, final boolean lingers) { return new SimExecutor(new SimPool.Core(what, n, lingers)); }
    public static ExecutorService newCached() { return pool("a cached thread pool", Integer.MAX_VALUE, false); }
    public static ExecutorService newCached(final java.util.concurrent.ThreadFactory f) { return newCached(); }
    public static ExecutorService newSingle() { return pool("a single-thread executor", 1, true); }
    public static ExecutorService newSingle(final java.util.concurrent.ThreadFactory f) { return newSingle(); }
    public static ExecutorService newFixed(final int n) { return pool("a fixed thread pool", n, true); }
    public static ExecutorService newFixed(final int n, final java.util.concurrent.ThreadFactory f) { return newFixed(n); }
    public static ExecutorService newStealing() { return pool("a work-stealing pool", availableProcessors(null), false); }
    public static ExecutorService newStealing(final int n) { return pool("a work-stealing pool", n, false); }
    public static java.util.concurrent.ScheduledExecutorService newScheduled(final int n) { return new SimPool.Stpe(Math.max(1, n)); }
    public static java.util.concurrent.ScheduledExecutorService newScheduled(final int n, final java.util.concurrent.ThreadFactory f) { return newScheduled(n); }
    public static java.util.concurrent.ScheduledExecutorService newSingleScheduled() { return newScheduled(1); }
    public static java.util.concurrent.ScheduledExecutorService newSingleScheduled(final java.util.concurrent.ThreadFactory f) { return newScheduled(1); }
    public static Object fjpInvoke(final ForkJoinPool p, final java.util.concurrent.ForkJoinTask<?> t) { return t.invoke(); }
    public static java.util.concurrent.ForkJoinTask<?> fjpSubmit(final ForkJoinPool p, final java.util.concurrent.ForkJoinTask<?> t) { if (p instanceof SimPool.Fjp) return p.submit(t); EXEC.execute(t::quietlyInvoke); return t; }
    public static java.util.concurrent.ForkJoinTask<?> fjpSubmit(final ForkJoinPool p, final java.util.concurrent.Callable<?> c) { return fjpSubmit(p, java.util.concurrent.ForkJoinTask.adapt(c)); }
    public static java.util.concurrent.ForkJoinTask<?> fjpSubmit(final ForkJoinPool p, final Runnable r) { return fjpSubmit(p, java.util.concurrent.ForkJoinTask.adapt(r)); }
    public static java.util.concurrent.ForkJoinTask<?> fork(final java.util.concurrent.ForkJoinTask<?> t) { return SimPool.fork(t); }
    public static void forkAll(final java.util.concurrent.ForkJoinTask<?> a, final java.util.concurrent.ForkJoinTask<?> b) { SimPool.invokeAll(a, b); }
    public static void forkAll(final java.util.concurrent.ForkJoinTask<?>[] l) { SimPool.invokeAll(l); }
    public static Collection<?> forkAll(final Collection<? extends java.util.concurrent.ForkJoinTask<?>> l) { return SimPool.invokeAll(l); }
    public static Executor asyncPool() { return EXEC; }
    public static CompletableFuture<?> orTimeout(final CompletableFuture<?> f, final long n, final TimeUnit u) {
        final Sched s = sched;
        if (s != null && cur != null) s.spawn(() -> { try { sleep(u.toMillis(n)); f.completeExceptionally(new java.util.concurrent.TimeoutException()); } catch (final InterruptedException e) { /* over */ } }, true);
        return f;
    }
    public static CompletableFuture<Object> completeOnTimeout(final CompletableFuture<Object> f, final Object v, final long n, final TimeUnit u) {
        final Sched s = sched;
        if (s != null && cur != null) s.spawn(() -> { try { sleep(u.toMillis(n)); f.complete(v); } catch (final InterruptedException e) { /* over */ } }, true);
        return f;
    }
    public static Executor delayedExecutor(final long n, final TimeUnit u, final Executor e) {
        if (sched == null || cur == null) return e;
        final SimPool.Core core = new SimPool.Core("a delayed executor", 1, false);
        return r -> core.later(() -> e.execute(r), u.toMillis(n), 0, () -> false);
    }
    /** Reflection reaches the simulator's timers as well. */
    public static Object reflect(final java.lang.reflect.Method m, final Object o, final Object[] a) throws IllegalAccessException, java.lang.reflect.InvocationTargetException {
        if (m.getDeclaringClass() == CompletableFuture.class && m.getName().equals("delayedExecutor"))
            return delayedExecutor((Long) a[0], (TimeUnit) a[1], a.length > 2 ? (Executor) a[2] : EXEC);
        if (!m.canAccess(java.lang.reflect.Modifier.isStatic(m.getModifiers()) ? null : o)) try { m.setAccessible(true); } catch (final RuntimeException e) { /* as it would be */ }
        return m.invoke(o, a);
    }
    public static Executor delayedExecutor(final long n, final TimeUnit u) { return delayedExecutor(n, u, EXEC); }
    public static void fjpExecute(final ForkJoinPool p, final Runnable r) { if (p instanceof SimPool.Fjp) p.execute(r); else EXEC.execute(r); }
    public static CompletableFuture<Void> runAsync(final Runnable r) { return CompletableFuture.runAsync(r, EXEC); }
    public static <U> CompletableFuture<U> supplyAsync(final Supplier<U> s) { return CompletableFuture.supplyAsync(s, EXEC); }
    // what the JDK's collectors build is in the order of this process when its elements or keys hash by identity
    private static <T, A, R> java.util.stream.Collector<T, ?, R> then(final java.util.stream.Collector<T, A, R> c, final java.util.function.Function<R, R> f) { return java.util.stream.Collectors.collectingAndThen(c, f); }
    public static java.util.stream.Collector<Object, ?, java.util.Set<Object>> toSet() { return then(java.util.stream.Collectors.toSet(), s -> sched == null ? s : Ids.ordered(s, sched.idSalt)); }
    public static java.util.stream.Collector<Object, ?, java.util.Set<Object>> toUnmodifiableSet() { return then(java.util.stream.Collectors.toUnmodifiableSet(), s -> sched == null ? s : Ids.set(s, sched.idSalt)); }
    public static java.util.stream.Collector<Object, ?, java.util.Map<Object, List<Object>>> groupingBy(final java.util.function.Function<Object, Object> k) { return then(java.util.stream.Collectors.groupingBy(k), m -> sched == null ? m : Ids.ordered(m, sched.idSalt)); }
    public static java.util.stream.Collector<Object, ?, java.util.Map<Object, Object>> groupingBy(final java.util.function.Function<Object, Object> k, final java.util.stream.Collector<Object, Object, Object> d) {
        return then(java.util.stream.Collectors.groupingBy(k, d), m -> sched == null ? m : Ids.ordered(m, sched.idSalt));
    }
    public static java.util.stream.Collector<Object, ?, java.util.Map<Object, Object>> toMap(final java.util.function.Function<Object, Object> k, final java.util.function.Function<Object, Object> v) { return then(java.util.stream.Collectors.toMap(k, v), m -> sched == null ? m : Ids.ordered(m, sched.idSalt)); }
    public static java.util.stream.Collector<Object, ?, java.util.Map<Object, Object>> toMap(final java.util.function.Function<Object, Object> k, final java.util.function.Function<Object, Object> v, final java.util.function.BinaryOperator<Object> b) {
        return then(java.util.stream.Collectors.toMap(k, v, b), m -> sched == null ? m : Ids.ordered(m, sched.idSalt));
    }

    public static java.util.stream.Stream<?> parallelStream(final Collection<?> c) { return SimParallel.of(c.stream()); }
    public static java.util.stream.BaseStream<?, ?> parallel(final java.util.stream.BaseStream<?, ?> s) { return SimParallel.parallel(s); }

    // ---- randomness ---------------------------------------------------------------------------------------------

    private static Rng env() { final Sched s = sched; return s == null ? new Rng(1) : s.envRng; }
    public static ThreadLocalRandom tlrCurrent() { return null; }
    public static int tlrNextInt(final ThreadLocalRandom r) { return (int) env().next(); }
    public static int tlrNextInt(final ThreadLocalRandom r, final int n) { return env().below(n); }
    public static int tlrNextInt(final ThreadLocalRandom r, final int a, final int b) { return a + env().below(b - a); }
    public static long tlrNextLong(final ThreadLocalRandom r) { return env().next(); }
    public static double tlrNextDouble(final ThreadLocalRandom r) { return (env().next() >>> 11) * 0x1.0p-53; }
    public static boolean tlrNextBoolean(final ThreadLocalRandom r) { return (env().next() & 1) == 1; }
    public static double mathRandom() { return (env().next() >>> 11) * 0x1.0p-53; }
    public static long randomSeed() { return env().next(); }
    public static UUID randomUUID() { final Rng r = env(); return new UUID(r.next(), r.next()); }
    public static int identityHash(final Object o) { return o == null ? 0 : ids(o); }
    private static int ids(final Object o) {
        final Sched s = sched;
        return Ids.of(o, s == null ? 0 : s.idSalt);
    }

    /** hashCode(), except that identity hash codes are the simulator's. */
    public static int hashOf(final Object o) { return o instanceof String || o instanceof Number || !Ids.identity(o) ? o.hashCode() : ids(o); }
    public static int hashNull(final Object o) { return o == null ? 0 : hashOf(o); }
    public static int hashAll(final Object[] a) {
        if (a == null) return 0;
        int h = 1;
        for (final Object o : a) h = 31 * h + hashNull(o);
        return h;
    }
    public static <T> java.util.Set<T> orderedSet(final java.util.Set<T> s) { return sched == null ? s : Ids.set(s, sched.idSalt); }
    public static <K, V> java.util.Map<K, V> orderedMap(final java.util.Map<K, V> m) { return sched == null ? m : Ids.map(m, sched.idSalt); }
    public static long maxMemory(final Runtime r) { final Sched s = sched; return s == null ? 4L << 30 : s.heap; }
    public static long totalMemory(final Runtime r) { return maxMemory(r) / 2; }
    public static long freeMemory(final Runtime r) { return maxMemory(r) / 4; }
    public static long threadId(final Thread t) { return cur != null && t == Thread.currentThread() ? cur.id * sched.threadStep + 30 + sched.threadBase : t.threadId(); }
    public static void shuffle(final java.util.List<?> l) { java.util.Collections.shuffle(l, new Random(env().next())); }

    public static int getProbe() {
        final SimThread t = cur;
        if (t == null) return 1;
        if (t.probe == 0) t.probe = (int) Rng.mix(t.id + 1) | 1;
        return t.probe;
    }
    public static int advanceProbe(int p) {
        p ^= p << 13;
        p ^= p >>> 17;
        p ^= p << 5;
        final SimThread t = cur;
        if (t != null) t.probe = p;
        return p;
    }

    static final Random UNUSED = null;
}
