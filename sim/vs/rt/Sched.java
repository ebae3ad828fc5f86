package vs.rt;

import java.lang.reflect.Constructor;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.concurrent.Executor;

/**
 * The simulator of one run. Everything happens on one OS thread: simulated threads are virtual threads whose
 * continuations are run by {@link #run()} one at a time, and which thread runs next is decided here only.
 */
public final class Sched {
    /** Decides every scheduling choice. */
    public interface Policy {
        /** Called when control is with the scheduler. last may be null. runnable is non-empty. */
        SimThread pick(Sched s, List<SimThread> runnable, SimThread last);

        /** Called on the thread at a yield point it asked for; true to give up the processor. */
        boolean atPoint(Sched s, SimThread t, int site);

        /** An op of t begins (counters were reset). */
        default void opStart(Sched s, SimThread t, int op) { }

        default void opEnd(Sched s, SimThread t, int op) { }

        default void spawned(Sched s, SimThread by, SimThread t) { }

        /** The next choices are already written down. */
        default boolean replaying() { return false; }
    }

    public static final class Segment {
        public final int tid;
        public long steps;             // -1: until it blocks or finishes
        public final int site;
        public Segment(final int tid, final long steps, final int site) { this.tid = tid; this.steps = steps; this.site = site; }
    }

    public final List<SimThread> threads = new ArrayList<>();
    public final List<Segment> trace = new ArrayList<>();
    public final List<String> log = new ArrayList<>();
    public final IdentityHashMap<Object, Mon> mons = new IdentityHashMap<>();
    /** Referents of weak and soft references: alive until a collection is injected. */
    public final IdentityHashMap<Object, Boolean> pins = new IdentityHashMap<>();
    public int cpus = 4;
    /** What else differs from one process to another: identity hash codes, the origin of the nanosecond clock, memory, thread names and ids. */
    public long idSalt, nanoBase, threadBase, threadStep = 1;
    public long heap = 4L << 30;
    public String threadName = "sim-";
    /** All threads bear the same name. */
    public boolean namesakes;
    public final Policy policy;
    public final long stepCap;
    public long loops;
    public long totalSteps;
    public long pinned;
    public int parses;
    public int clockReads;
    public int switches;
    public boolean deadlock;
    public boolean stepCapHit;
    public boolean inconclusive;
    public String inconclusiveWhy;
    public boolean started;
    /** release stalled threads only when nothing else can run. */
    public Rng envRng;

    // simulated clock
    public long nowMs;
    public long startMs;
    public long maxMs;
    public long minMs;

    // executor faults
    public int rejectNext;             // reject this many background submissions
    public int executorTasks;
    public int executorRejected;

    /** Thread pools and timers the code under test has made. */
    public final List<SimPool.Core> pools = new ArrayList<>();
    /** No thread but the callers' own gets the processor while a caller is waiting. */
    public boolean starve;
    /** Who could not go on without some other thread having run. */
    public final List<String> starved = new ArrayList<>();

    public int[] profile;              // per-site hit counts (single-thread profiling runs)
    public long digest = 1469598103934665603L;

    public Sched(final Policy policy, final long seed, final long nowMs, final long stepCap) {
        this.policy = policy;
        this.nowMs = nowMs;
        this.startMs = nowMs;
        this.maxMs = nowMs;
        this.minMs = nowMs;
        this.stepCap = stepCap;
        this.envRng = new Rng(seed ^ 0x5bd1e995L);
    }

    public void setNow(final long ms) {
        nowMs = ms;
        maxMs = Math.max(maxMs, ms);
        minMs = Math.min(minMs, ms);
    }

    public void note(final long v) { digest = (digest ^ v) * 1099511628211L; }

    private static final Constructor<?> VT;
    static {
        try {
            final Class<?> c = Class.forName("java.lang.ThreadBuilders$VirtualThreadBuilder");
            VT = c.getDeclaredConstructor(Executor.class);
            VT.setAccessible(true);
        } catch (final Exception e) {
            throw new ExceptionInInitializerError(e);
        }
    }

    public SimThread spawn(final Runnable body, final boolean background) {
        final SimThread t = new SimThread(threads.size(), background);
        try {
            final Thread.Builder.OfVirtual b = (Thread.Builder.OfVirtual) VT.newInstance((Executor) r -> t.task = r);
            t.vt = b.name(namesakes ? "worker" : threadName + (t.id + threadBase)).unstarted(() -> {
                try {
                    body.run();
                } finally {
                    t.finished = true;
                }
            });
        } catch (final ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
        threads.add(t);
        final SimThread c = Hook.cur;
        if (background && c != null) t.origin = c.work();
        t.vt.start();
        Hook.cur = c;
        policy.spawned(this, c, t);
        return t;
    }

    private boolean runnable(final SimThread t) {
        return !t.finished && t.task != null && t.blockedOn == null && !t.stalled && t.wakeAt < 0
            && !(t.joinOn instanceof SimThread && !((SimThread) t.joinOn).finished);
    }

    public boolean othersIdle(final SimThread t) {
        for (final SimThread o : threads) if (o != t && runnable(o)) return false;
        return true;
    }

    public boolean allOthersFinished(final SimThread t) {
        for (final SimThread o : threads) if (o != t && !o.background && !o.finished) return false;
        return true;
    }

    /** Runs until every thread has finished, nothing can run, or the step cap is hit. */
    public void run() {
        started = true;
        SimThread last = null;
        final List<SimThread> runnable = new ArrayList<>();
        while (true) {
            runnable.clear();
            boolean allDone = true, callers = false;
            for (final SimThread t : threads) {
                if (t.finished) continue;
                allDone = false;
                if (!t.background) callers = true;
            }
            if (allDone) break;
            if (stepCapHit || inconclusive) break;
            for (final SimThread t : threads) if (runnable(t) && !(starve && callers && t.background)) runnable.add(t);
            if (runnable.isEmpty()) {
                // what only sleeps or waits for work when the callers are done is left behind
                if (!callers) break;
                // nobody can run: first let simulated time pass, then lift injected stalls
                SimThread next = null;
                for (final SimThread t : threads) {
                    if (!t.finished && t.wakeAt >= 0 && !(starve && t.background) && (next == null || t.wakeAt < next.wakeAt)) next = t;
                }
                if (next != null) {
                    if (next.wakeAt > nowMs) setNow(next.wakeAt);
                    next.wakeAt = -1;
                    continue;
                }
                SimThread st = null;
                for (final SimThread t : threads) if (!t.finished && t.stalled) { st = t; break; }
                if (st != null) {
                    boolean blocked = false;
                    for (final SimThread t : threads) if (!t.finished && !t.stalled && !t.background) blocked = true;
                    if (blocked) {
                        for (final SimThread t : threads) if (!t.finished && !t.stalled) blockedByStall.add(t + " waits for " + waitsFor(t));
                    }
                    st.stalled = false;
                    continue;
                }
                if (starve) {
                    for (final SimThread t : threads) if (!t.finished && !t.background) starved.add(t + " waits for " + waitsFor(t));
                    starve = false;
                    continue;
                }
                // a thread parked in java.util.concurrent with a timeout would be woken by a real timer: not controlled
                for (final SimThread t : threads) {
                    if (!t.finished && t.vt.getState() == Thread.State.TIMED_WAITING) {
                        inconclusive = true;
                        inconclusiveWhy = "timed park outside the simulated clock";
                    }
                }
                if (!inconclusive) deadlock = true;
                break;
            }
            final boolean replaying = policy.replaying();
            SimThread t = policy.pick(this, runnable, last);
            if (settling && !replaying) for (final SimThread b : runnable) if (b.background) { t = b; break; }
            if (runnable.size() > 1 && !replaying && last != null) {
                // a thread that spins must not keep the processor from the one it waits for
                if (last.total >= last.quantumAt) {
                    t = oldest(runnable, last, true);
                    // and each time it spins on, the others together get longer before its next turn
                    last.backAt = totalSteps + (REST << Math.min(last.spins++, 8));
                } else if (yielded == last && t == last) t = oldest(runnable, last, false);
                if (t.backAt > totalSteps) {
                    SimThread o = null;
                    for (final SimThread x : runnable) if (x.backAt <= totalSteps && (o == null || x.lastRun < o.lastRun)) o = x;
                    if (o != null) {
                        t = o;
                        t.held = false;
                    }
                }
            }
            yielded = null;
            t.lastRun = ++picks;
            if (t != last) t.quantumAt = t.total + QUANTUM;
            if (t != last) { switches++; note(t.id * 31L + 7); }
            final long before = t.total;
            final Runnable task = t.task;
            t.task = null;
            Hook.cur = t;
            loops++;
            try {
                task.run();
            } finally {
                Hook.cur = null;
            }
            if (look != null) look.run();
            if (!t.finished && t.op >= 0 && !t.background) midCall++;
            final long d = t.total - before;
            trace.add(new Segment(t.id, t.finished || !runnable(t) ? -1 : d, lastSite));
            last = t;
        }
        Hook.cur = null;
    }

    /** Looks at the caller's data whenever a thread leaves the processor. */
    public Runnable look;

    /** Background work runs as soon as it is submitted. */
    public boolean settling;
    static final long QUANTUM = 50_000, REST = 4_000;
    SimThread yielded;
    private long picks;

    private static SimThread oldest(final List<SimThread> runnable, final SimThread last, final boolean held) {
        SimThread o = null;
        for (final SimThread t : runnable) if (t != last && (held || !t.held) && (o == null || t.lastRun < o.lastRun)) o = t;
        if (o == null) return last;
        o.held = false;
        return o;
    }

    public int lastSite;
    /** How often a thread left the processor in the middle of a call. */
    public int midCall;
    /** Who was blocked while the only other unfinished threads were stalled by an injected fault. */
    public final List<String> blockedByStall = new ArrayList<>();

    public String waitsFor(final SimThread t) {
        if (t.blockedOn != null) return "the lock on " + t.blockedOn.what + (t.blockedOn.owner != null ? " held by " + t.blockedOn.owner : "");
        if (t.joinOn != null) return "a join";
        return "a java.util.concurrent synchroniser (parked)";
    }

    // ---- called on simulated threads -------------------------------------------------------------------------

    /** Gives up the processor. Returns false if the thread is pinned (cannot be unmounted here). */
    public boolean switchOut(final SimThread t) {
        final long before = loops;
        Thread.yield();
        if (loops == before) {
            pinned++;
            return false;
        }
        return true;
    }

    Mon mon(final Object o, final String what) {
        Mon m = mons.get(o);
        if (m == null) mons.put(o, m = new Mon(what != null ? what : o.getClass().getSimpleName()));
        return m;
    }

    void lock(final Mon m, final SimThread t, final int n) {
        if (Learn.on != null) Learn.wants(t, m);
        if (m.owner == t) { m.count += n; return; }
        while (m.owner != null) {
            contended++;
            t.blockedOn = m;
            m.waiters.add(t);
            if (!switchOut(t)) {
                t.blockedOn = null;
                m.waiters.remove(t);
                inconclusive = true;
                inconclusiveWhy = "contended lock while pinned: " + m.what;
                throw new SimAbort(inconclusiveWhy);
            }
        }
        m.owner = t;
        m.count = n;
        if (Learn.on != null) Learn.locked(t, m);
    }

    public int contended;

    void unlock(final Mon m, final SimThread t) {
        if (m.owner != t) return;
        if (--m.count > 0) return;
        m.owner = null;
        if (Learn.on != null) Learn.unlocked(t, m);
        for (final SimThread w : m.waiters) if (w.blockedOn == m) w.blockedOn = null;
        m.waiters.clear();
    }
}
