package vs.core;

import java.io.IOException;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TimeZone;
import java.util.TreeMap;
import vs.inst.Loaders;
import vs.rt.Hook;
import vs.rt.Sched;
import vs.rt.SimThread;

/** Executes one case: a fresh simulated process, its clients, its faults. */
public final class Engine {
    public static Loaders loaders;
    /** Faults that actually fired, by kind, over the life of this worker. */
    public static final Map<String, Long> FIRED = new TreeMap<>();

    public static void fired(final String k) { FIRED.merge(k, 1L, Long::sum); }

    public static final class Read {
        public final String path;
        public final Object value;
        Read(final String path, final Object value) { this.path = path; this.value = value; }
    }

    /** What one call did. */
    public static final class Rec {
        public Op op;
        public int thread;
        public boolean finished;
        public Outcome out = Outcome.never();
        public int startSeq, endSeq = Integer.MAX_VALUE;
        public long steps;
        public int allocs, entries, lookups, handlers, parses;
        public long clockAt, bulk;
        public final List<Read> reads = new ArrayList<>();
        public boolean faultFired;
        public Throwable injected;
        public Throwable parserError;
        public int parserCalls;
        public final List<String[]> asked = new ArrayList<>();
        public boolean interruptedBefore, interruptedAfter, interruptInjected;
        public boolean stalled, spoilt;
        /** The failure as it was when it was returned. */
        public String failure;
        public List<String> envAtStart;
        /** Of a "repeat": answers that were looked at, {number, outcome}, and how many calls were made. */
        public final List<Object[]> samples = new ArrayList<>();
        public int repeated;
    }

    /** An event outside the calls: a clock, zone, locale or data change. */
    public static final class Ev {
        public final int seq;
        public final String kind, a;
        public final int data;
        public final Object v;
        public final int uid;
        Ev(final int seq, final String kind, final int data, final String a, final Object v, final int uid) { this.seq = seq; this.kind = kind; this.data = data; this.a = a; this.v = v; this.uid = uid; }
    }

    public static final class Result {
        public final Map<Integer, Rec> recs = new LinkedHashMap<>();
        public final List<Ev> events = new ArrayList<>();
        public final List<String> mutations = new ArrayList<>();
        public Sched sched;
        public boolean complete;
        public boolean postDone;
        public String postProblem;
        public Object[] objects;
        public final List<Object> dropped = new ArrayList<>();
        /** Threads, timers and pools still there when the callers were done. */
        public final List<String> left = new ArrayList<>();
        /** What was done to the caller's objects by threads that are not the caller's. */
        public final java.util.Set<String> foreign = new java.util.LinkedHashSet<>();
        /** Process-wide settings that are not what they were. */
        public final List<String> process = new ArrayList<>();
        public final List<Object> threadLocals = new ArrayList<>();
        public SimMap[] data;
        /** The data as the calls got it. */
        public Object[] views;
        public Bridge bridge;
        public int[] profile;
        public int parses;
        public String stuck;
        public String endLocale, endTz;
        public final Map<String, Integer> fired = new TreeMap<>();
    }

    // ---- one run ------------------------------------------------------------------------------------------------

    private final Case c;
    private final Result r = new Result();
    private final Map<Integer, List<Fault>> faults = new HashMap<>();
    private Bridge b;
    private Sched s;
    private int seq;
    private Object[] objs;
    private SimMap[] data;
    private Object[] views;
    private final boolean profile;

    private Engine(final Case c, final boolean profile) { this.c = c; this.profile = profile; }

    public static Result run(final Case c) { return new Engine(c, false).go(); }

    public static Result profile(final Case c) { return new Engine(c, true).go(); }

    /** Called with the simulated process still alive, after the clients are done, on a simulated thread. */
    public interface After {
        void run(Engine e, Result r);
    }
    public static After after;

    private static final Locale LOCALE0 = Locale.forLanguageTag("en-US");
    private static final TimeZone TZ0 = TimeZone.getTimeZone("UTC");

    private Result go() {
        keepFailures = "C12".equals(c.prop) || "C30".equals(c.prop);
        for (final Fault f : c.faults) faults.computeIfAbsent(f.uid, k -> new ArrayList<>()).add(f);
        Locale.setDefault(Locale.forLanguageTag(c.locale));
        TimeZone.setDefault(TimeZone.getTimeZone(c.tz));
        final java.io.PrintStream out = System.out, err = System.err;
        final java.io.InputStream in = System.in;
        final Thread.UncaughtExceptionHandler ueh = Thread.getDefaultUncaughtExceptionHandler();
        final java.util.Properties props = System.getProperties(), copy = (java.util.Properties) props.clone();
        try {
            go1();
        } finally {
            for (final String x : Hook.TOUCHED) if (!r.process.contains(x)) r.process.add(x);
            Hook.reset(null);
            if (System.out != out) { r.process.add("System.out was replaced"); System.setOut(out); }
            if (System.err != err) { r.process.add("System.err was replaced"); System.setErr(err); }
            if (System.in != in) { r.process.add("System.in was replaced"); System.setIn(in); }
            if (Thread.getDefaultUncaughtExceptionHandler() != ueh) { r.process.add("the default uncaught exception handler was replaced"); Thread.setDefaultUncaughtExceptionHandler(ueh); }
            if (System.getProperties() != props || !props.equals(copy)) {
                for (final Object k : new java.util.TreeSet<Object>(System.getProperties().keySet())) if (!java.util.Objects.equals(System.getProperties().get(k), copy.get(k))) r.process.add("the system property " + k + " was set");
                for (final Object k : copy.keySet()) if (!System.getProperties().containsKey(k)) r.process.add("the system property " + k + " was removed");
                System.setProperties(props);
                props.clear();
                props.putAll(copy);
            }
            r.endLocale = Locale.getDefault().toLanguageTag();
            r.endTz = TimeZone.getDefault().getID();
            Locale.setDefault(LOCALE0);
            TimeZone.setDefault(TZ0);
        }
        return r;
    }

    private void go1() {
        Hook.reset(null);
        final long cap = c.params.containsKey("stepCap") ? (Long) c.params.get("stepCap") : 20_000_000L;
        s = new Sched(Policies.make(c.policy), c.seed, c.now, cap);
        r.sched = s;
        s.namesakes = Boolean.TRUE.equals(c.params.get("namesakes"));
        if (c.params.containsKey("cpus")) s.cpus = ((Long) c.params.get("cpus")).intValue();
        s.idSalt = num("ids", 0);
        s.nanoBase = num("nano", 0);
        s.threadBase = num("threadBase", 0);
        s.threadStep = num("threadStep", 1);
        s.heap = num("heap", 4L << 30);
        if (c.params.containsKey("threadName")) s.threadName = (String) c.params.get("threadName");
        if (profile) s.profile = new int[loaders.inst.sites.size()];
        final ClassLoader l = loaders.fresh();
        try {
            b = (Bridge) l.loadClass("vs.bridge.BridgeImpl").getDeclaredConstructor().newInstance();
        } catch (final ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
        r.bridge = b;
        Hook.sched = s;
        objs = new Object[c.objs.size()];
        r.objects = objs;
        for (final Map.Entry<String, Object> e : c.regs.entrySet()) b.register(e.getKey(), (String) e.getValue(), this::consulted);
        final SimMap.Listener li = new Data();
        data = new SimMap[c.data.size()];
        r.data = data;
        for (int i = 0; i < data.length; i++) data[i] = (SimMap) Val.decode(c.data.get(i), "", li);
        views = new Object[data.length];
        final int plain = (int) num("plain", 0);
        for (int i = 0; i < data.length; i++) views[i] = plain == 0 ? data[i] : Val.plain(c.data.get(i), plain);
        r.views = views;
        final Watch watch = plain == 0 ? null : new Watch(views);
        s.look = watch == null ? null : watch::look;
        for (int i = 0; i < objs.length; i++) if (!c.objs.get(i).lazy) obj(i);
        if (Boolean.TRUE.equals(c.params.get("regAfter"))) {
            for (final Map.Entry<String, Object> e : c.regs.entrySet()) b.register(e.getKey(), (String) e.getValue(), this::consulted);
        }
        Hook.stepFaults = this::stepFault;
        for (int i = 0; i < c.threads.size(); i++) {
            final List<Op> ops = c.threads.get(i);
            final int ti = i;
            s.spawn(() -> client(ti, ops), false);
        }
        s.starve = Boolean.TRUE.equals(c.params.get("starve"));
        s.run();
        r.complete = done();
        if (watch != null) {
            watch.look();
            if (watch.seen != null) r.mutations.add(watch.seen);
        }
        leftovers();
        r.parses = s.parses;
        if (s.profile != null) { r.profile = s.profile; s.profile = null; }
        if (!r.complete) r.stuck = describeStuck();
        if (r.complete && (!c.post.isEmpty() || after != null)) {
            Hook.cur = null;
            s.settling = Boolean.TRUE.equals(c.params.get("settle"));
            s.spawn(() -> {
                client(-1, c.post);
                if (after != null) after.run(this, r);
            }, false);
            s.run();
            r.postDone = done();
            if (!r.postDone) r.stuck = "after the clients were done: " + describeStuck();
        } else {
            r.postDone = r.complete;
        }
    }

    private long num(final String k, final long def) { return c.params.containsKey(k) ? (Long) c.params.get(k) : def; }

    private boolean done() {
        if (s.deadlock || s.stepCapHit || s.inconclusive) return false;
        for (final SimThread t : s.threads) if (!t.finished && !t.background) return false;
        return true;
    }

    private void leftovers() {
        for (final SimThread t : s.threads) if (!t.finished && t.background) r.left.add("a thread that " + (t.wakeAt >= 0 ? "sleeps" : "waits for " + s.waitsFor(t)));
        for (final vs.rt.SimPool.Core p : s.pools) if (p.leftover() != null) r.left.add(p.leftover());
    }

    private String describeStuck() {
        final StringBuilder x = new StringBuilder(s.deadlock ? "deadlock" : s.stepCapHit ? "no progress within " + s.stepCap + " steps" : s.inconclusive ? "inconclusive: " + s.inconclusiveWhy : "unfinished");
        for (final SimThread t : s.threads) {
            if (!t.finished) x.append("; ").append(t).append(" op ").append(t.op).append(" waits for ").append(s.waitsFor(t));
        }
        return x.toString();
    }

    public Object obj(final int i) {
        if (objs[i] != null) return objs[i];
        final Case.Obj o = c.objs.get(i);
        final Object p = o.parser >= 0 ? obj(o.parser) : null;
        final Object n;
        switch (o.kind) {
            case "parser": n = b.parser(); break;
            case "cached": n = b.cached(o.size); break;
            case "unreliable": n = b.unreliable(p, new Unreliable(i)); break;
            case "bool": n = b.boolEval(p); break;
            case "arith": n = b.arithEval(p); break;
            default: throw new IllegalArgumentException(o.kind);
        }
        if (objs[i] == null) objs[i] = n;
        return objs[i];
    }

    private void client(final int ti, final List<Op> ops) {
        for (final Op o : ops) {
            if (s.inconclusive || s.stepCapHit) break;
            exec(ti, o, false);
        }
        try {
            // what a pooled thread would go on holding
            final Object m = LOCALS.get(Thread.currentThread());
            if (m != null) r.threadLocals.add(m);
        } catch (final IllegalAccessException e) { throw new IllegalStateException(e); }
    }

    private static final java.lang.reflect.Field LOCALS;
    static {
        try {
            LOCALS = Thread.class.getDeclaredField("threadLocals");
            LOCALS.setAccessible(true);
        } catch (final ReflectiveOperationException e) { throw new ExceptionInInitializerError(e); }
    }

    private void exec(final int ti, final Op o, final boolean nested) {
        final SimThread t = Hook.cur;
        final Rec q = new Rec();
        q.op = o;
        q.thread = ti;
        r.recs.put(o.uid, q);
        final int pOp = t.op, pAllocs = t.allocs, pEntries = t.entries, pLookups = t.lookups, pHandlers = t.handlers, pAF = t.allocFault, pEF = t.entryFault;
        final long pStep = t.step, pFA = t.faultAt;
        if (!nested) Hook.y(Hook.SITE_OP);
        q.startSeq = ++seq;
        t.op = o.uid;
        t.step = 0;
        t.allocs = 0;
        t.entries = 0;
        t.lookups = 0;
        t.handlers = 0;
        t.clockAt = 0;
        t.bulk = 0;
        t.injected = null;
        t.allocFault = -1;
        t.entryFault = -1;
        t.faultAt = Long.MAX_VALUE;
        arm(t, o.uid, 0);
        final int parses0 = s.parses;
        q.interruptedBefore = t.vt.isInterrupted();
        final Thread me = Thread.currentThread();
        final String name = me.getName();
        final ClassLoader ccl = me.getContextClassLoader();
        if (!nested) s.policy.opStart(s, t, o.uid);
        try {
            q.out = call(o, q);
        } catch (final Throwable e) {
            q.out = Outcome.thrown(e);
        } finally {
            q.steps = t.step;
            q.allocs = t.allocs;
            q.entries = t.entries;
            q.lookups = t.lookups;
            q.handlers = t.handlers;
            q.clockAt = t.clockAt;
            q.bulk = t.bulk;
            q.parses = s.parses - parses0;
            if (t.injected != null) {
                q.injected = t.injected;
                q.faultFired = true;
                r.fired.merge(t.injected instanceof OutOfMemoryError ? "oom" : "soe", 1, Integer::sum);
                t.injected = null;
            }
            q.interruptedAfter = Thread.currentThread().isInterrupted();
            if (!name.equals(me.getName())) { r.process.add("the calling thread was renamed"); me.setName(name); }
            if (me.getContextClassLoader() != ccl) { r.process.add("the calling thread's context class loader was replaced"); me.setContextClassLoader(ccl); }
            t.allocFault = -1;
            t.entryFault = -1;
            t.faultAt = Long.MAX_VALUE;
            if (!nested) s.policy.opEnd(s, t, o.uid);
        }
        if (!nested && !q.interruptedBefore && q.interruptedAfter) Thread.interrupted();
        if (s.stepCapHit || s.inconclusive) { q.out = Outcome.never(); return; }
        q.endSeq = ++seq;
        q.finished = true;
        if (q.out.cause != null && keepFailures) q.failure = failure(q.out.cause);
        t.op = pOp;
        t.step = pStep;
        t.allocs = pAllocs;
        t.entries = pEntries;
        t.lookups = pLookups;
        t.handlers = pHandlers;
        t.allocFault = pAF;
        t.entryFault = pEF;
        t.faultAt = pFA;
        if (s.settling && !s.policy.replaying()) t.nextAt = t.total + 1;
        if (!nested) Hook.y(Hook.SITE_OP);
    }

    /** The same call, or one that differs from the last in a value, over and over. */
    private Outcome repeat(final Op o, final Rec q) {
        final SimThread t = Hook.cur;
        final boolean same = Seq.same(o), set = ((Map<?, ?>) o.v).containsKey("set");
        final long from = t.total;
        final Op only = Seq.op(o, 0);
        Outcome first = null;
        int i = 0;
        for (; i < o.n && t.total - from < REPEAT_STEPS; i++) {
            if (set) {
                final String f = (String) ((Map<?, ?>) o.v).get("set");
                data[o.data].raw.put(f, Val.decode(((Map<?, ?>) Seq.data(c, o, i)).get(f), f, data[o.data].listener()));
            }
            q.reads.clear();
            final Outcome y = call(same ? only : Seq.op(o, i), q);
            if (s.stepCapHit || s.inconclusive) return y;
            if (same) {
                if (first == null) { first = y.bare(); q.samples.add(new Object[] {0, first}); }
                else if (!y.same(first)) { q.samples.add(new Object[] {i, y.bare()}); break; }
            } else if (Seq.looked(i, o.n)) q.samples.add(new Object[] {i, y.bare()});
        }
        q.reads.clear();
        if (set) {
            final String f = (String) ((Map<?, ?>) o.v).get("set");
            final Object was = ((Map<?, ?>) c.data.get(o.data)).get(f);
            if (was == null) data[o.data].raw.remove(f); else data[o.data].raw.put(f, Val.decode(was, f, data[o.data].listener()));
        }
        q.repeated = i;
        return Outcome.success("repeated", null);
    }

    public static final long REPEAT_STEPS = 6_000_000;

    private boolean keepFailures;

    /** Everything a caller can see of a failure. */
    public static String failure(final Throwable t) {
        final StringBuilder x = new StringBuilder();
        final java.util.Set<Throwable> seen = java.util.Collections.newSetFromMap(new java.util.IdentityHashMap<>());
        failure(t, x, seen, 0);
        return x.toString();
    }

    private static void failure(final Throwable t, final StringBuilder x, final java.util.Set<Throwable> seen, final int depth) {
        if (t == null || depth > 12 || !seen.add(t)) { x.append(t == null ? "" : " ..."); return; }
        final StackTraceElement[] st = t.getStackTrace();
        x.append(t.getClass().getName()).append(": ").append(Val.strip(t.getMessage())).append(" thrown at ").append(st.length == 0 ? "nowhere" : st[0]).append(" through ").append(st.length).append(' ').append(Integer.toHexString(java.util.Arrays.hashCode(st)));
        if (t.getCause() != null) { x.append(", caused by "); failure(t.getCause(), x, seen, depth + 1); }
        for (final Throwable s : t.getSuppressed()) { x.append(", suppressing "); failure(s, x, seen, depth + 1); }
    }

    private Outcome call(final Op o, final Rec q) {
        switch (o.k) {
            case "evalB": return b.evalB(obj(o.obj), o.x, o.data < 0 ? null : (Map<String, Object>) views[o.data], o.def, o.arity);
            case "evalA": return b.evalA(obj(o.obj), o.x, o.data < 0 ? null : (Map<String, Object>) views[o.data]);
            case "parse": return b.parse(obj(o.obj), o.x, o.def, o.arity);
            case "make": objs[o.obj] = null; obj(o.obj); return Outcome.success("made", null);
            case "drop":
                // the caller lets go of a parser and of everything built on it
                for (int i = objs.length - 1; i >= 0; i--) {
                    boolean on = i == o.obj;
                    for (int p = c.objs.get(i).parser; p >= 0; p = c.objs.get(p).parser) if (p == o.obj) on = true;
                    if (on && objs[i] != null) { r.dropped.add(objs[i]); objs[i] = null; }
                }
                return Outcome.success("dropped", null);
            case "reg":
                b.register(o.f, (String) o.v, this::consulted);
                event("reg", -1, o.f, o.v, o.uid);
                return Outcome.success("registered", null);
            case "put": {
                final Object v = Val.decode(o.v, o.f, new Data());
                data[o.data].raw.put(o.f, v);
                event("put", o.data, o.f, o.v, o.uid);
                return Outcome.success("put", null);
            }
            case "del":
                data[o.data].raw.remove(o.f);
                event("put", o.data, o.f, "absent", o.uid);
                return Outcome.success("del", null);
            case "edit":
                Edit.real(data[o.data], o, new Data());
                return Outcome.success("edited", null);
            case "spoil": {
                final Rec x = r.recs.get((int) o.n);
                if (x == null || !x.finished || x.thread != q.thread) return Outcome.success("nothing", null);
                if (x.out.kind == 'S') {
                    if (!x.op.k.equals("parse") || !c.objs.get(x.op.obj).kind.equals("parser") || x.out.raw == null) return Outcome.success("nothing", null);
                    Spoil.tree(x.out.raw, new vs.rt.Rng(o.uid * 31L + o.n));
                } else if (x.out.cause != null && x.injected == null) {
                    try { x.out.cause.addSuppressed(new IllegalStateException("the caller's own note")); } catch (final RuntimeException e) { /* it takes none */ }
                    try { x.out.cause.setStackTrace(new StackTraceElement[] {new StackTraceElement("the.Callers", "own", "Frame.java", 1)}); } catch (final RuntimeException e) { /* it takes none */ }
                }
                x.spoilt = true;
                r.fired.merge("spoil", 1, Integer::sum);
                return Outcome.success("spoilt", null);
            }
            case "repeat": return repeat(o, q);
            case "clock": clock(o.n, o.uid); return Outcome.success("clock", null);
            case "tz": tz(o.x, o.uid); return Outcome.success("tz", null);
            case "locale": locale(o.x, o.uid); return Outcome.success("locale", null);
            case "gc":
                // memory pressure: everything only weakly or softly reachable goes, including results no caller holds
                for (final Rec x : r.recs.values()) if (x.out.kind == 'S') x.out = x.out.bare();
                s.pins.clear();
                System.gc();
                r.fired.merge("gc", 1, Integer::sum);
                return Outcome.success("collected", null);
            case "sleep":
                try { Hook.sleep(o.n); } catch (final InterruptedException e) { return Outcome.success("interrupted", null); }
                return Outcome.success("slept", null);
            default: throw new IllegalArgumentException(o.k);
        }
    }

    private void event(final String kind, final int d, final String a, final Object v, final int uid) { r.events.add(new Ev(++seq, kind, d, a, v, uid)); }

    private void clock(final long ms, final int uid) { s.setNow(ms); event("clock", -1, null, ms, uid); }

    private void tz(final String z, final int uid) { TimeZone.setDefault(TimeZone.getTimeZone(z)); event("tz", -1, z, null, uid); }

    private void locale(final String l, final int uid) { Locale.setDefault(Locale.forLanguageTag(l)); event("locale", -1, l, null, uid); }

    // ---- faults -------------------------------------------------------------------------------------------------

    private void fire(final Fault f) {
        r.fired.merge(f.kind, 1, Integer::sum);
        final Rec q = r.recs.get(f.uid);
        if (q != null) q.faultFired = true;
    }

    private void arm(final SimThread t, final int uid, final long after) {
        final List<Fault> l = faults.get(uid);
        if (l == null) return;
        for (final Fault f : l) {
            switch (f.kind) {
                case "oom": t.allocFault = (int) f.at; break;
                case "soe": t.entryFault = (int) f.at; break;
                case "reject": s.rejectNext += (int) f.at; break;
                case "interrupt": case "clock": case "tz": case "locale":
                    if (f.at > after && f.at < t.faultAt) t.faultAt = f.at;
                    break;
                default:
            }
        }
    }

    private void stepFault(final SimThread t) {
        final List<Fault> l = faults.get(t.op);
        if (l == null) return;
        for (final Fault f : l) {
            if (f.at != t.step) continue;
            switch (f.kind) {
                case "interrupt": Thread.currentThread().interrupt(); r.recs.get(t.op).interruptInjected = true; fire(f); break;
                case "clock": clock(s.nowMs + f.n, t.op); fire(f); break;
                case "tz": tz(f.arg, t.op); fire(f); break;
                case "locale": locale(f.arg, t.op); fire(f); break;
                default:
            }
        }
        arm2(t, l);
    }

    private void arm2(final SimThread t, final List<Fault> l) {
        for (final Fault f : l) {
            if ((f.kind.equals("interrupt") || f.kind.equals("clock") || f.kind.equals("tz") || f.kind.equals("locale")) && f.at > t.step && f.at < t.faultAt) t.faultAt = f.at;
        }
    }

    public static Throwable error(final String kind) {
        switch (kind == null ? "" : kind) {
            case "illegal": return new IllegalStateException("injected: connection lost");
            case "unsupported": return new UnsupportedOperationException("injected: not supported");
            case "io": return new java.io.UncheckedIOException("injected: read failed", new IOException("injected: disk error"));
            case "timeout": return new RuntimeException("injected: timed out");
            case "npe": return new NullPointerException("injected: null");
            case "arith": return new ArithmeticException("injected: / by zero");
            case "nosuch": return new java.util.NoSuchElementException("injected: no row");
            case "conc": return new java.util.ConcurrentModificationException("injected: row changed");
            case "index": return new IndexOutOfBoundsException("injected: index");
            case "numfmt": return new NumberFormatException("injected: number");
            case "date": return new java.time.format.DateTimeParseException("injected: date", "x", 0);
            case "checked": return new IOException("injected: checked I/O error");
            case "sqlish": return new java.util.concurrent.CompletionException("injected: query failed", new java.util.concurrent.TimeoutException("injected: query timed out"));
            case "cast": return new ClassCastException("injected: not that type");
            case "security": return new SecurityException("injected: denied");
            case "assert": return new AssertionError("injected: assertion");
            case "oom": return new OutOfMemoryError("injected: source out of memory");
            case "soe": return new StackOverflowError("injected: source stack overflow");
            default: return new RuntimeException("injected: failure");
        }
    }

    @SuppressWarnings("unchecked")
    static <T extends Throwable> void sneaky(final Throwable t) throws T { throw (T) t; }

    private final class Data implements SimMap.Listener {
        private final java.util.IdentityHashMap<Fault, Long> thrown = new java.util.IdentityHashMap<>();

        @Override public void before(final Object m, final String path) {
            final SimThread t = Hook.cur;
            if (t == null || Hook.noYield != 0) return;
            t.lookups++;
            if (t.background) r.foreign.add("looked up " + path + " in the caller's data");
            final Rec q = r.recs.get(t.work());
            Hook.y(Hook.SITE_LOOKUP);
            final List<Fault> l = faults.get(t.work());
            if (l == null || q == null) return;
            for (final Fault f : l) {
                if (f.field != null ? !f.field.equals(path) : f.at != t.lookups) continue;
                switch (f.kind) {
                    case "throw":
                        // n: how often it fails before it works again
                        if (f.field != null && f.n > 0 && thrown.merge(f, 1L, Long::sum) > f.n) break;
                        fire(f);
                        q.injected = error(f.arg);
                        Engine.<RuntimeException>sneaky(q.injected);
                        break;
                    case "stall":
                        fire(f);
                        stall(t, q);
                        break;
                    case "pause":
                        fire(f);
                        try { Hook.sleep(f.n); } catch (final InterruptedException e) { Thread.currentThread().interrupt(); }
                        break;
                    case "reenter": {
                        if (r.recs.containsKey(f.op.uid)) break;
                        fire(f);
                        exec(q.thread, f.op, true);
                        break;
                    }
                    default:
                }
            }
        }

        @Override public void after(final Object m, final String path, final Object value) {
            final SimThread t = Hook.cur;
            if (t == null || Hook.noYield != 0) return;
            final Rec q = r.recs.get(t.work());
            if (q != null) q.reads.add(new Read(path, value));
            Hook.y(Hook.SITE_LOOKUP);
        }

        @Override public void mutated(final Object m, final String what) { r.mutations.add(what); }
    }

    /** A registered data type handler is asked something. */
    private void consulted(final String type) {
        final SimThread t = Hook.cur;
        if (t == null || Hook.noYield != 0) return;
        t.handlers++;
        if (t.background) r.foreign.add("consulted the handler registered for " + type);
        final Rec q = r.recs.get(t.work());
        Hook.y(Hook.SITE_LOOKUP);
        final List<Fault> l = faults.get(t.work());
        if (l == null || q == null) return;
        for (final Fault f : l) {
            if (!f.kind.startsWith("h") || f.at != t.handlers) continue;
            fire(f);
            switch (f.kind) {
                case "hthrow":
                    q.injected = error(f.arg);
                    Engine.<RuntimeException>sneaky(q.injected);
                    break;
                case "hstall": stall(t, q); break;
                case "hpause":
                    try { Hook.sleep(f.n); } catch (final InterruptedException e) { Thread.currentThread().interrupt(); }
                    break;
                case "hreenter":
                    if (!r.recs.containsKey(f.op.uid)) exec(q.thread, f.op, true);
                    break;
                default:
            }
        }
        Hook.y(Hook.SITE_LOOKUP);
    }

    private void stall(final SimThread t, final Rec q) {
        q.stalled = true;
        t.stalled = true;
        s.switchOut(t);
        t.stalled = false;
    }

    private final class Unreliable implements Bridge.UnreliableControl {
        private final int id;
        Unreliable(final int id) { this.id = id; }

        @Override public String rewrite(final String x) {
            final SimThread t = Hook.cur;
            final List<Fault> l = t == null ? null : faults.get(t.work());
            if (l != null) for (final Fault f : l) if (f.kind.equals("alt") && (f.at == 0 || f.at == r.recs.get(t.work()).parserCalls)) { fire(f); return f.arg; }
            return x;
        }

        @Override public Throwable before(final String x, final String def) {
            final SimThread t = Hook.cur;
            if (t == null) return null;
            final Rec q = r.recs.get(t.work());
            if (q != null) {
                q.parserCalls++;
                q.asked.add(new String[] {x, def, String.valueOf(id)});
            }
            Hook.y(Hook.SITE_LOOKUP);
            final List<Fault> l = faults.get(t.work());
            if (l == null) return null;
            for (final Fault f : l) {
                if (f.kind.equals("parser") && (f.at == 0 || f.at == q.parserCalls)) {
                    fire(f);
                    return q.parserError = error(f.arg);
                }
                if (f.kind.equals("pstall")) {
                    fire(f);
                    stall(t, q);
                }
            }
            return null;
        }
    }
}
