package vs.props;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import vs.core.Baseline;
import vs.core.Case;
import vs.core.Engine;
import vs.core.Fault;
import vs.core.Json;
import vs.core.Learned;
import vs.core.Op;
import vs.core.Seq;
import vs.core.Outcome;
import vs.inst.Instrumenter;
import vs.rt.Rng;

/** One property: how its cases are made and what is demanded of every run. */
public abstract class Prop {
    /** Objects, data, calls. */
    public abstract Case workload(Rng r);

    /** Faults and schedule for a workload. */
    public void schedule(final Case c, final Rng r) { policy(c, r); }

    /** Violations, each "category: text". */
    public abstract List<String> check(Case c, Engine.Result r);

    /** Runs per workload. */
    public int schedules() { return 12; }

    public boolean afterAlive() { return false; }

    // ---- schedules ----------------------------------------------------------------------------------------------

    static long total(final Case c) {
        long n = 0;
        for (final Op o : c.allOps()) n += o.k.equals("repeat") ? Engine.REPEAT_STEPS + 200_000 : Baseline.of(c, o).steps + 2;
        return Math.max(n, 50);
    }

    static void policy(final Case c, final Rng r) {
        final long n = total(c);
        c.params.put("stepCap", n * 60 + 400_000L);
        final String bg = r.pick("eager", "eager", "lazy", "random");
        final int k = r.below(100);
        final long seed = r.next() >>> 1;
        if (c.threads.size() < 2 && k < 60) {
            c.policy = Json.obj("type", "serial", "seed", seed, "bg", bg);
            return;
        }
        if (k < 48) {
            final List<Object> plans = new ArrayList<>();
            final int m = r.chance(0.7) ? 1 : r.range(2, 3);
            for (int i = 0; i < m; i++) {
                final Map<String, Object> p = plan(c, r);
                if (p != null) plans.add(p);
            }
            c.policy = Json.obj("type", "stall", "seed", seed, "bg", bg, "plans", plans);
        } else if (k < 70) {
            c.policy = Json.obj("type", "points", "seed", seed, "bg", bg, "k", (long) r.range(1, 10), "n", n);
        } else if (k < 92) {
            c.policy = Json.obj("type", "walk", "seed", seed, "bg", bg, "mean", (long) r.pick(2, 5, 15, 40, 150, 600, 3000));
        } else {
            c.policy = Json.obj("type", "serial", "seed", seed, "bg", bg);
        }
    }

    static Map<String, Object> plan(final Case c, final Rng r) {
        final List<Op> ops = c.allOps();
        if (ops.isEmpty()) return null;
        final Op o = ops.get(r.below(ops.size()));
        final String rel = r.pick("done", "done", "done", "ops", "ops", "site", "steps");
        int uid = o.uid, site, hit;
        final List<List<int[]>> met = c.threads.size() > 1 && r.chance(0.5) ? Learned.of(c) : List.of();
        if (c.threads.size() > 1 && !met.isEmpty() && !Learned.crossed.isEmpty() && r.chance(0.6)) {
            final int[] m = r.pick(Learned.crossed);
            uid = m[0];
            site = m[1];
            hit = m[2];
        } else if (!met.isEmpty()) {
            // most of the state that is shared and changes is the parser generator's
            final List<List<int[]>> own = new ArrayList<>();
            for (final List<int[]> l : Learned.later > 0 && r.chance(0.7) ? met.subList(0, Learned.later) : met) if (!foreign(Engine.loaders.inst.cls(l.get(0)[1]))) own.add(l);
            final int[] m = r.pick(r.pick(!own.isEmpty() && r.chance(0.7) ? own : met));
            uid = m[0];
            site = m[1];
            hit = m[2];
        } else {
            final int[] st = Baseline.of(c, o).sites;
            if (st.length == 0) return null;
            final int[] p = pickSite(st, r);
            final int hits = p[1];
            site = p[0];
            hit = hits == 1 || r.chance(0.55) ? 1 : r.range(1, hits);
        }
        return Json.obj("uid", (long) uid, "site", (long) site, "hit", (long) hit, "rel", rel, "k", rel.equals("steps") ? (long) r.pick(5, 40, 300, 3000) : (long) r.range(1, 3));
    }

    static boolean foreign(final String cls) { return generated(cls) || cls.startsWith("org/antlr") || cls.startsWith("org.antlr") || cls.contains("caffeine") || cls.equals("lib"); }

    static boolean generated(final String cls) { return cls.contains("BooleanExpressionParser") || cls.contains("BooleanExpressionLexer"); }

    static int[] pickSite(final int[] st, final Rng r) {
        final List<Instrumenter.Site> sites = Engine.loaders.inst.sites;
        if (r.chance(0.15)) {
            // inside a class initialiser
            final Map<String, List<Integer>> by = new LinkedHashMap<>();
            for (int i = 0; i < st.length; i += 2) {
                final Instrumenter.Site s = sites.get(st[i]);
                if (s.method.equals("<clinit>") && !foreign(s.cls)) by.computeIfAbsent(s.cls, k -> new ArrayList<>()).add(i);
            }
            if (!by.isEmpty()) {
                final int i = r.pick(r.pick(new ArrayList<>(by.values())));
                return new int[] {st[i], st[i + 1]};
            }
        }
        if (r.chance(0.75)) {
            final Map<String, List<Integer>> by = new LinkedHashMap<>();
            for (int i = 0; i < st.length; i += 2) {
                final String cls = sites.get(st[i]).cls;
                if (!generated(cls)) by.computeIfAbsent(cls, k -> new ArrayList<>()).add(i);
            }
            if (!by.isEmpty()) {
                final List<List<Integer>> l = new ArrayList<>(by.values());
                final int i = r.pick(r.pick(l));
                return new int[] {st[i], st[i + 1]};
            }
        }
        final int i = 2 * r.below(st.length / 2);
        return new int[] {st[i], st[i + 1]};
    }

    // ---- oracles ------------------------------------------------------------------------------------------------

    static String show(final Op o) {
        return o.k + (o.obj >= 0 ? "#" + o.obj : "") + (o.x == null && !o.call() ? "" : " " + Json.write(o.x)) + (o.def == null ? "" : " default " + Json.write(o.def)) + " (op " + o.uid + ")";
    }

    static boolean base(final Case c, final Engine.Result r, final List<String> v) {
        if (r.sched.inconclusive) return false;
        if (!r.complete || !r.postDone) v.add("stuck: " + r.stuck);
        return true;
    }

    static void alone(final Case c, final Engine.Rec q, final List<String> v) {
        final Baseline.Base b = Baseline.of(c, q.op);
        if (!b.ok || !q.finished) return;
        if (!q.out.same(b.out)) v.add("differs: " + show(q.op) + " answered " + q.out + " but alone it answers " + b.out);
    }

    /** What was asked over and over, too. */
    static void repeats(final Case c, final Engine.Result r, final List<String> v) { repeats(c, c, r, v); }

    /** A case that makes thousands of calls of one kind. */
    static boolean many(final Case c) {
        for (final Op o : c.allOps()) if (o.k.equals("repeat")) return true;
        return false;
    }

    static void serial(final Case c, final Rng r) {
        c.policy = Json.obj("type", "serial", "seed", r.next() >>> 1, "bg", r.pick("eager", "lazy", "random"));
        c.params.put("stepCap", total(c) * 2 + 400_000L);
    }

    static void repeats(final Case c, final Case u, final Engine.Result r, final List<String> v) {
        for (final Engine.Rec q : r.recs.values()) {
            if (!q.op.k.equals("repeat") || !q.finished) continue;
            for (final Object[] s : q.samples) {
                final int i = (Integer) s[0];
                final Op o = Seq.op(q.op, i);
                final Baseline.Base b = Baseline.of(u, o, Seq.data(c, q.op, i), null, null);
                if (b.ok && !((Outcome) s[1]).same(b.out)) v.add("differs: " + show(o) + ", call " + (i + 1) + " of its kind, answered " + s[1] + " but alone it answers " + b.out);
            }
        }
    }

    static void allAlone(final Case c, final Engine.Result r, final List<String> v) {
        for (final Engine.Rec q : r.recs.values()) if (q.op.call()) alone(c, q, v);
    }

    /** An aborted call: it may fail or throw with the injected error, or be unaffected. */
    static boolean aborted(final Engine.Rec q) {
        if (q.injected == null && q.parserError == null) return false;
        if (q.out.cause == null) return false;
        for (Throwable t = q.out.cause; t != null; t = t.getCause()) {
            if (t == q.injected || t == q.parserError) return true;
            for (final Throwable x : t.getSuppressed()) if (x == q.injected) return true;
        }
        return false;
    }

    static Case parsers(final Gen g, final Case c) {
        final Rng r = g.r;
        final int n = r.range(1, 2);
        for (int i = 0; i < n; i++) {
            final boolean cached = r.chance(0.6);
            c.obj(cached ? "cached" : "parser", cached ? r.pick(1, 2, 5, 100) : 0, -1, false);
        }
        return c;
    }

    static List<Integer> evaluators(final Gen g, final Case c, final int np) {
        final List<Integer> l = new ArrayList<>();
        for (int p = 0; p < np; p++) {
            if (g.r.chance(0.8)) l.add(c.obj("bool", 0, p, false));
            if (g.r.chance(0.6)) l.add(c.obj("arith", 0, p, false));
            if (g.r.chance(0.25) || l.isEmpty()) l.add(p);
        }
        return l;
    }

    static void mixedCalls(final Gen g, final Case c, final List<Integer> objs, final int threads, final int lo, final int hi) {
        final List<Op> pool = new ArrayList<>();
        for (int t = 0; t < threads; t++) {
            final int k = g.r.range(lo, hi);
            for (int i = 0; i < k; i++) {
                Op o;
                if (!pool.isEmpty() && g.r.chance(0.35)) {
                    o = g.r.pick(pool).copy();
                    if (o.data >= 0 && g.r.chance(0.5)) o.data = g.r.below(c.data.size());
                    if (g.r.chance(0.25)) o = through(g, c, o, g.r.pick(objs));
                } else {
                    o = g.call(c, g.r.pick(objs));
                    pool.add(o);
                }
                c.add(t, o.copy());
            }
        }
    }

    /** The same request made of another object. */
    static Op through(final Gen g, final Case c, final Op o, final int obj) {
        final String kind = c.objs.get(obj).kind;
        final Op p = new Op(kind.equals("bool") ? "evalB" : kind.equals("arith") ? "evalA" : "parse");
        p.obj = obj;
        p.x = o.x;
        p.def = p.k.equals("evalA") ? null : o.def;
        p.arity = p.k.equals("evalB") ? p.def == null ? g.r.range(2, 3) : 3 : p.k.equals("parse") ? p.def == null ? g.r.range(1, 2) : 2 : 3;
        p.data = p.k.equals("parse") ? -1 : o.data >= 0 ? o.data : g.r.below(c.data.size());
        return p;
    }

    static void executorFaults(final Case c, final Rng r) {
        if (r.chance(0.25)) {
            final List<Op> ops = c.allOps();
            c.faults.add(new Fault(r.pick(ops).uid, "reject", r.range(1, 4)));
        }
    }

    static Fault abort(final Case c, final Op o, final Rng r) {
        final Baseline.Base b = Baseline.of(c, o);
        final int k = r.below(10);
        if (k < 3 && b.allocs > 0) return new Fault(o.uid, "oom", r.range(1, b.allocs));
        if (k < 5 && b.entries > 0) return new Fault(o.uid, "soe", r.range(1, b.entries));
        if (k < 6 && b.steps > 0) return new Fault(o.uid, "interrupt", 1 + r.belowL(b.steps));
        if (b.lookups > 0) {
            final Fault f = new Fault(o.uid, "throw", r.range(1, b.lookups));
            f.arg = r.pick("illegal", "unsupported", "io", "timeout", "npe", "arith", "nosuch", "conc", "index", "checked", "sqlish", "security", "assert", "oom", "soe", "date", "numfmt");
            return f;
        }
        if (b.allocs > 0) return new Fault(o.uid, "oom", r.range(1, b.allocs));
        return null;
    }

    static boolean fatal(final Throwable t) { return t instanceof VirtualMachineError || t instanceof LinkageError; }

    static String outcomeClass(final Outcome o) { return o.kind == 'F' || o.kind == 'T' ? o.kind + ":" + o.text.substring(0, (o.text + ": ").indexOf(": ")) : o.kind + ":" + o.text; }

    static Map<Integer, List<Fault>> byUid(final Case c) {
        final Map<Integer, List<Fault>> m = new HashMap<>();
        for (final Fault f : c.faults) m.computeIfAbsent(f.uid, k -> new ArrayList<>()).add(f);
        return m;
    }
}
