package vs.props;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Objects;
import java.util.Set;
import vs.core.Baseline;
import vs.core.Case;
import vs.core.Edit;
import vs.core.Engine;
import vs.core.Fault;
import vs.core.Json;
import vs.core.Op;
import vs.core.Outcome;
import vs.core.Val;
import vs.rt.Hook;
import vs.rt.Rng;

public final class Props {
    private Props() { }

    public static Prop of(final String id) {
        switch (id) {
            case "C01": return new Isolation();
            case "C02": return new History();
            case "C03": return new CacheTransparent();
            case "C04": return new ParseOnce();
            case "C05": return new BoundedRetention();
            case "C06": return new ColdStart();
            case "C07": return new Containment();
            case "C08": return new SourceFaults();
            case "C09": return new SingleObservation();
            case "C10": return new ElapsedDays();
            case "C11": return new Handlers();
            case "C12": return new ReadOnly();
            case "C13": return new Progress();
            case "C14": return new Environment();
            case "C15": return new ParserFaults();
            case "C16": return new Instances();
            case "C17": return new OwnThread();
            case "C18": return new HandlerFaults();
            case "C27": return new OtherProcess();
            case "C28": return new Ageing();
            case "C29": return new CurrentData();
            case "C30": return new OwnResults();
            default: throw new IllegalArgumentException(id);
        }
    }

    static Case start(final Gen g, final int datas) {
        final Case c = new Case();
        for (int i = 0; i < datas; i++) c.data.add(g.data());
        if (g.r.chance(0.4)) c.params.put("namesakes", true);
        // thread ids far apart: equal in their lower bits, or modulo any small number
        if (g.r.chance(0.4)) c.params.put("threadStep", (long) g.r.pick(8, 64, 256, 11531520, 11531520));
        return c;
    }

    /** C01: concurrent calls do not influence each other. */
    static final class Isolation extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final boolean meet = r.chance(0.4);
            if (meet) g.meet();
            final Case c = start(g, r.range(1, 3));
            if (r.chance(0.12)) c.params.put("plain", (long) r.pick(1, 2, 3));
            final int np = parsers(g, c).objs.size();
            List<Integer> objs = evaluators(g, c, np);
            if (meet) {
                // calls that run the same code
                final String kind = r.pick("bool", "bool", "arith");
                final List<Integer> l = new ArrayList<>();
                for (final int i : objs) if (c.objs.get(i).kind.equals(kind)) l.add(i);
                if (l.isEmpty()) l.add(c.obj(kind, 0, 0, false));
                objs = l;
            }
            if (r.chance(0.08)) mixedCalls(g, c, objs, r.pick(6, 9, 17, 20), 1, 1);
            else mixedCalls(g, c, objs, r.range(2, 4), 1, 4);
            return c;
        }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (base(c, r, v)) allAlone(c, r, v);
            return v;
        }
    }

    /** C02: earlier calls do not influence later ones. */
    static final class History extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final boolean time = r.chance(0.25);
            g.clock = !time;
            final boolean campaign = r.chance(0.25);
            if (campaign) g.campaign();
            final Case c = start(g, campaign ? r.pick(8, 20, 40, 70) : r.range(1, 4));
            if (r.chance(0.12)) c.params.put("plain", (long) r.pick(1, 2, 3));
            final int np = parsers(g, c).objs.size();
            List<Integer> objs = evaluators(g, c, np);
            if (campaign && r.chance(0.75)) objs = List.of(c.obj("bool", 0, 0, false));
            if (campaign) {
                // much data, through many requests or through a few
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(2, 5); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                final boolean few = r.chance(0.5);
                for (int i = r.pick(40, 70, 120); i > 0; i--) {
                    final Op o = few ? r.pick(pool).copy() : g.call(c, r.pick(objs));
                    if (o.data >= 0) o.data = i % c.data.size();
                    c.add(0, o);
                }
                return c;
            }
            if (!time && r.chance(0.1)) {
                // thousands of calls of one kind between the others
                g.clock = false;
                c.params.remove("plain");
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(2, 4); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                for (final Op o : pool) if (r.chance(0.5)) c.add(0, o.copy());
                for (int i = r.range(1, 2); i > 0; i--) c.add(0, g.repeat(c, objs));
                for (int i = r.range(1, 3); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                for (final Op o : pool) c.add(0, o);
                return c;
            }
            if (r.chance(0.12)) {
                // a few calls over and over: counters, pools and tables fill up
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(1, 5); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                if (r.chance(0.35)) for (final Op o : pool) { o.x = g.bad(); if (!o.k.equals("evalA")) { o.def = null; o.arity = 3; if (o.k.equals("parse")) o.arity = 2; } }
                for (int i = r.chance(0.06) ? r.pick(600, 1100) : r.pick(40, 70, 140, 270); i > 0; i--) c.add(0, r.pick(pool).copy());
                for (int i = r.range(2, 6); i > 0; i--) c.add(0, g.call(c, r.pick(objs)));
                return c;
            }
            mixedCalls(g, c, objs, 1, 8, 26);
            if (time) pauses(c, r);
            return c;
        }

        @Override public int schedules() { return 2; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            c.params.put("stepCap", total(c) * 60 + 400_000L);
            final boolean many = many(c);
            if (many) serial(c, r);
            for (final Op o : c.allOps()) {
                if (!r.chance(0.15) || o.k.equals("repeat")) continue;
                final Fault f = abort(c, o, r);
                if (f != null) c.faults.add(f);
            }
            if (!many && r.chance(0.5)) {
                // repeat the history in another order
                final List<Op> l = c.threads.get(0);
                java.util.Collections.shuffle(l, new java.util.Random(r.next()));
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) if (q.op.call() && !aborted(q)) alone(c, q, v);
            repeats(c, r, v);
            return v;
        }
    }

    /** Simulated time passes between calls, and memory gets tight. */
    static void pauses(final Case c, final Rng r) {
        final boolean gc = r.chance(0.12);
        for (int i = r.range(1, 3); i > 0; i--) {
            final Op o = new Op(gc && i == 1 ? "gc" : "sleep");
            if (o.k.equals("sleep")) o.n = r.pick(1L, 1000L, 61_000L, 3_700_000L, 90_000_000L, 40L * 86_400_000);
            final List<Op> l = r.pick(c.threads);
            c.add(c.threads.indexOf(l), o);
            l.remove(l.size() - 1);
            l.add(r.below(l.size() + 1), o);
        }
    }

    static Case uncached(final Case c) {
        final Case u = c.copy();
        for (final Case.Obj o : u.objs) if (o.kind.equals("cached")) { o.kind = "parser"; o.size = 0; }
        return u;
    }

    /** C03: a cached parser answers what an uncached one would. */
    static final class CacheTransparent extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 2);
            final int n = r.chance(0.8) ? 1 : 2;
            for (int i = 0; i < n; i++) c.obj("cached", r.pick(0, 1, 2, 3, 8, 50, 1000), -1, false);
            final List<Integer> objs = new ArrayList<>();
            for (int i = 0; i < n; i++) objs.add(i);
            if (r.chance(0.5)) objs.add(c.obj("bool", 0, 0, false));
            final List<Op> pool = new ArrayList<>();
            for (int i = r.range(1, 2); i > 0; i--) {
                final List<String[]> fam = g.confusable();
                for (final String[] p : fam) {
                    final int ob = r.pick(objs);
                    final Op o = new Op(c.objs.get(ob).kind.equals("bool") ? "evalB" : "parse");
                    o.obj = ob;
                    o.x = p[0];
                    o.def = p[1];
                    o.arity = o.k.equals("evalB") ? 3 : o.def == null && r.chance(0.4) ? 1 : 2;
                    if (o.k.equals("evalB")) o.data = r.below(c.data.size());
                    pool.add(o);
                }
            }
            for (int i = r.below(4); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
            final int threads = r.range(1, 3);
            final int len = r.range(pool.size(), Math.min(40, pool.size() * 2));
            for (int i = 0; i < len; i++) c.add(i < threads ? i : r.below(threads), (i < pool.size() ? pool.get((i * 7 + 3) % pool.size()) : r.pick(pool)).copy());
            if (r.chance(0.2)) pauses(c, r);
            if (r.chance(0.05)) {
                final Op o = g.repeat(c, objs);
                final List<Op> l = c.threads.get(0);
                c.add(0, o);
                l.remove(l.size() - 1);
                l.add(r.below(l.size() + 1), o);
            }
            return c;
        }

        @Override public int schedules() { return 5; }

        @Override public void schedule(final Case c, final Rng r) {
            if (many(c)) {
                serial(c, r);
                executorFaults(c, r);
                return;
            }
            policy(c, r);
            executorFaults(c, r);
            if (r.chance(0.35)) {
                final Fault f = abort(c, r.pick(c.allOps()), r);
                if (f != null) c.faults.add(f);
            }
            for (final List<Op> t : c.threads) if (r.chance(0.5)) java.util.Collections.shuffle(t, new java.util.Random(r.next()));
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            final Case u = uncached(c);
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || aborted(q)) continue;
                final Baseline.Base b = Baseline.of(u, q.op);
                if (b.ok && q.finished && !q.out.same(b.out)) v.add("differs: " + show(q.op) + " answered " + q.out + " with the cache but " + b.out + " without");
            }
            repeats(c, u, r, v);
            return v;
        }
    }

    static String key(final Op o) { return o.obj + "\u0001" + o.x + "\u0001" + (o.def == null ? "\u0002" : o.def); }

    /** C04: within capacity an expression is parsed once. */
    static final class ParseOnce extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 1);
            if (r.chance(0.02)) {
                // a thousand requests, in capacity: twice
                final int n = r.pick(300, 600, 1000, 1000);
                c.obj("cached", r.pick(n, n + 1, n * 2, 5000), -1, false);
                final Op o = new Op("repeat");
                final int ob = r.chance(0.6) ? 0 : c.obj("bool", 0, 0, false);
                o.obj = ob;
                o.f = ob == 0 ? "parse" : "evalB";
                if (ob > 0) o.data = 0;
                o.x = r.pick("a > #", "a = #", "s = 'w#'", "a# = 1", "# TO 5000");
                if (o.x.startsWith("#")) o.x = "a 1 TO #";
                o.v = Json.obj("kind", "int", "def", r.chance(0.3) ? "b" : null);
                o.n = n;
                c.add(0, o);
                if (r.chance(0.4)) c.add(0, o.copy());
                c.addPost(o.copy());
                return c;
            }
            final boolean large = r.chance(0.06);
            final int distinct = large ? r.pick(40, 80, 140) : r.pick(1, 1, 2, 3, 5, 9, 16);
            c.obj("cached", large ? r.pick(distinct, distinct * 2, 500, 1000) : r.pick(distinct, distinct + 1, distinct * 2, 100), -1, false);
            final List<Integer> objs = new ArrayList<>();
            objs.add(0);
            if (r.chance(0.6)) objs.add(c.obj("bool", 0, 0, false));
            if (r.chance(0.3)) objs.add(c.obj("arith", 0, 0, false));
            final List<String[]> pool = new ArrayList<>();
            final boolean bads = r.chance(0.3);
            for (int i = 0; i < distinct; i++) {
                if (large) pool.add(new String[] {r.pick("a", "b", "s") + i + r.pick(" = 1", " > 2", "", " + 1"), r.chance(0.8) ? null : r.pick("a", "b")});
                else if (r.chance(0.03)) pool.add(new String[] {g.huge(), null});
                else pool.add(new String[] {bads && r.chance(0.3) ? r.chance(0.3) ? null : g.bad() : r.chance(0.15) ? g.defaulted() : r.chance(0.75) ? g.bool() : g.arith(), r.chance(0.7) ? null : r.pick("a", "s", "b")});
            }
            final int threads = large ? r.pick(1, 1, 2) : r.range(1, 4);
            for (int t = 0; t < threads; t++) {
                for (int i = large ? pool.size() : r.range(1, Math.max(3, 24 / threads)); i > 0; i--) {
                    final String[] p = large ? pool.get(i - 1) : r.pick(pool);
                    final int ob = r.pick(objs);
                    final String k = c.objs.get(ob).kind;
                    final Op o = new Op(k.equals("bool") ? "evalB" : k.equals("arith") && p[1] == null ? "evalA" : "parse");
                    o.obj = o.k.equals("parse") ? 0 : ob;
                    o.x = p[0];
                    o.def = p[1];
                    o.arity = p[1] != null ? (o.k.equals("evalB") ? 3 : 2) : o.k.equals("evalB") ? r.range(2, 3) : r.range(1, 2);
                    if (!o.k.equals("parse")) o.data = 0;
                    c.add(t, o);
                }
            }
            if (r.chance(0.35)) pauses(c, r);
            if (r.chance(0.06)) c.addPost(new Op("gc"));
            for (final String[] p : pool) {
                final Op o = new Op("parse");
                o.obj = 0;
                o.x = p[0];
                o.def = p[1];
                o.arity = 2;
                c.addPost(o);
            }
            return c;
        }

        @Override public void schedule(final Case c, final Rng r) {
            if (many(c)) {
                serial(c, r);
                if (r.chance(0.3)) executorFaults(c, r);
                return;
            }
            policy(c, r);
            executorFaults(c, r);
            if (r.chance(0.2)) {
                final Fault f = abort(c, r.pick(c.allOps()), r);
                if (f != null) c.faults.add(f);
            }
        }

        /** What the request costs the parser alone. */
        private Baseline.Base parse(final Case c, final Op o) {
            final Op p = new Op("parse");
            p.obj = 0;
            p.x = o.x;
            p.def = o.k.equals("evalA") ? null : o.def;
            p.arity = 2;
            p.uid = -2;
            return Baseline.of(c, p);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            if (many(c)) {
                int made = 0;
                for (final Engine.Rec q : r.recs.values()) {
                    if (!q.finished) return v;
                    final Baseline.Base b = parse(c, vs.core.Seq.op(q.op, 1));
                    if (b.out.kind != 'S' || q.repeated < q.op.n) return v;
                    if (q.parses > Math.max(0, q.repeated - made) * (long) b.parses) v.add("reparsed: " + q.parses + " parses for " + q.repeated + " distinct requests of which " + made + " were known, in a cache for " + c.objs.get(0).size + ": " + q.op.x);
                    made = Math.max(made, q.repeated);
                }
                return v;
            }
            long allowed = 0;
            final Map<String, Boolean> seen = new HashMap<>();
            final StringBuilder why = new StringBuilder();
            final Set<String> interrupted = new HashSet<>();
            int total = 0;
            for (final Engine.Rec q : r.recs.values()) {
                if (q.thread < 0 || !q.op.call()) continue;
                final Baseline.Base b = parse(c, q.op);
                final String k = (q.op.def == null || q.op.k.equals("evalA") ? "\u0002" : q.op.def) + "\u0001" + q.op.x;
                if (b.out.kind != 'S') { allowed += b.parses; continue; }
                if (q.injected != null) { allowed += b.parses; interrupted.add(k); }
                if (seen.put(k, true) == null) { allowed += b.parses; why.append(' ').append(Json.write(q.op.x)); }
            }
            if (r.parses > allowed) v.add("reparsed: " + r.parses + " parses for requests that need " + allowed + ":" + why);
            if (!r.postDone) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (q.thread >= 0 || !q.op.call()) continue;
                final Baseline.Base b = parse(c, q.op);
                final String k = (q.op.def == null ? "\u0002" : q.op.def) + "\u0001" + q.op.x;
                if (b.out.kind == 'S' && seen.containsKey(k) && !interrupted.contains(k) && q.parses > 0) v.add("forgotten: " + show(q.op) + " was parsed again although the cache is large enough");
            }
            return v;
        }
    }

    /** C05: what stays reachable is bounded by the configured capacity. */
    static final class BoundedRetention extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 0);
            final int max = r.pick(0, 1, 2, 3, 5, 8);
            c.obj("cached", max, -1, false);
            final List<Integer> ev = new ArrayList<>();
            ev.add(0);
            if (r.chance(0.7)) ev.add(c.obj("bool", 0, 0, false));
            if (r.chance(0.5)) ev.add(c.obj("arith", 0, 0, false));
            final int n = r.pick(12, 24, 45) + max * 2;
            final int threads = r.range(1, 3);
            final int pat = r.below(3);
            final double fails = r.chance(0.25) ? r.pick(0.1, 0.5, 1.0) : 0, broken = r.pick(0.0, 0.05, 0.3);
            for (int i = 0; i < n; i++) {
                final int ob = r.pick(ev);
                final String k = c.objs.get(ob).kind;
                final Op o = new Op(k.equals("bool") ? "evalB" : k.equals("arith") ? "evalA" : "parse");
                o.obj = ob;
                final String mk = "zq" + (1000 + i) + "z";
                switch (k.equals("arith") ? 3 : r.below(4)) {
                    case 0: o.x = mk + " = 'w" + mk + "'"; break;
                    case 1: o.x = mk + " > 5 AND (a = 1)"; break;
                    case 2: o.x = mk + " IN (1, 2)"; break;
                    default: o.x = k.equals("arith") ? mk + " + 1" : r.chance(0.4) ? mk + " >" : mk + " != 4"; break;
                }
                if (k.equals("arith") && r.chance(0.2)) o.x = mk + " +";
                // requests that fail: on parsing, or on evaluation
                if (r.chance(fails)) o.x = r.pick(mk + " = 1 AND", mk + " IN (a OR b)", "(" + mk + " > 2) AND", mk + " > 99999999999999999999");
                o.def = k.equals("arith") ? null : r.chance(0.2) ? mk + "d" : null;
                o.arity = o.k.equals("parse") ? 2 : 3;
                if (!o.k.equals("parse")) {
                    c.data.add(Json.obj(mk, r.chance(0.7) ? "i:5" : "s:v" + mk, "a", "i:1", "note", "s:dq" + (1000 + i) + "q"));
                    // evaluations that fail
                    if (r.chance(broken)) o.x = k.equals("arith") ? r.pick(mk + " + absent", "MIN(" + mk + ", note)", "absent + " + mk) : r.pick("absent = '" + mk + "'", mk + " = 5 AND (absent > 3)", mk + " + note > 1", mk + " != 4 AND (absent 1 TO 3)");
                    o.data = c.data.size() - 1;
                }
                final int t = i < threads ? i : r.below(threads);
                c.add(t, o);
                if (pat == 1 && r.chance(0.5)) {
                    // come back to an earlier one
                    final Op b = r.pick(c.threads.get(t)).copy();
                    c.add(t, b);
                }
            }
            final Set<String> keys = new LinkedHashSet<>();
            final List<Op> reads = new ArrayList<>();
            for (final Op o : c.allOps()) {
                final String kk = key2(o);
                if (!keys.add(kk)) continue;
                final Op p = new Op("parse");
                p.obj = 0;
                p.x = o.x;
                p.def = o.def;
                p.arity = 2;
                reads.add(p);
            }
            if (r.chance(0.5)) java.util.Collections.reverse(reads);
            // Caffeine trims in passes: a few more requests, each followed by its maintenance, bring it to rest
            c.params.put("settle", true);
            for (int i = 0; i < 4; i++) {
                final Op p = new Op("parse");
                p.obj = 0;
                p.x = "settle" + i + " = 1";
                p.arity = 2;
                c.addPost(p);
            }
            for (final Op p : reads) c.addPost(p);
            // and once more to rest
            for (int i = 0; i < 3; i++) {
                final Op p = reads.get(reads.size() - 1).copy();
                p.n = 1;
                c.addPost(p);
            }
            return c;
        }

        private static String key2(final Op o) { return o.x + "\u0001" + o.def; }

        @Override public int schedules() { return 3; }

        @Override public void schedule(final Case c, final Rng r) {
            final List<Op> ops = c.allOps();
            c.params.put("stepCap", 40_000_000L);
            final String bg = r.pick("eager", "lazy", "lazy", "random");
            c.policy = r.chance(0.4) ? Json.obj("type", "walk", "seed", r.next() >>> 1, "bg", bg, "mean", (long) r.pick(5, 50, 500)) : Json.obj("type", "serial", "seed", r.next() >>> 1, "bg", bg);
            if (r.chance(0.4)) c.faults.add(new Fault(r.pick(ops).uid, "reject", r.pick(1, 3, 10, 1000)));
            if (r.chance(0.3)) {
                final Op o = r.pick(ops);
                c.faults.add(new Fault(o.uid, r.chance(0.5) ? "oom" : "soe", r.range(1, 120)));
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v) || !r.postDone) return v;
            final int max = c.objs.get(0).size;
            int kept = 0;
            final StringBuilder which = new StringBuilder();
            for (final Engine.Rec q : r.recs.values()) {
                if (q.thread >= 0 || !q.op.x.contains("zq") || q.op.n == 1) continue;
                if (q.parses == 0) { kept++; which.append(' ').append(q.op.x); }
            }
            if (kept > max) v.add("retained: " + kept + " results answered from memory after the run, capacity is " + max + ":" + which);
            final Set<String> marks = Heap.marks(r);
            final List<String> values = new ArrayList<>();
            for (final String m : marks) if (m.startsWith("dq")) values.add(m);
            marks.removeAll(values);
            if (!values.isEmpty()) v.add("leak: what the caller's records hold is still reachable from the parser and evaluators: " + values);
            if (marks.size() > max) v.add("leak: " + marks.size() + " distinct requests are still reachable from the parser and evaluators, capacity is " + max + ": " + marks);
            return v;
        }
    }

    /** C06: building parsers and evaluators is safe at any time. */
    static final class ColdStart extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 2);
            final boolean warm = r.chance(0.6);
            final List<Integer> shared = new ArrayList<>();
            if (warm) {
                final int p = c.obj(r.chance(0.5) ? "cached" : "parser", r.pick(1, 10), -1, false);
                shared.add(c.obj("bool", 0, p, false));
                if (r.chance(0.5)) shared.add(c.obj("arith", 0, p, false));
                if (r.chance(0.4)) shared.add(p);
            }
            final int threads = r.range(2, 4);
            int makers = 0;
            for (int t = 0; t < threads; t++) {
                if (warm && t == 0 || warm && makers > 0 && r.chance(0.4)) {
                    for (int i = r.range(1, 4); i > 0; i--) c.add(t, g.call(c, r.pick(shared)));
                    continue;
                }
                makers++;
                final boolean cached = r.chance(0.5);
                final int p = c.obj(cached ? "cached" : "parser", cached ? r.pick(0, 1, 10, 100) : 0, -1, true);
                make(c, t, p);
                final List<Integer> mine = new ArrayList<>();
                mine.add(p);
                if (r.chance(0.35)) c.add(t, g.call(c, p));
                if (r.chance(0.8)) { final int e = c.obj("bool", 0, warm && r.chance(0.3) ? 0 : p, true); make(c, t, e); mine.add(e); }
                if (r.chance(0.6)) { final int e = c.obj("arith", 0, p, true); make(c, t, e); mine.add(e); }
                for (int i = r.range(1, 3); i > 0; i--) c.add(t, g.call(c, mine.get(mine.size() - 1 - r.below(Math.min(2, mine.size())))));
                if (r.chance(0.3)) { make(c, t, mine.get(mine.size() - 1)); c.add(t, g.call(c, mine.get(mine.size() - 1))); }
            }
            return c;
        }

        private static void make(final Case c, final int t, final int obj) {
            final Op o = new Op("make");
            o.obj = obj;
            c.add(t, o);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (q.op.call()) alone(c, q, v);
                else if (q.op.k.equals("make") && q.finished && q.out.kind != 'S') v.add("construction: " + show(q.op) + " " + q.out);
            }
            return v;
        }
    }

    static Op make(final int obj) {
        final Op o = new Op("make");
        o.obj = obj;
        return o;
    }

    /** C07: a call that dies leaves nothing broken behind. */
    static final class Containment extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, 2);
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            if (r.chance(0.15)) {
                // the same few calls fail again and again
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(1, 3); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                final int threads = r.range(1, 2);
                for (int i = r.pick(12, 40, 70, 140); i > 0; i--) c.add(r.below(threads), r.pick(pool).copy());
                for (int t = 0; t < threads; t++) if (c.threads.size() <= t || c.threads.get(t).isEmpty()) c.add(t, r.pick(pool).copy());
                c.params.put("aborts", r.pick(0.5, 0.9, 1.0).toString());
            } else mixedCalls(g, c, objs, r.range(1, 3), 1, 4);
            if (r.chance(0.25)) {
                // constructions that may fail half way, then are tried again
                for (int i = r.range(1, 2); i > 0; i--) {
                    final int n = r.chance(0.4) ? c.obj("cached", r.pick(1, 10), -1, true) : c.obj(r.pick("bool", "arith"), 0, r.below(np), true);
                    final int t = r.below(c.threads.size());
                    c.add(t, make(n));
                    c.addPost(make(n));
                    c.addPost(g.call(c, n));
                    if (r.chance(0.5)) c.add(t, g.call(c, n));
                }
            }
            final List<Op> ops = c.allOps();
            for (final Op o : ops) if (o.call() && c.post.size() < 8 && r.chance(0.6)) c.addPost(o.copy());
            for (final Integer i : objs) c.addPost(g.call(c, i));
            return c;
        }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
            final List<Op> ops = new ArrayList<>();
            for (final List<Op> t : c.threads) ops.addAll(t);
            if (c.params.containsKey("aborts")) {
                final double k = Double.parseDouble((String) c.params.get("aborts"));
                final Fault same = r.chance(0.6) ? abort(c, r.pick(ops), r) : null;
                for (final Op o : ops) {
                    if (!r.chance(k)) continue;
                    final Fault f = same != null ? same.copy() : abort(c, o, r);
                    if (f == null) continue;
                    f.uid = o.uid;
                    c.faults.add(f);
                }
                return;
            }
            for (int i = r.range(1, 3); i > 0; i--) {
                final Fault f = abort(c, r.pick(ops), r);
                if (f != null) c.faults.add(f);
            }
            for (final Op o : ops) {
                if (!o.k.equals("make") || !r.chance(0.7)) continue;
                final Fault f = abort(c, o, r);
                if (f != null) c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            final Case plain = c.copy();
            plain.faults.clear();
            for (final Engine.Rec q : r.recs.values()) {
                if (q.op.k.equals("make") && q.finished && q.injected == null && q.out.kind != 'S') v.add("construction: " + show(q.op) + " " + q.out);
                if (!q.op.call() || !q.finished || aborted(q)) continue;
                final Baseline.Base b = Baseline.of(plain, q.op);
                if (!b.ok || q.out.same(b.out)) continue;
                // the injected failure reached the call: it may not be turned into something else than a failure
                if (q.faultFired && q.injected != null && q.out.kind != 'S') continue;
                if (q.injected != null) {
                    final Baseline.Base f = Baseline.of(c, q.op);
                    if (f.ok && q.out.same(f.out)) continue;
                }
                v.add("differs: " + show(q.op) + (q.thread < 0 ? ", after the failures," : "") + " answered " + q.out + " but alone it answers " + b.out);
            }
            return v;
        }
    }

    // ---- independent model of AND / OR / NOT over leaves --------------------------------------------------------

    /** A formula over leaves, and what it must do given what each leaf does alone. */
    static final class F {
        final char k;
        final F l, r;
        final String leaf;
        F(final char k, final F l, final F r, final String leaf) { this.k = k; this.l = l; this.r = r; this.leaf = leaf; }

        String text(final Rng g) {
            switch (k) {
                case 'L': return "(" + leaf + ")";
                case '!': return "(" + g.pick("NOT", "not") + " " + l.text(g) + ")";
                default: return "(" + l.text(g) + " " + (k == '&' ? g.pick("AND", "and", "&&") : g.pick("OR", "or", "||")) + " " + r.text(g) + ")";
            }
        }

        Object json() { return k == 'L' ? (Object) leaf : k == '!' ? Arrays.asList("!", l.json()) : Arrays.asList(String.valueOf(k), l.json(), r.json()); }

        static F of(final Object o) {
            if (o instanceof String) return new F('L', null, null, (String) o);
            final List<?> x = (List<?>) o;
            final char k = ((String) x.get(0)).charAt(0);
            return new F(k, of(x.get(1)), k == '!' ? null : of(x.get(2)), null);
        }

        interface Eval { Outcome leaf(String x); }

        /** S:true S:false or the failure that ends the evaluation; reached collects the leaves that had to be evaluated. */
        Outcome eval(final Eval e, final Set<String> reached) {
            switch (k) {
                case 'L': reached.add(leaf); return e.leaf(leaf);
                case '!': {
                    final Outcome o = l.eval(e, reached);
                    return o.kind != 'S' ? o : Outcome.success(o.text.equals(T) ? FA : T, null);
                }
                default: {
                    final Outcome o = l.eval(e, reached);
                    if (o.kind != 'S' || o.text.equals(k == '&' ? FA : T)) return o;
                    return r.eval(e, reached);
                }
            }
        }
        static final String T = "Boolean:true", FA = "Boolean:false";

        static F random(final Rng r, final List<String> leaves, final int lo, final int hi) {
            if (hi - lo == 1) {
                final F f = new F('L', null, null, leaves.get(lo));
                return r.chance(0.2) ? new F('!', f, null, null) : f;
            }
            final int m = lo + 1 + r.below(hi - lo - 1);
            final F f = new F(r.chance(0.5) ? '&' : '|', random(r, leaves, lo, m), random(r, leaves, m, hi), null);
            return r.chance(0.15) ? new F('!', f, null, null) : f;
        }
    }

    /** C08: faults of the data source become the call's failure; branches not needed are not looked up. */
    static final class SourceFaults extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 0);
            final int p = c.obj(r.chance(0.5) ? "cached" : "parser", r.pick(1, 5, 50), -1, false);
            final int e = c.obj("bool", 0, p, false);
            final int ar = c.obj("arith", 0, p, false);
            final int threads = r.range(1, 3);
            final Map<String, Object> formulas = new LinkedHashMap<>();
            for (int t = 0; t < threads; t++) {
                for (int k = r.range(1, 2); k > 0; k--) {
                    if (r.chance(0.2)) {
                        c.data.add(g.data());
                        final Op o = new Op("evalA");
                        o.obj = ar;
                        o.x = g.arith();
                        o.data = c.data.size() - 1;
                        c.add(t, o);
                        continue;
                    }
                    final int n = r.range(1, 6);
                    final List<String> leaves = new ArrayList<>();
                    final Map<String, Object> d = new LinkedHashMap<>();
                    for (int i = 0; i < n; i++) leaves.add(leaf(r, g, i, d));
                    c.data.add(d);
                    String def = null;
                    if (r.chance(0.2)) {
                        // one condition is on the default field
                        final int i = r.below(n);
                        def = "f" + i + "x";
                        d.remove(def + "b");
                        d.put(def, "i:" + r.range(0, 9));
                        leaves.set(i, g.cmp() + " " + r.range(0, 9));
                    }
                    final F f = F.random(r, leaves, 0, n);
                    final Op o = new Op("evalB");
                    o.obj = e;
                    o.x = f.text(r);
                    o.data = c.data.size() - 1;
                    o.def = def;
                    o.arity = def != null ? 3 : r.range(2, 3);
                    c.add(t, o);
                    formulas.put(String.valueOf(o.uid), f.json());
                }
            }
            c.params.put("formulas", formulas);
            return c;
        }

        /** A condition over fields of its own. */
        private static String leaf(final Rng r, final Gen g, final int i, final Map<String, Object> d) {
            final String f = "f" + i + "x";
            switch (r.below(14)) {
                case 11: d.put(f, (r.chance(0.5) ? "D:" : "s:") + g.date()); return f + " " + g.cmp() + " " + g.date();
                case 12: d.put(f, (r.chance(0.5) ? "d:" : "f:") + g.dec()); return f + " " + g.cmp() + " " + g.dec();
                case 13: d.put(f, Arrays.asList("i:1", "i:" + r.range(2, 9), "i:4")); return r.pick("MAX", "SUM", "LEN", "AVG", "MEDIAN") + "(" + f + ") " + g.cmp() + " " + r.range(1, 9);
                case 0: case 1: if (!r.chance(0.08)) d.put(f, "i:" + r.range(0, 9)); return f + " " + g.cmp() + " " + r.range(0, 9);
                case 2: if (!r.chance(0.08)) d.put(f, "s:" + r.pick("x", "y", "z")); return f + " " + r.pick("=", "!=") + " '" + r.pick("x", "y") + "'";
                case 3: d.put(f, "i:" + r.range(0, 9)); return f + " " + r.range(0, 5) + " TO " + r.range(3, 9);
                case 4: d.put(f, "s:" + r.pick("x", "y", "z")); return f + " IN ('x', 'w')";
                case 5: d.put(f, Arrays.asList("s:x", "s:" + r.pick("y", "z"))); return f + " CONTAINS_ANY ('y', 'q')";
                case 6: d.put(f, Json.obj("k", "i:" + r.range(0, 9))); return f + ".k " + g.cmp() + " " + r.range(0, 9);
                case 7: if (r.chance(0.5)) d.put(f, "i:1"); return f + " " + r.pick("=", "!=") + " null";
                case 8: d.put(f, "i:" + r.range(0, 9)); d.put(f + "b", "i:" + r.range(0, 9)); return f + " " + g.cmp() + " (" + f + "b + 1)";
                case 9: d.put(f, "i:" + r.range(0, 9)); d.put(f + "b", "i:" + r.range(0, 9)); return f + " " + g.cmp() + " MIN (" + f + "b, 4)";
                default: d.put(f, "s:" + g.version()); return f + " " + g.cmp() + " " + g.version();
            }
        }

        @Override public int schedules() { return 6; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            for (final Op o : c.allOps()) {
                if (!r.chance(0.75)) continue;
                final Map<String, Object> d = (Map<String, Object>) c.data.get(o.data);
                final List<String> fields = new ArrayList<>(d.keySet());
                for (int k = r.range(1, 2); k > 0 && !fields.isEmpty(); k--) {
                    final Fault f = new Fault(o.uid, "throw", 0);
                    f.field = r.pick(fields);
                    if (d.get(f.field) instanceof List && r.chance(0.5)) f.field += "[]";
                    else if (d.get(f.field) instanceof Map && r.chance(0.5)) f.field += "." + ((Map<String, Object>) d.get(f.field)).keySet().iterator().next();
                    f.arg = r.pick("illegal", "unsupported", "io", "timeout", "npe", "arith", "nosuch", "conc", "index", "checked", "sqlish", "security", "assert", "numfmt", "date");
                    // a record that cannot take text keys says so with this one, and then has no such field: only asked of the data itself
                    if (f.field.indexOf('.') < 0 && !f.field.endsWith("[]") && r.chance(0.07)) f.arg = "cast";
                    // the JDK itself turns that one into another when it walks a list
                    if (f.field.endsWith("[]") && f.arg.equals("index")) f.arg = "illegal";
                    if (r.chance(0.5)) f.n = r.range(1, 2);
                    c.faults.add(f);
                }
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            final Map<String, Object> formulas = (Map<String, Object>) c.params.get("formulas");
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                if (q.injected != null) {
                    if (q.out.kind == 'S') { v.add("swallowed: " + show(q.op) + " answered " + q.out + " although its data source failed with " + q.injected); continue; }
                    if (q.out.kind == 'T') { v.add("escaped: " + show(q.op) + " threw " + q.out.text + " instead of returning a failure"); continue; }
                    if (!aborted(q)) { v.add("replaced: " + show(q.op) + " failed with " + q.out.text + " and not with what its data source reported, " + q.injected); continue; }
                }
                final Object fo = formulas.get(String.valueOf(q.op.uid));
                if (fo == null) {
                    if (q.injected == null) {
                        final Baseline.Base b = Baseline.of(c, q.op);
                        if (b.ok && !q.out.same(b.out)) v.add("differs: " + show(q.op) + " answered " + q.out + " but alone it answers " + b.out);
                    }
                    continue;
                }
                final F f = F.of(fo);
                final Set<String> reached = new LinkedHashSet<>();
                final Outcome want = f.eval(x -> leafAlone(c, q.op, x), reached);
                final boolean same = want.kind == q.out.kind && (want.kind == 'S' ? want.text.equals(q.out.text) : want.text.equals(q.out.text));
                if (!same) v.add("combination: " + show(q.op) + " answered " + q.out + " but its conditions alone, combined left to right, give " + want);
                final Set<String> may = new HashSet<>();
                for (final String x : reached) {
                    for (final String p : tokens(x)) may.add(p);
                    if (q.op.def != null && x.matches("^[<>=!].*")) may.add(q.op.def);
                }
                for (final Engine.Read rd : q.reads) {
                    final String root = rd.path.replace("[]", "").split("\\.")[0];
                    if (!root.equals("*") && !may.contains(root)) v.add("needless: " + show(q.op) + " looked up " + rd.path + " although the conditions before it had settled the answer");
                }
            }
            return v;
        }

        private static List<String> tokens(final String x) {
            final List<String> l = new ArrayList<>();
            for (final String p : x.split("[^A-Za-z0-9_.]+")) l.add(p.split("\\.").length > 0 ? p.split("\\.")[0] : p);
            return l;
        }

        private static Outcome leafAlone(final Case c, final Op o, final String x) {
            final Op p = o.copy();
            p.x = "(" + x + ")";
            return Baseline.of(c, p).out;
        }
    }

    /** C09: each field reference is judged on one value it held. */
    static final class SingleObservation extends Prop {
        private static final String[] KINDS = {"i:1", "i:5", "i:9", "i:50", "s:x", "s:y", "s:7", "d:2.50", "b:true", "b:false", "s:2024-01-05", "D:2024-02-01", "l:8589934592", "s:1.2.3"};

        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 0);
            final int p = c.obj(r.chance(0.5) ? "cached" : "parser", r.pick(1, 50), -1, false);
            final int e = c.obj("bool", 0, p, false), ar = c.obj("arith", 0, p, false);
            final Map<String, Object> d = new LinkedHashMap<>();
            final String[] fs = {"a", "b", "s", "nums", "u"};
            for (final String f : fs) if (r.chance(0.85)) d.put(f, value(r, f));
            c.data.add(d);
            final int readers = r.range(1, 2);
            // most of the time everybody is after the same field
            final String hot = r.chance(0.7) ? r.pick(fs) : null;
            for (int t = 0; t < readers; t++) {
                for (int i = r.range(1, 2); i > 0; i--) {
                    final Op o;
                    if (r.chance(0.25)) {
                        o = new Op("evalA");
                        o.obj = ar;
                        o.x = r.pick("a + b", "MAX(nums)", "-a", "a * 2", "LEN(nums)", "LEN(s)", "SUM(a, b, 3)", "INT(a)", "u.k + a", "AVG(nums)", "MEDIAN(nums)", "a % 3", "MODE(nums)");
                    } else {
                        o = new Op("evalB");
                        o.obj = e;
                        o.x = one(r);
                        for (int k = 0; k < 40 && hot != null && !(" " + o.x).matches(".*[^A-Za-z0-9_']" + hot + "\\b.*"); k++) o.x = one(r);
                        if (r.chance(0.3)) o.x = "(" + o.x + ") " + r.pick("AND", "OR") + " (" + r.pick("b > 3", "b = null", "b 2 TO 8") + ")";
                        o.arity = 2;
                    }
                    o.data = 0;
                    c.add(t, o);
                }
            }
            final int writers = r.range(1, 2);
            for (int t = 0; t < writers; t++) {
                for (int i = r.range(1, 4); i > 0; i--) {
                    final String f = hot != null && r.chance(0.85) ? hot : r.pick(fs);
                    final Op o = new Op(r.chance(0.25) ? "del" : "put");
                    o.data = 0;
                    o.f = f;
                    if (o.k.equals("put")) o.v = value(r, f);
                    c.add(readers + t, o);
                }
            }
            return c;
        }

        private static String one(final Rng r) {
            return r.pick("a 2 TO 7", "a 0 TO 20", "a > 3", "a = 5", "a != 5", "a <= 9", "a = null", "a != null", "s = 'x'", "s IN ('x', 'y', '7')", "a IN (1, 5, 50)", "a NOT IN (1, 9)",
                          "nums CONTAINS_ANY (1, 5)", "nums CONTAINS_ALL (1, 5)", "u.k > 3", "u.k 2 TO 7", "u.k = null", "a > (u.k + 1)", "a > MIN (u.k, 4)", "s > 2024-01-01", "s = 2024-01-05", "s < 1.5.10",
                          "LEN(nums) > 2", "u.k IN (1, 5)", "MAX(nums) > 4", "NOT (a 2 TO 7)", "s = null", "a 2.5 TO 7.5");
        }

        private static Object value(final Rng r, final String f) {
            if (f.equals("nums")) return r.chance(0.65) ? new ArrayList<>(Arrays.asList(r.pick("i:1", "i:3", "s:5"), "i:5", r.pick("i:9", "i:2", "d:4.5"))).subList(0, r.range(1, 3)) : r.pick(KINDS);
            if (f.equals("u")) return r.chance(0.85) ? Json.obj("k", r.pick(KINDS)) : r.pick("i:5", "s:x");
            return r.chance(0.08) ? (Object) Arrays.asList("i:1", "i:5") : r.pick(KINDS);
        }

        @Override public int schedules() { return 6; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            if (r.chance(0.6)) {
                // stop the reader right at a lookup
                final List<Op> ev = new ArrayList<>();
                for (final Op o : c.allOps()) if (o.eval()) ev.add(o);
                if (ev.isEmpty()) return;
                final Op o = r.pick(ev);
                final Baseline.Base b = Baseline.of(c, o);
                if (b.lookups > 0) c.policy = Json.obj("type", "stall", "seed", r.next() >>> 1, "bg", "eager",
                    "plans", Arrays.asList(Json.obj("uid", (long) o.uid, "site", (long) Hook.SITE_LOOKUP, "hit", (long) r.range(1, 2 * b.lookups), "rel", r.pick("done", "ops"), "k", (long) r.range(1, 3))));
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.eval() || !q.finished) continue;
                final Map<String, List<Object>> held = new LinkedHashMap<>();
                final Map<String, Object> d0 = (Map<String, Object>) c.data.get(0);
                final Map<String, Object> now = new LinkedHashMap<>(d0);
                boolean fit = true;
                for (final String f : new String[] {"a", "b", "s", "nums", "u"}) {
                    final int uses = (" " + q.op.x.replaceAll("'[^']*'", "''") + " ").split("(?<![A-Za-z0-9_.])" + f + "(?![A-Za-z0-9_])").length - 1;
                    if (uses > 1) fit = false;
                    final List<Object> l = new ArrayList<>();
                    l.add(now.containsKey(f) ? now.get(f) : "absent");
                    for (final Engine.Ev e : r.events) {
                        if (!e.kind.equals("put") || !e.a.equals(f)) continue;
                        if (e.seq < q.startSeq) { l.clear(); l.add(e.v); }
                        else if (e.seq < q.endSeq) l.add(e.v);
                    }
                    if (uses > 0) held.put(f, l);
                }
                if (!fit) continue;
                long n = 1;
                for (final List<Object> l : held.values()) n *= l.size();
                if (n > 40) continue;
                final Set<String> may = new LinkedHashSet<>();
                combos(c, q, new ArrayList<>(held.keySet()), 0, held, new LinkedHashMap<>(), may);
                if (!may.contains(q.out.toString())) v.add("torn: " + show(q.op) + " answered " + q.out + ", which no values its fields held during the call give; they give " + may);
            }
            return v;
        }

        private static void combos(final Case c, final Engine.Rec q, final List<String> fs, final int i, final Map<String, List<Object>> held, final Map<String, Object> d, final Set<String> out) {
            if (i == fs.size()) {
                out.add(Baseline.of(c, q.op, new LinkedHashMap<>(d), null, null).out.toString());
                return;
            }
            for (final Object x : held.get(fs.get(i))) {
                if ("absent".equals(x)) d.remove(fs.get(i)); else d.put(fs.get(i), x);
                combos(c, q, fs, i + 1, held, d, out);
            }
            d.remove(fs.get(i));
        }
    }

    static final String[] ZONES = {"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Australia/Lord_Howe", "Europe/Berlin", "America/Sao_Paulo", "Asia/Tokyo", "Pacific/Apia"};

    /** C10: elapsed days follow the clock. */
    static final class ElapsedDays extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, 1);
            c.now = Hook.BASE_MS + r.belowL(400L * 86400000) - 200L * 86400000;
            if (r.chance(0.5)) c.now = c.now / 86400000 * 86400000 + r.pick(-1L, 0L, 1L, 1000L, -1000L);
            c.tz = r.pick(ZONES);
            if (r.chance(0.25)) {
                // the last moment of a month or a year, where the caller is
                final java.time.LocalDate d = java.time.LocalDate.of(r.range(2024, 2027), r.chance(0.5) ? 12 : r.range(1, 12), 1).plusMonths(1);
                c.now = d.atStartOfDay(java.time.ZoneId.of(c.tz)).toInstant().toEpochMilli() - r.pick(1L, 1L, 1000L);
            }
            final int p = c.obj(r.chance(0.7) ? "cached" : "parser", r.pick(1, 50), -1, false);
            final int e = c.obj("bool", 0, p, false), ar = c.obj("arith", 0, p, false);
            final List<Op> pool = new ArrayList<>();
            for (int i = 0; i < 3; i++) {
                final String today = java.time.Instant.ofEpochMilli(c.now).atZone(java.time.ZoneId.of(c.tz)).toLocalDate().plusDays(r.range(-3, 3)).toString();
                ((Map<String, Object>) c.data.get(0)).put("e" + i, (r.chance(0.5) ? "D:" : "s:") + today);
                final String arg = r.pick("d", today, "e" + i, "e" + i, g.date(), "gone", "u.addr.since");
                final Op o = new Op(r.chance(0.5) ? "evalB" : "evalA");
                o.obj = o.k.equals("evalB") ? e : ar;
                final String fn = r.pick("DAYS_ELAPSED", "days_elapsed") + "(" + arg + ")";
                if (o.k.equals("evalA")) o.x = fn + r.pick("", "", " + 1", " * 2");
                else {
                    o.x = fn + " " + g.cmp() + " " + r.range(-4, 4);
                    if (r.chance(0.3)) o.x = "(" + o.x + ") " + r.pick("AND", "OR") + " (" + r.pick("a > 3", "s = 'x'", "flag = true") + ")";
                }
                o.arity = 2;
                o.data = 0;
                pool.add(o);
            }
            final int threads = r.range(1, 3);
            for (int t = 0; t < threads; t++) for (int i = r.range(1, 4); i > 0; i--) c.add(t, r.pick(pool).copy());
            final int env = r.range(1, 4);
            final int et = r.chance(0.5) ? threads : 0;
            long now = c.now;
            for (int i = 0; i < env; i++) {
                final Op o = new Op(r.chance(0.65) ? "clock" : "tz");
                if (o.k.equals("clock")) { now = jump(r, now); o.n = now; } else o.x = r.pick(ZONES);
                c.add(et, o);
                if (et == 0) c.add(0, r.pick(pool).copy());
            }
            return c;
        }

        private static long jump(final Rng r, final long now) {
            final long day = 86400000L;
            switch (r.below(6)) {
                case 0: return now + day;
                case 1: return (now / day + 1) * day + r.pick(-1L, 0L, 1L);
                case 2: return now + r.range(1, 48) * 3600000L;
                case 3: return now - r.range(1, 72) * 3600000L;
                case 4: return now + r.range(-40, 400) * day;
                default: return now + r.range(1, 59) * 60000L;
            }
        }

        @Override public int schedules() { return 6; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            if (r.chance(0.5)) {
                final List<Op> ev = new ArrayList<>();
                for (final Op o : c.allOps()) if (o.eval()) ev.add(o);
                if (ev.isEmpty()) return;
                final Op o = r.pick(ev);
                final Baseline.Base b = Baseline.of(c, o);
                long at = 1 + r.belowL(Math.max(1, b.steps));
                // just before or after the clock is looked at
                if (b.clockAt > 0 && r.chance(0.5)) at = b.clockAt + r.pick(0, 1, 1, 2, 3, 5);
                final Fault f = new Fault(o.uid, r.chance(0.7) ? "clock" : "tz", at);
                f.n = jump(r, c.now) - c.now;
                f.arg = r.pick(ZONES);
                c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.eval() || !q.finished) continue;
                // the instant and the zone may be looked at one after the other
                final Set<Long> times = new LinkedHashSet<>();
                final Set<String> zones = new LinkedHashSet<>();
                long now = c.now;
                String tz = c.tz;
                for (final Engine.Ev e : r.events) {
                    if (e.seq > q.endSeq) break;
                    if (e.seq > q.startSeq) { times.add(now); zones.add(tz); }
                    if (e.kind.equals("clock")) now = (Long) e.v;
                    else if (e.kind.equals("tz")) tz = e.a;
                }
                times.add(now);
                zones.add(tz);
                final Set<List<String>> envs = new LinkedHashSet<>();
                for (final long n : times) for (final String z : zones) envs.add(canon(z, n));
                final Set<String> may = new LinkedHashSet<>();
                for (final List<String> e : envs) may.add(Baseline.of(c, q.op, null, new String[] {e.get(0), c.locale, e.get(1)}, null).out.toString());
                if (!may.contains(q.out.toString())) v.add("stale: " + show(q.op) + " answered " + q.out + " but the dates it ran on give " + may);
            }
            return v;
        }

        /** The same calendar day, in UTC. */
        private static List<String> canon(final String tz, final long now) {
            final java.time.LocalDate d = java.time.Instant.ofEpochMilli(now).atZone(java.time.ZoneId.of(tz)).toLocalDate();
            return Arrays.asList("UTC", String.valueOf(d.toEpochDay() * 86400000L + 43200000L));
        }
    }

    /** C11: registered data type handlers stay in force. */
    static final class Handlers extends Prop {
        private static final String[] TYPES = {"STRING", "INTEGER", "LONG", "DECIMAL", "DATE", "DATETIME", "VERSION", "BOOLEAN"};

        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 2);
            final boolean early = r.chance(0.4);
            if (early) for (int i = r.range(1, 2); i > 0; i--) c.regs.put(r.pick(TYPES), "pre");
            final boolean warm = r.chance(0.6);
            final List<Integer> shared = new ArrayList<>();
            if (warm) {
                final int p = c.obj(r.chance(0.5) ? "cached" : "parser", 20, -1, false);
                shared.add(c.obj("bool", 0, p, false));
                if (r.chance(0.6)) shared.add(c.obj("arith", 0, p, false));
            }
            final int threads = r.range(1, 3);
            for (int t = 0; t < threads; t++) {
                List<Integer> mine = shared;
                for (int i = r.range(2, 5); i > 0; i--) {
                    if (t == 0 && r.chance(0.35)) {
                        final Op o = new Op("reg");
                        o.f = r.pick(TYPES);
                        o.v = "tag" + i;
                        c.add(t, o);
                    } else if (mine.isEmpty() || r.chance(0.35)) {
                        final int p = c.obj(r.chance(0.5) ? "cached" : "parser", 20, -1, true);
                        final int e = c.obj(r.chance(0.7) ? "bool" : "arith", 0, p, true);
                        final Op o = new Op("make");
                        o.obj = e;
                        c.add(t, o);
                        mine = new ArrayList<>(mine);
                        mine.add(e);
                    }
                    if (!mine.isEmpty()) c.add(t, sensitive(g, c, r.pick(mine)));
                }
            }
            if (r.chance(0.25)) {
                // memory gets tight: nobody but the library holds the registered handlers
                final int t = r.below(threads);
                final List<Op> l = c.threads.get(t);
                c.add(t, new Op("gc"));
                final Op o = l.remove(l.size() - 1);
                l.add(r.range(l.size() / 2, l.size()), o);
                if (!shared.isEmpty()) c.add(t, sensitive(g, c, r.pick(shared)));
            }
            return c;
        }

        /** Calls whose answer shows which handler is in force. */
        private static Op sensitive(final Gen g, final Case c, final int obj) {
            final Rng r = g.r;
            final Op o = g.call(c, obj);
            final Map<String, Object> d = (Map<String, Object>) c.data.get(o.data);
            d.putIfAbsent("up", "s:HeLLo");
            d.putIfAbsent("hex", "s:0x1F");
            d.putIfAbsent("odd", "l:8589934593");
            d.putIfAbsent("fine", "d:2.46");
            d.putIfAbsent("mid", "D:2024-03-15");
            d.putIfAbsent("mdt", "T:2024-03-15T13:00:00");
            if (o.k.equals("evalB") && r.chance(0.7)) o.x = r.pick("up = 'hello'", "up IN ('hello', 'x')", "odd = 8589934592", "odd > 8589934592", "fine = 2.5", "fine > 2.46", "mid = 2024-03-01", "mdt = 2024-03-15 00:00:00",
                "up != 'hello'", "fine 2.45 TO 2.47", "mid <= 2024-03-01", "odd IN (8589934592, 5)");
            else if (o.k.equals("evalA") && r.chance(0.6)) o.x = r.pick("fine + 0", "odd + 1", "MAX(fine, 1)", "SUM(odd, 1)", "MIN(fine, 9)");
            return o;
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                final Map<String, Object> regs = new LinkedHashMap<>(c.regs);
                boolean overlap = false;
                for (final Engine.Rec g : r.recs.values()) {
                    if (!g.op.k.equals("reg")) continue;
                    if (g.endSeq < q.startSeq) continue;
                    if (g.startSeq < q.endSeq) overlap = true;
                }
                if (overlap) continue;
                for (final Engine.Ev e : r.events) if (e.kind.equals("reg") && e.seq < q.startSeq) regs.put(e.a, e.v);
                final Baseline.Base b = Baseline.of(c, q.op, null, null, regs);
                if (b.ok && !q.out.same(b.out)) v.add("handler: " + show(q.op) + " answered " + q.out + " but with the handlers registered (" + regs + ") it answers " + b.out);
            }
            final Map<String, Object> last = new LinkedHashMap<>(c.regs);
            for (final Engine.Ev e : r.events) if (e.kind.equals("reg")) last.put(e.a, e.v);
            for (final Map.Entry<String, Object> e : last.entrySet()) {
                final String h = r.bridge.handler(e.getKey());
                if (!e.getValue().equals(h)) v.add("lost: the handler registered for " + e.getKey() + " is no longer in force at the end (" + h + ")");
            }
            return v;
        }
    }

    /** C12: evaluation changes nothing the caller owns. */
    static final class ReadOnly extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, r.range(1, 2));
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            for (int p = 0; p < np; p++) if (!objs.contains(p)) objs.add(p);
            mixedCalls(g, c, objs, r.range(1, 3), 2, 6);
            if (r.chance(0.4)) c.params.put("plain", (long) r.pick(1, 1, 2, 3, 4));
            return c;
        }

        @Override public int schedules() { return 6; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
            for (final Op o : c.allOps()) {
                if (!r.chance(0.3)) continue;
                Fault f = abort(c, o, r);
                if (r.chance(0.5)) f = new Fault(o.uid, "interrupt", 1 + r.belowL(Math.max(1, Baseline.of(c, o).steps)));
                if (f != null) c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v) || !r.complete) return v;
            for (int i = 0; i < r.data.length; i++) {
                final String was = Val.show(Val.decode(c.data.get(i), "", null)), is = Val.show(r.data[i]);
                if (!was.equals(is)) v.add("data: the caller's data was " + was + " and is " + is);
            }
            for (final String m : r.mutations) v.add("mutation: " + m + " on the caller's data");
            for (int i = 0; i < r.views.length; i++) {
                final String was = Val.show(Val.decode(c.data.get(i), "", null)), is = Val.show(r.views[i]);
                if (r.views[i] != r.data[i] && !was.equals(is) && r.mutations.isEmpty()) v.add("data: the caller's data was " + was + " and is " + is);
            }
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                if (q.out.kind == 'S' && q.out.raw != null) {
                    final String now = q.op.k.equals("parse") ? r.bridge.dump(q.out.raw) : Val.show(q.out.raw);
                    if (!now.equals(q.out.text)) v.add("unstable: " + show(q.op) + " returned " + q.out.text + " which has become " + now);
                }
                if (q.interruptInjected && !q.interruptedAfter) v.add("interrupt: " + show(q.op) + " was interrupted and came back with the interrupt forgotten");
                if (!q.interruptInjected && q.interruptedAfter != q.interruptedBefore) v.add("interrupt: " + show(q.op) + " changed the caller's interrupt status");
                if (q.op.k.equals("parse") && !aborted(q) || q.interruptInjected && q.injected == null) alone(c, q, v);
                if (q.failure != null) {
                    final String now = Engine.failure(q.out.cause);
                    if (!now.equals(q.failure)) v.add("unstable: " + show(q.op) + " failed with " + q.failure + " which has become " + now);
                }
            }
            if (!Objects.equals(r.endLocale, c.locale)) v.add("process: the default locale was changed to " + r.endLocale);
            if (!Objects.equals(r.endTz, c.tz)) v.add("process: the default time zone was changed to " + r.endTz);
            for (final String x : r.process) v.add("process: " + x);
            return v;
        }
    }

    /** C13: nobody waits for somebody else's slow data. */
    static final class Progress extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, 2);
            final boolean un = r.chance(0.3);
            int p = c.obj(r.chance(0.6) ? "cached" : "parser", r.pick(0, 1, 2, 50), -1, false);
            if (un) p = c.obj("unreliable", 0, p, false);
            final List<Integer> objs = new ArrayList<>();
            objs.add(c.obj("bool", 0, p, false));
            if (r.chance(0.6)) objs.add(c.obj("arith", 0, p, false));
            if (r.chance(0.3)) objs.add(c.obj("bool", 0, p, false));
            c.params.put("cpus", r.pick(1L, 2L, 4L));
            if (r.chance(0.06)) {
                // many callers at once
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(1, 3); i > 0; i--) {
                    final Op o = g.call(c, r.pick(objs));
                    o.x = o.k.equals("evalA") ? r.pick("a + b", "MIN(a, 3)", "nums") : r.pick("a > 3", "s = 'x'", "(a = 1) OR (b = 2)", "u.age > 18", "a > MIN (b, 4)");
                    pool.add(o);
                }
                final int n = r.pick(7, 10, 18, 34, 67);
                for (int t = 0; t < n; t++) c.add(t, r.pick(pool).copy());
                for (int i = r.range(1, 4); i > 0; i--) c.add(r.below(n), g.call(c, r.pick(objs)));
                c.params.put("crowd", true);
                return c;
            }
            mixedCalls(g, c, objs, r.range(2, 4), 1, 3);
            if (r.chance(0.3)) {
                final Op m = new Op("make");
                m.obj = c.obj("bool", 0, p, true);
                c.add(1, m);
            }
            return c;
        }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            final List<Op> ops = new ArrayList<>();
            for (final Op o : c.allOps()) if (o.eval()) ops.add(o);
            boolean un = false;
            for (final Case.Obj o : c.objs) if (o.kind.equals("unreliable")) un = true;
            if (c.params.containsKey("crowd")) {
                final int free = r.range(1, 3);
                for (int t = 0; t < c.threads.size() - free; t++) {
                    for (final Op o : c.threads.get(t)) {
                        final Baseline.Base b = Baseline.of(c, o);
                        if (b.lookups > 0 && o.eval()) { c.faults.add(un && r.chance(0.4) ? new Fault(o.uid, "pstall", 0) : new Fault(o.uid, "stall", r.range(1, b.lookups))); break; }
                    }
                }
                return;
            }
            for (int i = r.range(1, 3); i > 0; i--) {
                final Op o = r.pick(ops);
                final Baseline.Base b = Baseline.of(c, o);
                if (b.lookups == 0) continue;
                final int k = r.below(10);
                final Fault f;
                if (un && k < 3) f = new Fault(o.uid, "pstall", 0);
                else if (k < 6) f = new Fault(o.uid, "stall", r.range(1, b.lookups));
                else if (k < 8) { f = new Fault(o.uid, "pause", r.range(1, b.lookups)); f.n = r.range(1, 100000); }
                else {
                    f = new Fault(o.uid, "reenter", r.range(1, b.lookups));
                    f.op = c.nested(r.chance(0.4) ? o.copy() : r.pick(ops).copy());
                }
                c.faults.add(f);
            }
            executorFaults(c, r);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            if (!r.sched.blockedByStall.isEmpty()) v.add("blocked: while a caller was held up in its own data source, " + r.sched.blockedByStall.get(0));
            boolean pause = false;
            for (final Fault f : c.faults) if (f.kind.equals("pause")) pause = true;
            for (final Engine.Rec q : r.recs.values()) if (q.op.call() && !(pause && q.op.x != null && q.op.x.toUpperCase(java.util.Locale.ROOT).contains("DAYS"))) alone(c, q, v);
            return v;
        }
    }

    static final String[] LOCALES = {"tr-TR", "az-AZ", "lt-LT", "ar-EG", "ar-SA-u-nu-arab", "hi-IN-u-nu-deva", "th-TH-u-ca-buddhist-nu-thai", "ja-JP-u-ca-japanese", "de-DE", "fa-IR", "fr-FR", "en-US", "el-GR", "tr-CY"};

    /** C14: locale and time zone do not matter. */
    static final class Environment extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 2);
            c.locale = r.pick(LOCALES);
            c.tz = r.pick(ZONES);
            c.now = Hook.BASE_MS + r.belowL(3000L * 86400000) - 1500L * 86400000;
            if (r.chance(0.3)) {
                // the hours in which the clocks of the default zone are changed
                final String[] z = r.pick(Gen.CHANGES);
                c.tz = z[0];
                g.changeDay(z[1]);
                c.now = java.time.LocalDate.parse(z[1]).atStartOfDay(java.time.ZoneId.of(z[0])).toInstant().toEpochMilli() + r.range(-3, 6) * 1800_000L;
                for (int i = 0; i < c.data.size(); i++) c.data.set(i, g.data());
            }
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            mixedCalls(g, c, objs, r.range(1, 3), 1, 4);
            for (int i = r.below(3); i > 0; i--) {
                final Op o = new Op(r.chance(0.7) ? "locale" : r.chance(0.5) ? "tz" : "clock");
                o.x = o.k.equals("locale") ? r.pick(LOCALES) : o.k.equals("tz") ? r.pick(ZONES) : null;
                o.n = o.k.equals("clock") ? Hook.BASE_MS + r.range(-900, 900) * 86400000L : 0;
                c.add(c.threads.size() - (r.chance(0.5) ? 0 : 1), o);
            }
            return c;
        }

        @Override public int schedules() { return 2; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            if (r.chance(0.5)) {
                final Op o = r.pick(c.allOps());
                final Fault f = new Fault(o.uid, r.chance(0.8) ? "locale" : "tz", 1 + r.belowL(Math.max(1, Baseline.of(c, o).steps)));
                f.arg = f.kind.equals("tz") ? r.pick(ZONES) : r.pick(LOCALES);
                c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                final Baseline.Base b = Baseline.of(c, q.op, null, new String[] {"UTC", "en-US", String.valueOf(Hook.BASE_MS)}, null);
                if (b.ok && !outcomeClass(q.out).equals(outcomeClass(b.out))) v.add("environment: " + show(q.op) + " answered " + q.out + " but under the en-US locale and UTC it answers " + b.out);
            }
            return v;
        }
    }

    /** C15: the evaluator trusts exactly what the parser it was given answers. */
    static final class ParserFaults extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, 2);
            final int inner = c.obj(r.chance(0.5) ? "cached" : "parser", r.pick(0, 1, 50), -1, false);
            final int un = c.obj("unreliable", 0, inner, false);
            final List<Integer> objs = new ArrayList<>();
            objs.add(c.obj("bool", 0, un, false));
            objs.add(c.obj("arith", 0, un, false));
            if (r.chance(0.4)) {
                final int other = c.obj("unreliable", 0, r.chance(0.5) ? inner : c.obj("parser", 0, -1, false), false);
                objs.add(c.obj("bool", 0, other, false));
                if (r.chance(0.5)) objs.add(c.obj("arith", 0, other, false));
            }
            if (r.chance(0.3)) objs.add(c.obj("bool", 0, inner, false));
            mixedCalls(g, c, objs, r.range(1, 3), 2, 5);
            return c;
        }

        @Override public int schedules() { return 6; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            final Gen g = new Gen(r);
            for (final Op o : c.allOps()) {
                if (!o.call() || c.objs.get(o.obj).parser < 0 || !c.objs.get(c.objs.get(o.obj).parser).kind.equals("unreliable") || !r.chance(0.4)) continue;
                final Fault f = new Fault(o.uid, r.chance(0.5) ? "parser" : "alt", r.chance(0.5) ? 1 : 0);
                f.arg = f.kind.equals("parser") ? r.pick("illegal", "unsupported", "io", "timeout", "npe", "arith", "nosuch", "checked", "sqlish", "security", "assert", "numfmt") : o.k.equals("evalA") ? g.arith() : g.bool();
                c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                final boolean un = c.objs.get(q.op.obj).parser >= 0 && c.objs.get(c.objs.get(q.op.obj).parser).kind.equals("unreliable");
                if (un && q.parserCalls == 0) v.add("bypassed: " + show(q.op) + " was answered without asking the parser it was given");
                for (final String[] a : q.asked) {
                    if (!a[2].equals(String.valueOf(c.objs.get(q.op.obj).parser))) v.add("request: " + show(q.op) + " asked another evaluator's parser");
                    final String def = q.op.k.equals("evalB") && q.op.arity == 3 ? q.op.def : null;
                    if (!java.util.Objects.equals(a[0], q.op.x) || !java.util.Objects.equals(a[1], def)) v.add("request: " + show(q.op) + " asked its parser for " + Json.write(a[0]) + " with default " + Json.write(a[1]));
                }
                if (q.parserError != null) {
                    if (q.out.kind != 'F' || q.out.cause != q.parserError) v.add("parser failure: " + show(q.op) + " answered " + q.out + " although its parser failed with " + q.parserError);
                    if (!q.reads.isEmpty()) v.add("needless: " + show(q.op) + " looked up " + q.reads.get(0).path + " although its expression could not be parsed");
                } else alone(c, q, v);
            }
            return v;
        }
    }

    /** C16: parsers and evaluators do not share what they remember. */
    static final class Instances extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final Case c = start(g, 1);
            final int np = r.range(2, 3);
            final List<List<Integer>> ways = new ArrayList<>();
            final Set<Integer> late = new HashSet<>();
            for (int i = 0; i < np; i++) {
                final int size = r.pick(1, 2, 3, 6, 60, 60, 200);
                c.obj(i > 0 && r.chance(0.12) ? "parser" : "cached", size, -1, i > 0 && r.chance(0.3));
                if (c.objs.get(i).lazy) late.add(i);
            }
            for (int i = 0; i < np; i++) {
                final List<Integer> l = new ArrayList<>(List.of(i));
                if (r.chance(0.6)) l.add(c.obj("bool", 0, i, c.objs.get(i).lazy));
                if (r.chance(0.3)) l.add(c.obj("arith", 0, i, c.objs.get(i).lazy));
                ways.add(l);
            }
            final List<String> common = new ArrayList<>();
            for (int i = r.below(5); i > 0; i--) common.add("zq" + (9000 + i) + "z > " + r.range(1, 9));
            final int threads = r.range(1, 3);
            for (int t = 0; t < threads; t++) c.threads.add(new ArrayList<>());
            final List<List<Op>> asked = new ArrayList<>();
            for (int p = 0; p < np; p++) {
                final List<Op> pool = new ArrayList<>();
                for (int i = r.pick(2, 6, 14, 14, 20); i > 0; i--) {
                    final int ob = r.pick(ways.get(p));
                    final String k = c.objs.get(ob).kind, mk = "zq" + (1000 * (p + 1) + i) + "z";
                    final Op o = new Op(k.equals("bool") ? "evalB" : k.equals("arith") ? "evalA" : "parse");
                    o.obj = ob;
                    o.x = k.equals("arith") ? r.pick("a", "b") + " + LEN('" + mk + "')" : r.pick(mk + " = 'w'", "(" + mk + " > 5) AND (a = 1)", mk + " IN (1, 2)", "s = '" + mk + "'", mk + " 1 TO 4");
                    o.def = k.equals("arith") ? null : r.chance(0.15) ? mk + "d" : null;
                    o.arity = o.k.equals("parse") ? 2 : 3;
                    if (!o.k.equals("parse")) o.data = 0;
                    pool.add(o);
                }
                for (final String x : common) {
                    if (!r.chance(0.6)) continue;
                    final Op o = new Op("parse");
                    o.obj = p;
                    o.x = x;
                    o.arity = 2;
                    pool.add(o);
                }
                asked.add(pool);
            }
            final List<Op> all = new ArrayList<>();
            for (final List<Op> l : asked) for (final Op o : l) for (int i = r.pick(1, 1, 2); i > 0; i--) all.add(o);
            java.util.Collections.shuffle(all, new java.util.Random(r.next()));
            final Set<Integer> made = new HashSet<>();
            for (final Op o : all) {
                final int root = root(c, o.obj);
                // an object that comes late belongs to the thread that makes it
                final int t = late.contains(root) ? root % threads : r.below(threads);
                if (late.contains(root) && made.add(root)) c.add(t, make(root));
                c.add(t, o.copy());
            }
            if (r.chance(0.3)) pauses2(c, r);
            c.params.put("settle", true);
            for (int p = 0; p < np; p++) {
                if (!c.objs.get(p).kind.equals("cached")) continue;
                if (distinct(c, p) > c.objs.get(p).size) {
                    for (int i = 0; i < 4; i++) {
                        final Op o = new Op("parse");
                        o.obj = p;
                        o.x = "settle" + p + i + " = 1";
                        o.arity = 2;
                        c.addPost(o);
                    }
                }
                final Set<String> once = new HashSet<>();
                for (final Op o : asked.get(p)) {
                    if (!once.add(key(at(o, p)))) continue;
                    final Op q = new Op("parse");
                    q.obj = p;
                    q.x = o.x;
                    q.def = o.def;
                    q.arity = 2;
                    c.addPost(q);
                }
            }
            final Op drop = new Op("drop");
            drop.obj = r.below(np);
            c.addPost(drop);
            for (int i = r.range(1, 2); i > 0; i--) {
                final int p = r.below(np);
                if (p != drop.obj) { final Op o = r.pick(asked.get(p)).copy(); c.addPost(o); }
            }
            return c;
        }

        private static void pauses2(final Case c, final Rng r) {
            final Op o = new Op("sleep");
            o.n = r.pick(1L, 61_000L, 3_700_000L, 90_000_000L);
            final int t = r.below(c.threads.size());
            c.add(t, o);
            final List<Op> l = c.threads.get(t);
            l.remove(l.size() - 1);
            l.add(r.below(l.size() + 1), o);
        }

        private static Op at(final Op o, final int p) {
            final Op q = o.copy();
            q.obj = p;
            return q;
        }

        private static int root(final Case c, final int obj) {
            int i = obj;
            while (c.objs.get(i).parser >= 0) i = c.objs.get(i).parser;
            return i;
        }

        private static int distinct(final Case c, final int p) {
            final Set<String> s = new HashSet<>();
            for (final Op o : c.allOps()) if (o.call() && root(c, o.obj) == p) s.add(key(at(o, p)));
            return s.size();
        }

        @Override public int schedules() { return 4; }

        @Override public void schedule(final Case c, final Rng r) {
            c.params.put("stepCap", 40_000_000L);
            final String bg = r.pick("eager", "lazy", "random");
            final int k = r.below(10);
            if (k < 4) c.policy = Json.obj("type", "walk", "seed", r.next() >>> 1, "bg", bg, "mean", (long) r.pick(5, 50, 500, 3000));
            else if (k < 6 && c.threads.size() > 1) policy(c, r);
            else c.policy = Json.obj("type", "serial", "seed", r.next() >>> 1, "bg", bg);
            c.params.put("stepCap", 40_000_000L);
            executorFaults(c, r);
            if (r.chance(0.2)) {
                final Op o = r.pick(c.allOps());
                c.faults.add(new Fault(o.uid, r.chance(0.5) ? "oom" : "soe", r.range(1, 120)));
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v) || !r.postDone) return v;
            final Map<Integer, Set<String>> given = new HashMap<>();
            final Set<String> broken = new HashSet<>();
            final Map<Integer, Set<Integer>> marks = new HashMap<>();
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call()) {
                    if (q.op.k.equals("make") && q.finished && q.injected == null && q.out.kind != 'S') v.add("construction: " + show(q.op) + " " + q.out);
                    continue;
                }
                if (!aborted(q)) alone(c, q, v);
                final int p = root(c, q.op.obj);
                final String k = key(at(q.op, p));
                if (q.injected != null) broken.add(k);
                if (q.thread >= 0) given.computeIfAbsent(p, x -> new HashSet<>()).add(k);
            }
            for (int p = 0; p < c.objs.size() && c.objs.get(p).parser < 0; p++) {
                if (!c.objs.get(p).kind.equals("cached") || !given.containsKey(p)) continue;
                final int size = c.objs.get(p).size, n = given.get(p).size();
                int kept = 0, again = 0;
                String first = null;
                for (final Engine.Rec q : r.recs.values()) {
                    if (q.thread >= 0 || !q.op.k.equals("parse") || q.op.obj != p || q.op.x.startsWith("settle") || q.op.x == null) continue;
                    boolean dropped = false;
                    for (final Engine.Rec d : r.recs.values()) if (d.op.k.equals("drop") && d.startSeq < q.startSeq) dropped = true;
                    final String k = key(q.op);
                    if (dropped || q.out.kind != 'S' || !given.get(p).contains(k)) continue;
                    if (q.parses == 0) kept++;
                    else if (!broken.contains(k)) { again++; first = show(q.op); }
                }
                if (n <= size && again > 0) v.add("forgotten: a parser with room for " + size + " was asked " + n + " things and had to parse " + again + " of them again, such as " + first);
                if (n > size && kept > size) v.add("retained: " + kept + " results answered from memory by a parser whose capacity is " + size);
            }
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.k.equals("drop") || !q.finished) continue;
                final String pre = "zq" + (q.op.obj + 1);
                int n = 0;
                final Set<String> l = new LinkedHashSet<>();
                for (final String m : Heap.marks(r)) if (m.startsWith(pre)) { n++; l.add(m); }
                if (n > 5) v.add("leak: " + n + " requests of a parser nobody holds any more are still reachable: " + l);
            }
            return v;
        }
    }

    /** C17: a call needs no thread but its caller's and leaves none behind. */
    static final class OwnThread extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, r.range(1, 3));
            // handlers of the caller are called on its thread, too
            if (r.chance(0.35)) for (final String t : HandlerFaults.TYPES) if (r.chance(0.7)) c.regs.put(t, "tag" + r.range(1, 9));
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            c.params.put("cpus", r.pick(1L, 2L, 4L, 8L));
            if (r.chance(0.08)) {
                final List<Op> pool = new ArrayList<>();
                for (int i = r.range(2, 5); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                for (int i = r.pick(20, 70, 140); i > 0; i--) c.add(0, r.pick(pool).copy());
                return c;
            }
            if (r.chance(0.1)) {
                // only work that looks worth dividing
                for (final String t : HandlerFaults.TYPES) c.regs.put(t, "tag" + r.range(1, 9));
                for (int i = r.range(2, 5); i > 0; i--) {
                    final Op o = g.call(c, r.pick(objs));
                    o.x = o.k.equals("evalA") ? g.hugeArith() : g.huge();
                    c.add(c.threads.isEmpty() ? 0 : r.below(2), o);
                }
                return c;
            }
            mixedCalls(g, c, objs, r.range(1, 3), 2, 6);
            // large enough to look worth dividing
            for (final Op o : c.allOps()) if (o.x != null && o.call() && r.chance(0.05)) o.x = o.k.equals("evalA") ? g.hugeArith() : g.huge();
            if (r.chance(0.3)) {
                final int p = c.obj(r.pick("cached", "parser"), 10, -1, true), e = c.obj(r.pick("bool", "arith"), 0, r.chance(0.5) ? p : 0, true);
                c.add(0, make(p));
                c.add(0, make(e));
                c.add(0, g.call(c, e));
            }
            return c;
        }

        @Override public int schedules() { return 4; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            c.params.put("starve", r.chance(0.7));
            if (r.chance(0.3)) executorFaults(c, r);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            if (!r.sched.starved.isEmpty()) v.add("depends: with no other thread getting the processor, " + r.sched.starved.get(0));
            for (final String x : r.foreign) v.add("foreign: another thread than the caller's " + x);
            for (final String x : r.left) v.add("left: when the calls are over there is still " + x);
            allAlone(c, r, v);
            for (final Engine.Rec q : r.recs.values()) if (q.op.k.equals("make") && q.finished && q.out.kind != 'S') v.add("construction: " + show(q.op) + " " + q.out);
            return v;
        }
    }

    /** C27: no two processes disagree. */
    static final class OtherProcess extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, r.range(1, 2));
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            mixedCalls(g, c, objs, r.range(1, 2), 2, 6);
            return c;
        }

        @Override public int schedules() { return 5; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
            c.params.put("ids", r.next() >>> 8);
            c.params.put("nano", r.pick(0L, -5_000_000_000_000L, 1L << 61, Long.MAX_VALUE - 20_000L, (long) r.below(1 << 30)));
            c.params.put("threadBase", (long) r.pick(0, 1, 97, 4000));
            c.params.put("threadName", r.pick("sim-", "http-nio-8080-exec-", "", "ForkJoinPool.commonPool-worker-", "main"));
            c.params.put("cpus", r.pick(1L, 2L, 4L, 16L, 96L));
            c.params.put("heap", r.pick(16L << 20, 128L << 20, 1L << 30, 64L << 30));
            for (int i = 0; i < c.data.size(); i++) c.data.set(i, ordered(c.data.get(i), r));
        }

        /** The same maps with their entries in another order. */
        @SuppressWarnings("unchecked")
        private static Object ordered(final Object o, final Rng r) {
            if (!(o instanceof Map)) return o;
            final List<String> k = new ArrayList<>(new java.util.TreeSet<>(((Map<String, Object>) o).keySet()));
            if (r != null) java.util.Collections.shuffle(k, new java.util.Random(r.next()));
            final Map<String, Object> m = new LinkedHashMap<>();
            for (final String x : k) m.put(x, ordered(((Map<String, Object>) o).get(x), r));
            return m;
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished) continue;
                final Baseline.Base b = Baseline.of(c, q.op, q.op.data < 0 ? null : ordered(c.data.get(q.op.data), null), null, null);
                if (b.ok && !q.out.same(b.out)) v.add("process: " + show(q.op) + " answered " + q.out + " but in another process it answers " + b.out);
            }
            return v;
        }
    }

    /** C28: calls do not get slower as the process ages. */
    static final class Ageing extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            if (r.chance(0.3)) g.campaign();
            final Case c = start(g, r.range(1, 6));
            // no cache is small enough to lose what the probes need
            for (int i = r.range(1, 2); i > 0; i--) { if (r.chance(0.5)) c.obj("cached", 500, -1, false); else c.obj("parser", 0, -1, false); }
            final int np = c.objs.size();
            final List<Integer> objs = evaluators(g, c, np);
            final List<Op> probes = new ArrayList<>();
            for (int i = r.range(2, 4); i > 0; i--) probes.add(g.call(c, r.pick(objs)));
            for (int k = 0; k < 4; k++) for (final Op o : probes) c.add(0, o.copy());
            c.params.put("probes", (long) probes.size());
            final int threads = r.pick(1, 1, 2, 3);
            final int style = r.below(4);
            final List<Op> few = new ArrayList<>();
            for (int i = 0; i < 3; i++) few.add(g.call(c, r.pick(objs)));
            final int n = r.pick(40, 80, 150);
            for (int i = n; i > 0; i--) c.add(r.below(threads), life(g, c, style, few, objs, np));
            for (int k = 0; k < 5; k++) for (final Op o : probes) c.addPost(o.copy());
            for (int i = n; i > 0; i--) c.addPost(life(g, c, style, few, objs, np));
            for (int k = 0; k < 5; k++) for (final Op o : probes) c.addPost(o.copy());
            c.params.put("later", (long) n);
            if (r.chance(0.12)) {
                // thousands of calls, in both halves of the life
                g.clock = false;
                final Op o = g.repeat(c, objs);
                o.n = Math.max(o.n, 500);
                c.add(0, o);
                final Op p = o.copy();
                p.uid = c.post.get(5 * probes.size()).uid;
                c.post.set(5 * probes.size(), p);
            }
            return c;
        }

        /** Something that happens in a process as time goes by. */
        private static Op life(final Gen g, final Case c, final int style, final List<Op> few, final List<Integer> objs, final int np) {
            final Rng r = g.r;
            if (style == 1 && r.chance(0.6) || style != 1 && r.chance(0.08)) {
                // objects come and go, and so do handlers
                if (r.chance(0.2)) {
                    final Op o = new Op("reg");
                    o.f = r.pick("STRING", "DATE", "VERSION", "INTEGER");
                    o.v = "plain";
                    c.regs.put(o.f, "plain");
                    return o;
                }
                final Op o = new Op("make");
                o.obj = c.obj(r.pick("bool", "arith", "cached", "parser"), r.pick(0, 5), -1, true);
                final Case.Obj x = c.objs.get(o.obj);
                if (x.kind.equals("bool") || x.kind.equals("arith")) x.parser = r.below(np);
                return o;
            }
            return style == 2 ? r.pick(few).copy() : g.call(c, r.pick(objs));
        }

        @Override public int schedules() { return 1; }

        @Override public void schedule(final Case c, final Rng r) {
            c.policy = Json.obj("type", r.chance(0.7) ? "serial" : "walk", "seed", r.next() >>> 1, "bg", r.pick("eager", "random"), "mean", 300L);
            if (many(c)) c.params.put("stepCap", 60_000_000L);
            for (final Op o : c.allOps()) {
                if (!o.call() || !r.chance(0.12)) continue;
                final Fault f;
                switch (r.below(3)) {
                    case 0: f = new Fault(o.uid, "oom", r.range(1, 40)); break;
                    case 1: f = new Fault(o.uid, "soe", r.range(1, 60)); break;
                    default: f = new Fault(o.uid, "interrupt", r.range(1, 2000));
                }
                if (c.threads.get(0).indexOf(o) < 4 * (Long) c.params.get("probes") && c.threads.get(0).contains(o)) continue;
                c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v) || !r.complete) return v;
            final int n = ((Long) c.params.get("probes")).intValue(), gap = 5 * n + ((Long) c.params.get("later")).intValue();
            if (c.post.size() != gap + 5 * n) return v;
            for (int i = 0; i < n; i++) {
                final long young = cost(c.threads.get(0), r, i, n, 2, 4, true), mid = cost(c.post, r, i, n, 1, 5, false), old = cost(c.post, r, gap + i, n, 1, 5, false);
                if (young < 0 || mid < 0 || old < 0) return v;
                final Op o = c.post.get(i);
                final long first = Baseline.of(c, o).steps + Baseline.of(c, o).bulk;
                if (System.getenv("VS_AGE") != null) System.err.println("AGE " + first + " " + young + " " + mid + " " + old + " " + show(o));
                final int ops = r.recs.size() - 14 * n;
                if (old > first + first / 2 + 500) v.add("slower: " + show(o) + " takes " + first + " steps as the first call in a process and at least " + old + " after " + ops + " other operations");
                else if (mid > young + young / 50 + 30 && old > mid + mid / 50 + 30) v.add("slower: " + show(o) + " took " + young + " steps when the process was young, " + mid + " later and " + old + " after " + ops + " other operations");
            }
            return v;
        }

        private static long cost(final List<Op> l, final Engine.Result r, final int at, final int n, final int from, final int to, final boolean max) {
            long x = max ? 0 : Long.MAX_VALUE;
            for (int k = from; k < to; k++) {
                if (k * n + at >= l.size()) return -1;
                final Engine.Rec q = r.recs.get(l.get(k * n + at).uid);
                if (q == null || !q.finished) return -1;
                x = max ? Math.max(x, q.steps + q.bulk) : Math.min(x, q.steps + q.bulk);
            }
            return x;
        }
    }

    /** C29: a call sees the caller's data as it is now. */
    static final class CurrentData extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            final boolean time = r.chance(0.15);
            g.clock = !time;
            final Case c = start(g, 0);
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = new ArrayList<>();
            for (int p = 0; p < np; p++) {
                if (r.chance(0.85)) objs.add(c.obj("bool", 0, p, false));
                if (r.chance(0.6)) objs.add(c.obj("arith", 0, p, false));
            }
            if (objs.isEmpty()) objs.add(c.obj("bool", 0, 0, false));
            final int threads = r.pick(1, 1, 2, 3);
            final List<Op> shared = new ArrayList<>();
            if (r.chance(0.4)) for (int t = 0; t < threads; t++) c.data.add(g.data());
            for (int t = 0; t < threads; t++) {
                // records of this thread's own
                final List<Integer> mine = new ArrayList<>();
                final Map<Integer, Map<String, Object>> now = new HashMap<>();
                for (int i = r.pick(1, 1, 1, 2, 3); i > 0; i--) {
                    final int d = c.data.size();
                    c.data.add(r.chance(0.2) && d > 0 ? c.data.get(r.below(d)) : g.data());
                    mine.add(d);
                    now.put(d, (Map<String, Object>) c.data.get(d));
                }
                final List<Op> pool = new ArrayList<>();
                if (!shared.isEmpty() && r.chance(0.5)) pool.addAll(shared);
                for (int i = r.pick(1, 1, 2, 3, 4); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
                shared.addAll(pool);
                final int many = r.chance(0.1) ? r.range(20, 50) : r.range(3, 12);
                Op last = null;
                for (int i = 0; i < many; i++) {
                    final Op o = (last != null && r.chance(0.6) ? last : r.pick(pool)).copy();
                    if (r.chance(0.08)) o.x = g.call(c, o.obj).x;
                    final int d = r.pick(mine);
                    o.data = d;
                    c.add(t, o);
                    last = o;
                    for (int k = r.pick(0, 1, 1, 1, 1, 2, 3); k > 0; k--) {
                        final Op e = edit(g, c, r.chance(0.9) ? d : r.pick(mine), now, o);
                        if (e == null) continue;
                        c.add(t, e);
                        now.put(e.data, Edit.json(now.get(e.data), e));
                    }
                }
            }
            if (time) pauses(c, r);
            return c;
        }

        /** A change of a record, mostly of what the call last made reads. */
        @SuppressWarnings("unchecked")
        private static Op edit(final Gen g, final Case c, final int d, final Map<Integer, Map<String, Object>> now, final Op last) {
            final Rng r = g.r;
            final Op e = new Op("edit");
            e.data = d;
            e.n = r.chance(0.6) ? 1 : 0;
            final Map<String, Object> cur = now.get(d), other = r.chance(0.2) ? now.get(r.pick(new ArrayList<>(now.keySet()))) : g.data();
            if (r.chance(0.2)) {
                e.f = "";
                e.v = other;
                return e;
            }
            final Set<String> paths = new LinkedHashSet<>();
            if (r.chance(0.85)) {
                for (final String p : Baseline.of(c, last, cur, null, null).reads) {
                    final String q = p.replace("[]", "").replace(".*", "").replace("*", "");
                    if (!q.isEmpty()) paths.add(q);
                }
                for (final String p : new ArrayList<>(paths)) if (p.contains(".") && r.chance(0.3)) paths.add(p.substring(0, p.lastIndexOf('.')));
            }
            if (paths.isEmpty()) paths.addAll(other.keySet());
            if (paths.isEmpty()) return null;
            e.f = r.pick(new ArrayList<>(paths));
            e.v = Edit.at(other, e.f);
            final Object old = Edit.at(cur, e.f);
            if (old instanceof List && e.v instanceof List && !((List<?>) e.v).isEmpty() && r.chance(0.4)) {
                // one element more, fewer or other
                final List<Object> l = new ArrayList<>((List<Object>) old);
                final int from = !l.isEmpty() && String.valueOf(l.get(0)).startsWith("@") ? 1 : 0;
                final Object x = r.pick((List<Object>) e.v);
                if (l.size() > from && r.chance(0.7)) { if (String.valueOf(x).startsWith("@") || r.chance(0.2)) l.remove(l.size() - 1); else l.set(r.range(from, l.size() - 1), x); }
                else if (!String.valueOf(x).startsWith("@")) l.add(x);
                e.v = l;
                e.n = 1;
            } else if (r.chance(0.12)) e.v = "absent";
            else if (r.chance(0.1)) e.v = Edit.at(other, r.pick(new ArrayList<>(other.keySet())));
            else if ("absent".equals(e.v) && r.chance(0.6)) e.v = r.chance(0.6) ? g.num() : "s:" + g.word();
            return e;
        }

        @Override public int schedules() { return 3; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
            if (!r.chance(0.25)) return;
            for (final Op o : c.allOps()) {
                if (!o.call() || !r.chance(0.15)) continue;
                final Fault f = abort(c, o, r);
                if (f != null) c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            for (final List<Op> l : c.threads) {
                final Map<Integer, Map<String, Object>> now = new HashMap<>();
                for (final Op o : l) {
                    if (o.data >= 0) now.computeIfAbsent(o.data, d -> (Map<String, Object>) c.data.get(d));
                    if (o.k.equals("edit")) now.put(o.data, Edit.json(now.get(o.data), o));
                    final Engine.Rec q = r.recs.get(o.uid);
                    if (!o.call() || q == null || !q.finished || q.faultFired || aborted(q)) continue;
                    final Baseline.Base b = Baseline.of(c, o, o.data < 0 ? null : now.get(o.data), null, null);
                    if (b.ok && !q.out.same(b.out)) v.add("stale: " + show(o) + " answered " + q.out + " but on the data as they were then it answers " + b.out);
                }
            }
            return v;
        }
    }

    /** C30: what a call returns belongs to its caller. */
    static final class OwnResults extends Prop {
        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            if (r.chance(0.3)) g.campaign();
            final Case c = start(g, r.range(1, 3));
            for (int i = r.range(1, 2); i > 0; i--) c.obj("parser", 0, -1, false);
            if (r.chance(0.3)) c.obj("cached", r.pick(1, 5, 100), -1, false);
            final int np = c.objs.size();
            final List<Integer> objs = new ArrayList<>();
            for (int p = 0; p < np; p++) {
                objs.add(p);
                if (r.chance(0.6)) objs.add(c.obj("bool", 0, p, false));
                if (r.chance(0.4)) objs.add(c.obj("arith", 0, p, false));
            }
            final int threads = r.pick(1, 1, 2, 3);
            final List<Op> pool = new ArrayList<>();
            for (int i = r.range(1, 4); i > 0; i--) pool.add(g.call(c, r.pick(objs)));
            for (int t = 0; t < threads; t++) {
                final List<Op> had = new ArrayList<>();
                for (int i = r.range(3, 10); i > 0; i--) {
                    Op o = r.chance(0.75) ? r.pick(pool).copy() : g.call(c, r.pick(objs));
                    if (r.chance(0.5)) o = through(g, c, o, r.pick(objs));
                    if (r.chance(0.12)) { o.x = r.chance(0.6) ? r.pick("a >", "AND", "(a = 1") : g.bad(); }
                    if (o.data >= 0) o.data = r.below(c.data.size());
                    if (r.chance(0.2)) pool.add(o.copy());
                    c.add(t, o);
                    had.add(o);
                    for (int k = r.pick(0, 1, 1, 2); k > 0; k--) {
                        final Op s = new Op("spoil");
                        s.n = (r.chance(0.7) ? o : r.pick(had)).uid;
                        c.add(t, s);
                    }
                }
            }
            return c;
        }

        @Override public int schedules() { return 3; }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            executorFaults(c, r);
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            allAlone(c, r, v);
            for (final Engine.Rec q : r.recs.values()) {
                if (!q.op.call() || !q.finished || q.failure == null) continue;
                if (q.failure.contains("the caller's own note") || q.failure.contains("the.Callers")) v.add("failure: " + show(q.op) + " returned a failure that another caller had before and has written on: " + q.failure);
            }
            return v;
        }
    }

    /** C18: a registered handler that fails, is slow or calls back affects the call it serves and no other. */
    static final class HandlerFaults extends Prop {
        private static final String[] TYPES = {"STRING", "INTEGER", "LONG", "DECIMAL", "VERSION", "BOOLEAN", "DATE", "DATETIME"};

        @Override public Case workload(final Rng r) {
            final Gen g = new Gen(r);
            g.clock = true;
            final Case c = start(g, r.range(1, 2));
            for (final String t : TYPES) if (r.chance(0.7)) c.regs.put(t, "tag" + r.range(1, 9));
            final int np = parsers(g, c).objs.size();
            final List<Integer> objs = new ArrayList<>();
            for (int p = 0; p < np; p++) {
                objs.add(c.obj("bool", 0, p, false));
                if (r.chance(0.6)) objs.add(c.obj("arith", 0, p, false));
            }
            mixedCalls(g, c, objs, r.range(1, 3), 1, 4);
            if (r.chance(0.3)) {
                final int e = c.obj(r.pick("bool", "arith"), 0, 0, true);
                final int t = r.below(c.threads.size());
                c.add(t, make(e));
                c.add(t, g.call(c, e));
            }
            if (r.chance(0.2) && !c.regs.isEmpty()) {
                // registered once more, with what it does already
                final Op o = new Op("reg");
                o.f = r.pick(new ArrayList<>(c.regs.keySet()));
                o.v = c.regs.get(o.f);
                final int t = r.below(c.threads.size() + 1);
                c.add(t, o);
                if (t > 0 && r.chance(0.5)) {
                    final int e = c.obj(r.pick("bool", "arith"), 0, 0, true);
                    c.add(0, make(e));
                    c.add(0, g.call(c, e));
                }
            }
            for (final Op o : c.allOps()) if (o.call() && c.post.size() < 5 && r.chance(0.4)) c.addPost(o.copy());
            return c;
        }

        @Override public void schedule(final Case c, final Rng r) {
            policy(c, r);
            final List<Op> ops = new ArrayList<>();
            for (final Op o : c.allOps()) if (o.call() && Baseline.of(c, o).handlers > 0) ops.add(o);
            // a handler that is asked while objects are made or handlers registered takes its time there, too
            for (final Op o : c.allOps()) if ((o.k.equals("make") || o.k.equals("reg")) && r.chance(0.5)) c.faults.add(new Fault(o.uid, r.pick("hstall", "hpause"), r.range(1, 2)));
            if (ops.isEmpty()) return;
            for (int i = r.range(1, 4); i > 0; i--) {
                final Op o = r.pick(ops);
                final Fault f = new Fault(o.uid, r.pick("hthrow", "hthrow", "hstall", "hstall", "hpause", "hreenter", "hreenter"), r.range(1, Baseline.of(c, o).handlers));
                if (f.kind.equals("hthrow")) f.arg = r.pick("illegal", "unsupported", "io", "timeout", "npe", "arith", "nosuch", "conc", "index", "checked", "security", "assert", "date", "numfmt");
                if (f.kind.equals("hpause")) f.n = r.range(1, 100_000);
                if (f.kind.equals("hreenter")) {
                    final int k = r.below(10);
                    Op n = k < 3 ? o.copy() : r.pick(ops).copy();
                    if (k == 8) n = make(c.obj("bool", 0, 0, true));
                    if (k == 9 && !c.regs.isEmpty()) {
                        n = new Op("reg");
                        n.f = r.pick(new ArrayList<>(c.regs.keySet()));
                        n.v = "again";
                    }
                    f.op = c.nested(n);
                }
                c.faults.add(f);
            }
        }

        @Override public List<String> check(final Case c, final Engine.Result r) {
            final List<String> v = new ArrayList<>();
            if (!base(c, r, v)) return v;
            if (!r.sched.blockedByStall.isEmpty()) v.add("blocked: while a caller was held up in a registered handler, " + r.sched.blockedByStall.get(0));
            boolean pause = false;
            for (final Fault f : c.faults) if (f.kind.equals("hpause")) pause = true;
            for (final Engine.Rec q : r.recs.values()) {
                if (q.op.k.equals("make") && q.finished && q.out.kind != 'S') v.add("construction: " + show(q.op) + " " + q.out);
                if (!q.op.call() || !q.finished) continue;
                if (q.injected != null) {
                    if (q.out.kind == 'S') v.add("swallowed: " + show(q.op) + " answered " + q.out + " although a handler it consulted failed with " + q.injected);
                    else if (q.out.kind == 'T') v.add("escaped: " + show(q.op) + " threw " + q.out.text + " instead of returning a failure");
                    else if (!aborted(q)) v.add("replaced: " + show(q.op) + " failed with " + q.out.text + " and not with what the handler reported, " + q.injected);
                }
                if (!(pause && q.op.x != null && q.op.x.toUpperCase(java.util.Locale.ROOT).contains("DAYS"))) alone(c, q, v);
            }
            return v;
        }
    }
}
