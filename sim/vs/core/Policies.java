package vs.core;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import vs.rt.Rng;
import vs.rt.Sched;
import vs.rt.SimThread;

/** Who runs next. Every policy is a function of its JSON description (and its seed) only. */
public final class Policies {
    private Policies() { }

    @SuppressWarnings("unchecked")
    public static Sched.Policy make(final Map<String, Object> m) {
        switch ((String) m.get("type")) {
            case "serial": return new Serial(m);
            case "points": return new Points(m);
            case "walk": return new Walk(m);
            case "stall": return new Stall(m);
            case "trace": return new Trace((List<List<Long>>) m.get("segs"));
            default: throw new IllegalArgumentException(String.valueOf(m));
        }
    }

    abstract static class Base implements Sched.Policy {
        final Rng rng;
        /** eager: background work runs as soon as it is submitted; lazy: only when nothing else can; random. */
        final String bg;
        /** run threads to completion of an op before choosing again. */
        boolean boundary = true;

        Base(final Map<String, Object> m) {
            rng = new Rng((Long) m.getOrDefault("seed", 1L));
            bg = (String) m.getOrDefault("bg", "eager");
        }

        @Override public SimThread pick(final Sched s, final List<SimThread> runnable, final SimThread last) {
            List<SimThread> l = free(runnable);
            if (l.isEmpty()) { releaseAll(s, runnable); l = runnable; }
            final List<SimThread> fg = new ArrayList<>(), bgs = new ArrayList<>();
            for (final SimThread t : l) (t.background ? bgs : fg).add(t);
            if (!bgs.isEmpty() && !fg.isEmpty()) {
                if (bg.equals("eager")) l = bgs;
                else if (bg.equals("lazy")) l = fg;
            }
            if (last != null && l.contains(last) && !leaving(last)) return last;
            if (l.size() > 1 && last != null) {
                final List<SimThread> o = new ArrayList<>(l);
                o.remove(last);
                l = o;
            }
            return l.get(rng.below(l.size()));
        }

        SimThread left;

        boolean leaving(final SimThread t) { final boolean x = left == t; left = null; return x; }

        List<SimThread> free(final List<SimThread> runnable) {
            final List<SimThread> l = new ArrayList<>();
            for (final SimThread t : runnable) if (!t.held) l.add(t);
            return l;
        }

        void releaseAll(final Sched s, final List<SimThread> runnable) {
            for (final SimThread t : runnable) t.held = false;
        }

        @Override public boolean atPoint(final Sched s, final SimThread t, final int site) {
            t.nextAt = next(s, t);
            left = t;
            return true;
        }

        long next(final Sched s, final SimThread t) { return Long.MAX_VALUE; }

        @Override public void spawned(final Sched s, final SimThread by, final SimThread t) {
            t.nextAt = next(s, t);
            if (t.background && by != null) {
                if (bg.equals("eager") || bg.equals("random") && rng.chance(0.5)) by.nextAt = by.total + 1;
            }
        }

        @Override public void opEnd(final Sched s, final SimThread t, final int op) {
            // the point right after an op is a chance to switch
            if (boundary && rng.chance(0.6)) t.nextAt = t.total + 1;
        }
    }

    static final class Serial extends Base {
        Serial(final Map<String, Object> m) { super(m); boundary = !Boolean.FALSE.equals(m.get("boundary")); }
    }

    /** Switches at a few points drawn uniformly over the steps of the run. */
    static final class Points extends Base {
        final long[] at;
        int i;
        Points(final Map<String, Object> m) {
            super(m);
            final long k = (Long) m.get("k"), n = (Long) m.get("n");
            at = new long[(int) k];
            for (int j = 0; j < k; j++) at[j] = rng.belowL(n);
            Arrays.sort(at);
        }
        @Override long next(final Sched s, final SimThread t) {
            while (i < at.length && at[i] <= s.totalSteps) i++;
            return i < at.length ? t.total + (at[i] - s.totalSteps) : Long.MAX_VALUE;
        }
        @Override public SimThread pick(final Sched s, final List<SimThread> r, final SimThread last) {
            final SimThread t = super.pick(s, r, last);
            t.nextAt = Math.min(t.nextAt <= t.total ? Long.MAX_VALUE : t.nextAt, next(s, t));
            return t;
        }
    }

    /** Switches with a fixed probability at every step. */
    static final class Walk extends Base {
        final long mean;
        Walk(final Map<String, Object> m) { super(m); mean = (Long) m.get("mean"); }
        @Override long next(final Sched s, final SimThread t) { return t.total + 1 + rng.belowL(2 * mean); }
        @Override public SimThread pick(final Sched s, final List<SimThread> r, final SimThread last) {
            final SimThread t = super.pick(s, r, last);
            t.nextAt = next(s, t);
            return t;
        }
    }

    /** Takes a thread off the processor when it reaches a chosen site of a chosen op, and lets the others overtake it. */
    static final class Stall extends Base {
        static final class Plan {
            int uid, site, hit, k;
            String rel;
            SimThread victim;
            boolean armed, done;
            int opsSeen;
            long relAt;
        }
        final List<Plan> plans = new ArrayList<>();

        @SuppressWarnings("unchecked")
        Stall(final Map<String, Object> m) {
            super(m);
            for (final Map<String, Object> p : (List<Map<String, Object>>) m.get("plans")) {
                final Plan x = new Plan();
                x.uid = ((Long) p.get("uid")).intValue();
                x.site = ((Long) p.get("site")).intValue();
                x.hit = ((Long) p.get("hit")).intValue();
                x.k = ((Long) p.getOrDefault("k", 1L)).intValue();
                x.rel = (String) p.get("rel");
                plans.add(x);
            }
        }

        @Override public void opStart(final Sched s, final SimThread t, final int op) {
            for (final Plan p : plans) if (p.uid == op && !p.done) { t.watchSite = p.site; t.watchHits = 0; t.stallPlan = p; return; }
            for (final Plan p : plans) if (p.victim != null && p.victim.held && p.rel.equals("site")) { t.watchSite = p.site; t.stallPlan = null; return; }
            t.watchSite = -1;
            t.stallPlan = null;
        }

        @Override public void opEnd(final Sched s, final SimThread t, final int op) {
            t.watchSite = -1;
            t.stallPlan = null;
            for (final Plan p : plans) {
                if (p.victim != null && p.victim != t && p.victim.held && p.rel.equals("ops") && ++p.opsSeen >= p.k) {
                    p.victim.held = false;
                    t.nextAt = t.total + 1;
                }
            }
            super.opEnd(s, t, op);
        }

        @Override public boolean atPoint(final Sched s, final SimThread t, final int site) {
            boolean sw = false;
            if (site == t.watchSite) {
                final Plan p = (Plan) t.stallPlan;
                if (p != null) {
                    if (!p.done && ++t.watchHits == p.hit) {
                        p.done = true;
                        p.victim = t;
                        t.held = true;
                        t.watchSite = -1;
                        p.relAt = s.totalSteps + p.k;
                        sw = true;
                    }
                } else {
                    // another thread reached the place where a victim waits: let the victim go first
                    for (final Plan q : plans) if (q.victim != null && q.victim.held && q.rel.equals("site") && q.site == site) { q.victim.held = false; prefer = q.victim; sw = true; }
                    t.watchSite = -1;
                }
            }
            for (final Plan p : plans) if (p.victim != null && p.victim.held && p.victim != t && p.rel.equals("steps") && s.totalSteps >= p.relAt) { p.victim.held = false; prefer = p.victim; sw = true; }
            if (t.total >= t.nextAt) { t.nextAt = Long.MAX_VALUE; sw = true; }
            if (sw) left = t;
            return sw;
        }

        SimThread prefer;

        @Override public SimThread pick(final Sched s, final List<SimThread> r, final SimThread last) {
            SimThread t = null;
            if (prefer != null && r.contains(prefer)) t = prefer;
            prefer = null;
            if (t == null) t = super.pick(s, r, last);
            for (final Plan p : plans) {
                if (p.victim != null && p.victim.held && p.victim != t && p.rel.equals("steps")) t.nextAt = Math.min(t.nextAt, t.total + Math.max(1, p.relAt - s.totalSteps));
            }
            return t;
        }
    }

    /** Replays recorded segments, then runs whatever is left one thread after the other. */
    static final class Trace implements Sched.Policy {
        final List<List<Long>> segs;
        int i = -1;
        SimThread cur;

        Trace(final List<List<Long>> segs) { this.segs = segs; }

        @Override public SimThread pick(final Sched s, final List<SimThread> runnable, final SimThread last) {
            while (++i < segs.size()) {
                for (final SimThread t : runnable) {
                    if (t.id == segs.get(i).get(0)) {
                        final long n = segs.get(i).get(1);
                        t.nextAt = n < 0 ? Long.MAX_VALUE : t.total + n;
                        if (n == 0) break;
                        return t;
                    }
                }
            }
            for (final SimThread t : runnable) t.nextAt = Long.MAX_VALUE;
            if (last != null && runnable.contains(last)) return last;
            return runnable.get(0);
        }

        @Override public boolean replaying() { return i + 1 < segs.size(); }

        @Override public boolean atPoint(final Sched s, final SimThread t, final int site) { t.nextAt = Long.MAX_VALUE; return true; }
    }
}
