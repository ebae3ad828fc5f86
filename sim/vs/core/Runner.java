package vs.core;

import java.util.ArrayList;
import java.util.List;
import vs.props.Prop;
import vs.rt.Sched;

/** Runs a case and judges it; shrinks a failing one. */
public final class Runner {
    public static final class Verdict {
        public Engine.Result r;
        public List<String> v = new ArrayList<>();
        public long digest() { return r.sched.digest; }
        public boolean has(final String cat) { for (final String x : v) if (cat(x).equals(cat)) return true; return false; }
        public String first(final String cat) { for (final String x : v) if (cat(x).equals(cat)) return x; return null; }
    }

    private Runner() { }

    public static String cat(final String v) { return v.substring(0, v.indexOf(':')); }

    public static volatile long started;

    public static Verdict run(final Prop p, final Case c) {
        started = System.nanoTime();
        final Verdict x = new Verdict();
        x.r = Engine.run(c);
        started = System.nanoTime();
        x.v = p.check(c, x.r);
        started = 0;
        return x;
    }

    public static List<Object> segs(final Sched s) {
        final List<Object> l = new ArrayList<>();
        for (final Sched.Segment g : s.trace) {
            final List<Object> e = new ArrayList<>();
            e.add((long) g.tid);
            e.add(g.steps);
            l.add(e);
        }
        return l;
    }

    /** The case with its schedule written out. */
    public static Case traced(final Case c, final Sched s) {
        final Case t = c.copy();
        t.policy = Json.obj("type", "trace", "segs", segs(s));
        return t;
    }

    // ---- shrinking ----------------------------------------------------------------------------------------------

    private static long deadline;
    public static int tried;

    private static Case attempt(final Prop p, final Case c, final String cat, final int variants) {
        for (int i = 0; i < variants; i++) {
            if (System.nanoTime() > deadline) return null;
            final Case d = c.copy();
            if (i > 0) {
                if (d.policy.get("type").equals("trace")) break;
                d.policy.put("seed", (Long) d.policy.getOrDefault("seed", 1L) + i);
            }
            tried++;
            try {
                if (run(p, d).has(cat)) return d;
            } catch (final RuntimeException e) {
                return null;   // the cut made the case meaningless
            }
        }
        return null;
    }

    public static Case shrink(final Prop p, final Case c0, final String cat, final long seconds) {
        deadline = System.nanoTime() + seconds * 1_000_000_000L;
        Case c = c0.copy();
        boolean changed = true;
        while (changed && System.nanoTime() < deadline) {
            changed = false;
            for (int t = c.threads.size() - 1; t >= 0; t--) {
                if (c.threads.get(t).isEmpty()) continue;
                final Case d = c.copy();
                d.threads.get(t).clear();
                final Case e = attempt(p, d, cat, 4);
                if (e != null) { c = e; changed = true; }
            }
            for (int n = Math.max(1, c.post.size() / 2); n >= 1; n /= 2) {
                for (int i = 0; i + n <= c.post.size();) {
                    final Case d = c.copy();
                    d.post.subList(i, i + n).clear();
                    final Case e = attempt(p, d, cat, 1);
                    if (e != null) { c = e; changed = true; } else i += n;
                }
            }
            for (int t = 0; t < c.threads.size(); t++) {
                for (int n = Math.max(1, c.threads.get(t).size() / 2); n >= 1; n /= 2) {
                    for (int i = 0; i + n <= c.threads.get(t).size();) {
                        final Case d = c.copy();
                        d.threads.get(t).subList(i, i + n).clear();
                        final Case e = attempt(p, d, cat, 4);
                        if (e != null) { c = e; changed = true; } else i += n;
                    }
                }
            }
            for (int i = c.faults.size() - 1; i >= 0; i--) {
                final Case d = c.copy();
                d.faults.remove(i);
                final Case e = attempt(p, d, cat, 3);
                if (e != null) { c = e; changed = true; }
            }
        }
        for (boolean less = true; less && System.nanoTime() < deadline;) {
            less = false;
            for (int u = 0; u < c.allOps().size(); u++) {
                if (!c.allOps().get(u).k.equals("repeat") || c.allOps().get(u).n < 2) continue;
                for (final int part : new int[] {2, 8}) {
                    final Case d = c.copy();
                    final Op o = d.allOps().get(u);
                    o.n -= Math.max(1, o.n / part);
                    final Case e = attempt(p, d, cat, 1);
                    if (e != null) { c = e; less = true; break; }
                }
            }
        }
        // fix the schedule, then drop what it does not need
        final Verdict x = run(p, c);
        if (!x.has(cat)) return null;
        Case t = traced(c, x.r.sched);
        if (!run(p, t).has(cat)) return c;
        @SuppressWarnings("unchecked") List<Object> segs = (List<Object>) t.policy.get("segs");
        for (int n = Math.max(1, segs.size() / 2); n >= 1; n /= 2) {
            for (int i = 0; i + n <= segs.size() && System.nanoTime() < deadline;) {
                final List<Object> less = new ArrayList<>(segs);
                less.subList(i, i + n).clear();
                final Case d = t.copy();
                d.policy.put("segs", less);
                final Case e = attempt(p, d, cat, 1);
                if (e != null) { t = e; segs = less; } else i += n;
            }
        }
        return t;
    }
}
