package vs.core;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** What a call does when it is the only call ever made, in a process of its own. Memoised. */
public final class Baseline {
    private Baseline() { }

    public static final class Base {
        public Outcome out;
        public long steps;
        public int allocs, entries, lookups, handlers, parses;
        /** the step of the call at which it looks at the clock first */
        public long clockAt, bulk;
        public List<String> reads = new ArrayList<>();
        /** site, hits pairs */
        public int[] sites;
        public boolean ok;
        public String problem;
    }

    private static final Map<String, Base> MEMO = new LinkedHashMap<>(256, 0.75f, true) {
        @Override protected boolean removeEldestEntry(final Map.Entry<String, Base> e) { return size() > 6000; }
    };
    public static long runs, hits;

    public static Base of(final Case c, final Op o) { return of(c, o, null, null, null); }

    /** data: replaces the op's data context; env: {tz, locale, now}. */
    public static Base of(final Case c, final Op o, final Object data, final String[] env, final Map<String, Object> regs) {
        final Case b = new Case();
        b.prop = "baseline";
        b.tz = env == null ? c.tz : env[0];
        b.locale = env == null ? c.locale : env[1];
        b.now = env == null ? c.now : Long.parseLong(env[2]);
        b.regs = regs != null ? regs : c.regs;
        if (regs != null) b.params.put("regAfter", true);
        if (c.params.containsKey("plain")) b.params.put("plain", c.params.get("plain"));
        final Op p = o.copy();
        if (p.obj >= 0) {
            p.obj = clone(c, b, o.obj, new HashMap<>());
            if (p.k.equals("make")) b.objs.get(p.obj).lazy = true;
        }
        if (p.data >= 0) {
            b.data.add(data != null ? data : c.data.get(o.data));
            p.data = 0;
        }
        b.add(0, p);
        for (final Fault f : c.faults) {
            if (f.uid == o.uid && f.semantic()) {
                final Fault g = f.copy();
                g.uid = p.uid;
                b.faults.add(g);
            }
        }
        final String key = Json.write(b.json());
        final Base m = MEMO.get(key);
        if (m != null) { hits++; return m; }
        runs++;
        final Engine.After a = Engine.after;
        Engine.after = null;
        final Engine.Result r;
        try {
            r = Engine.profile(b);
        } finally {
            Engine.after = a;
        }
        final Engine.Rec q = r.recs.get(p.uid);
        final Base x = new Base();
        x.ok = r.complete && q != null && q.finished;
        x.problem = r.stuck;
        x.out = q == null ? Outcome.never() : q.out.bare();
        if (q != null) {
            x.steps = q.steps;
            x.allocs = q.allocs;
            x.entries = q.entries;
            x.lookups = q.lookups;
            x.handlers = q.handlers;
            x.clockAt = q.clockAt;
            x.bulk = q.bulk;
            x.parses = q.parses;
            for (final Engine.Read rd : q.reads) x.reads.add(rd.path);
        }
        int n = 0;
        for (final int h : r.profile) if (h > 0) n++;
        x.sites = new int[2 * n];
        n = 0;
        for (int i = 0; i < r.profile.length; i++) if (r.profile[i] > 0) { x.sites[n++] = i; x.sites[n++] = r.profile[i]; }
        MEMO.put(key, x);
        return x;
    }

    private static int clone(final Case c, final Case b, final int i, final Map<Integer, Integer> done) {
        final Integer d = done.get(i);
        if (d != null) return d;
        final Case.Obj o = c.objs.get(i);
        final int p = o.parser >= 0 ? clone(c, b, o.parser, done) : -1;
        final int n = b.obj(o.kind, o.size, p, false);
        done.put(i, n);
        return n;
    }
}
