package vs.core;

import java.io.File;
import java.io.OutputStream;
import java.io.PrintStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import vs.inst.Loaders;
import vs.props.Prop;
import vs.props.Props;
import vs.rt.Rng;
import vs.rt.Sched;

/** One worker process. */
public final class Main {
    static PrintStream out;

    private static void say(final Object... kv) {
        out.println(Json.write(Json.obj(kv)));
        out.flush();
    }

    static long mix(final long a, final long b) { return Rng.mix(a * 0x9e3779b97f4a7c15L + Rng.mix(b + 0x632be59bd9b4e019L)); }

    static Case make(final Prop p, final String id, final long base, final long i) {
        final long w = i / p.schedules();
        final Case c = p.workload(new Rng(mix(mix(base, Rng.hash(id)), w)));
        c.prop = id;
        c.seed = i;
        p.schedule(c, new Rng(mix(mix(base, Rng.hash(id + "/s")), i)));
        return c;
    }

    public static void main(final String[] a) throws Exception {
        out = System.out;
        System.setOut(new PrintStream(OutputStream.nullOutputStream()));
        final PrintStream err = System.err;
        if (System.getenv("VS_DEBUG") == null) System.setErr(new PrintStream(OutputStream.nullOutputStream()));
        java.util.logging.LogManager.getLogManager().reset();
        try {
            final Path build = Path.of(a[0]);
            final List<File> jars = new ArrayList<>();
            for (final String j : Files.readAllLines(build.resolve("runtime.cp"))) if (!j.isBlank()) jars.add(new File(j));
            final String id = a[1].equals("replay") ? (String) ((Map<String, Object>) Json.read(Files.readString(Path.of(a[2])))).get("property") : a[2];
            vs.inst.Instrumenter.ALL = "C27".equals(id);
            Engine.loaders = new Loaders(build.resolve("repo"), build.resolve("bridge"), jars);
            warm();
            switch (a[1]) {
                case "worker": worker(a[2], Long.parseLong(a[3]), Long.parseLong(a[4]), Long.parseLong(a[5]), Long.parseLong(a[6]), Path.of(a[7])); break;
                case "replay": replay(Path.of(a[2])); break;
                case "case": System.setErr(err); out.println(Json.write(make(Props.of(a[2]), a[2], Long.parseLong(a[3]), Long.parseLong(a[4])).json())); break;
                default: throw new IllegalArgumentException(a[1]);
            }
            System.exit(0);
        } catch (final Throwable t) {
            t.printStackTrace(err);
            System.exit(4);
        }
    }

    /** Brings the libraries' own statics into a settled state, the same way in every process. */
    private static void warm() {
        for (int i = 0; i < 3; i++) {
            final Case c = new Case();
            c.prop = "warm";
            final int p = c.obj("cached", 2, -1, false), e = c.obj("bool", 0, p, false), ar = c.obj("arith", 0, p, false);
            c.data.add(Json.obj("a", "i:5", "s", "s:x", "nums", List.of("i:1", "i:2")));
            for (final String x : new String[] {"(a > 3) AND (s = 'x')", "a >", "a 1 TO 5", "s IN ('x', 'y')", "nums CONTAINS_ANY (1, 2)", "NOT (a = 1)", "zz = 1", "s = null", "a = 1.5", "s = 1.2.3"}) {
                final Op o = c.add(0, new Op("evalB"));
                o.obj = e; o.x = x; o.data = 0;
            }
            for (final String x : new String[] {"a + 2", "MIN(nums)", "AVG(1, 2, 4)", "a /", "a ^ 2", "DAYS_ELAPSED(2024-01-01)"}) {
                final Op o = c.add(i % 2, new Op("evalA"));
                o.obj = ar; o.x = x; o.data = 0;
            }
            Engine.run(c);
        }
    }

    private static void watchdog(final long[] at, final long limit) {
        final Thread t = new Thread(() -> {
            while (true) {
                try { Thread.sleep(500); } catch (final InterruptedException e) { return; }
                final long s = Runner.started;
                if (s != 0 && System.nanoTime() - s > limit * 1_000_000_000L) {
                    final List<Object> l = new ArrayList<>();
                    final Sched k = vs.rt.Hook.sched;
                    try {
                        if (k != null) for (final vs.rt.SimThread x : k.threads) if (!x.finished) l.add(x + " op " + x.op + " step " + x.step + " of " + x.total + ", last at " + Engine.loaders.inst.describe(k.lastSite) + ", " + k.waitsFor(x));
                        if (k != null) l.add("steps " + k.totalSteps + " cap " + k.stepCap + " loops " + k.loops);
                    } catch (final RuntimeException e) { l.add(e.toString()); }
                    say("hang", at[0], "threads", l);
                    Runtime.getRuntime().halt(3);
                }
            }
        });
        t.setDaemon(true);
        t.start();
    }

    private static void worker(final String id, final long base, final long from, final long count, final long seconds, final Path dir) throws Exception {
        final Prop p = Props.of(id);
        final long end = System.nanoTime() + seconds * 1_000_000_000L;
        final long[] at = {0};
        watchdog(at, 60);
        long runs = 0, steps = 0, switches = 0, mid = 0, nontrivial = 0, simMs = 0, inconclusive = 0, rerun = 0, mismatch = 0, calls = 0, contended = 0, tasks = 0, parses = 0, pinned = 0, events = 0, clockReads = 0, replays = 0, replayMismatch = 0;
        final Map<String, Object> fired = new TreeMap<>(), kinds = new TreeMap<>(), why = new TreeMap<>(), pols = new TreeMap<>();
        final Set<Long> distinct = new HashSet<>();
        final List<Object> samples = new ArrayList<>();
        long i = from;
        String found = null;
        for (; i < from + count; i++) {
            if (System.nanoTime() > end) break;
            at[0] = i;
            Runner.started = System.nanoTime();
            final Case c = make(p, id, base, i);
            final Runner.Verdict x = Runner.run(p, c);
            final Sched s = x.r.sched;
            runs++;
            steps += s.totalSteps;
            switches += s.switches;
            mid += s.midCall;
            contended += s.contended;
            tasks += s.executorTasks;
            parses += s.parses;
            pinned += s.pinned;
            clockReads += s.clockReads;
            simMs += s.maxMs - s.minMs;
            events += x.r.events.size();
            pols.merge((String) c.policy.get("type"), 1L, (m, n) -> (Long) m + (Long) n);
            for (final Map.Entry<String, Integer> e : x.r.fired.entrySet()) fired.merge(e.getKey(), (long) e.getValue(), (m, n) -> (Long) m + (Long) n);
            if (s.executorRejected > 0) fired.merge("reject", (long) s.executorRejected, (m, n) -> (Long) m + (Long) n);
            for (final Engine.Ev e : x.r.events) if (!e.kind.equals("put") && !e.kind.equals("reg")) fired.merge("env " + e.kind, 1L, (m, n) -> (Long) m + (Long) n); else fired.merge(e.kind.equals("put") ? "data change" : "handler registration", 1L, (m, n) -> (Long) m + (Long) n);
            for (final Engine.Rec q : x.r.recs.values()) {
                if (q.op.call()) calls++;
                kinds.merge(q.op.k + " " + q.out.kind, 1L, (m, n) -> (Long) m + (Long) n);
                if (q.repeated > 0) kinds.merge("calls within repeats", (long) q.repeated, (m, n) -> (Long) m + (Long) n);
            }
            if (s.inconclusive) { inconclusive++; why.merge(String.valueOf(s.inconclusiveWhy), 1L, (m, n) -> (Long) m + (Long) n); }
            if (s.midCall > 0 || !x.r.fired.isEmpty() || s.executorRejected > 0 || !x.r.events.isEmpty() || x.r.recs.size() >= 8) {
                nontrivial++;
                distinct.add(s.digest ^ Rng.hash(Json.write(c.json().get("threads"))));
            }
            if (samples.size() < 2 && s.midCall > 0 && runs > 3) samples.add(describe(c, x));
            if (runs % 40 == 7) {
                rerun++;
                if (Runner.run(p, c).digest() != s.digest) { mismatch++; if (System.getenv("VS_DEBUG") != null) out.println("mismatch " + i); }
            }
            if (runs % 40 == 27 && s.trace.size() < 20000) {
                replays++;
                if (Runner.run(p, Runner.traced(c, s)).digest() != s.digest) { replayMismatch++; if (System.getenv("VS_DEBUG") != null) out.println("replay mismatch " + i); }
            }
            if (!x.v.isEmpty()) {
                // must repeat, exactly, before anything is said
                final Runner.Verdict y = Runner.run(p, c);
                final String cat = Runner.cat(x.v.get(0));
                if (!y.has(cat)) { inconclusive++; why.merge("violation did not repeat: " + x.v.get(0), 1L, (m, n) -> (Long) m + (Long) n); continue; }
                Runner.started = 0;
                found = report(p, id, c, cat, dir, i);
                break;
            }
        }
        Runner.started = 0;
        Files.createDirectories(dir);
        final Path df = dir.resolve(id + "-" + from + ".digests");
        final StringBuilder sb = new StringBuilder();
        for (final Long d : distinct) sb.append(Long.toHexString(d)).append('\n');
        Files.writeString(df, sb);
        say("done", true, "next", i, "runs", runs, "steps", steps, "switches", switches, "midCall", mid, "nontrivial", nontrivial, "simMs", simMs, "inconclusive", inconclusive, "why", why,
            "rerun", rerun, "mismatch", mismatch, "traceReplays", replays, "traceMismatch", replayMismatch, "calls", calls, "contended", contended, "tasks", tasks, "parses", parses, "pinned", pinned, "events", events, "clockReads", clockReads, "fired", fired, "kinds", kinds, "policies", pols,
            "baselineRuns", Baseline.runs, "baselineHits", Baseline.hits, "digests", df.toString(), "samples", samples, "sites", (long) Engine.loaders.inst.sites.size(), "violation", found);
    }

    static Map<String, Object> describe(final Case c, final Runner.Verdict x) {
        final Map<String, Object> m = c.json();
        m.remove("data");
        m.remove("params");
        final List<Object> o = outcomes(x);
        if (((List<?>) m.get("threads")).toString().length() > 3000) m.put("threads", "(long)");
        m.remove("post");
        m.put("outcomes", o.size() > 12 ? o.subList(0, 12) : o);
        m.put("schedule", schedule(x.r.sched, 14));
        return m;
    }

    private static List<Object> outcomes(final Runner.Verdict x) {
        final List<Object> o = new ArrayList<>();
        for (final Engine.Rec q : x.r.recs.values()) o.add("op " + q.op.uid + ": " + q.out);
        return o;
    }

    static List<Object> schedule(final Sched s, final int max) {
        final List<Object> l = new ArrayList<>();
        for (final Sched.Segment g : s.trace) {
            if (l.size() >= max) { l.add("... " + (s.trace.size() - max) + " more"); break; }
            l.add(s.threads.get(g.tid) + (g.steps < 0 ? " until it blocks or ends" : " for " + g.steps + " steps, to " + Engine.loaders.inst.describe(g.site)));
        }
        return l;
    }

    private static String report(final Prop p, final String id, final Case c, final String cat, final Path dir, final long i) throws Exception {
        Case m = null;
        try { m = Runner.shrink(p, c, cat, 45); } catch (final RuntimeException e) { m = null; }
        Runner.Verdict x = m == null ? null : Runner.run(p, m);
        if (x == null || !x.has(cat)) { m = c; x = Runner.run(p, c); }
        // canonical form: what a fresh process reads back
        final Case q = m.copy();
        x = Runner.run(p, q);
        final Map<String, Object> j = Json.obj("property", id, "violation", x.first(cat), "category", cat, "digest", Long.toHexString(x.digest()), "seed", i, "shrinkRuns", (long) Runner.tried,
            "schedule", schedule(x.r.sched, 60), "case", q.json(), "unreduced", c.json());
        Files.createDirectories(dir);
        final Path f = dir.resolve(id + "-" + i + ".json");
        Files.writeString(f, Json.write(j) + "\n");
        return f.toString();
    }

    @SuppressWarnings("unchecked")
    private static void replay(final Path f) throws Exception {
        final Map<String, Object> j = (Map<String, Object>) Json.read(Files.readString(f));
        final String id = (String) j.get("property"), cat = (String) j.get("category");
        watchdog(new long[] {-1}, 60);
        final Runner.Verdict x = Runner.run(Props.of(id), Case.of((Map<String, Object>) j.get("case")));
        final boolean rep = x.has(cat);
        say("replay", true, "reproduced", rep, "exact", Long.toHexString(x.digest()).equals(j.get("digest")), "violation", x.first(cat), "all", x.v, "outcomes", outcomes(x), "schedule", schedule(x.r.sched, 80));
    }
}
