package vs.core;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Everything one simulated run depends on. */
public final class Case {
    public static final class Obj {
        /** parser cached bool arith unreliable */
        public String kind;
        public int size;
        public int parser = -1;
        public boolean lazy;
        public Obj(final String kind, final int size, final int parser, final boolean lazy) { this.kind = kind; this.size = size; this.parser = parser; this.lazy = lazy; }
        public Map<String, Object> json() { return Json.obj("kind", kind, "size", (long) size, "parser", (long) parser, "lazy", lazy); }
    }

    public String prop;
    public long seed;
    public String tz = "UTC";
    public String locale = "en-US";
    public long now = vs.rt.Hook.BASE_MS;
    public final List<Obj> objs = new ArrayList<>();
    public final List<Object> data = new ArrayList<>();
    public List<List<Op>> threads = new ArrayList<>();
    public List<Op> post = new ArrayList<>();
    public List<Fault> faults = new ArrayList<>();
    /** Handlers registered before anything is built: dataType -> tag. */
    public Map<String, Object> regs = new LinkedHashMap<>();
    public Map<String, Object> policy = Json.obj("type", "serial", "seed", 1L);
    /** Property-specific parameters. */
    public Map<String, Object> params = new LinkedHashMap<>();
    private int nextUid;

    public int obj(final String kind, final int size, final int parser, final boolean lazy) {
        objs.add(new Obj(kind, size, parser, lazy));
        return objs.size() - 1;
    }

    public Op add(final int thread, final Op o) {
        while (threads.size() <= thread) threads.add(new ArrayList<>());
        o.uid = nextUid++;
        threads.get(thread).add(o);
        return o;
    }

    public Op addPost(final Op o) { o.uid = nextUid++; post.add(o); return o; }

    public Op nested(final Op o) { o.uid = nextUid++; return o; }

    public List<Op> allOps() {
        final List<Op> l = new ArrayList<>();
        for (final List<Op> t : threads) l.addAll(t);
        return l;
    }

    public Op find(final int uid) {
        for (final List<Op> t : threads) for (final Op o : t) if (o.uid == uid) return o;
        for (final Op o : post) if (o.uid == uid) return o;
        for (final Fault f : faults) if (f.op != null && f.op.uid == uid) return f.op;
        return null;
    }

    public Map<String, Object> json() {
        final List<Object> os = new ArrayList<>(), ts = new ArrayList<>(), fs = new ArrayList<>(), ps = new ArrayList<>();
        for (final Obj o : objs) os.add(o.json());
        for (final List<Op> t : threads) {
            final List<Object> l = new ArrayList<>();
            for (final Op o : t) l.add(o.json(true));
            ts.add(l);
        }
        for (final Op o : post) ps.add(o.json(true));
        for (final Fault f : faults) fs.add(f.json());
        return Json.obj("property", prop, "seed", seed, "env", Json.obj("tz", tz, "locale", locale, "now", now), "regs", regs, "objects", os, "data", data,
                        "threads", ts, "post", ps, "faults", fs, "params", params, "policy", policy);
    }

    @SuppressWarnings("unchecked")
    public static Case of(final Map<String, Object> m) {
        final Case c = new Case();
        c.prop = (String) m.get("property");
        c.seed = (Long) m.get("seed");
        final Map<String, Object> e = (Map<String, Object>) m.get("env");
        c.tz = (String) e.get("tz");
        c.locale = (String) e.get("locale");
        c.now = (Long) e.get("now");
        c.regs = (Map<String, Object>) m.get("regs");
        for (final Map<String, Object> o : (List<Map<String, Object>>) m.get("objects")) {
            c.objs.add(new Obj((String) o.get("kind"), ((Long) o.get("size")).intValue(), ((Long) o.get("parser")).intValue(), (Boolean) o.get("lazy")));
        }
        c.data.addAll((List<Object>) m.get("data"));
        for (final List<Map<String, Object>> t : (List<List<Map<String, Object>>>) m.get("threads")) {
            final List<Op> l = new ArrayList<>();
            for (final Map<String, Object> o : t) l.add(Op.of(o));
            c.threads.add(l);
        }
        for (final Map<String, Object> o : (List<Map<String, Object>>) m.get("post")) c.post.add(Op.of(o));
        for (final Map<String, Object> f : (List<Map<String, Object>>) m.get("faults")) c.faults.add(Fault.of(f));
        c.params = (Map<String, Object>) m.get("params");
        c.policy = (Map<String, Object>) m.get("policy");
        c.nextUid = 1_000_000;
        return c;
    }

    public Case copy() { return of(castMap(Json.read(Json.write(json())))); }

    @SuppressWarnings("unchecked")
    private static Map<String, Object> castMap(final Object o) { return (Map<String, Object>) o; }
}
