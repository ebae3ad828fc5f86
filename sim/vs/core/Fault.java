package vs.core;

import java.util.LinkedHashMap;
import java.util.Map;

/** One injected fault, tied to the operation it hits. */
public final class Fault {
    public int uid;
    /** throw stall reenter pause oom soe interrupt clock tz locale reject parser alt pstall hthrow hstall hpause hreenter */
    public String kind;
    public long at;
    public String field;
    public String arg;
    public long n;
    public Op op;

    public Fault(final int uid, final String kind, final long at) { this.uid = uid; this.kind = kind; this.at = at; }

    public Fault copy() {
        final Fault f = new Fault(uid, kind, at);
        f.field = field; f.arg = arg; f.n = n; f.op = op == null ? null : op.copy();
        return f;
    }

    /** Part of what the call is asked to cope with, so that the same call alone meets it too. */
    public boolean semantic() { return kind.equals("throw") || kind.equals("hthrow") || kind.equals("parser") || kind.equals("alt"); }

    public Map<String, Object> json() {
        final Map<String, Object> m = new LinkedHashMap<>();
        m.put("uid", (long) uid);
        m.put("kind", kind);
        m.put("at", at);
        if (field != null) m.put("field", field);
        if (arg != null) m.put("arg", arg);
        if (n != 0) m.put("n", n);
        if (op != null) m.put("op", op.json(true));
        return m;
    }

    @SuppressWarnings("unchecked")
    public static Fault of(final Map<String, Object> m) {
        final Fault f = new Fault(((Long) m.get("uid")).intValue(), (String) m.get("kind"), (Long) m.get("at"));
        f.field = (String) m.get("field");
        f.arg = (String) m.get("arg");
        if (m.containsKey("n")) f.n = (Long) m.get("n");
        if (m.containsKey("op")) f.op = Op.of((Map<String, Object>) m.get("op"));
        return f;
    }

    @Override public String toString() { return Json.write(json()); }
}
