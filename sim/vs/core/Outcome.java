package vs.core;

/** What one API call did: S value, F failure result, T threw, N never returned. */
public final class Outcome {
    public final char kind;
    public final String text;
    public final Throwable cause;
    public final Object raw;

    private Outcome(final char kind, final String text, final Throwable cause, final Object raw) { this.kind = kind; this.text = text; this.cause = cause; this.raw = raw; }

    public static Outcome success(final String text, final Object raw) { return new Outcome('S', text, null, raw); }

    public static Outcome failure(final Throwable t) { return new Outcome('F', err(t), t, null); }

    public static Outcome thrown(final Throwable t) { return new Outcome('T', err(t), t, null); }

    public static Outcome never() { return new Outcome('N', "did not return", null, null); }

    /** Without live objects of the run. */
    public Outcome bare() { return new Outcome(kind, text, null, null); }

    public static Outcome parse(final String s) { return new Outcome(s.charAt(0), s.substring(2), null, null); }

    private static String err(final Throwable t) { return t.getClass().getName() + ": " + Val.strip(t.getMessage()); }

    public boolean same(final Outcome o) { return kind == o.kind && text.equals(o.text); }

    @Override public String toString() { return kind + ":" + text; }
}
