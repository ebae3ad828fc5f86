package vs.rt;

/** SplitMix64: the only source of randomness in the simulator. */
public final class Rng {
    private long s;

    public Rng(final long seed) { this.s = seed; }

    public static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }

    public static long hash(final String s) {
        long h = 1125899906842597L;
        for (int i = 0; i < s.length(); i++) h = 31 * h + s.charAt(i);
        return mix(h);
    }

    public long next() { s += 0x9e3779b97f4a7c15L; return mix(s); }

    public Rng fork(final String tag) { return new Rng(mix(s ^ hash(tag))); }

    public int below(final int n) { return n <= 1 ? 0 : (int) Long.remainderUnsigned(next(), n); }

    public int range(final int lo, final int hiInclusive) { return lo + below(hiInclusive - lo + 1); }

    public long belowL(final long n) { return n <= 1 ? 0 : Long.remainderUnsigned(next(), n); }

    public boolean chance(final double p) { return (next() >>> 11) * 0x1.0p-53 < p; }

    @SafeVarargs
    public final <T> T pick(final T... xs) { return xs[below(xs.length)]; }

    public <T> T pick(final java.util.List<T> xs) { return xs.get(below(xs.size())); }
}
