package vs.core;

import java.util.ArrayList;
import java.util.List;
import vs.rt.Learn;

/** Where the operations of a workload meet in shared state that one of them changes, found by running it once in series. */
public final class Learned {
    private static String key;
    private static List<List<int[]>> last;
    public static long runs;
    /** The first of them are changed by more than the initialisation of a class. */
    public static int later;
    /** Where locks are taken in an order that is also taken the other way round. */
    public static List<int[]> crossed = List.of();

    private Learned() { }

    public static List<List<int[]>> of(final Case c) {
        final Case d = c.copy();
        d.policy = Json.obj("type", "serial", "seed", 1L, "bg", "eager", "boundary", false);
        d.faults.clear();
        d.post = new ArrayList<>();
        final String k = Json.write(d.json());
        if (k.equals(key)) return last;
        final Engine.After a = Engine.after;
        Engine.after = null;
        runs++;
        Learn.start(Engine.loaders.inst.access);
        try {
            Engine.run(d);
        } finally {
            last = Learn.stop();
            later = Learn.later;
            crossed = Learn.crossed;
            if (System.getProperty("vs.debug") != null && !crossed.isEmpty()) System.err.println("CROSSED " + crossed.size() + " " + Engine.loaders.inst.sites.get(crossed.get(0)[1]));
            Engine.after = a;
        }
        key = k;
        return last;
    }
}
