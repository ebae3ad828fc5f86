package vs.rt;

/** One simulated thread: a virtual thread whose continuation only the simulator's scheduler runs. */
public final class SimThread {
    public final int id;
    public final boolean background;
    public Thread vt;
    volatile Runnable task;        // pending continuation; set by the executor seam
    public boolean finished;
    public Mon blockedOn;          // simulated monitor this thread waits for
    public boolean stalled;        // suspended by an injected stall
    public Object joinOn;          // SimThread joined on
    public long wakeAt = -1;       // simulated sleep deadline (ms)

    // counters of the current operation
    public int op = -1;
    public long step;              // yield points passed in the current op
    public long total;             // yield points passed in the whole run
    public int allocs;
    public int entries;
    public int lookups;
    public int handlers;
    public long bulk;              // work inside the JDK that grows with sizes
    public long clockAt;           // step of the first look at the clock
    public int inits;              // static initialisers under way
    public int origin = -1;        // op on whose behalf a background thread works

    // schedule control
    public long nextAt = Long.MAX_VALUE;    // value of 'total' at which the policy wants control
    public long faultAt = Long.MAX_VALUE;   // value of 'step' at which a step fault fires
    public long quantumAt = Long.MAX_VALUE; // value of 'total' at which another thread must get a turn
    public long lastRun;
    long backAt;                            // value of the run's step count before which a thread that span stays behind the others
    int spins;
    public int watchSite = -1;              // site at which the policy wants control
    public int watchHits;
    public int allocFault = -1;
    public int entryFault = -1;
    public Throwable injected;              // error injected into the current operation
    public int probe;
    public boolean held;                    // kept off the processor by the policy

    int[] lastHit;                 // while learning: the last yield point passed

    // stall bookkeeping (policy)
    public Object stallPlan;

    SimThread(final int id, final boolean background) { this.id = id; this.background = background; }

    /** The operation this thread works for, or -1. */
    public int work() { return op >= 0 ? op : origin; }

    @Override public String toString() { return (background ? "bg" : "t") + id; }
}
