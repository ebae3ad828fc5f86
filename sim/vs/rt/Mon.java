package vs.rt;

import java.util.ArrayList;

/** Simulated monitor (intrinsic lock and wait set). */
public final class Mon {
    public final String what;
    SimThread owner;
    int count;
    final ArrayList<SimThread> waiters = new ArrayList<>();
    final ArrayList<SimThread> waitSet = new ArrayList<>();

    Mon(final String what) { this.what = what; }
    public int users;
}
