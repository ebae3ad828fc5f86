package vs.rt;

/** Unwinds a simulated thread when the run cannot go on. A VirtualMachineError, so that nothing sensible swallows it. */
public final class SimAbort extends VirtualMachineError {
    public SimAbort(final String m) { super(m); }
}
