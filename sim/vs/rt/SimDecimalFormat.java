package vs.rt;

import java.text.DecimalFormat;
import java.text.DecimalFormatSymbols;
import java.text.FieldPosition;
import java.text.ParsePosition;

/** DecimalFormat works on a digit list of its own: between filling it and reading it back another thread may come. */
public class SimDecimalFormat extends DecimalFormat {
    private transient volatile Object at;

    public SimDecimalFormat() { super(); }
    public SimDecimalFormat(final String p) { super(p); }
    public SimDecimalFormat(final String p, final DecimalFormatSymbols s) { super(p, s); }

    SimDecimalFormat(final DecimalFormat f) {
        super(f.toPattern(), f.getDecimalFormatSymbols());
        setParseBigDecimal(f.isParseBigDecimal());
        setParseIntegerOnly(f.isParseIntegerOnly());
        setGroupingUsed(f.isGroupingUsed());
        setMaximumFractionDigits(f.getMaximumFractionDigits());
        setMinimumFractionDigits(f.getMinimumFractionDigits());
        setMaximumIntegerDigits(f.getMaximumIntegerDigits());
        setMinimumIntegerDigits(f.getMinimumIntegerDigits());
        setRoundingMode(f.getRoundingMode());
    }

    @Override public Number parse(final String t, final ParsePosition p) {
        at = t;
        Hook.state(this, Hook.SITE_FORMAT);
        final Object x = at;
        return super.parse(x instanceof String ? (String) x : t, p);
    }

    @Override public StringBuffer format(final double d, final StringBuffer b, final FieldPosition f) {
        at = d;
        Hook.state(this, Hook.SITE_FORMAT);
        final Object x = at;
        return super.format(x instanceof Double ? (Double) x : d, b, f);
    }

    @Override public StringBuffer format(final long d, final StringBuffer b, final FieldPosition f) {
        at = d;
        Hook.state(this, Hook.SITE_FORMAT);
        final Object x = at;
        return super.format(x instanceof Long ? (Long) x : d, b, f);
    }
}
