package vs.rt;

import java.text.DateFormatSymbols;
import java.text.FieldPosition;
import java.text.ParsePosition;
import java.text.SimpleDateFormat;
import java.util.Date;
import java.util.Locale;

/** SimpleDateFormat keeps the value it works on in a field of its own: between taking it in and reading it back another thread may come. */
public class SimDateFormat extends SimpleDateFormat {
    private transient volatile Object at;

    public SimDateFormat() { super(); }
    public SimDateFormat(final String p) { super(p); }
    public SimDateFormat(final String p, final Locale l) { super(p, l); }
    public SimDateFormat(final String p, final DateFormatSymbols s) { super(p, s); }

    @Override public Date parse(final String t, final ParsePosition p) {
        at = t;
        Hook.state(this, Hook.SITE_FORMAT);
        final Object x = at;
        final Date d = super.parse(x instanceof String ? (String) x : t, p);
        return d != null && x instanceof Date ? (Date) ((Date) x).clone() : d;
    }

    @Override public StringBuffer format(final Date d, final StringBuffer b, final FieldPosition f) {
        at = d;
        Hook.state(this, Hook.SITE_FORMAT);
        final Object x = at;
        return super.format(x instanceof Date ? (Date) x : d, b, f);
    }

    @Override public Object clone() {
        final SimDateFormat c = (SimDateFormat) super.clone();
        c.at = null;
        return c;
    }
}
