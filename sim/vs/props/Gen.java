package vs.props;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import vs.core.Case;
import vs.core.Json;
import vs.core.Op;
import vs.rt.Rng;

/** Expressions, data contexts and calls. Nothing here assumes what an expression means: that is taken from running it alone. */
public final class Gen {
    public final Rng r;
    /** allow DAYS_ELAPSED */
    public boolean clock;
    public boolean locales = true;

    /** Kinds of conditions and calculations this case keeps to most of the time, so that its calls meet in the same code. */
    private int[] leafs, ariths;
    /** Mostly single conditions; mostly textual data. */
    private boolean plain, texty;
    /** A day on which some zone's clocks are changed; its dates and times keep to it. */
    private String changeDay;
    /** Unusual kinds of values. */
    private final boolean odd;
    /** Names that differ in the case of their letters only. */
    private final boolean cases;
    /** Values used before in this case: conditions hit the data, or miss it narrowly. */
    private final List<String> dates = new ArrayList<>(), times = new ArrayList<>(), decs = new ArrayList<>(), versions = new ArrayList<>();

    public Gen(final Rng r) {
        this.r = r;
        final int family = r.chance(0.35) ? r.below(LEAF_FAMILIES.length) : -1;
        leafs = family >= 0 ? LEAF_FAMILIES[family] : focus();
        ariths = focus();
        plain = leafs != null && r.chance(family >= 0 ? 0.8 : 0.6);
        texty = r.chance(family >= 0 && family < 3 ? 0.55 : 0.25);
        wide = r.chance(0.3);
        odd = r.chance(0.2);
        cases = r.chance(0.15);
        tight = r.chance(0.25);
        tightWords = new String[] {r.pick(WORDS), r.pick(TWINS), r.pick(TWINS)};
        tightUnit = r.below(3);
        unfit = r.chance(0.06);
        if (unfit) {
            leafs = new int[] {10, 11, 18};
            plain = r.chance(0.7);
        }
    }

    /** What should be a list often is something else. */
    private final boolean unfit;

    private Object listed(final List<Object> l) { return unfit && r.chance(0.6) ? r.pick("x:1", "x:2", "i:5", "s:x", "n:", odd()) : odd && r.chance(0.15) ? odd() : l; }

    /** All values of this case lie close together. */
    private boolean tight;
    private final String[] tightWords;
    private final int tightUnit;
    private static final String[] TWINS = {"x", "X", " x", "x ", "xx", "Istanbul", "\u0130stanbul", "istanbul", "INFO", "info", "Aa", "BB", "it is", "its", "active", "actives", "5", "05", "5.0", "true", "TRUE", "null", "NULL"};

    /** Zones with a day on which the clocks are changed there; some lack their midnight, one lacks the whole day. */
    public static final String[][] CHANGES = {{"America/New_York", "2024-03-10"}, {"America/New_York", "2024-11-03"}, {"Europe/Berlin", "2024-03-31"}, {"Europe/Berlin", "2024-10-27"}, {"Australia/Lord_Howe", "2024-10-06"},
        {"Australia/Lord_Howe", "2024-04-07"}, {"America/Sao_Paulo", "2018-11-04"}, {"America/Sao_Paulo", "2018-02-18"}, {"Pacific/Apia", "2011-12-30"}};
    private static final String[] CHANGE_TIMES = {"02:30:00", "03:30:00", "02:10:00", "02:45:00", "01:30:00", "00:30:00", "00:00:00", "03:00:00", "02:00:00", "23:30:00", "01:45:00", "01:00:00", "02:15:00"};

    /** Keeps to the hours in which the clocks change. */
    public void changeDay(final String d) {
        changeDay = d;
        plain = r.chance(0.6);
        texty = r.chance(0.5);
        leafs = r.chance(0.7) ? new int[] {6} : new int[] {6, 5, 16};
    }

    /** Conditions on values of one kind: dates and times, versions, decimals, whole numbers, texts, lists, calculations. */
    private static final int[][] LEAF_FAMILIES = {{5, 6, 15, 16, 18}, {5, 15}, {6, 16}, {4, 17}, {4}, {3}, {0, 7, 9, 23}, {2, 8, 22}, {10, 11, 18, 21}, {14, 19, 20, 21}};
    /** Values are seldom used twice. */
    private boolean wide;

    /** Many conditions on values of one kind, seldom the same value twice. */
    public void campaign() {
        leafs = LEAF_FAMILIES[r.below(LEAF_FAMILIES.length)];
        if (ariths == null) ariths = new int[] {r.below(18), r.below(18)};
        plain = true;
        tight = r.chance(0.4);
        wide = !tight;
    }

    /** Calls of one kind. */
    public void meet() {
        leafs = r.chance(0.5) ? LEAF_FAMILIES[r.below(LEAF_FAMILIES.length)] : new int[] {r.below(27)};
        ariths = new int[] {r.below(18)};
        plain = true;
        if (leafs == LEAF_FAMILIES[0] || leafs == LEAF_FAMILIES[1] || leafs == LEAF_FAMILIES[2]) texty = r.chance(0.7);
    }

    private int[] focus() {
        if (!r.chance(0.45)) return null;
        final int[] f = new int[r.pick(1, 1, 2, 3)];
        for (int i = 0; i < f.length; i++) f[i] = r.below(1 << 20);
        return f;
    }

    private int kind(final int n, final int[] focus) { return focus != null && r.chance(0.85) ? focus[r.below(focus.length)] % n : r.below(n); }

    private String again(final List<String> l, final java.util.function.Supplier<String> s) {
        if (!l.isEmpty() && r.chance(wide ? 0.05 : 0.4)) return r.pick(l);
        final String x = s.get();
        if (l.size() < 12) l.add(x);
        return x;
    }

    public static final String[] INTS = {"a", "b", "c", "n1"};
    public static final String[] DECS = {"p", "q"};
    public static final String[] STRS = {"s", "t", "Title", "id"};
    public static final String[] WORDS = {"x", "y", "active", "Istanbul", "INFO", "it is", "", "5", "0x1F", "1.5.10", "2024-02-29", "2024-01-05 10:00:00", "true", "null", "sid", "Iota", "fluss", "\u0130x", "stra\u00dfe"};

    public String word() { return tight && r.chance(0.85) ? r.pick(tightWords) : r.pick(WORDS); }

    public Map<String, Object> data() {
        final Map<String, Object> m = new LinkedHashMap<>();
        for (final String f : INTS) if (r.chance(0.85)) m.put(f, num());
        for (final String f : DECS) if (r.chance(0.85)) m.put(f, (r.chance(texty ? 0.35 : 0.1) ? "s:" : r.chance(0.5) ? "d:" : "f:") + dec());
        for (final String f : STRS) if (r.chance(0.85)) m.put(f, odd && r.chance(0.25) ? odd() : "s:" + word());
        m.put("flag", "b:" + r.chance(0.5));
        if (r.chance(0.8)) m.put("ok", r.chance(0.7) ? "b:" + r.chance(0.5) : "s:TRUE");
        if (r.chance(0.9)) m.put("v", "s:" + version());
        if (r.chance(0.9)) m.put("d", (r.chance(texty ? 0.05 : 0.5) ? "D:" : "s:") + date());
        if (r.chance(0.9)) m.put("dt", r.chance(texty ? 0.05 : 0.5) ? "T:" + date() + "T" + time() : "s:" + date() + " " + time());
        final List<Object> nums = new ArrayList<>(), tags = new ArrayList<>();
        if (r.chance(0.2)) nums.add(r.pick("@arr", "@set"));
        if (r.chance(0.2)) tags.add(r.pick("@arr", "@set"));
        final int n = r.chance(0.07) ? r.range(9, 40) : r.range(1, 5);
        final boolean decs = r.chance(0.3);
        for (int i = 0; i < n; i++) nums.add(odd && r.chance(0.15) ? odd() : decs && r.chance(0.5) ? r.pick("d:", "f:") + dec() : "i:" + r.range(1, 9));
        for (int i = r.chance(0.05) ? r.range(9, 30) : r.range(1, 4); i > 0; i--) tags.add("s:" + r.pick("x", "y", "sale", "new", "Istanbul", "admin"));
        final List<Object> days = new ArrayList<>();
        for (int i = r.range(1, 4); i > 0; i--) days.add(r.chance(0.5) ? "D:" + date() : "s:" + date());
        if (r.chance(0.5)) m.put("days", listed(days));
        if (r.chance(0.9)) m.put("nums", listed(nums));
        if (r.chance(0.9)) m.put("tags", listed(tags));
        final Map<String, Object> u = new LinkedHashMap<>();
        u.put("age", "i:" + r.range(1, 70));
        u.put("name", "s:" + word());
        u.put("addr", Json.obj("zip", "i:" + r.range(1, 9), "city", "s:" + word(), "since", "D:" + date()));
        if (r.chance(0.9)) m.put("u", u);
        if (cases) {
            for (final Map<String, Object> x : list(m, u)) {
                for (final String f : list(x.keySet().toArray(new String[0]))) {
                    if (!r.chance(0.5)) continue;
                    for (int i = r.range(1, 2); i > 0; i--) x.putIfAbsent(recased(f), f.equals("name") || list(STRS).contains(f) ? "s:" + word() : x.get(f) instanceof String && ((String) x.get(f)).startsWith("i:") ? "i:" + r.range(-5, 70) : x.get(f));
                    if (r.chance(0.3)) x.remove(f);
                }
            }
        }
        return m;
    }

    private String recased(final String f) {
        final String u = f.toUpperCase(java.util.Locale.ROOT), l = f.toLowerCase(java.util.Locale.ROOT);
        return r.pick(u, l, u.substring(0, 1) + l.substring(1), l.substring(0, f.length() - 1) + u.substring(f.length() - 1));
    }

    /** A field's name, perhaps written differently. */
    private String named(final String f) { return cases && r.chance(0.35) ? recased(f) : f; }

    public String num() { return r.chance(texty ? 0.5 : 0.85) ? "i:" + (odd && r.chance(0.2) ? r.range(0, 9) + r.pick(256, 65536, 1 << 30) : r.range(-5, 40)) : odd && r.chance(0.6) ? odd() : r.chance(0.5) ? "l:" + (1L << 33) : "s:" + r.range(1, 30); }

    public String dec() {
        if (tight && !decs.isEmpty() && r.chance(0.9)) return decs.get(0).substring(0, decs.get(0).indexOf('.') + 1) + r.pick("0", "5", "50", "49", "51", "00", "500");
        final String x = anyDec();
        return r.chance(0.08) ? x + "0" : r.chance(0.04) ? x + "01" : x;
    }

    private String anyDec() { return again(decs, () -> r.range(0, 60) + "." + r.pick("0", "5", "25", "99", "10")); }

    public String version() {
        if (tight && !versions.isEmpty() && r.chance(0.9)) {
            final String x = versions.get(0);
            return r.chance(0.4) ? x : x.substring(0, x.lastIndexOf('.') + 1) + r.pick("0", "1", "10", "2", "02", "1.0");
        }
        final String x = anyVersion();
        return r.chance(0.08) ? x + "0" : r.chance(0.06) ? x.substring(0, x.lastIndexOf('.')) + ".0" : r.chance(0.04) ? x + ".0" : x;
    }

    private String anyVersion() { return again(versions, () -> r.range(0, 3) + "." + r.range(0, 12) + "." + r.range(0, 12)); }

    public String date() {
        if (changeDay != null && r.chance(0.9)) return changeDay;
        if (tight && !dates.isEmpty() && r.chance(0.9)) {
            final java.time.LocalDate x = java.time.LocalDate.parse(dates.get(0));
            return (r.chance(0.6) ? x : tightUnit == 0 ? x.plusDays(r.range(-1, 1)) : tightUnit == 1 ? x.plusMonths(r.range(-1, 1)) : x.plusYears(r.range(-1, 1))).toString();
        }
        final String x = again(dates, () -> (2020 + r.below(7)) + "-" + String.format(java.util.Locale.ROOT, "%02d-%02d", r.range(1, 12), r.range(1, 28)));
        return r.chance(0.15) ? java.time.LocalDate.parse(x).plusDays(r.pick(-1, 1)).toString() : r.chance(0.08) ? java.time.LocalDate.parse(x).plusYears(r.pick(-1, 1)).toString()
            : r.chance(0.04) ? java.time.LocalDate.parse(x).plusMonths(r.pick(-1, 1)).toString() : x;
    }

    public String time() {
        if (changeDay != null && r.chance(0.9)) return r.pick(CHANGE_TIMES);
        if (tight && !times.isEmpty() && r.chance(0.9)) {
            final java.time.LocalTime x = java.time.LocalTime.parse(times.get(0));
            return (r.chance(0.4) ? x : tightUnit == 0 ? x.withSecond(r.below(60)) : tightUnit == 1 ? x.withMinute(r.below(60)) : x.withHour(r.below(24))).format(java.time.format.DateTimeFormatter.ofPattern("HH:mm:ss", java.util.Locale.ROOT));
        }
        final String x = again(times, this::someTime);
        final java.time.LocalTime t = java.time.LocalTime.parse(x);
        // near misses: another second of the same minute, another minute of the same hour, twelve hours apart
        final java.time.LocalTime u = r.chance(0.3) ? t.withSecond(r.below(60)) : r.chance(0.1) ? t.withMinute(r.below(60)) : r.chance(0.05) ? t.plusHours(12) : t;
        return u.format(java.time.format.DateTimeFormatter.ofPattern("HH:mm:ss", java.util.Locale.ROOT));
    }

    private String someTime() { return String.format(java.util.Locale.ROOT, "%02d:%02d:%02d", r.below(24), r.below(60), r.below(60)); }

    public String quote(final String s) { return r.chance(0.8) || s.contains("'") ? "'" + s + "'" : "\"" + s + "\""; }

    private String kw(final String s) { return r.chance(0.5) ? s : s.toLowerCase(java.util.Locale.ROOT); }

    /** Values of kinds the library gives no special treatment, and values between kinds. */
    public String odd() {
        switch (r.below(10)) {
            case 0: return "g:" + r.range(0, 30) + r.pick(".0", ".5", ".25");
            case 1: return "h:" + r.range(0, 30);
            case 2: return "y:" + r.range(0, 30);
            case 3: return "G:" + r.range(0, 30);
            case 4: return "c:" + r.pick("x", "5", "y");
            case 5: return "k:" + word();
            case 6: return "e:" + r.pick("MONDAY", "FRIDAY");
            case 7: return "n:";
            case 8: return "x:" + r.range(0, 3);
            default: return "l:" + r.range(0, 30);
        }
    }

    public String cmp() { return r.pick("=", "!=", ">", ">=", "<", "<="); }

    public String intField() { return named(someInt()); }

    public String strField() { return named(someStr()); }

    private String someInt() { return r.chance(0.12) ? "u.age" : r.chance(0.08) ? "u.addr.zip" : r.chance(0.06) ? "missing" : r.pick(INTS); }

    private String someStr() { return r.chance(0.12) ? "u.name" : r.chance(0.08) ? "u.addr.city" : r.chance(0.05) ? "gone" : r.pick(STRS); }

    /** A boolean condition on its own. */
    public String leaf() {
        switch (kind(clock ? 27 : 25, leafs)) {
            case 0: case 1: return intField() + " " + cmp() + " " + r.range(-2, 30);
            case 2: return strField() + " " + r.pick("=", "!=") + " " + quote(word());
            case 3: return r.pick(DECS) + " " + cmp() + " " + dec();
            case 4: return "v " + cmp() + " " + version();
            case 5: return "d " + cmp() + " " + (r.chance(0.7) ? date() : quote(date()));
            case 6: return "dt " + cmp() + " " + (r.chance(0.6) ? date() + " " + time() : quote(date() + " " + time()));
            case 7: return intField() + " " + r.range(0, 8) + " " + kw("TO") + " " + r.range(5, 40);
            case 8: return r.chance(0.5) ? r.pick(DECS) + " " + dec() + " " + kw("TO") + " " + dec()
                : strField() + " " + (r.chance(0.3) ? kw("NOT") + " " : "") + kw("IN") + " (" + quote(word()) + ", " + quote(word()) + ", " + quote(word()) + ")";
            case 9: return intField() + " " + kw("IN") + " (" + item(9) + ", " + item(20) + ", " + item(30) + ")";
            case 10: return "tags " + kw(r.pick("CONTAINS_ANY", "CONTAINS_ALL")) + " (" + quote(r.pick("x", "y", "sale", "new")) + (r.chance(0.6) ? ", " + quote(r.pick("Istanbul", "admin", "y")) : "") + ")";
            case 11: return "nums " + kw(r.pick("CONTAINS_ANY", "CONTAINS_ALL")) + " (" + item(9) + (r.chance(0.6) ? ", " + item(9) : "") + ")";
            case 12: return r.pick("a", "s", "gone", "u.name", "missing", "d") + " " + r.pick("=", "!=") + " null";
            case 13: return r.chance(0.5) ? "flag = " + r.pick("true", "false", "TRUE") : "ok = " + r.pick("true", "false");
            case 14: return r.pick(INTS) + " " + cmp() + " " + r.pick("(" + r.pick(INTS) + " + " + r.range(1, 9) + ")", kw("MIN") + " (" + r.pick(INTS) + ", " + r.range(1, 9) + ")",
                                                                         kw("LEN") + " (" + r.pick("s", "tags") + ")", kw("SUM") + " (" + r.pick(INTS) + ", " + r.range(1, 4) + ")");
            case 15: return "d " + (r.chance(0.3) ? kw("NOT") + " " : "") + kw("IN") + " (" + date() + ", " + date() + (r.chance(0.3) ? ", '" + date() + "'" : "") + ")";
            case 16: return "dt " + (r.chance(0.3) ? "= " + date() + " " + time() : kw("IN") + " (" + date() + " " + time() + ", " + date() + " " + time() + ")");
            case 17: return "v " + kw("IN") + " (" + version() + ", " + version() + ")";
            case 18: return "days " + kw(r.pick("CONTAINS_ANY", "CONTAINS_ALL")) + " (" + date() + (r.chance(0.5) ? ", " + date() : "") + ")";
            case 19: return r.pick(INTS) + " " + cmp() + " " + r.pick(r.pick(INTS), r.pick(DECS), "u.age", "s");
            case 20: return r.pick("a", "(a + b)", "(a * 2)", "(p - q)") + " " + cmp() + " (" + r.pick(INTS) + " " + r.pick("+", "-", "*", "/", "%") + " " + r.pick(INTS) + ")";
            case 21: return kw(r.pick("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE")) + " (" + r.pick("nums", many(r.range(2, 6)), r.pick(INTS) + ", nums") + ") " + cmp() + " " + r.range(0, 30);
            case 22: return (r.chance(0.5) ? strField() : "nums") + " " + kw("IN") + " (" + r.pick("a, b, c", "s, t", "nums", "tags, 'x'") + ")";
            case 23: return intField() + " " + kw("IN") + " (" + numbers(r.chance(0.2) ? r.range(10, 40) : r.range(4, 8)) + ")";
            case 24: return (r.chance(0.5) ? kw("NOT") + " (" : "(") + r.pick("flag", "ok", "v " + cmp() + " " + version(), strField() + " = " + r.pick(STRS)) + ")";
            default: return "DAYS_ELAPSED(" + r.pick("d", date(), "u.addr.since") + ") " + cmp() + " " + r.range(-400, 2200);
        }
    }

    /** Arguments of a function. */
    private String many(final int n) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) b.append(i == 0 ? "" : ", ").append(r.chance(0.45) ? r.pick(INTS) : r.chance(0.15) ? r.pick(DECS) : r.chance(0.1) ? dec() : String.valueOf(r.range(0, 30)));
        return b.toString();
    }

    /** An item of a list: a number, or something to be calculated. */
    private String item(final int n) {
        if (r.chance(0.7)) return String.valueOf(r.range(1, n));
        switch (r.below(6)) {
            case 0: return r.range(0, 4) + " " + r.pick("+", "*", "-") + " " + r.range(1, 4);
            case 1: return "(" + r.range(0, 4) + " + " + r.range(1, 4) + ")";
            case 2: return kw(r.pick("MIN", "MAX", "SUM")) + " (" + r.range(1, 5) + ", " + r.range(1, 5) + ")";
            case 3: return r.pick(INTS) + " + " + r.range(1, 4);
            case 4: return "-" + r.range(1, 5);
            default: return kw(r.pick("MIN", "MAX")) + " (" + r.pick(INTS) + ", " + r.range(1, 5) + ")";
        }
    }

    private String numbers(final int n) {
        final StringBuilder b = new StringBuilder();
        for (int i = 0; i < n; i++) b.append(i == 0 ? "" : ", ").append(r.range(0, 40));
        return b.toString();
    }

    /** A full boolean expression. */
    public String bool() {
        switch (plain && r.chance(0.75) ? 0 : r.chance(0.04) ? 9 : r.chance(0.07) ? 10 : r.below(6)) {
            case 0: case 1: return leaf();
            case 2: return "(" + leaf() + ") " + r.pick("AND", "and", "&&") + " (" + leaf() + ")";
            case 3: return "(" + leaf() + ") " + r.pick("OR", "or", "||") + " (" + leaf() + ")";
            case 4: return "(" + leaf() + " " + kw("AND") + " " + leaf() + ") " + kw("OR") + " " + kw("NOT") + " (" + leaf() + ")";
            case 9: {
                // many conditions
                if (r.chance(0.2)) return huge();
                final StringBuilder b = new StringBuilder("(" + leaf() + ")");
                for (int i = r.range(4, 11); i > 0; i--) b.append(r.pick(" AND ", " OR ")).append("(" + leaf() + ")");
                return b.toString();
            }
            case 10: return shape();
            default: return "((" + leaf() + ") AND ((" + leaf() + ") OR (" + leaf() + "))) OR (" + leaf() + ")";
        }
    }

    /** Long literals, long lists, dozens of conditions. */
    public String huge() {
        final StringBuilder b = new StringBuilder();
        switch (r.below(4)) {
            case 0: {
                for (int i = r.pick(20, 40, 130); i > 0; i--) b.append(r.pick("lorem", "ipsum", "dolor ", "sit-", "x")).append(i % 7);
                return strField() + " " + r.pick("=", "!=") + " '" + b + "'";
            }
            case 1: {
                final boolean ints = r.chance(0.5);
                b.append(ints ? intField() : strField()).append(' ').append(kw("IN")).append(" (");
                for (int i = r.pick(33, 70, 140); i > 0; i--) b.append(ints ? String.valueOf(i * 2) : quote("k" + i)).append(", ");
                return b + (ints ? String.valueOf(r.range(-2, 30)) : quote(word())) + ")";
            }
            case 2: {
                final String f = intField();
                for (int i = r.pick(17, 33); i > 0; i--) b.append("(" + f + " = " + i + ") " + r.pick("OR", "or") + " ");
                return b + "(" + leaf() + ")";
            }
            default: {
                b.append("(" + leaf() + ")");
                for (int i = r.range(12, 24); i > 0; i--) b.append(r.pick(" AND ", " OR ")).append("(" + leaf() + ")");
                return b.toString();
            }
        }
    }

    /** Functions of many arguments, long sums. */
    public String hugeArith() {
        final StringBuilder b = new StringBuilder();
        if (r.chance(0.6)) {
            b.append(r.pick("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE")).append(" (").append(intField());
            for (int i = r.pick(33, 70, 140); i > 0; i--) b.append(", ").append(r.range(1, 60));
            return b + ")";
        }
        b.append(intField());
        for (int i = r.pick(17, 33); i > 0; i--) b.append(r.pick(" + ", " - ")).append(i);
        return b.toString();
    }

    /** Unusual shapes: deep, without parentheses, chained, spread over lines. */
    private String shape() {
        final StringBuilder b = new StringBuilder();
        switch (r.below(8)) {
            case 0: {
                final int n = r.pick(3, 8, 20, 45);
                for (int i = 0; i < n; i++) b.append('(');
                b.append(leaf());
                for (int i = 0; i < n; i++) b.append(')');
                return b.toString();
            }
            case 1: {
                final int n = r.pick(2, 3, 6);
                for (int i = 0; i < n; i++) b.append(kw("NOT")).append(" (");
                b.append(leaf());
                for (int i = 0; i < n; i++) b.append(')');
                return b.toString();
            }
            case 2: {
                b.append(leaf());
                for (int i = r.range(2, 6); i > 0; i--) b.append(' ').append(r.pick("AND", "OR", "and", "or", "&&", "||")).append(r.chance(0.2) ? " NOT " : " ").append(leaf());
                return b.toString();
            }
            case 3: return r.pick(INTS) + " " + cmp() + " " + r.pick(INTS) + " " + cmp() + " " + r.range(0, 9);
            case 4: return "(" + leaf() + ") " + r.pick("=", "!=") + " " + r.pick("true", "false", "(" + leaf() + ")");
            case 5: return leaf().replace(" ", r.pick("  ", "\n", "\t", " \r\n "));
            case 6: {
                // nested to the right, nested to the left
                final int n = r.range(2, 7);
                for (int i = 0; i < n; i++) b.append("(" + leaf() + ") ").append(r.pick("AND", "OR")).append(" (");
                b.append(leaf());
                for (int i = 0; i < n; i++) b.append(')');
                return b.toString();
            }
            default: return r.pick(INTS) + " " + cmp() + " " + chain();
        }
    }

    /** A calculation that relies on which operator binds more tightly. */
    private String chain() {
        final StringBuilder b = new StringBuilder(r.pick(INTS));
        for (int i = r.range(2, 5); i > 0; i--) b.append(' ').append(r.pick("+", "-", "*", "/", "%", "^")).append(' ').append(r.chance(0.5) ? r.pick(INTS) : r.chance(0.2) ? dec() : String.valueOf(r.range(1, 4)));
        return b.toString();
    }

    public String arith() {
        if (r.chance(0.05)) return chain();
        switch (kind(clock ? 18 : 17, ariths)) {
            case 0: return intField() + " " + r.pick("+", "-", "*", "/", "%", "^") + " " + r.range(1, 5);
            case 1: return r.pick(DECS) + " " + r.pick("+", "-", "*", "/") + " " + r.pick(INTS);
            case 2: return "(" + r.pick(INTS) + " + " + r.pick(INTS) + ") * (" + r.pick(INTS) + " - " + r.range(1, 5) + ")";
            case 3: return kw("MIN") + "(" + r.pick(INTS) + ", " + r.range(1, 30) + ", " + r.pick(INTS) + ")";
            case 4: return kw("MAX") + "(nums)";
            case 5: return kw("SUM") + "(nums)";
            case 6: return kw("AVG") + "(" + r.pick(INTS) + ", " + r.range(1, 9) + ", " + r.range(1, 9) + ")";
            case 7: return kw("MEDIAN") + "(nums)";
            case 8: return kw("MODE") + "(nums)";
            case 9: return kw("INT") + "(" + r.pick(DECS) + ")";
            case 10: return kw("LEN") + "(" + r.pick("s", "tags", "nums", "'hello'") + ")";
            case 11: return "((5 * 2) + " + r.pick(INTS) + ") * 2 + (1 + 3 * (" + r.pick(INTS) + " / 2))";
            case 12: return kw("MAX") + "(1, 2, " + kw("MIN") + "(5, 7, " + r.pick(INTS) + "))";
            case 13: return r.pick("-" + r.pick(INTS), kw("MEAN") + "(nums)", r.pick(INTS), "5 + 5", "u.age * 2", kw("AVG") + "(" + r.pick(DECS) + ", " + r.pick(INTS) + ")");
            case 14: return kw(r.pick("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE", "MEAN")) + "(" + many(r.chance(0.12) ? r.range(9, 40) : r.range(4, 7)) + ")";
            case 15: return kw(r.pick("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE")) + "(" + r.pick("nums, " + many(2), "nums, nums", r.pick(INTS) + ", nums", "days") + ")";
            case 16: return "(" + r.pick(DECS) + " " + r.pick("+", "-", "*", "/") + " " + dec() + ") " + r.pick("+", "-", "*", "/", "^") + " " + r.pick(r.pick(INTS), r.pick(DECS), "2");
            default: return "DAYS_ELAPSED(" + r.pick("d", date()) + ")" + (r.chance(0.4) ? " + " + r.range(1, 9) : "");
        }
    }

    public static final String[] BAD = {"a >", "(a = 1", "AND", "", "a = 1 AND", "= 5", ">= 3", "IN (1, 2)", "foo(1)", "a = 1)", "NOT", "1 TO 5", "min()", "min(", "a IN ()", "((a > 1)", "a = 'x", "5 + ",
        "a CONTAINS_ANY 5", "@#", "   ", "a b c", "max(a = 1, 2)", "a > 99999999999999999999"};

    public String bad() { return r.pick(BAD); }

    public String def() { return r.chance(0.6) ? null : r.pick("a", "s", "", "b", "u.age", "tags", "x", "a_b"); }

    /** Expressions that only make sense with a default field. */
    public String defaulted() { return r.pick(">= 5", "< 18", "= 'x'", "!= 'active'", "= 5", "> (b + 1)", ">= 5 AND <= 20", "> 3 OR a = 1"); }

    /** A call of an evaluator or parser object. */
    public Op call(final Case c, final int obj) {
        final String kind = c.objs.get(obj).kind;
        final Op o;
        if (kind.equals("bool")) {
            o = new Op("evalB");
            o.x = r.chance(0.08) ? bad() : r.chance(0.1) ? defaulted() : r.chance(0.04) ? arith() : bool();
            o.def = def();
            o.arity = o.def == null && r.chance(0.5) ? 2 : 3;
            o.data = r.below(c.data.size());
        } else if (kind.equals("arith")) {
            o = new Op("evalA");
            o.x = r.chance(0.08) ? bad() : r.chance(0.04) ? bool() : arith();
            o.data = r.below(c.data.size());
        } else {
            o = new Op("parse");
            o.x = r.chance(0.1) ? bad() : r.chance(0.12) ? defaulted() : r.chance(0.7) ? bool() : arith();
            o.def = def();
            o.arity = o.def == null && r.chance(0.5) ? 1 : 2;
        }
        o.obj = obj;
        return o;
    }

    private static final String[][] VARYING = {{"int", "a", "a > 5"}, {"int", null, "a > #"}, {"int", "a", "a 5 TO 500"}, {"int", null, "a IN (#, 7)"}, {"int", "b", "b IN (1, 5, 77, 300)"}, {"dec", "p", "p < 5.5"}, {"dec", null, "p >= #"},
        {"str", "s", "s = 'w5'"}, {"str", null, "s = 'w#'"}, {"str", "s", "s IN ('w1', 'w77', 'w300')"}, {"date", "d", "d > 2020-06-01"}, {"date", null, "d > #"}, {"date", "d", "d IN (2020-01-05, 2021-01-05)"},
        {"time", "dt", "dt > 2024-01-05 01:00:00"}, {"time", null, "dt < #"}, {"ver", "v", "v > 1.5.10"}, {"ver", null, "v < #"}, {"int", null, "a > > #"}, {"str", null, "w# ="}, {"str", null, "w# = 1"}, {"int", null, "tags CONTAINS_ANY ('k#', 'x')"},
        {"int", null, "nums CONTAINS_ALL (#, 1)"}, {"str", "s", "s = null"}, {"int", null, "(a = #) OR (b > 3)"}, {"int", null, "a > (b + #)"}};
    private static final String[][] VARYING_ARITH = {{"int", "a", "a + 2"}, {"int", null, "a + #"}, {"int", "a", "MIN (a, b, 3)"}, {"int", null, "SUM (a, #, nums)"}, {"dec", "p", "p * 2"}, {"dec", null, "p - #"}, {"str", "s", "LEN (s)"}, {"int", null, "a / # +"},
        {"str", null, "w# + 1"}, {"dec", "p", "MEDIAN (p, 1.5, a)"}, {"int", "a", "MODE (a, 3, b)"}, {"str", "s", "s + 1"}};

    /** Thousands of calls of one kind. */
    public Op repeat(final Case c, final List<Integer> objs) {
        final Op o = new Op("repeat");
        final Map<String, Object> v = new LinkedHashMap<>();
        if (r.chance(0.5)) {
            final Op x = call(c, r.pick(objs));
            if (r.chance(0.35)) x.x = bad();
            o.f = x.k;
            o.obj = x.obj;
            o.x = x.x;
            o.data = x.data;
            v.put("def", x.def);
        } else {
            o.obj = r.pick(objs);
            final String k = c.objs.get(o.obj).kind;
            o.f = k.equals("bool") ? "evalB" : k.equals("arith") ? "evalA" : "parse";
            final String[] w = o.f.equals("evalA") ? r.pick(VARYING_ARITH) : r.pick(VARYING);
            o.x = w[2];
            v.put("kind", w[0]);
            if (!o.f.equals("parse")) {
                o.data = r.below(c.data.size());
                if (w[1] != null) { v.put("set", w[1]); v.put("typed", r.chance(0.5)); }
            }
        }
        o.v = v;
        o.n = r.pick(40, 140, 300, 700, 1500, 5000, 20000, 70000);
        return o;
    }

    /** Request families whose members are easily confused with each other. */
    public List<String[]> confusable() {
        final List<String[]> l = new ArrayList<>();
        switch (r.below(9)) {
            case 0: {
                // text moved between expression and default field
                final String x = r.pick("= 5", "a", "a > 1", "> 3", "a = 's'", "= a");
                for (final String sep : new String[] {"_", "|", ":", ",", "#", "-", ";", "/", "\u0000", " ", "$", "@", "::", "."}) {
                    if (!r.chance(0.35) && !sep.equals("_")) continue;
                    l.add(new String[] {x, "b" + sep + "c"});
                    l.add(new String[] {x + sep + "b", "c"});
                }
                l.add(new String[] {x, "bc"});
                l.add(new String[] {x + "b", "c"});
                break;
            }
            case 1: {
                final String x = r.pick("= 5", ">= 18 AND <= 65", "!= 'x'", "a = 1", "> (a + 1)", "b > 2 OR = 3");
                for (final String d : new String[] {null, "", " ", "a", "A", "b", "null", "s", "_", "a.b"}) l.add(new String[] {x, d});
                break;
            }
            case 2: {
                final String x = r.pick("s = 'x'", "s = 'Istanbul' AND a > 1", "Title = 'INFO'");
                l.add(new String[] {x, null});
                l.add(new String[] {x.toUpperCase(java.util.Locale.ROOT), null});
                l.add(new String[] {x.toLowerCase(java.util.Locale.ROOT), null});
                l.add(new String[] {x.replace('\'', '"'), null});
                l.add(new String[] {x.replace("x", "X"), null});
                break;
            }
            case 3:
                for (final String x : new String[] {"s = 'a b'", "s = 'ab'", "s = 'a  b'", "s= 'a b'", "s ='a b'", " s = 'a b'", "s = 'a b' ", "s = ' a b'", "s = 'a b '", "s = 'a\tb'", "s = 'a\nb'", "s = \"a b\""}) if (r.chance(0.6)) l.add(new String[] {x, null});
                break;
            case 4: {
                // equal hash codes
                final String[] h = {"Aa", "BB"};
                for (int i = 0; i < 4; i++) l.add(new String[] {"s = '" + h[i & 1] + h[i >> 1] + "'", null});
                for (int i = 0; i < 4; i++) l.add(new String[] {h[i & 1] + h[i >> 1] + " = 5", r.chance(0.5) ? null : "a"});
                l.add(new String[] {"= 5", "Aa"});
                l.add(new String[] {"= 5", "BB"});
                break;
            }
            case 5: {
                // long shared prefixes and suffixes
                final StringBuilder b = new StringBuilder("s IN ('k0'");
                for (int i = 1; i < r.pick(12, 60, 150); i++) b.append(", 'k").append(i).append('\'');
                for (final String e : new String[] {"", ", 'x'", ", 'y'", ", 'x', 'y'"}) l.add(new String[] {b + e + ")", null});
                l.add(new String[] {b.substring(0, b.length() - 1) + "z')", null});
                l.add(new String[] {"s IN ('j0'" + b.substring(10) + ")", null});
                // as long, with the same ends: one character of the text differs
                final String w = b + ")";
                for (int i = r.range(1, 3); i > 0; i--) {
                    final int at = r.chance(0.5) ? w.length() / 2 + r.range(-3, 3) : r.range(7, w.length() - 2);
                    final int digit = at + w.substring(at).indexOf('k') + 1;
                    if (digit > at) l.add(new String[] {w.substring(0, digit) + (char) (w.charAt(digit) == '9' ? '8' : w.charAt(digit) + 1) + w.substring(digit + 1), null});
                }
                if (r.chance(0.5)) {
                    final StringBuilder o = new StringBuilder();
                    final int m = r.pick(20, 40, 70);
                    final String f = r.pick("a", "b");
                    for (int i = 0; i < m; i++) o.append("(").append(f).append(" = ").append(100 + i).append(") OR ");
                    final int at = o.indexOf(String.valueOf(100 + r.below(m)));
                    for (final String v : new String[] {"977", "024", "-18"}) l.add(new String[] {o.substring(0, at) + v + o.substring(at + 3) + "(s = 'x')", null});
                }
                break;
            }
            case 6: {
                for (final String n : new String[] {"1", "1.0", "01", "1.00", "1.0.0", "'1'", "\"1\"", "true", "2024-01-01", "'2024-01-01'", "null", "'null'"}) if (r.chance(0.7)) l.add(new String[] {"a = " + n, null});
                break;
            }
            case 7: {
                for (final String x : new String[] {"(a = 1) OR (b = 2)", "(a = 1) AND (b = 2)", "(b = 2) OR (a = 1)", "(a = 2) OR (b = 1)", "(a = 1) or (b = 2)", "a = 1 OR b = 2", "(a = 1) || (b = 2)", "NOT (a = 1)", "a = 1", "a != 1", "b = 2"}) if (r.chance(0.7)) l.add(new String[] {x, r.chance(0.8) ? null : "a"});
                break;
            }
            default: {
                for (int i = 0; i < 5; i++) l.add(new String[] {bad(), def()});
                final String x = bool();
                l.add(new String[] {x, null});
                l.add(new String[] {x + ")", null});
                l.add(new String[] {"(" + x, null});
                l.add(new String[] {"(" + x + ")", null});
                l.add(new String[] {null, null});
                l.add(new String[] {"null", null});
                l.add(new String[] {"", null});
                l.add(new String[] {"", "null"});
                l.add(new String[] {"null_", null});
                l.add(new String[] {null, "a"});
                l.add(new String[] {"null", "a"});
            }
        }
        return l;
    }

    public static <T> List<T> list(final T... x) { return new ArrayList<>(Arrays.asList(x)); }
}
