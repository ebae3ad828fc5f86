package vs.bridge;

import java.util.List;
import java.util.Map;
import java.util.Optional;
import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.constant.DataType;
import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
import com.github.sidhant92.boolparser.datatype.BooleanDataType;
import com.github.sidhant92.boolparser.datatype.DateDataType;
import com.github.sidhant92.boolparser.datatype.DateTimeDataType;
import com.github.sidhant92.boolparser.datatype.DecimalDataType;
import com.github.sidhant92.boolparser.datatype.IntegerDataType;
import com.github.sidhant92.boolparser.datatype.LongDataType;
import com.github.sidhant92.boolparser.datatype.StringDataType;
import com.github.sidhant92.boolparser.datatype.VersionDataType;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import vs.core.Bridge;
import vs.core.Outcome;
import vs.core.Val;
import vs.rt.Hook;

public final class BridgeImpl implements Bridge {
    @Override public Object parser() { return new BoolParser(); }

    @Override public Object cached(final int size) { return new CachedBoolParser(size); }

    @Override public Object unreliable(final Object delegate, final UnreliableControl ctl) {
        final BoolExpressionParser d = (BoolExpressionParser) delegate;
        return new BoolExpressionParser() {
            @Override public Try<Node> parseExpression(final String x, final String def) {
                final Throwable t = ctl.before(x, def);
                if (t != null) return Try.failure(t);
                return d.parseExpression(ctl.rewrite(x), def);
            }

            @Override public Try<Node> parseExpression(final String x) { return parseExpression(x, null); }
        };
    }

    @Override public Object boolEval(final Object p) { return new BooleanExpressionEvaluator((BoolExpressionParser) p); }

    @Override public Object arithEval(final Object p) { return new ArithmeticExpressionEvaluator((BoolExpressionParser) p); }

    @Override public Outcome evalB(final Object ev, final String x, final Map<String, Object> data, final String def, final int arity) {
        final Try<Boolean> r;
        try {
            r = arity == 2 ? ((BooleanExpressionEvaluator) ev).evaluate(x, data) : ((BooleanExpressionEvaluator) ev).evaluate(x, data, def);
        } catch (final Throwable t) {
            return Outcome.thrown(t);
        }
        return value(r);
    }

    @Override public Outcome evalA(final Object ev, final String x, final Map<String, Object> data) {
        final Try<Object> r;
        try {
            r = ((ArithmeticExpressionEvaluator) ev).evaluate(x, data);
        } catch (final Throwable t) {
            return Outcome.thrown(t);
        }
        return value(r);
    }

    private Outcome value(final Try<?> r) {
        if (r == null) return Outcome.success("null result", null);
        if (r.isFailure()) return Outcome.failure(r.getCause());
        return Outcome.success(Val.show(r.get()), r.get());
    }

    @Override public Outcome parse(final Object p, final String x, final String def, final int arity) {
        final Try<Node> r;
        try {
            r = arity == 1 ? ((BoolExpressionParser) p).parseExpression(x) : ((BoolExpressionParser) p).parseExpression(x, def);
        } catch (final Throwable t) {
            return Outcome.thrown(t);
        }
        if (r == null) return Outcome.success("null result", null);
        if (r.isFailure()) return Outcome.failure(r.getCause());
        return Outcome.success(dump(r.get()), r.get());
    }

    @Override public String dump(final Object n) {
        Hook.noYield++;
        try {
            final StringBuilder b = new StringBuilder();
            d(b, (Node) n);
            return b.toString();
        } finally {
            Hook.noYield--;
        }
    }

    private void list(final StringBuilder b, final List<Node> l) {
        b.append('[');
        for (final Node x : l) { d(b, x); b.append(','); }
        b.append(']');
    }

    private void d(final StringBuilder b, final Node n) {
        if (n == null) { b.append("nil"); return; }
        if (n instanceof ComparisonNode) {
            final ComparisonNode c = (ComparisonNode) n;
            b.append("cmp(");
            d(b, c.getLeft());
            b.append(' ').append(c.getOperator()).append(' ');
            d(b, c.getRight());
            b.append(' ').append(c.getDataType()).append(')');
        } else if (n instanceof BooleanNode) {
            final BooleanNode c = (BooleanNode) n;
            b.append("bool(");
            d(b, c.getLeft());
            b.append(' ').append(c.getOperator()).append(' ');
            d(b, c.getRight());
            b.append(')');
        } else if (n instanceof NumericRangeNode) {
            final NumericRangeNode c = (NumericRangeNode) n;
            b.append("range(").append(c.getField()).append(' ').append(Val.show(c.getFromValue())).append(' ').append(Val.show(c.getToValue()))
             .append(' ').append(c.getFromDataType()).append(' ').append(c.getToDataType()).append(')');
        } else if (n instanceof InNode) {
            b.append("in(").append(((InNode) n).getField()).append(' ');
            list(b, ((InNode) n).getItems());
            b.append(')');
        } else if (n instanceof ArrayNode) {
            final ArrayNode c = (ArrayNode) n;
            b.append("arr(").append(c.getField()).append(' ').append(c.getOperator()).append(' ');
            list(b, c.getItems());
            b.append(')');
        } else if (n instanceof UnaryNode) {
            b.append("lit(").append(((UnaryNode) n).getDataType()).append(' ').append(Val.show(((UnaryNode) n).getValue())).append(')');
        } else if (n instanceof FieldNode) {
            b.append("field(").append(((FieldNode) n).getField()).append(')');
        } else if (n instanceof ArithmeticNode) {
            final ArithmeticNode c = (ArithmeticNode) n;
            b.append("arith(");
            d(b, c.getLeft());
            b.append(' ').append(c.getOperator()).append(' ');
            d(b, c.getRight());
            b.append(')');
        } else if (n instanceof ArithmeticFunctionNode) {
            final ArithmeticFunctionNode c = (ArithmeticFunctionNode) n;
            b.append("fn(").append(c.getFunctionType()).append(' ');
            list(b, c.getItems());
            b.append(')');
        } else {
            b.append(n.getClass().getSimpleName());
        }
    }

    @Override public void register(final String dataType, final String tag, final HandlerControl ctl) {
        switch (dataType) {
            case "STRING": DataTypeFactory.register(new Str(tag, ctl)); break;
            case "INTEGER": DataTypeFactory.register(new Int(tag, ctl)); break;
            case "LONG": DataTypeFactory.register(new Lng(tag, ctl)); break;
            case "DECIMAL": DataTypeFactory.register(new Dec(tag, ctl)); break;
            case "VERSION": DataTypeFactory.register(new Ver(tag, ctl)); break;
            case "BOOLEAN": DataTypeFactory.register(new Bool(tag, ctl)); break;
            case "DATE": DataTypeFactory.register(new Dat(tag, ctl)); break;
            case "DATETIME": DataTypeFactory.register(new DatT(tag, ctl)); break;
            default: throw new IllegalArgumentException(dataType);
        }
    }

    @Override public String handler(final String dataType) {
        final Object h = DataTypeFactory.getDataType(DataType.valueOf(dataType));
        return h instanceof Tagged ? ((Tagged) h).tag() : h == null ? "none" : "default";
    }

    interface Tagged { String tag(); }

    /** Case-insensitive strings. */
    static final class Str extends StringDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Str(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("STRING"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("STRING"); return super.isValid(v, strict); }
        @Override public Optional<String> getValue(final Object v) { ctl.before("STRING"); return super.getValue(v).map(s -> s.toLowerCase(java.util.Locale.ROOT)); }
    }

    /** Integers that also read hexadecimal text. */
    static final class Int extends IntegerDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Int(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        private boolean hex(final Object v) { return v instanceof String && ((String) v).startsWith("0x"); }
        @Override public boolean isValid(final Object v) { ctl.before("INTEGER"); return hex(v) || super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("INTEGER"); return super.isValid(v, strict); }
        @Override public Optional<Integer> getValue(final Object v) { ctl.before("INTEGER"); return hex(v) ? Optional.of(Integer.parseInt(((String) v).substring(2), 16)) : super.getValue(v); }
    }

    /** Even numbers only. */
    static final class Lng extends LongDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Lng(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("LONG"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("LONG"); return super.isValid(v, strict); }
        @Override public Optional<Long> getValue(final Object v) { ctl.before("LONG"); return super.getValue(v).map(x -> x & ~1L); }
    }

    /** Decimals rounded to one place. */
    static final class Dec extends DecimalDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Dec(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("DECIMAL"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("DECIMAL"); return super.isValid(v, strict); }
        @Override public Optional<java.math.BigDecimal> getValue(final Object v) { ctl.before("DECIMAL"); return super.getValue(v).map(x -> x.setScale(1, java.math.RoundingMode.HALF_UP)); }
    }

    /** Versions. */
    static final class Ver extends VersionDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Ver(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("VERSION"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("VERSION"); return super.isValid(v, strict); }
        @Override public Optional<org.apache.maven.artifact.versioning.ComparableVersion> getValue(final Object v) { ctl.before("VERSION"); return super.getValue(v); }
    }

    /** Booleans. */
    static final class Bool extends BooleanDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Bool(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("BOOLEAN"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("BOOLEAN"); return super.isValid(v, strict); }
        @Override public Optional<Boolean> getValue(final Object v) { ctl.before("BOOLEAN"); return super.getValue(v); }
    }

    /** Months. */
    static final class Dat extends DateDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        Dat(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("DATE"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("DATE"); return super.isValid(v, strict); }
        @Override public Optional<java.time.LocalDate> getValue(final Object v) { ctl.before("DATE"); return super.getValue(v).map(x -> x.withDayOfMonth(1)); }
    }

    /** Days. */
    static final class DatT extends DateTimeDataType implements Tagged {
        final String tag;
        final HandlerControl ctl;
        DatT(final String tag, final HandlerControl ctl) { this.tag = tag; this.ctl = ctl; }
        @Override public String tag() { return tag; }
        @Override public boolean isValid(final Object v) { ctl.before("DATETIME"); return super.isValid(v); }
        @Override public boolean isValid(final Object v, final boolean strict) { ctl.before("DATETIME"); return super.isValid(v, strict); }
        @Override public Optional<java.time.LocalDateTime> getValue(final Object v) { ctl.before("DATETIME"); return super.getValue(v).map(x -> x.withHour(0)); }
    }
}
