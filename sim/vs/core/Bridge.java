package vs.core;

import java.util.Map;

/** The public API of the code under test, as one simulated process sees it. Implemented inside that process. */
public interface Bridge {
    Object parser();

    Object cached(int size);

    /** A caller-supplied parser in front of another; ctl decides what each call does. */
    Object unreliable(Object delegate, UnreliableControl ctl);

    Object boolEval(Object parser);

    Object arithEval(Object parser);

    Outcome evalB(Object ev, String x, Map<String, Object> data, String def, int arity);

    Outcome evalA(Object ev, String x, Map<String, Object> data);

    Outcome parse(Object parser, String x, String def, int arity);

    /** Deep text of a parse tree. */
    String dump(Object node);

    /** Registers a custom handler for a data type; tag identifies it. */
    void register(String dataType, String tag, HandlerControl ctl);

    /** Tag of the handler in force for a data type, or "default". */
    String handler(String dataType);

    interface HandlerControl {
        /** The library consults a registered handler. */
        void before(String dataType);
    }

    interface UnreliableControl {
        /** null: answer normally; otherwise the failure to answer with. */
        Throwable before(String x, String def);

        /** The expression this call's answer is the tree of. */
        String rewrite(String x);
    }
}
