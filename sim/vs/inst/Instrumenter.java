package vs.inst;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.TypeInsnNode;

/**
 * Puts the seams in: yield points, fault points, simulated monitors, clocks, executors and randomness. Works on class
 * files at load time, so neither /repo's sources nor its shipped classes change.
 */
public final class Instrumenter implements Opcodes {
    private static final String HOOK = "vs/rt/Hook";

    public enum Level { REPO, CACHE, ANTLR, PLAIN, JDK }

    public static final class Site {
        public final String cls, method, kind;
        public final int line;
        Site(final String cls, final String method, final int line, final String kind) { this.cls = cls; this.method = method; this.line = line; this.kind = kind; }
        @Override public String toString() { return cls.substring(cls.lastIndexOf('/') + 1) + "." + method + ":" + line + " " + kind; }
    }

    /** Sites of the repository's own classes, indexed by site id. */
    public final List<Site> sites = new ArrayList<>();
    /** Library sites, by id. */
    public final Map<Integer, Site> libSites = new HashMap<>();
    /** What the sites of field, array and collection accesses touch. */
    public final Map<Integer, vs.rt.Learn.Access> access = new HashMap<>();

    /** Every collection of the code under test is a copy, not only those that are kept. */
    public static boolean ALL;

    public Instrumenter() {
        for (int i = 0; i < vs.rt.Hook.FIRST_SITE; i++) sites.add(new Site(i == vs.rt.Hook.SITE_FORMAT ? "java/text" : "sim", new String[] {"?", "map", "clock", "lookup", "op", "lock", "executor", "format"}[Math.min(i, 7)], 0, ""));
    }

    public String cls(final int site) {
        final Site s = site >= 0 && site < sites.size() ? sites.get(site) : libSites.get(site);
        return s == null ? "lib" : s.cls;
    }

    public String describe(final int site) {
        if (site >= 0 && site < sites.size()) return sites.get(site).toString();
        final Site s = libSites.get(site);
        return s == null ? "site" + site : s.toString();
    }

    // ---- class initialisation: a simulated protocol, so that threads can be suspended inside static initialisers ----

    /** Classes of the code under test, and those of them that have a static initialiser of their own. */
    private final Map<String, String> supers = new HashMap<>();
    private final Set<String> initialised = new HashSet<>();
    private final Map<String, Set<String>> statics = new HashMap<>();

    /** Called with every class of the code under test before any of them is transformed. */
    public void learn(final byte[] in) {
        final ClassNode cn = new ClassNode();
        new ClassReader(in).accept(cn, ClassReader.SKIP_CODE | ClassReader.SKIP_DEBUG);
        supers.put(cn.name, cn.superName);
        final Set<String> f = new HashSet<>();
        for (final org.objectweb.asm.tree.FieldNode n : cn.fields) if ((n.access & ACC_STATIC) != 0) f.add(n.name);
        statics.put(cn.name, f);
        if ((cn.access & ACC_INTERFACE) == 0) for (final MethodNode m : cn.methods) if (m.name.equals("<clinit>")) initialised.add(cn.name);
    }

    /** The class whose initialisation comes with that of the given one, or null. */
    private String initOf(final String cls) {
        for (String c = cls; c != null; c = supers.get(c)) if (initialised.contains(c)) return c;
        return null;
    }

    /** The class whose initialisation an access to the static field starts, or null. */
    private String initOf(final String owner, final String field) {
        for (String c = owner; c != null; c = supers.get(c)) if (statics.getOrDefault(c, Set.of()).contains(field)) return initOf(c);
        return null;
    }

    /** The harness classes that are loaded with the code under test: only made to start its initialisers. */
    public byte[] bridge(final byte[] in) {
        final ClassReader cr = new ClassReader(in);
        final ClassWriter cw = new ClassWriter(cr, ClassWriter.COMPUTE_MAXS);
        cr.accept(new ClassVisitor(ASM9, cw) {
            @Override public MethodVisitor visitMethod(final int access, final String n, final String d, final String sig, final String[] ex) {
                return new MethodVisitor(ASM9, super.visitMethod(access, n, d, sig, ex)) {
                    @Override public void visitFieldInsn(final int op, final String owner, final String f, final String fd) {
                        final String i = op == GETSTATIC || op == PUTSTATIC ? initOf(owner, f) : null;
                        if (i != null) mv.visitMethodInsn(INVOKESTATIC, i, "vs$init", "()V", false);
                        super.visitFieldInsn(op, owner, f, fd);
                    }
                };
            }
        }, 0);
        return cw.toByteArray();
    }

    public byte[] transform(final byte[] in, final Level level, final int libBase) {
        final ClassReader cr = new ClassReader(in);
        final Map<String, Set<Integer>> kept = level == Level.REPO ? kept(cr) : Map.of();
        final ClassWriter cw = new ClassWriter(cr, ClassWriter.COMPUTE_MAXS);
        cr.accept(new CV(cw, level, libBase, kept), 0);
        return cw.toByteArray();
    }

    private static final String WRAP = "vs/jdk/w/";
    private static final Set<String> LISTS = Set.of("ArrayList", "LinkedList", "ArrayDeque");
    private static final Map<String, String> FORMATS = Map.of("java/text/SimpleDateFormat", "vs/rt/SimDateFormat", "java/text/DecimalFormat", "vs/rt/SimDecimalFormat",
        "java/util/concurrent/ThreadPoolExecutor", "vs/rt/SimPool$Tpe", "java/util/concurrent/ScheduledThreadPoolExecutor", "vs/rt/SimPool$Stpe", "java/util/concurrent/ForkJoinPool", "vs/rt/SimPool$Fjp",
        "java/util/Timer", "vs/rt/SimPool$Tim");

    private static final java.util.Set<String> TEXTS = java.util.Set.of("java/lang/String", "java/lang/StringBuilder", "java/lang/StringBuffer", "java/lang/AbstractStringBuilder", "java/lang/CharSequence");
    private static final java.util.Set<String> SEARCHES = java.util.Set.of("indexOf", "lastIndexOf", "contains", "matches", "split", "toCharArray", "chars", "getBytes", "contentEquals");
    private static final java.util.Set<String> CHANGES = java.util.Set.of("insert", "delete", "deleteCharAt", "replace", "reverse");
    private static final java.util.Set<String> WALKS = java.util.Set.of("contains", "containsAll", "indexOf", "lastIndexOf", "containsValue", "remove", "removeAll", "removeIf", "retainAll", "size", "add", "addIfAbsent", "set");

    static String standIn(final String owner) {
        if (!owner.startsWith("java/util/")) return null;
        final String s = owner.substring(10);
        return JdkCopies.WRAPPED.contains(s) ? WRAP + s : null;
    }

    /** Objects with a state of their own that several steps of one call may go through. */
    private static boolean mutable(final String o) {
        return o.startsWith("java/util/concurrent/atomic/") || MUTABLE.contains(o);
    }

    private static final Set<String> MUTABLE = Set.of("java/lang/StringBuilder", "java/lang/StringBuffer", "java/util/BitSet", "java/util/regex/Matcher", "java/util/Random", "java/util/Calendar", "java/util/Date",
        "java/util/GregorianCalendar", "java/security/MessageDigest", "java/util/zip/CRC32", "java/nio/ByteBuffer", "java/nio/CharBuffer", "java/util/Scanner", "java/util/StringTokenizer", "java/util/StringJoiner",
        "java/util/Iterator", "java/util/ListIterator", "java/util/Map", "java/util/EnumMap", "java/util/IdentityHashMap", "java/util/List", "java/util/Set", "java/util/Collection", "java/util/Deque", "java/util/Queue",
        "java/util/PriorityQueue", "java/util/EnumSet", "java/util/SortedMap", "java/util/NavigableMap", "java/util/Formatter", "java/text/Collator", "java/text/MessageFormat", "java/text/ChoiceFormat");

    /** Which NEW instructions (by their position in the method) build a collection that is worth simulating: one that outlives the method. */
    private static Map<String, Set<Integer>> kept(final ClassReader cr) {
        final ClassNode cn = new ClassNode();
        cr.accept(cn, ClassReader.SKIP_FRAMES);
        final Map<String, Set<Integer>> out = new HashMap<>();
        for (final MethodNode m : cn.methods) {
            final Set<Integer> l = new HashSet<>();
            int i = 0;
            for (AbstractInsnNode a = m.instructions.getFirst(); a != null; a = a.getNext()) {
                if (a.getOpcode() != NEW) continue;
                final int at = i++;
                final String t = ((TypeInsnNode) a).desc;
                if (standIn(t) == null) continue;
                if (!LISTS.contains(t.substring(10)) || m.name.startsWith("<") || m.name.startsWith("lambda$")) { l.add(at); continue; }
                // a list: only when it goes into a field
                int depth = 0;
                for (AbstractInsnNode b = a; b != null; b = b.getNext()) {
                    if (b.getOpcode() == NEW && ((TypeInsnNode) b).desc.equals(t)) depth++;
                    if (b instanceof MethodInsnNode && ((MethodInsnNode) b).name.equals("<init>") && ((MethodInsnNode) b).owner.equals(t) && --depth == 0) {
                        AbstractInsnNode n = next(b);
                        while (n instanceof MethodInsnNode && ((MethodInsnNode) n).owner.equals("java/util/Collections")) n = next(n);
                        if (n != null && (n.getOpcode() == PUTFIELD || n.getOpcode() == PUTSTATIC)) l.add(at);
                        break;
                    }
                }
            }
            out.put(m.name + m.desc, l);
        }
        return out;
    }

    private static AbstractInsnNode next(final AbstractInsnNode a) {
        AbstractInsnNode n = a.getNext();
        while (n != null && n.getOpcode() < 0) n = n.getNext();
        return n;
    }

    private final class CV extends ClassVisitor {
        final Map<String, Set<Integer>> kept;
        final Level level;
        final int libBase;
        int libNext;
        String name, superName;
        int version;
        boolean isInterface;

        CV(final ClassVisitor cv, final Level level, final int libBase, final Map<String, Set<Integer>> kept) { super(ASM9, cv); this.level = level; this.libBase = libBase; this.kept = kept; }

        int site(final String method, final int line, final String kind) {
            final Site s = new Site(name, method, line, kind);
            if (level == Level.REPO) {
                sites.add(s);
                return sites.size() - 1;
            }
            final int id = libBase + (libNext++ & 4095);
            libSites.put(id, s);
            return id;
        }

        @Override public void visit(final int v, final int access, final String n, final String sig, final String sup, final String[] itf) {
            name = n;
            version = v;
            isInterface = (access & ACC_INTERFACE) != 0;
            superName = sup;
            super.visit(v, access, n, sig, parent(sup), itf);
        }

        private boolean moved() { return level == Level.REPO && initialised.contains(name); }

        @Override public org.objectweb.asm.FieldVisitor visitField(final int access, final String n, final String d, final String sig, final Object v) {
            // what the moved initialiser assigns cannot be final
            return super.visitField(moved() && (access & ACC_STATIC) != 0 ? access & ~ACC_FINAL : access, n, d, sig, v);
        }

        @Override public void visitEnd() {
            if (moved()) {
                super.visitField(ACC_PRIVATE | ACC_STATIC | ACC_SYNTHETIC | ACC_VOLATILE, "vs$done", "Z", null, null);
                final MethodVisitor mv = super.visitMethod(ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC, "vs$init", "()V", null, null);
                final Label s = new Label(), e = new Label(), h = new Label(), end = new Label();
                final boolean frames = (version & 0xffff) >= 50;
                mv.visitCode();
                mv.visitTryCatchBlock(s, e, h, null);
                mv.visitFieldInsn(GETSTATIC, name, "vs$done", "Z");
                mv.visitJumpInsn(IFNE, end);
                mv.visitLdcInsn(Type.getObjectType(name));
                mv.visitMethodInsn(INVOKESTATIC, HOOK, "initBegin", "(Ljava/lang/Class;)Z", false);
                mv.visitJumpInsn(IFEQ, end);
                mv.visitLabel(s);
                final String up = initOf(superName);
                if (up != null) mv.visitMethodInsn(INVOKESTATIC, up, "vs$init", "()V", false);
                mv.visitMethodInsn(INVOKESTATIC, name, "vs$clinit", "()V", false);
                mv.visitInsn(ICONST_1);
                mv.visitFieldInsn(PUTSTATIC, name, "vs$done", "Z");
                mv.visitLabel(e);
                mv.visitLdcInsn(Type.getObjectType(name));
                mv.visitInsn(ACONST_NULL);
                mv.visitMethodInsn(INVOKESTATIC, HOOK, "initEnd", "(Ljava/lang/Class;Ljava/lang/Throwable;)V", false);
                mv.visitJumpInsn(GOTO, end);
                mv.visitLabel(h);
                if (frames) mv.visitFrame(F_FULL, 0, new Object[0], 1, new Object[] {"java/lang/Throwable"});
                mv.visitVarInsn(ASTORE, 0);
                mv.visitLdcInsn(Type.getObjectType(name));
                mv.visitVarInsn(ALOAD, 0);
                mv.visitMethodInsn(INVOKESTATIC, HOOK, "initEnd", "(Ljava/lang/Class;Ljava/lang/Throwable;)V", false);
                mv.visitLabel(end);
                if (frames) mv.visitFrame(F_FULL, 0, new Object[0], 0, new Object[0]);
                mv.visitInsn(RETURN);
                mv.visitMaxs(2, 1);
                mv.visitEnd();
            }
            super.visitEnd();
        }

        /** Simulated stand-in of a JDK superclass. */
        String parent(final String sup) {
            if ("java/util/concurrent/ConcurrentHashMap".equals(sup)) return "vs/rt/SimCHM";
            if (level == Level.REPO && sup != null) {
                if (standIn(sup) != null) return standIn(sup);
                if (FORMATS.containsKey(sup)) return FORMATS.get(sup);
            }
            return sup;
        }

        @Override public MethodVisitor visitMethod(int access, final String n, final String d, final String sig, final String[] ex) {
            if (name.endsWith("/caffeine/cache/StripedBuffer") && (n.equals("getProbe") || n.equals("advanceProbe"))) {
                final MethodVisitor mv = super.visitMethod(access, n, d, sig, ex);
                mv.visitCode();
                if (n.equals("advanceProbe")) mv.visitVarInsn(ILOAD, 0);
                mv.visitMethodInsn(INVOKESTATIC, HOOK, n, d, false);
                mv.visitInsn(IRETURN);
                mv.visitMaxs(1, 1);
                mv.visitEnd();
                return null;
            }
            String target = n;
            if (n.equals("<clinit>") && moved()) return new MV(super.visitMethod(ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC, "vs$clinit", d, null, ex), this, n, d, null);
            final String init = level == Level.REPO && ((access & ACC_STATIC) != 0 || n.equals("<init>")) && !n.startsWith("lambda$") && !isInterface ? initOf(name) : null;
            if ((access & ACC_SYNCHRONIZED) != 0 && (access & (ACC_NATIVE | ACC_ABSTRACT)) == 0) {
                target = n + "$sync";
                wrapper(access & ~ACC_SYNCHRONIZED, n, target, d, sig, ex);
                access = (access & ~(ACC_SYNCHRONIZED | ACC_PUBLIC | ACC_PROTECTED)) | ACC_PRIVATE | ACC_SYNTHETIC;
                return new MV(super.visitMethod(access, target, d, null, ex), this, n, d, null);
            }
            final MethodVisitor mv = super.visitMethod(access, n, d, sig, ex);
            return mv == null ? null : new MV(mv, this, n, d, init);
        }

        /** n(args) { monEnter(lock); try { return n$sync(args); } finally { monExit(lock); } } */
        private void wrapper(final int access, final String n, final String target, final String d, final String sig, final String[] ex) {
            final MethodVisitor mv = super.visitMethod(access, n, d, sig, ex);
            final boolean st = (access & ACC_STATIC) != 0;
            final Type[] args = Type.getArgumentTypes(d);
            final Type ret = Type.getReturnType(d);
            mv.visitCode();
            final Label s = new Label(), e = new Label(), h = new Label();
            mv.visitTryCatchBlock(s, e, h, null);
            if (st && level == Level.REPO && !isInterface && initOf(name) != null) mv.visitMethodInsn(INVOKESTATIC, initOf(name), "vs$init", "()V", false);
            lock(mv, st);
            mv.visitMethodInsn(INVOKESTATIC, HOOK, "monEnter", "(Ljava/lang/Object;)V", false);
            mv.visitLabel(s);
            int l = 0;
            final List<Object> locals = new ArrayList<>();
            if (!st) { mv.visitVarInsn(ALOAD, 0); l = 1; locals.add(name); }
            for (final Type a : args) {
                mv.visitVarInsn(a.getOpcode(ILOAD), l);
                l += a.getSize();
                switch (a.getSort()) {
                    case Type.LONG: locals.add(LONG); break;
                    case Type.DOUBLE: locals.add(DOUBLE); break;
                    case Type.FLOAT: locals.add(FLOAT); break;
                    case Type.ARRAY: case Type.OBJECT: locals.add(a.getInternalName()); break;
                    default: locals.add(INTEGER);
                }
            }
            mv.visitMethodInsn(st ? INVOKESTATIC : INVOKESPECIAL, name, target, d, isInterface);
            mv.visitLabel(e);
            lock(mv, st);
            mv.visitMethodInsn(INVOKESTATIC, HOOK, "monExit", "(Ljava/lang/Object;)V", false);
            mv.visitInsn(ret.getOpcode(IRETURN));
            mv.visitLabel(h);
            if ((version & 0xffff) >= 50) mv.visitFrame(F_FULL, locals.size(), locals.toArray(), 1, new Object[] {"java/lang/Throwable"});
            lock(mv, st);
            mv.visitMethodInsn(INVOKESTATIC, HOOK, "monExit", "(Ljava/lang/Object;)V", false);
            mv.visitInsn(ATHROW);
            mv.visitMaxs(l + 4, l + 2);
            mv.visitEnd();
        }

        private void lock(final MethodVisitor mv, final boolean st) {
            if (st) mv.visitLdcInsn(Type.getObjectType(name)); else mv.visitVarInsn(ALOAD, 0);
        }
    }

    private static final Map<String, String[]> STATIC = new HashMap<>();
    private static void st(final String owner, final String name, final String desc, final String hook) { STATIC.put(owner + "." + name + desc, new String[] {hook, desc}); }
    private static void vi(final String owner, final String name, final String desc, final String hook) {
        STATIC.put(owner + "." + name + desc, new String[] {hook, "(L" + owner + ";" + desc.substring(1)});
    }
    static {
        for (final String x : new String[] {"toSet()", "toUnmodifiableSet()", "groupingBy(Ljava/util/function/Function;)", "groupingBy(Ljava/util/function/Function;Ljava/util/stream/Collector;)",
            "toMap(Ljava/util/function/Function;Ljava/util/function/Function;)", "toMap(Ljava/util/function/Function;Ljava/util/function/Function;Ljava/util/function/BinaryOperator;)"}) {
            final String n = x.substring(0, x.indexOf('('));
            st("java/util/stream/Collectors", n, x.substring(n.length()) + "Ljava/util/stream/Collector;", n);
        }
        st("java/lang/System", "nanoTime", "()J", "nanoTime");
        st("java/lang/System", "currentTimeMillis", "()J", "currentTimeMillis");
        st("java/lang/System", "identityHashCode", "(Ljava/lang/Object;)I", "identityHash");
        st("java/time/Instant", "now", "()Ljava/time/Instant;", "instantNow");
        for (final String[] p : new String[][] {{"LocalDate", "localDateNow"}, {"LocalDateTime", "localDateTimeNow"}, {"LocalTime", "localTimeNow"},
            {"ZonedDateTime", "zonedDateTimeNow"}, {"OffsetDateTime", "offsetDateTimeNow"}}) {
            st("java/time/" + p[0], "now", "()Ljava/time/" + p[0] + ";", p[1]);
            st("java/time/" + p[0], "now", "(Ljava/time/ZoneId;)Ljava/time/" + p[0] + ";", p[1]);
        }
        st("java/time/Year", "now", "()Ljava/time/Year;", "yearNow");
        st("java/time/YearMonth", "now", "()Ljava/time/YearMonth;", "yearMonthNow");
        st("java/time/Clock", "systemDefaultZone", "()Ljava/time/Clock;", "systemDefaultZone");
        st("java/time/Clock", "systemUTC", "()Ljava/time/Clock;", "systemUTC");
        st("java/time/Clock", "system", "(Ljava/time/ZoneId;)Ljava/time/Clock;", "system");
        st("java/util/Calendar", "getInstance", "()Ljava/util/Calendar;", "calendarGetInstance");
        st("java/lang/Thread", "sleep", "(J)V", "sleep");
        st("java/lang/Thread", "sleep", "(Ljava/time/Duration;)V", "sleep");
        st("java/lang/Thread", "yield", "()V", "yieldThread");
        st("java/lang/Thread", "onSpinWait", "()V", "yieldThread");
        st("java/lang/Thread", "holdsLock", "(Ljava/lang/Object;)Z", "holdsLock");
        vi("java/util/concurrent/TimeUnit", "sleep", "(J)V", "sleep");
        vi("java/lang/Thread", "start", "()V", "threadStart");
        vi("java/lang/Thread", "join", "()V", "threadJoin");
        vi("java/lang/Thread", "join", "(J)V", "threadJoin");
        st("java/util/concurrent/CompletableFuture", "runAsync", "(Ljava/lang/Runnable;)Ljava/util/concurrent/CompletableFuture;", "runAsync");
        st("java/util/concurrent/CompletableFuture", "supplyAsync", "(Ljava/util/function/Supplier;)Ljava/util/concurrent/CompletableFuture;", "supplyAsync");
        st("java/util/concurrent/CompletableFuture", "delayedExecutor", "(JLjava/util/concurrent/TimeUnit;Ljava/util/concurrent/Executor;)Ljava/util/concurrent/Executor;", "delayedExecutor");
        st("java/util/concurrent/CompletableFuture", "delayedExecutor", "(JLjava/util/concurrent/TimeUnit;)Ljava/util/concurrent/Executor;", "delayedExecutor");
        vi("java/lang/reflect/Method", "invoke", "(Ljava/lang/Object;[Ljava/lang/Object;)Ljava/lang/Object;", "reflect");
        final String ex = "java/util/concurrent/Executors", es = ")Ljava/util/concurrent/ExecutorService;", ss = ")Ljava/util/concurrent/ScheduledExecutorService;", tf = "Ljava/util/concurrent/ThreadFactory;";
        st(ex, "newCachedThreadPool", "(" + es, "newCached");
        st(ex, "newVirtualThreadPerTaskExecutor", "(" + es, "newCached");
        st(ex, "newCachedThreadPool", "(" + tf + es, "newCached");
        st(ex, "newThreadPerTaskExecutor", "(" + tf + es, "newCached");
        st(ex, "newSingleThreadExecutor", "(" + es, "newSingle");
        st(ex, "newSingleThreadExecutor", "(" + tf + es, "newSingle");
        st(ex, "newFixedThreadPool", "(I" + es, "newFixed");
        st(ex, "newFixedThreadPool", "(I" + tf + es, "newFixed");
        st(ex, "newWorkStealingPool", "(" + es, "newStealing");
        st(ex, "newWorkStealingPool", "(I" + es, "newStealing");
        st(ex, "newScheduledThreadPool", "(I" + ss, "newScheduled");
        st(ex, "newScheduledThreadPool", "(I" + tf + ss, "newScheduled");
        st(ex, "newSingleThreadScheduledExecutor", "(" + ss, "newSingleScheduled");
        st(ex, "newSingleThreadScheduledExecutor", "(" + tf + ss, "newSingleScheduled");
        final String ft = "Ljava/util/concurrent/ForkJoinTask;", fp = "java/util/concurrent/ForkJoinPool", cf = "java/util/concurrent/CompletableFuture";
        vi(fp, "invoke", "(" + ft + ")Ljava/lang/Object;", "fjpInvoke");
        vi(fp, "submit", "(" + ft + ")" + ft, "fjpSubmit");
        vi(fp, "submit", "(Ljava/util/concurrent/Callable;)" + ft, "fjpSubmit");
        vi(fp, "submit", "(Ljava/lang/Runnable;)" + ft, "fjpSubmit");
        vi(cf, "orTimeout", "(JLjava/util/concurrent/TimeUnit;)L" + cf + ";", "orTimeout");
        vi(cf, "completeOnTimeout", "(Ljava/lang/Object;JLjava/util/concurrent/TimeUnit;)L" + cf + ";", "completeOnTimeout");
        vi("java/util/concurrent/ForkJoinPool", "execute", "(Ljava/lang/Runnable;)V", "fjpExecute");
        st("java/util/concurrent/ThreadLocalRandom", "current", "()Ljava/util/concurrent/ThreadLocalRandom;", "tlrCurrent");
        vi("java/util/concurrent/ThreadLocalRandom", "nextInt", "()I", "tlrNextInt");
        vi("java/util/concurrent/ThreadLocalRandom", "nextInt", "(I)I", "tlrNextInt");
        vi("java/util/concurrent/ThreadLocalRandom", "nextInt", "(II)I", "tlrNextInt");
        vi("java/util/concurrent/ThreadLocalRandom", "nextLong", "()J", "tlrNextLong");
        vi("java/util/concurrent/ThreadLocalRandom", "nextDouble", "()D", "tlrNextDouble");
        vi("java/util/concurrent/ThreadLocalRandom", "nextBoolean", "()Z", "tlrNextBoolean");
        st("java/lang/Thread", "startVirtualThread", "(Ljava/lang/Runnable;)Ljava/lang/Thread;", "startVirtual");
        final String tu = "Ljava/util/concurrent/TimeUnit;";
        for (final String o : new String[] {"Lock", "ReentrantLock", "ReentrantReadWriteLock$ReadLock", "ReentrantReadWriteLock$WriteLock"}) {
            STATIC.put("java/util/concurrent/locks/" + o + ".tryLock(J" + tu + ")Z", new String[] {"tryLock", "(Ljava/util/concurrent/locks/Lock;J" + tu + ")Z"});
        }
        vi("java/util/concurrent/locks/StampedLock", "tryWriteLock", "(J" + tu + ")J", "tryWriteLock");
        vi("java/util/concurrent/locks/StampedLock", "tryReadLock", "(J" + tu + ")J", "tryReadLock");
        vi("java/util/concurrent/Semaphore", "tryAcquire", "(J" + tu + ")Z", "tryAcquire");
        vi("java/util/concurrent/Semaphore", "tryAcquire", "(IJ" + tu + ")Z", "tryAcquire");
        vi("java/util/concurrent/CountDownLatch", "await", "(J" + tu + ")Z", "await");
        for (final String o : new String[] {"Future", "CompletableFuture", "FutureTask", "RunnableFuture"}) {
            STATIC.put("java/util/concurrent/" + o + ".get(J" + tu + ")Ljava/lang/Object;", new String[] {"futureGet", "(Ljava/util/concurrent/Future;J" + tu + ")Ljava/lang/Object;"});
        }
        for (final String o : new String[] {"BlockingQueue", "LinkedBlockingQueue", "ArrayBlockingQueue"}) {
            STATIC.put("java/util/concurrent/" + o + ".poll(J" + tu + ")Ljava/lang/Object;", new String[] {"queuePoll", "(Ljava/util/concurrent/BlockingQueue;J" + tu + ")Ljava/lang/Object;"});
        }
        st("java/util/concurrent/locks/LockSupport", "parkNanos", "(J)V", "parkNanos");
        st("java/util/concurrent/locks/LockSupport", "parkNanos", "(Ljava/lang/Object;J)V", "parkNanos");
        st("java/lang/Math", "random", "()D", "mathRandom");
        st("java/util/Objects", "hashCode", "(Ljava/lang/Object;)I", "hashNull");
        st("java/util/Objects", "hash", "([Ljava/lang/Object;)I", "hashAll");
        st("java/util/Arrays", "hashCode", "([Ljava/lang/Object;)I", "hashAll");
        st("java/util/Collections", "shuffle", "(Ljava/util/List;)V", "shuffle");
        for (final String m : new String[] {"maxMemory", "totalMemory", "freeMemory"}) vi("java/lang/Runtime", m, "()J", m);
        vi("java/lang/Thread", "threadId", "()J", "threadId");
        vi("java/lang/Thread", "getId", "()J", "threadId");
        st("java/util/Locale", "setDefault", "(Ljava/util/Locale;)V", "setDefaultLocale");
        st("java/util/Locale", "setDefault", "(Ljava/util/Locale$Category;Ljava/util/Locale;)V", "setDefaultLocale");
        st("java/util/TimeZone", "setDefault", "(Ljava/util/TimeZone;)V", "setDefaultZone");
        st("java/lang/System", "setOut", "(Ljava/io/PrintStream;)V", "setOut");
        st("java/lang/System", "setErr", "(Ljava/io/PrintStream;)V", "setErr");
        st("java/lang/System", "setIn", "(Ljava/io/InputStream;)V", "setIn");
        st("java/lang/System", "setProperty", "(Ljava/lang/String;Ljava/lang/String;)Ljava/lang/String;", "setProperty");
        st("java/lang/System", "clearProperty", "(Ljava/lang/String;)Ljava/lang/String;", "clearProperty");
        st("java/lang/Thread", "setDefaultUncaughtExceptionHandler", "(Ljava/lang/Thread$UncaughtExceptionHandler;)V", "setUncaught");
        vi("java/lang/Thread", "setName", "(Ljava/lang/String;)V", "threadName");
        vi("java/lang/Thread", "setContextClassLoader", "(Ljava/lang/ClassLoader;)V", "threadLoader");
        vi("java/lang/Thread", "setPriority", "(I)V", "threadPriority");
        st("java/lang/System", "exit", "(I)V", "exit");
        vi("java/lang/Runtime", "exit", "(I)V", "exit");
        vi("java/lang/Runtime", "halt", "(I)V", "exit");
        st("java/util/UUID", "randomUUID", "()Ljava/util/UUID;", "randomUUID");
    }

    private final class MV extends MethodVisitor {
        final CV c;
        final String m;
        final boolean clinit, init;
        final boolean lambdaOrPlain;
        int line;
        int pendingChm;
        boolean superCalled;
        /** Objects created but not yet initialised at this point. */
        int constructing;

        final Set<Integer> keptHere;
        int news;
        /** Classes being constructed, innermost last; the class written in place of it or null. */
        final java.util.ArrayDeque<String[]> pending = new java.util.ArrayDeque<>();

        /** A static initialiser turned into a method; and the class to initialise on entry. */
        final boolean moved;
        final String initFirst;

        MV(final MethodVisitor mv, final CV c, final String m, final String d, final String initFirst) {
            super(ASM9, mv);
            this.c = c;
            this.m = m;
            this.initFirst = initFirst;
            moved = m.equals("<clinit>") && c.moved();
            clinit = m.equals("<clinit>") && !moved;
            init = m.equals("<init>");
            lambdaOrPlain = !clinit && !init && !moved;
            keptHere = c.kept.getOrDefault(m + d, Set.of());
        }

        private boolean repo() { return c.level == Level.REPO; }

        private void y(final String kind) {
            if (clinit) return;
            mv.visitLdcInsn(c.site(m, line, kind));
            mv.visitMethodInsn(INVOKESTATIC, HOOK, "y", "(I)V", false);
        }

        /** A yield point before an access; the object accessed is on top of the stack unless the field is static. */
        private void acc(final String kind, final String owner, final String name, final char k, final boolean st) {
            if (clinit) return;
            final int id = c.site(m, line, kind);
            access.put(id, new vs.rt.Learn.Access(owner, name, k, moved));
            if (st) mv.visitInsn(ACONST_NULL);
            mv.visitLdcInsn(id);
            mv.visitMethodInsn(INVOKESTATIC, HOOK, "acc", "(Ljava/lang/Object;I)V", false);
        }

        private boolean learns() { return c.level == Level.REPO || c.level == Level.JDK; }

        private void born() {
            if (!learns()) return;
            mv.visitInsn(DUP);
            hook("born", "(Ljava/lang/Object;)V");
        }

        private void hook2(final String cls) { mv.visitMethodInsn(INVOKESTATIC, cls, "vs$init", "()V", false); }

        private void hook(final String n, final String d) { mv.visitMethodInsn(INVOKESTATIC, HOOK, n, d, false); }

        @Override public void visitCode() {
            super.visitCode();
            if (initFirst != null) hook2(initFirst);
            if (clinit) { hook("clinitEnter", "()V"); return; }
            if (repo()) {
                if (lambdaOrPlain) hook("enter", "()V");
                y("entry");
            }
            if (c.level == Level.ANTLR && m.equals("emitEOF") && c.name.equals("org/antlr/v4/runtime/Lexer")) hook("parse", "()V");
        }

        @Override public void visitLineNumber(final int l, final Label s) { line = l; super.visitLineNumber(l, s); }

        @Override public void visitInsn(final int op) {
            switch (op) {
                case MONITORENTER: y("lock"); hook("monEnter", "(Ljava/lang/Object;)V"); return;
                case MONITOREXIT: hook("monExit", "(Ljava/lang/Object;)V"); return;
                case RETURN: if (clinit) hook("clinitExit", "()V"); break;
                case IALOAD: case AALOAD: case BALOAD: case CALOAD: case LALOAD: case DALOAD: case SALOAD: case FALOAD:
                    if (moved) break;
                    if (learns() && !clinit) {
                        mv.visitInsn(DUP2);
                        mv.visitInsn(POP);
                        acc("array", "", "[]", 'a', false);
                    } else if (c.level == Level.CACHE) y("array");
                    break;
                case IASTORE: case AASTORE: case BASTORE: case CASTORE: case SASTORE: case FASTORE:
                    if (moved) break;
                    if (learns() && !clinit) {
                        mv.visitInsn(DUP_X2);
                        mv.visitInsn(POP);
                        mv.visitInsn(DUP2);
                        mv.visitInsn(POP);
                        acc("array", "", "[]", 'A', false);
                        mv.visitInsn(DUP2_X1);
                        mv.visitInsn(POP2);
                    } else if (c.level == Level.CACHE) y("array");
                    break;
                case LASTORE: case DASTORE:
                    if (!moved && (repo() || c.level == Level.CACHE || c.level == Level.JDK)) y("array");
                    break;
                default:
            }
            super.visitInsn(op);
        }

        @Override public void visitIntInsn(final int op, final int operand) {
            if (op == NEWARRAY && repo() && !clinit) hook("alloc", "()V");
            super.visitIntInsn(op, operand);
            if (op == NEWARRAY) born();
        }

        @Override public void visitMultiANewArrayInsn(final String d, final int n) {
            if (repo() && !clinit) hook("alloc", "()V");
            super.visitMultiANewArrayInsn(d, n);
        }

        @Override public void visitTypeInsn(final int op, String type) {
            if ((op == NEW || op == ANEWARRAY) && repo() && !clinit) hook("alloc", "()V");
            if (op == NEW && type.equals("java/util/concurrent/ConcurrentHashMap")) { type = "vs/rt/SimCHM"; pendingChm++; }
            if (op == NEW && repo()) {
                final boolean keep = keptHere.contains(news++) | ALL;
                if (FORMATS.containsKey(type)) { pending.push(new String[] {type, FORMATS.get(type)}); type = FORMATS.get(type); }
                else if (standIn(type) != null) {
                    final String w = keep ? standIn(type) : null;
                    pending.push(new String[] {type, w});
                    if (w != null) type = w;
                }
            }
            if (op == NEW) constructing++;
            super.visitTypeInsn(op, type);
            if (op == ANEWARRAY) born();
        }

        @Override public void visitFieldInsn(final int op, final String owner, final String n, final String d) {
            if (repo() && (op == GETSTATIC || op == PUTSTATIC)) {
                final String i = initOf(owner, n);
                if (i != null && !(moved && i.equals(c.name))) hook2(i);
            }
            switch (c.level) {
                case CACHE: y((op == GETFIELD || op == GETSTATIC ? "read " : "write ") + n); break;
                case REPO: case JDK:
                    if (op == GETSTATIC || op == PUTSTATIC) acc((op == GETSTATIC ? "read " : "write ") + n, owner, n, op == GETSTATIC ? 'r' : 'w', true);
                    else if (init && (owner.equals(c.name) || !superCalled) || clinit) y((op == GETFIELD ? "read " : "write ") + n);
                    else if (op == GETFIELD) {
                        mv.visitInsn(DUP);
                        acc("read " + n, owner, n, 'r', false);
                    } else if (d.equals("J") || d.equals("D")) {
                        mv.visitInsn(DUP2_X1);
                        mv.visitInsn(POP2);
                        mv.visitInsn(DUP);
                        acc("write " + n, owner, n, 'w', false);
                        mv.visitInsn(DUP_X2);
                        mv.visitInsn(POP);
                    } else {
                        mv.visitInsn(DUP2);
                        mv.visitInsn(POP);
                        acc("write " + n, owner, n, 'w', false);
                    }
                    break;
                case ANTLR:
                    if (owner.endsWith("/dfa/DFA") || owner.endsWith("/dfa/DFAState")) y((op == GETFIELD || op == GETSTATIC ? "read " : "write ") + n);
                    break;
                default:
            }
            super.visitFieldInsn(op, owner, n, d);
        }

        @Override public void visitMethodInsn(final int op, String owner, final String n, String d, final boolean itf) {
            if (n.equals("hashCode") && d.equals("()I") && (c.level == Level.REPO || c.level == Level.JDK)) {
                if (op == INVOKEVIRTUAL || op == INVOKEINTERFACE) { hook("hashOf", "(Ljava/lang/Object;)I"); return; }
                if (op == INVOKESPECIAL && (owner.equals("java/lang/Object") || owner.equals("java/lang/Enum"))) { hook("identityHash", "(Ljava/lang/Object;)I"); return; }
            }
            if (repo() && op == INVOKESTATIC && (owner.equals("java/util/Set") || owner.equals("java/util/Map")) && (n.equals("of") || n.equals("copyOf") || n.equals("ofEntries"))) {
                super.visitMethodInsn(op, owner, n, d, itf);
                if (owner.endsWith("Set")) hook("orderedSet", "(Ljava/util/Set;)Ljava/util/Set;"); else hook("orderedMap", "(Ljava/util/Map;)Ljava/util/Map;");
                return;
            }
            if (op == INVOKESPECIAL && n.equals("<init>")) {
                if (owner.equals("java/util/concurrent/ConcurrentHashMap")) {
                    if (pendingChm > 0) { pendingChm--; owner = "vs/rt/SimCHM"; }
                    else if (init && c.superName.equals(owner)) owner = "vs/rt/SimCHM";
                } else if ((owner.equals("java/util/Date") || owner.equals("java/util/Random") || owner.equals("java/util/SplittableRandom")) && d.equals("()V") && !owner.equals(c.superName)) {
                    hook(owner.equals("java/util/Date") ? "currentTimeMillis" : "randomSeed", "()J");
                    d = "(J)V";
                } else if (repo() && (standIn(owner) != null || FORMATS.containsKey(owner))) {
                    if (!pending.isEmpty() && pending.peek()[0].equals(owner)) {
                        final String w = pending.pop()[1];
                        if (w != null) owner = w;
                    } else if (init && owner.equals(c.superName)) owner = c.parent(owner);
                } else if (owner.equals("java/lang/ref/WeakReference") || owner.equals("java/lang/ref/SoftReference")) {
                    // the collector only takes what an injected collection says it takes
                    if (d.equals("(Ljava/lang/Object;)V")) mv.visitInsn(DUP);
                    else { mv.visitInsn(DUP2); mv.visitInsn(POP); }
                    hook("pin", "(Ljava/lang/Object;)V");
                }
                super.visitMethodInsn(op, owner, n, d, itf);
                if (constructing > 0) constructing--;
                else if (init && !superCalled) {
                    superCalled = true;
                    if (learns()) {
                        mv.visitVarInsn(ALOAD, 0);
                        hook("born", "(Ljava/lang/Object;)V");
                    }
                }
                return;
            }
            if (op == INVOKEVIRTUAL && (n.equals("wait") && (d.equals("()V") || d.equals("(J)V")) || (n.equals("notify") || n.equals("notifyAll")) && d.equals("()V"))) {
                y("monitor " + n);
                hook(n, "(Ljava/lang/Object;" + d.substring(1));
                return;
            }
            if (n.equals("parallelStream") && d.equals("()Ljava/util/stream/Stream;")) {
                hook("parallelStream", "(Ljava/util/Collection;)Ljava/util/stream/Stream;");
                return;
            }
            if (n.equals("parallel") && d.startsWith("()Ljava/util/stream/") && !d.contains("/BaseStream")) {
                hook("parallel", "(Ljava/util/stream/BaseStream;)Ljava/util/stream/BaseStream;");
                super.visitTypeInsn(CHECKCAST, d.substring(3, d.length() - 1));
                return;
            }
            if (n.equals("parallel") && d.equals("()Ljava/util/stream/BaseStream;")) { hook("parallel", "(Ljava/util/stream/BaseStream;)Ljava/util/stream/BaseStream;"); return; }
            if (repo() && op == INVOKEVIRTUAL && n.equals("fork") && d.equals("()Ljava/util/concurrent/ForkJoinTask;")) {
                hook("fork", "(Ljava/util/concurrent/ForkJoinTask;)Ljava/util/concurrent/ForkJoinTask;");
                return;
            }
            if (repo() && op == INVOKESTATIC && n.equals("invokeAll") && d.contains("ForkJoinTask") | d.equals("(Ljava/util/Collection;)Ljava/util/Collection;")) { hook("forkAll", d); return; }
            if (repo() && owner.startsWith("java/util/concurrent/Complet") && op != INVOKESTATIC && n.endsWith("Async") && !d.contains("Ljava/util/concurrent/Executor;")) {
                hook("asyncPool", "()Ljava/util/concurrent/Executor;");
                d = d.replace(")", "Ljava/util/concurrent/Executor;)");
            }
            if (op == INVOKESTATIC && repo() && owner.equals("java/util/Collections") && n.startsWith("synchronized")) owner = "vs/jdk/Collections";
            if (repo() && n.equals("availableProcessors") && d.equals("()I")) {
                hook("availableProcessors", "(Ljava/lang/Runtime;)I");
                return;
            }
            if (repo() && op == INVOKESTATIC && owner.equals("java/text/NumberFormat") && n.startsWith("get") && d.endsWith(")Ljava/text/NumberFormat;")) {
                super.visitMethodInsn(op, owner, n, d, itf);
                hook("format", "(Ljava/text/NumberFormat;)Ljava/text/NumberFormat;");
                return;
            }
            if (op == INVOKESTATIC && c.level == Level.CACHE && owner.equals("java/util/concurrent/ForkJoinPool") && n.equals("commonPool")) {
                hook("commonPoolExecutor", "()Ljava/util/concurrent/Executor;");
                return;
            }
            final String[] h = STATIC.get(owner + "." + n + d);
            if (h != null && (op == INVOKESTATIC || op == INVOKEVIRTUAL || op == INVOKEINTERFACE)) {
                hook(h[0], h[1]);
                return;
            }
            if (op != INVOKESPECIAL && (c.level == Level.REPO || c.level == Level.JDK)) bulkBefore(op, owner, n, d);
            if (repo() && !clinit && op != INVOKESTATIC && op != INVOKESPECIAL && mutable(owner)) {
                final Type[] ps = Type.getArgumentTypes(d);
                if (ps.length == 0 || ps.length == 1 && ps[0].getSize() == 1) {
                    if (ps.length == 0) mv.visitInsn(DUP);
                    else { mv.visitInsn(DUP2); mv.visitInsn(POP); }
                    acc("call " + owner.substring(owner.lastIndexOf('/') + 1) + "." + n, owner, n, 'c', false);
                    super.visitMethodInsn(op, owner, n, d, itf);
                    return;
                }
                if (ps.length == 2 && ps[0].getSize() == 1 && ps[1].getSize() == 1 && (owner.startsWith("java/util/") || owner.startsWith("java/lang/"))) {
                    // obj a b -> a b obj obj -> obj a b
                    mv.visitInsn(DUP2_X1);
                    mv.visitInsn(POP2);
                    mv.visitInsn(DUP);
                    acc("call " + owner.substring(owner.lastIndexOf('/') + 1) + "." + n, owner, n, 'c', false);
                    mv.visitInsn(DUP_X2);
                    mv.visitInsn(POP);
                    super.visitMethodInsn(op, owner, n, d, itf);
                    return;
                }
            }
            if ((repo() || c.level == Level.CACHE) && !owner.startsWith("vs/")) y("call " + owner.substring(owner.lastIndexOf('/') + 1) + "." + n);
            super.visitMethodInsn(op, owner, n, d, itf);
            if (op != INVOKESPECIAL && (c.level == Level.REPO || c.level == Level.JDK)) bulkAfter(owner, n, d);
        }

        /** Work the JDK does inside one call that grows with the length of a text, an array or a list. */
        private void bulkBefore(final int op, final String owner, final String n, final String d) {
            final Type[] ps = Type.getArgumentTypes(d);
            if (op == INVOKESTATIC) {
                if (owner.equals("java/lang/System") && n.equals("arraycopy")) {
                    mv.visitInsn(DUP);
                    hook("bulk", "(I)V");
                } else if (owner.equals("java/util/Arrays") && ps.length == 1 && ps[0].getSort() == Type.ARRAY) {
                    mv.visitInsn(DUP);
                    hook("bulk", "(Ljava/lang/Object;)V");
                }
                return;
            }
            final boolean text = TEXTS.contains(owner);
            if (text ? !SEARCHES.contains(n) : !(owner.startsWith("java/util/") && WALKS.contains(n))) return;
            final String h = n.startsWith("add") || n.equals("set") ? "bulkCopied" : "bulk";
            if (ps.length == 0) {
                mv.visitInsn(DUP);
                hook(h, "(Ljava/lang/Object;)V");
            } else if (ps.length == 1 && ps[0].getSize() == 1) {
                mv.visitInsn(DUP2);
                mv.visitInsn(POP);
                hook(h, "(Ljava/lang/Object;)V");
            } else if (ps.length == 2 && ps[0].getSize() == 1 && ps[1].getSize() == 1) {
                mv.visitInsn(DUP2_X1);
                mv.visitInsn(POP2);
                mv.visitInsn(DUP);
                hook(h, "(Ljava/lang/Object;)V");
                mv.visitInsn(DUP_X2);
                mv.visitInsn(POP);
            }
        }

        private void bulkAfter(final String owner, final String n, final String d) {
            final boolean text = TEXTS.contains(owner) && (d.endsWith(")Ljava/lang/String;") || CHANGES.contains(n) && !d.endsWith(")V"));
            final boolean array = d.endsWith(";") && d.contains(")[") && (n.equals("toArray") || owner.equals("java/util/Arrays")) || n.equals("clone") && owner.startsWith("[")
                || owner.equals("java/util/Arrays") && n.startsWith("copyOf") && d.length() - d.indexOf(')') <= 3;
            if (!text && !array) return;
            mv.visitInsn(DUP);
            hook("bulk", "(Ljava/lang/Object;)V");
        }

        @Override public void visitInvokeDynamicInsn(final String n, final String d, final Handle bsm, final Object... args) {
            if (repo() && !clinit) hook("alloc", "()V");
            for (int i = 0; i < args.length; i++) {
                if (!(args[i] instanceof Handle)) continue;
                final Handle h = (Handle) args[i];
                if (h.getTag() == H_NEWINVOKESPECIAL && h.getOwner().equals("java/util/concurrent/ConcurrentHashMap")) {
                    args[i] = new Handle(h.getTag(), "vs/rt/SimCHM", h.getName(), h.getDesc(), false);
                }
                if (repo() && h.getTag() == H_NEWINVOKESPECIAL && (standIn(h.getOwner()) != null || FORMATS.containsKey(h.getOwner()))) {
                    args[i] = new Handle(h.getTag(), standIn(h.getOwner()) != null ? standIn(h.getOwner()) : FORMATS.get(h.getOwner()), h.getName(), h.getDesc(), false);
                }
                if (repo() && h.getTag() == H_INVOKESTATIC && h.getOwner().equals("java/util/Collections") && h.getName().startsWith("synchronized")) {
                    args[i] = new Handle(h.getTag(), "vs/jdk/Collections", h.getName(), h.getDesc(), false);
                }
                final String[] k = STATIC.get(h.getOwner() + "." + h.getName() + h.getDesc());
                if (k != null && (h.getTag() == H_INVOKESTATIC || h.getTag() == H_INVOKEVIRTUAL)) args[i] = new Handle(H_INVOKESTATIC, HOOK, k[0], k[1], false);
            }
            super.visitInvokeDynamicInsn(n, d, bsm, args);
            if ((c.level == Level.REPO || c.level == Level.JDK) && n.equals("makeConcatWithConstants")) {
                mv.visitInsn(DUP);
                hook("bulk", "(Ljava/lang/Object;)V");
            }
        }
    }
}
