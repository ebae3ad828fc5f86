package vs.inst;

import java.io.ByteArrayOutputStream;
import java.io.DataInputStream;
import java.io.DataOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.Map;
import java.util.Set;
import java.util.regex.Matcher;
import java.util.regex.Pattern;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/**
 * The JDK's unsynchronised collections with scheduling points inside. vs.jdk.X is the JDK's own code of java.util.X, renamed and
 * instrumented; vs.jdk.w.X is a java.util.X that hands every call to one. The code under test gets the latter where it builds a
 * collection that is kept in a field, so that a race inside, say, HashMap.resize is explored like one in the repository's code.
 */
public final class JdkCopies implements Opcodes {
    /** Collections the code under test gets a simulated version of. */
    static final Set<String> WRAPPED = Set.of("HashMap", "LinkedHashMap", "TreeMap", "HashSet", "LinkedHashSet", "TreeSet", "ArrayList", "LinkedList", "ArrayDeque", "WeakHashMap", "Hashtable", "Vector", "Stack");
    private static final Set<String> COPIED = new HashSet<>(WRAPPED);
    static {
        COPIED.addAll(Set.of("AbstractMap", "AbstractCollection", "AbstractList", "AbstractSet", "AbstractSequentialList", "AbstractQueue", "Collections"));
    }

    private static final Pattern NAME = Pattern.compile("java/util/([A-Za-z0-9]+)(?![A-Za-z0-9/])");
    private final Map<String, Boolean> hidden = new HashMap<>();

    private static byte[] jdk(final String n) throws IOException {
        try (InputStream in = Object.class.getResourceAsStream("/java/util/" + n + ".class")) { return in == null ? null : in.readAllBytes(); }
    }

    private boolean copied(final String base) {
        if (COPIED.contains(base)) return true;
        return hidden.computeIfAbsent(base, k -> {
            try {
                final byte[] b = jdk(k);
                return b != null && (new ClassReader(b).getAccess() & ACC_PUBLIC) == 0;
            } catch (final IOException e) { return false; }
        });
    }

    private String rename(final String s) {
        if (s.indexOf("java/util/") < 0) return s;
        final Matcher m = NAME.matcher(s);
        final StringBuilder b = new StringBuilder();
        while (m.find()) m.appendReplacement(b, Matcher.quoteReplacement(copied(m.group(1)) ? "vs/jdk/" + m.group(1) : m.group()));
        m.appendTail(b);
        return b.toString();
    }

    /** Class bytes of vs.jdk.* or null. */
    byte[] bytes(final String n) throws IOException {
        if (n.startsWith("vs.jdk.w.")) return wrapper(n.substring(9));
        if (!n.startsWith("vs.jdk.")) return null;
        final byte[] b = jdk(n.substring(7));
        return b == null ? null : renamed(b);
    }

    /** All names live in the constant pool. */
    private byte[] renamed(final byte[] in) throws IOException {
        final DataInputStream d = new DataInputStream(new java.io.ByteArrayInputStream(in));
        final ByteArrayOutputStream bo = new ByteArrayOutputStream();
        final DataOutputStream o = new DataOutputStream(bo);
        o.writeInt(d.readInt());
        o.writeInt(d.readInt());
        final int n = d.readUnsignedShort();
        o.writeShort(n);
        for (int i = 1; i < n; i++) {
            final int t = d.readUnsignedByte();
            o.writeByte(t);
            switch (t) {
                case 1: o.writeUTF(rename(d.readUTF())); break;
                case 3: case 4: case 9: case 10: case 11: case 12: case 17: case 18: o.writeInt(d.readInt()); break;
                case 5: case 6: o.writeLong(d.readLong()); i++; break;
                case 7: case 8: case 16: case 19: case 20: o.writeShort(d.readUnsignedShort()); break;
                case 15: o.writeByte(d.readUnsignedByte()); o.writeShort(d.readUnsignedShort()); break;
                default: throw new IOException("constant " + t);
            }
        }
        d.transferTo(o);
        return bo.toByteArray();
    }

    // ---- wrappers -----------------------------------------------------------------------------------------------

    private byte[] wrapper(final String full) throws IOException {
        final boolean del = full.endsWith("$D");
        final String s = del ? full.substring(0, full.length() - 2) : full;
        if (!WRAPPED.contains(s)) return null;
        return del ? delegate(s) : outer(s);
    }

    private static final String W = "vs/jdk/w/";

    /** The copy, calling back the one method of these classes that is meant to be overridden. */
    private byte[] delegate(final String s) throws IOException {
        final ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        final String me = W + s + "$D", sup = "vs/jdk/" + s;
        cw.visit(V1_8, ACC_PUBLIC, me, null, sup, null);
        cw.visitField(ACC_PUBLIC, "w", "Ljava/lang/Object;", null, null).visitEnd();
        for (final String d : ctors(s)) ctor(cw, sup, d).visitEnd();
        if (s.equals("LinkedHashMap")) {
            final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, "removeEldestEntry", "(Ljava/util/Map$Entry;)Z", null, null);
            mv.visitCode();
            mv.visitVarInsn(ALOAD, 0);
            mv.visitFieldInsn(GETFIELD, me, "w", "Ljava/lang/Object;");
            mv.visitTypeInsn(CHECKCAST, W + s);
            mv.visitVarInsn(ALOAD, 1);
            mv.visitMethodInsn(INVOKEVIRTUAL, W + s, "removeEldestEntry", "(Ljava/util/Map$Entry;)Z", false);
            mv.visitInsn(IRETURN);
            mv.visitMaxs(0, 0);
            mv.visitEnd();
        }
        cw.visitEnd();
        return cw.toByteArray();
    }

    private static MethodVisitor ctor(final ClassWriter cw, final String sup, final String d) {
        final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, "<init>", d, null, null);
        mv.visitCode();
        mv.visitVarInsn(ALOAD, 0);
        args(mv, d);
        mv.visitMethodInsn(INVOKESPECIAL, sup, "<init>", d, false);
        mv.visitInsn(RETURN);
        mv.visitMaxs(0, 0);
        return mv;
    }

    private static void args(final MethodVisitor mv, final String d) {
        int l = 1;
        for (final Type t : Type.getArgumentTypes(d)) { mv.visitVarInsn(t.getOpcode(ILOAD), l); l += t.getSize(); }
    }

    private static final Map<String, Set<String>> CTORS = new HashMap<>();

    /** Public constructors (by descriptor). */
    static Set<String> ctors(final String s) throws IOException {
        synchronized (CTORS) {
            final Set<String> have = CTORS.get(s);
            if (have != null) return have;
            final Set<String> l = new HashSet<>();
            new ClassReader(jdk(s)).accept(new ClassVisitor(ASM9) {
                @Override public MethodVisitor visitMethod(final int a, final String n, final String d, final String sig, final String[] ex) {
                    if (n.equals("<init>") && (a & ACC_PUBLIC) != 0) l.add(d);
                    return null;
                }
            }, ClassReader.SKIP_CODE);
            CTORS.put(s, l);
            return l;
        }
    }

    private byte[] outer(final String s) throws IOException {
        final ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        final String me = W + s, sup = "java/util/" + s, del = W + s + "$D", DD = "L" + del + ";";
        cw.visit(V1_8, ACC_PUBLIC, me, null, sup, null);
        cw.visitField(ACC_PUBLIC, "d", DD, null, null).visitEnd();
        for (final String d : ctors(s)) {
            final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, "<init>", d, null, null);
            mv.visitCode();
            mv.visitVarInsn(ALOAD, 0);
            mv.visitMethodInsn(INVOKESPECIAL, sup, "<init>", "()V", false);
            mv.visitVarInsn(ALOAD, 0);
            mv.visitTypeInsn(NEW, del);
            mv.visitInsn(DUP);
            args(mv, d);
            mv.visitMethodInsn(INVOKESPECIAL, del, "<init>", d, false);
            mv.visitFieldInsn(PUTFIELD, me, "d", DD);
            owner(mv, me, del, DD);
            mv.visitInsn(RETURN);
            mv.visitMaxs(0, 0);
            mv.visitEnd();
        }
        final Map<String, int[]> ms = new LinkedHashMap<>();
        for (String k = s; k != null;) {
            final String[] next = {null};
            new ClassReader(jdk(k)).accept(new ClassVisitor(ASM9) {
                @Override public void visit(final int v, final int a, final String n, final String sig, final String sp, final String[] itf) {
                    if (sp.startsWith("java/util/")) next[0] = sp.substring(10);
                }
                @Override public MethodVisitor visitMethod(final int a, final String n, final String d, final String sig, final String[] ex) {
                    if (n.startsWith("<") || (a & (ACC_STATIC | ACC_PRIVATE)) != 0 || (a & (ACC_PUBLIC | ACC_PROTECTED)) == 0) return null;
                    ms.putIfAbsent(n + d, new int[] {a, n.length()});
                    return null;
                }
            }, ClassReader.SKIP_CODE);
            k = next[0];
        }
        for (final Map.Entry<String, int[]> e : ms.entrySet()) {
            final int a = e.getValue()[0];
            final String n = e.getKey().substring(0, e.getValue()[1]), d = e.getKey().substring(n.length());
            if ((a & (ACC_FINAL | ACC_BRIDGE)) != 0 || !rename(d).equals(d)) continue;
            if (n.equals("removeEldestEntry")) {
                final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, n, d, null, null);
                mv.visitCode();
                mv.visitInsn(ICONST_0);
                mv.visitInsn(IRETURN);
                mv.visitMaxs(0, 0);
                mv.visitEnd();
                continue;
            }
            if (n.equals("clone")) {
                final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, n, d, null, null);
                mv.visitCode();
                mv.visitVarInsn(ALOAD, 0);
                mv.visitMethodInsn(INVOKESPECIAL, sup, n, d, false);
                mv.visitTypeInsn(CHECKCAST, me);
                mv.visitInsn(DUP);
                mv.visitVarInsn(ALOAD, 0);
                mv.visitFieldInsn(GETFIELD, me, "d", DD);
                mv.visitMethodInsn(INVOKEVIRTUAL, del, n, d, false);
                mv.visitTypeInsn(CHECKCAST, del);
                mv.visitFieldInsn(PUTFIELD, me, "d", DD);
                mv.visitInsn(ARETURN);
                mv.visitMaxs(0, 0);
                mv.visitEnd();
                continue;
            }
            if ((a & ACC_PROTECTED) != 0) continue;
            final MethodVisitor mv = cw.visitMethod(ACC_PUBLIC, n, d, null, null);
            mv.visitCode();
            mv.visitVarInsn(ALOAD, 0);
            mv.visitFieldInsn(GETFIELD, me, "d", DD);
            args(mv, d);
            mv.visitMethodInsn(INVOKEVIRTUAL, del, n, d, false);
            mv.visitInsn(Type.getReturnType(d).getOpcode(IRETURN));
            mv.visitMaxs(0, 0);
            mv.visitEnd();
        }
        cw.visitEnd();
        return cw.toByteArray();
    }

    private static void owner(final MethodVisitor mv, final String me, final String del, final String dd) {
        mv.visitVarInsn(ALOAD, 0);
        mv.visitFieldInsn(GETFIELD, me, "d", dd);
        mv.visitVarInsn(ALOAD, 0);
        mv.visitFieldInsn(PUTFIELD, del, "w", "Ljava/lang/Object;");
    }
}
