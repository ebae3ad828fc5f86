package vs.inst;

import java.io.File;
import java.io.IOException;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Enumeration;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.jar.JarEntry;
import java.util.jar.JarFile;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/** Class loaders: libraries once per process, the code under test afresh for every simulated process. */
public final class Loaders {
    public final Instrumenter inst = new Instrumenter();
    private final Map<String, byte[]> repo = new HashMap<>();
    private final LibLoader lib;

    public Loaders(final Path repoClasses, final Path bridgeClasses, final List<File> jars) throws IOException {
        for (final Path p : classFiles(repoClasses)) inst.learn(Files.readAllBytes(p));
        for (final Path p : classFiles(repoClasses)) {
            final String n = repoClasses.relativize(p).toString().replace('\\', '/');
            repo.put(n.substring(0, n.length() - 6).replace('/', '.'), inst.transform(Files.readAllBytes(p), Instrumenter.Level.REPO, 0));
        }
        for (final Path p : classFiles(bridgeClasses)) {
            final String n = bridgeClasses.relativize(p).toString().replace('\\', '/');
            repo.put(n.substring(0, n.length() - 6).replace('/', '.'), inst.bridge(Files.readAllBytes(p)));
        }
        lib = new LibLoader(jars, inst);
    }

    private static List<Path> classFiles(final Path dir) throws IOException {
        try (Stream<Path> s = Files.walk(dir)) {
            return s.filter(f -> f.toString().endsWith(".class")).sorted((a, b) -> a.toString().compareTo(b.toString())).collect(Collectors.toList());
        }
    }

    public int repoClassCount() { return repo.size(); }

    /** A fresh "process": no static state of the code under test survives from any other. */
    public ClassLoader fresh() { return new RepoLoader(lib, repo); }

    /** Classes of the code under test that this process has loaded. */
    public java.util.Collection<Class<?>> loaded(final ClassLoader l) { return ((RepoLoader) l).loaded; }

    private static final class RepoLoader extends ClassLoader {
        final java.util.List<Class<?>> loaded = new java.util.ArrayList<>();
        private final Map<String, byte[]> classes;
        RepoLoader(final ClassLoader parent, final Map<String, byte[]> classes) { super(parent); this.classes = classes; }

        @Override protected Class<?> loadClass(final String n, final boolean resolve) throws ClassNotFoundException {
            final byte[] b = classes.get(n);
            if (b == null) return super.loadClass(n, resolve);
            Class<?> c = findLoadedClass(n);
            if (c == null) { c = defineClass(n, b, 0, b.length); loaded.add(c); }
            return c;
        }
    }

    private static final class LibLoader extends ClassLoader {
        private final Map<String, JarFile> where = new TreeMap<>();
        private final Map<String, Integer> index = new HashMap<>();
        private final Instrumenter inst;

        LibLoader(final List<File> jars, final Instrumenter inst) throws IOException {
            super(LibLoader.class.getClassLoader());
            this.inst = inst;
            for (final File f : jars) {
                final JarFile j = new JarFile(f);
                for (final Enumeration<JarEntry> e = j.entries(); e.hasMoreElements();) {
                    final String n = e.nextElement().getName();
                    if (n.endsWith(".class") && !n.startsWith("META-INF")) where.putIfAbsent(n.substring(0, n.length() - 6).replace('/', '.'), j);
                }
            }
            int i = 0;
            for (final String n : where.keySet()) index.put(n, i++);
        }

        private final JdkCopies copies = new JdkCopies();

        private Class<?> copy(final String n, final boolean resolve) throws ClassNotFoundException {
            final Class<?> c = findLoadedClass(n);
            if (c != null) return c;
            try {
                byte[] b = copies.bytes(n);
                if (b == null) return super.loadClass(n, resolve);
                if (!n.startsWith("vs.jdk.w.")) b = inst.transform(b, Instrumenter.Level.JDK, (1 << 28) + (n.hashCode() & 0xffff) * 4096);
                return defineClass(n, b, 0, b.length);
            } catch (final IOException e) {
                throw new ClassNotFoundException(n, e);
            }
        }

        @Override protected Class<?> loadClass(final String n, final boolean resolve) throws ClassNotFoundException {
            if (n.startsWith("vs.jdk.")) return copy(n, resolve);
            final JarFile j = where.get(n);
            if (j == null) return super.loadClass(n, resolve);
            Class<?> c = findLoadedClass(n);
            if (c != null) return c;
            try (InputStream in = j.getInputStream(j.getEntry(n.replace('.', '/') + ".class"))) {
                final Instrumenter.Level l = n.startsWith("com.github.benmanes.caffeine") ? Instrumenter.Level.CACHE
                    : n.startsWith("org.antlr") ? Instrumenter.Level.ANTLR : Instrumenter.Level.PLAIN;
                final byte[] b = inst.transform(in.readAllBytes(), l, (1 << 20) + index.get(n) * 4096);
                return defineClass(n, b, 0, b.length);
            } catch (final IOException e) {
                throw new ClassNotFoundException(n, e);
            }
        }
    }
}
