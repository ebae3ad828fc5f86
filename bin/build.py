#!/usr/bin/env python3
"""Compiles /repo's current main sources and the simulator into /verif/build. Prints the build directory."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JH = "/usr/lib/jvm/java-21-openjdk-amd64"
G = "/root/.gradle/caches/modules-2/files-2.1"
RUNTIME = ["antlr4-runtime-4.13.2", "caffeine-2.9.3", "vavr-0.10.4", "vavr-match-0.10.4", "maven-artifact-3.5.2", "plexus-utils-3.1.0", "commons-lang3-3.5"]


def jar(name):
    base = name + ".jar"
    for root, _, fs in os.walk(G):
        if base in fs:
            return os.path.join(root, base)
    raise SystemExit("missing jar " + base)


def find(d, ext):
    out = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(ext)]
    return out


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def javac(args, what):
    p = subprocess.run([JH + "/bin/javac", "-nowarn", "-proc:none" if "-processorpath" not in args else "-Xlint:none", "-encoding", "UTF-8"] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:], file=sys.stderr)
        print("cannot compile " + what, file=sys.stderr)
        raise SystemExit(2)


def build():
    os.makedirs(VERIF + "/build", exist_ok=True)
    with open(VERIF + "/build/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        asm = sorted(glob.glob("/opt/veriftools/java/bytecode/asm*.jar"))
        rt = [jar(n) for n in RUNTIME]
        # other jars the sources may use: everything the repository declares beyond the list above is found on demand
        cp = ":".join(rt)
        lombok = jar("lombok-1.18.34")
        rsrc = find(REPO + "/src/main/java", ".java")
        ssrc = find(VERIF + "/sim", ".java")
        rh = digest(rsrc)
        sh = digest(ssrc)
        simdir = VERIF + "/build/sim-" + sh
        bsrc = [f for f in ssrc if "/bridge/" in f]
        hsrc = [f for f in ssrc if "/bridge/" not in f]
        if not os.path.exists(simdir + "/ok"):
            shutil.rmtree(simdir, ignore_errors=True)
            os.makedirs(simdir + "/cls")
            javac(["-d", simdir + "/cls", "-cp", ":".join(asm)] + hsrc, "the simulator")
            open(simdir + "/ok", "w").close()
        rdir = VERIF + "/build/repo-" + rh + "-" + sh
        if not os.path.exists(rdir + "/ok"):
            shutil.rmtree(rdir, ignore_errors=True)
            os.makedirs(rdir + "/repo")
            os.makedirs(rdir + "/bridge")
            javac(["-g", "-d", rdir + "/repo", "-cp", cp + ":" + lombok, "-processorpath", lombok, "--release", "21"] + rsrc, "/repo/src/main/java")
            javac(["-d", rdir + "/bridge", "-cp", cp + ":" + rdir + "/repo:" + simdir + "/cls"] + bsrc, "the bridge")
            with open(rdir + "/runtime.cp", "w") as f:
                f.write("\n".join(rt) + "\n")
            open(rdir + "/ok", "w").close()
        # keep the newest few builds only
        keep = {simdir, rdir}
        old = [d for d in glob.glob(VERIF + "/build/sim-*") + glob.glob(VERIF + "/build/repo-*") if d not in keep]
        old.sort(key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        return simdir, rdir, asm


JAVA_OPTS = ["-XX:+UseSerialGC", "-Xss4m", "-Xms256m", "-Xmx1500m", "-XX:MaxMetaspaceSize=700m", "-XX:TieredStopAtLevel=1", "-XX:+UnlockDiagnosticVMOptions", "-XX:-BytecodeVerificationRemote", "-XX:-OmitStackTraceInFastThrow",
             "-XX:SoftRefLRUPolicyMSPerMB=0", "-Djdk.trackAllThreads=false", "-Duser.timezone=UTC", "-Duser.language=en", "-Duser.country=US", "-Dfile.encoding=UTF-8",
             "-Djava.util.concurrent.ForkJoinPool.common.parallelism=1",
             "--add-opens=java.base/java.lang=ALL-UNNAMED", "--add-opens=java.base/java.util=ALL-UNNAMED",
             "--add-opens=java.base/java.util.concurrent=ALL-UNNAMED", "--add-opens=java.base/java.util.concurrent.atomic=ALL-UNNAMED",
             "--add-opens=java.base/java.util.concurrent.locks=ALL-UNNAMED", "--add-opens=java.base/java.lang.ref=ALL-UNNAMED",
             "--add-exports=java.base/jdk.internal.util=ALL-UNNAMED", "--add-exports=java.base/jdk.internal.access=ALL-UNNAMED"]


def command(simdir, rdir, asm, args):
    return [JH + "/bin/java"] + JAVA_OPTS + ["-cp", simdir + "/cls:" + ":".join(asm), "vs.core.Main", rdir] + args


if __name__ == "__main__":
    s, r, a = build()
    if len(sys.argv) > 1:
        c = command(s, r, a, sys.argv[1:])
        os.execv(c[0], c)
    print(r)
