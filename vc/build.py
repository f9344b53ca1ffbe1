"""Mechanical front end: /repo's current C sources -> LLVM IR in SSA form.

Every run compiles /repo/src from scratch.  Nothing is hand-copied: clang -O0 output, then the
LLVM passes always-inline (for functions without a contract) and sroa.  What this
drops: nothing of the code; only the position of locals (promoted to SSA values).
"""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang-18"
DEFS = ["-DHAVE_CONFIG_H", '-DDATADIR="/usr/local/share"', '-DSYSCONFDIR="/usr/local/etc"']

# the generated parser is what gets compiled while its source is the pinned one (see /opt/vp/sync.py)
PINNED = {
    "config_file_yacc.y": "1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823",
    "config_file_lex.l": "29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df",
}
# what the detox program is made of (src/Makefile.am: detox_SOURCES); developer tools excluded
EXCLUDE = {"check_table.c", "generate_builtin_table.c", "escape_utf_8.c", "table_dump.c"}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def stage(work):
    """copy src into work/src, regenerating the parser/lexer when their sources changed"""
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), src)
    for f in os.listdir(src):
        if f == "config.h":
            os.remove(os.path.join(src, f))
    shutil.copy(os.path.join(HERE, "conf", "config.h"), os.path.join(src, "config.h"))
    y, l = os.path.join(src, "config_file_yacc.y"), os.path.join(src, "config_file_lex.l")
    if os.path.exists(y) and sha(y) != PINNED["config_file_yacc.y"]:
        run(["bison", "-y", "-d", "-o", "config_file_yacc.c", "config_file_yacc.y"], cwd=src)
    if os.path.exists(l) and sha(l) != PINNED["config_file_lex.l"]:
        run(["flex", "-i", "-oconfig_file_lex.c", "config_file_lex.l"], cwd=src)
    return src


def sources(src):
    """the program's C files: everything in src but the developer tools"""
    return sorted(f for f in os.listdir(src) if f.endswith(".c") and f not in EXCLUDE)


def compile_ir(src, work, contracts):
    """-> text of the linked SSA module.  contracts: names of functions kept as calls."""
    def one(f):
        o = os.path.join(work, f[:-2] + ".ll")
        run([CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
             "-fno-builtin", "-D__NO_CTYPE", "-DYY_NO_INPUT", "-DYY_NO_UNPUT", "-I" + src] + DEFS +
            ["-w", "-S", "-emit-llvm", "-o", o, os.path.join(src, f)])
        t = open(o).read()
        if f != "config_file_lex.c":
            t = mark(t, contracts)
        open(o, "w").write(t)
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, sources(src)))
    linked = os.path.join(work, "all.ll")
    run(["llvm-link-18", "-S", "-o", linked] + out)
    fin = os.path.join(work, "ssa.ll")
    run(["opt-18", "-S", "-passes=always-inline,sroa", "-o", fin, linked])
    return open(fin).read()


def mark(t, contracts):
    """contract functions: noinline; every other defined function: alwaysinline"""
    t = t.replace(" noinline", " ")
    groups = {}
    for m in re.finditer(r"^attributes #(\d+) = \{(.*)\}$", t, re.M):
        groups[m.group(1)] = m.group(2)
    nxt = max(map(int, groups), default=0) + 1
    a, b = nxt, nxt + 1

    def sub(m):
        name = m.group("n")
        g = a if name in contracts else b
        return m.group(0).replace("#" + m.group("g"), "#%d" % g)
    t = re.sub(r"^define .*?@(?P<n>[\w.]+)\(.*?\).*?#(?P<g>\d+)( .*)?\{$", sub, t, flags=re.M)
    t += "\nattributes #%d = { noinline nounwind }\nattributes #%d = { alwaysinline nounwind }\n" % (a, b)
    return t


def front(contracts, keep=None):
    """build from the current tree; returns the module text"""
    work = keep or tempfile.mkdtemp(prefix="detoxvc.")
    try:
        src = stage(work)
        return compile_ir(src, work, contracts)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    sys.stdout.write(front(set(sys.argv[1:])))
    sys.stderr.write("%.1fs\n" % (time.time() - t))
