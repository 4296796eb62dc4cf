"""Builds the tool simulator (toolsim) from /repo's working tree and runs it for one property."""
import glob, os, subprocess
import vlib

# cases, histories per case, seconds
TIERS = {"quick": {"default": (800, 45, 130), "T04": (900, 14, 130), "T07": (900, 14, 130), "T08": (400, 30, 130), "T05": (560, 45, 130), "T06": (560, 45, 130), "T09": (12000, 1, 130)},
         "thorough": {"default": (20000, 120, 780), "T09": (400000, 1, 780)}}
SIMULATED = ("fopen fclose fdopen mkstemp unlink access chmod umask getenv signal exit _exit atexit malloc calloc realloc free strdup printf vprintf "
             "puts putchar perror stdin stdout stderr close remove rename abort strndup sigaction raise stat lstat fileno isatty fstat fsync open read write lseek tmpfile reallocarray time clock "
             "gettimeofday clock_gettime getpid").split()
INST = ["-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-fsanitize=bounds", "-fsanitize-trap=bounds"]

def one_object(work, name, objs):
    """Links a tool into one object whose C library is the simulated one and whose only visible symbol is its main."""
    whole, out = os.path.join(work, "whole-%s.o" % name), os.path.join(work, "sim-%s.o" % name)
    vlib.run(["ld", "-r", "-o", whole, *objs])
    cmd = ["objcopy"]
    for s in SIMULATED:
        cmd += ["--redefine-sym", "%s=ts_%s" % (s, s)]
    cmd += ["--redefine-sym", "__assert_fail=ts_assert_fail", "--redefine-sym", "main=tool_main_" + name, "--keep-global-symbol=tool_main_" + name, whole, out]
    vlib.run(cmd)
    return out

def build(work):
    objs = vlib.build_tools(work, cflags=INST, objs_only=True)
    sim = [one_object(work, n, o) for n, o in objs.items()]
    jobs, mine = [], []
    src = sorted(glob.glob(os.path.join(vlib.VERIF, "toolsim", "*.cpp")))
    src += [s for s in sorted(glob.glob(os.path.join(vlib.VERIF, "psim", "*.cpp"))) if os.path.basename(s) not in ("main.cpp", "export.cpp")]
    for s in src:
        o = os.path.join(work, "ts-" + os.path.basename(s)[:-4] + ".o")
        mine.append(o)
        jobs.append(["g++", "-O1", "-g1", "-w", "-std=c++17", "-I" + os.path.join(vlib.VERIF, "psim"), "-c", s, "-o", o])
    vlib.cc_many(jobs)
    exe = os.path.join(work, "toolsim")
    vlib.run(["g++", "-fsanitize=address", "-o", exe, *mine, *sim, "-ldl"])
    return exe

def main(args, work):
    exe = build(work)
    cmd = [exe, "--tmpl", os.path.join(vlib.REPO, "lemon", "lempar.c"), "--corpus", os.path.join(vlib.REPO, "byacc", "test"),
           "--replaydir", os.path.join(vlib.VERIF, "replays"), "--known", os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")]
    if args.replay:
        return subprocess.call(cmd + ["--replay", os.path.abspath(args.replay)], cwd=work)
    n, r, secs = TIERS[args.tier].get(args.property, TIERS[args.tier]["default"])
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    return subprocess.call(cmd + ["--prop", args.property, "--seed", str(args.seed), "--tier", args.tier, "--cases", str(args.cases or n), "--runs", str(r),
           "--maxsecs", str(secs), "--evidence", os.path.join(vlib.VERIF, "evidence", args.property + ".json")], cwd=work)
