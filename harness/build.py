#!/usr/bin/env python3
"""Builds a harness binary from /repo's current working tree.
   build.py GROUP -> prints the path of the binary.  Objects are cached by content."""
import hashlib, os, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DOWOW_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GROUPS = {
    "codec": ["pbt.cpp", "model.cpp", "p_codec.cpp"],
    "conn": ["pbt.cpp", "model.cpp", "net.cpp", "p_conn.cpp"],
    "server": ["pbt.cpp", "model.cpp", "net.cpp", "p_server.cpp"],
    "chat": ["pbt.cpp", "model.cpp", "net.cpp", "p_chat.cpp"],
}
# sources of /repo outside the library, with their extra flags
ALSO = {"chat": [("examples/ChatServer.cpp", ["-Dmain=chat_main", "-include", HERE + "/slowfind.hpp"])]}
PROPS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C25", "C26"): PROPS[_p] = "codec"
for _p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C21", "C24", "C27"): PROPS[_p] = "conn"
for _p in ("C16", "C17", "C18", "C19", "C20", "C22", "C28", "C29"): PROPS[_p] = "server"
PROPS["C23"] = "chat"
TECH = {
 "C01": "generated values/requests against an independent reference encoder",
 "C02": "round trip of independently encoded inputs with generated suffixes and target states",
 "C03": "structure-aware fuzzing of the decoders under AddressSanitizer with memory accounting",
 "C04": "differential fuzzing of mutated encodings against an independent strict decoder",
 "C05": "model-based operation sequences against an ordered map",
 "C06": "model-based operation sequences against a list/number/string model",
 "C07": "generated copy/alias/mutate/destroy sequences against independent models",
 "C25": "model-based operation sequences against the documented rule",
 "C08": "model-based generated byte streams, chunkings and settings under injected short counts, EINTR and delays against an independent frame codec",
 "C09": "structure-aware stream fuzzing with an independent framing oracle, allocation bound and AddressSanitizer",
 "C10": "model-based handler registration and delivery sequences against the documented rule",
 "C11": "model-based histories of deliveries and pulls from several threads (FIFO queue model) with generated timing",
 "C12": "generated push histories over both sides of real links against an identifier model",
 "C13": "generated push/disconnect histories against slow, stalled and limited readers with a delivered-prefix oracle",
 "C14": "generated ways of ending under generated calls and faults, with termination deadlines confirmed by replay",
 "C15": "generated interval settings, traffic patterns and injected late polls with timing bounds from the settings",
 "C21": "generated multi-threaded call histories with schedule perturbation (injected lock and system-call delays), conservation oracle",
 "C26": "generated values and requests against the pieces their text must hold, in order",
 "C27": "model-based sequences of setting changes, traffic and reconnections against the documented defaults and bounds",
 "C24": "generated request/response histories against the documented rule",
 "C16": "generated reference/lookup/ending histories over several threads under AddressSanitizer with a lifetime model",
 "C17": "model-based admission histories (limits, waiting clients, announcements, lookups)",
 "C18": "state-machine testing of start/stop against a model, the file system and real clients",
 "C19": "generated connect attempts against known endpoints, with timing bounds",
 "C20": "generated life-cycle histories with descriptor interposition, thread, descriptor and heap balance",
 "C22": "generated fault injection (EINTR, short counts, aborted accepts, real signals) and hostile clients with a liveness oracle",
 "C28": "model-based histories with handlers held and peers stalled for as long as the case wants; everything else must complete",
 "C29": "generated fault injection (the k-th descriptor creations of the library fail) over generated call sequences with a succeed-entirely-or-refuse oracle",
 "C23": "model-based chat sessions over the real example server against a reference model",
}
NOTE = {"*": "Random generated-input search with shrinking against an explicit oracle; no claim beyond the cases explored (counts in the evidence file)."}
CXX = "g++"
BASE = ["-std=gnu++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-w", "-U_FORTIFY_SOURCE",
        "-fsanitize=address,bounds,return,unreachable,vptr", "-fno-sanitize-recover=all"]

def headers():
    hs = glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/values/*.hpp") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/values/*.h")
    return sorted(hs)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def build(group, extra=()):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    hh = sha(*[x for h in headers() for x in (os.path.relpath(h, REPO), read(h))],
             *[x for h in sorted(glob.glob(HERE + "/*.hpp")) for x in (os.path.basename(h), read(h))])
    lib = sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/values/*.cpp"))
    own = [os.path.join(HERE, f) for f in GROUPS[group]]
    inc = ["-I" + REPO, "-I" + HERE]
    jobs, objs = [], []
    special = {os.path.join(REPO, f): fl for f, fl in ALSO.get(group, [])}
    for src in lib + own + list(special):
        flags = BASE + list(extra) + special.get(src, [])
        k = sha(hh, src, read(src), " ".join(flags))
        o = f"{BUILD}/obj/{k}.o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, flags))
    def compile(j):
        src, o, flags = j
        tmp = o + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX, *flags, *inc, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return r.stdout
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs)); sys.exit(2)
    b = f"{BUILD}/{group}-{sha(*objs, *extra)}"
    if not os.path.exists(b):
        r = subprocess.run([CXX, *BASE, *extra, *objs, "-o", b + ".tmp", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout); sys.exit(2)
        os.replace(b + ".tmp", b)
    # drop old objects and binaries
    now = time.time()
    for f in glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/*-*"):
        try:
            if now - os.path.getmtime(f) > 6 * 3600: os.remove(f)
        except OSError: pass
    return b

if __name__ == "__main__":
    for g in (sys.argv[1:] or GROUPS): print(build(g))
