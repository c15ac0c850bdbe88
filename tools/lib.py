"""Shared by check.py and replay.py: building the simulator, running it, minimising scenarios."""
import copy, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
# Wraps rustc in the build that allows preemption at any block.
BLOCKS = os.path.join(VERIF, "tools", "rustc-blocks")
TARGET = os.path.join(SIM, "target")

SINGLES = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"]
# The builds C19 compares with each other, besides all/checked: none, one reader, all but one. (Together with the
# first, every combination of any three features being on or off occurs.)
HELPERS = ["none/helper"] + [f + "/helper" for f in SINGLES] + ["but-" + f + "/helper" for f in SINGLES]
# The build C26 compares with: for a machine with 32-bit pointers.
NARROW = "bits32/helper"
# variant -> (cargo features of sim, profile)
def variant(name):
    f, p = name.split("/")
    if f.startswith("but-"):
        return ",".join(x for x in SINGLES if x != f[4:]), p
    feats = {"all": "reader", "bits32": "reader", "none": ""}.get(f, f.replace("+", ","))
    return feats, p


class Broken(Exception):
    """The check itself cannot give an answer."""


def say(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_key():
    """Identifies the code under test and the simulator by content."""
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml"]
    files += sorted(glob.glob(SIM + "/src/**/*", recursive=True)) + sorted(glob.glob(SIM + "/data/*")) + [SIM + "/Cargo.toml"]
    files += sorted(glob.glob(SIM + "/pre/**/*", recursive=True)) + [BLOCKS]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def narrow(td):
    """What it takes to build for 32-bit pointers with nothing installed for it but a C library to run with: the
    standard library is built from its sources, and linked against the shared objects themselves."""
    libs = os.path.join(td, "lib32")
    os.makedirs(libs, exist_ok=True)
    for name, so in (("util", "libutil.so.1"), ("rt", "librt.so.1"), ("pthread", "libpthread.so.0"), ("m", "libm.so.6"), ("dl", "libdl.so.2"), ("c", "libc.so.6"), ("gcc_s", "libgcc_s.so.1")):
        link = os.path.join(libs, f"lib{name}.so")
        if not os.path.lexists(link):
            os.symlink("/usr/lib32/" + so, link)
    args = ["-m32", "-nostdlib", "-no-pie", "-L" + libs, "-Wl,--dynamic-linker=/usr/lib32/ld-linux.so.2", "-Wl,-rpath,/usr/lib32"]
    flags = "-C relocation-model=static " + " ".join("-C link-arg=" + a for a in args)
    return ["-Zbuild-std=std,panic_unwind", "--target", "i686-unknown-linux-gnu"], {"RUSTFLAGS": flags, "RUSTC_BOOTSTRAP": "1"}


def build(names):
    """Builds the variants; returns {variant: path of the binary}."""
    key = tree_key()
    os.makedirs(TARGET, exist_ok=True)
    for d in sorted(glob.glob(TARGET + "/*"), key=os.path.getmtime)[:-6]:
        if os.path.basename(d) != key:
            shutil.rmtree(d, ignore_errors=True)
    out, procs = {}, []
    for v in names:
        feats, prof = variant(v)
        td = os.path.join(TARGET, key, v.replace("/", "-"))
        bin = "narrow" if v == NARROW else "helper" if v in HELPERS else "sim"
        exe = os.path.join(td, "i686-unknown-linux-gnu" if v == NARROW else "", prof, bin)
        out[v] = exe
        if os.path.exists(os.path.join(td, "ok")) and os.path.exists(exe):
            continue
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof, "--target-dir", td]
        cmd += ["--manifest-path", SIM + "/Cargo.toml", "--features", feats, "--bin", bin]
        if REPO != "/repo":
            cmd += ["--config", f'patch.crates-io.file-format.path="{REPO}"']
        env = dict(os.environ, CARGO_TERM_COLOR="never", RUSTFLAGS="")
        if prof == "preempt":
            env["RUSTC_WRAPPER"] = BLOCKS
        if v == NARROW:
            more, vars = narrow(td)
            cmd += more
            env.update(vars)
        procs.append((v, td, prof, cmd, env, exe))
    i = 0
    while i < len(procs):
        batch = [(p, subprocess.Popen(p[3], env=p[4], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SIM)) for p in procs[i : i + 8]]
        i += 8
        for p, pr in batch:
            text = pr.communicate()[0].decode(errors="replace")
            if pr.returncode != 0:
                raise Broken(f"building {p[0]} failed:\n{text[-4000:]}")
            exe = p[5]
            for sub in ("deps", "build", ".fingerprint", "incremental"):
                shutil.rmtree(os.path.join(os.path.dirname(exe), sub), ignore_errors=True)
            pr2 = subprocess.run([exe, "info"], capture_output=True)
            if pr2.returncode != 0:
                raise Broken(f"{p[0]} does not start")
            open(os.path.join(p[1], "ok"), "w").close()
    return out


FAMILIES = {"asf": 0, "cfb": 1, "ebml": 2, "exe": 3, "id3v2": 4, "mp4": 5, "pdf": 6, "rm": 7, "sqlite3": 8, "txt": 9, "xml": 10, "zip": 11}


def sources():
    """Where the code under test has its logic: [(name, [line of code])]."""
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        if os.path.basename(f) != "formats.rs":
            lines = open(f, encoding="utf-8", errors="replace").read().split("\n")
            out.append((f, [l for l in lines if not l.lstrip().startswith("//")]))
    return out


def line_id(l):
    return hashlib.sha256(l.strip().encode()).hexdigest()[:12]


def changed():
    """Lines the tree this machinery was built on did not have, and the readers they are in. Only a hint."""
    try:
        old = set(open(os.path.join(SIM, "data", "lines.txt")).read().split())
    except OSError:
        return [], set()
    new, fam = [], set()
    for _, lines in sources():
        at = None
        for l in lines:
            m = re.search(r"\bfn (?:from_(\w+)_reader)?", l)
            if m:
                at = FAMILIES.get(m.group(1))
            if l.strip() and line_id(l) not in old:
                new.append(l)
                if at is not None:
                    fam.add(at)
    return new, fam


def literals(lines=None):
    """The literals of the code under test (or of some lines of it): {"i:<number>", "s:<text>", "b:<hex>"}. Only a hint for the search."""
    out = set()
    esc = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}

    def plain(t):
        def one(m):
            t = m.group(1)
            if t[0] == "x":
                return chr(int(t[1:], 16))
            if t[0] == "u":
                return chr(int(t[2:-1].replace("_", ""), 16))
            return esc.get(t, "")
        return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, t, flags=re.S)

    def num(t):
        t = re.sub(r"(?:[ui](?:8|16|32|64|128|size))$", "", t.replace("_", ""))
        try:
            return int(t, 0) if t.startswith("0x") or t.startswith("0b") or t.startswith("0o") else int(t)
        except ValueError:
            return None

    for lines in [lines] if lines is not None else [l for _, l in sources()]:
        text = "\n".join(lines)
        pat = r'b"((?:\\.|[^"\\])*)"|"((?:\\.|[^"\\])*)"|b?\'((?:\\x..|\\u\{[^}]*\}|\\.|[^\'\\]))\'|(?<![\w.])((?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|size))?(?:\s*(?:\*|<<)\s*\d[\d_]*)*)(?![\w.]*\")'
        for m in re.finditer(pat, text, flags=re.S):
            try:
                if m.group(1) is not None:
                    b = plain(m.group(1)).encode("latin-1")
                    if 0 < len(b) <= 64:
                        out.add("b:" + b.hex())
                elif m.group(2) is not None:
                    w = plain(m.group(2))
                    if 0 < len(w) <= 40 and "{" not in w and "\n" not in w:
                        out.add("s:" + w)
                    if re.fullmatch(r"\{?[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\}?", w):
                        u = uuid.UUID(w)
                        out |= {"b:" + u.bytes_le.hex(), "b:" + u.bytes.hex()}
                elif m.group(3) is not None:
                    out.add("b:" + plain(m.group(3)).encode("utf-8").hex())
                else:
                    v = None
                    for op, t in re.findall(r"(\*|<<)?\s*([0-9a-fA-Fx_]+(?:[ui](?:8|16|32|64|size))?)", m.group(4)):
                        x = num(t)
                        if x is None:
                            break
                        v = x if v is None else v * x if op == "*" else v << min(x, 64)
                        if v < 1 << 64:
                            out.add(f"i:{v}")
            except (ValueError, UnicodeError):
                pass
        for m in re.finditer(r"\[((?:\s*(?:0x[0-9a-fA-F]{1,2}|\d{1,3}|b'(?:[^'\\]|\\.[^']*)')\s*,)+\s*(?:0x[0-9a-fA-F]{1,2}|\d{1,3}|b'(?:[^'\\]|\\.[^']*)')?\s*)\]", text):
            b = []
            for t in re.findall(r"b'(?:[^'\\]|\\.[^']*)'|\w+", m.group(1)):
                b.append(ord(plain(t[2:-1])[:1] or "\0") if t[0] == "b" and t[1:2] == "'" else num(t))
            if 2 <= len(b) <= 64 and all(x is not None and x < 256 for x in b):
                out.add("b:" + bytes(b).hex())
    return out


def dictionary():
    """-> (words for lookups, literals that the tree this machinery was built on did not have)."""
    lits = sorted(literals(), key=lambda w: hashlib.sha256(w.encode()).digest())
    try:
        old = {l for l in open(os.path.join(SIM, "data", "literals.txt"), encoding="utf-8").read().split("\n")}
    except OSError:
        old = set(lits)
    fresh = [l for l in lits if l not in old][:200]
    # Those on changed lines, less often; and the families of content that come there.
    lines, fam = changed()
    if len(lines) <= 400:
        near = [l for l in sorted(literals(lines)) if l not in fresh and not re.fullmatch(r"i:\d|s:|b:..", l)][:100]
        if near:
            fresh = fresh + near + [l for l in fresh if l[0] != "s"] * 2
    fresh += [f"f:{x}" for x in sorted(fam)]
    return "\n".join([l[2:] for l in lits if l[0] == "s"][:300]), "\n".join(fresh)


os.environ["SIM_DICT"], os.environ["SIM_FRESH"] = dictionary()


def helpers(exes):
    return ":".join(f"{k.split('/')[0]}={v}" for k, v in exes.items() if k in HELPERS + [NARROW])


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="ffsim-", dir=base)


def cpu_ticks(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return f[0], int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])
    except (OSError, IndexError):
        return "?", 0


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def crash_class(rc):
    if rc == 97:
        return "allocation beyond 256 MiB"
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return f"killed by signal {-rc}"
    return f"exit status {rc}"


class Exec:
    """Runs scenarios in fresh processes and says what came of them."""

    def __init__(self, exe, none, scratch):
        self.exe, self.scratch, self.n = exe, scratch, 0
        self.env = dict(os.environ, SIM_NONE=none or "")

    def __call__(self, prop, runs, log=False, timeout=60):
        """-> {"class", "detail", "digest", "trace"}; class None if nothing is wrong."""
        self.n += 1
        d = os.path.join(self.scratch, f"x{self.n}")
        os.makedirs(d)
        f = os.path.join(d, "in.json")
        with open(f, "w") as o:
            json.dump({"property": prop, "runs": runs}, o)
        cmd = [self.exe, "exec", f, "--scratch", d] + (["--log", "1"] if log else [])
        p = subprocess.Popen(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            kill_group(p)
            p.communicate()
            rc = None
        finally:
            kill_group(p)
            shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            return {"class": "does not return", "detail": f"no answer within {timeout} s", "digest": 0, "trace": []}
        if rc in (0, 1):
            j = json.loads(o)
            v = j.get("viol") or {}
            return {"class": v.get("class"), "detail": v.get("detail", ""), "digest": j["digest"], "trace": j.get("trace", []), "at": v.get("index")}
        if rc == 101:
            raise Broken("the simulator itself panicked: " + e.decode(errors="replace")[-2000:])
        return {"class": crash_class(rc), "detail": e.decode(errors="replace")[-500:].strip(), "digest": 0, "trace": []}


def strip(sc):
    """The same contents and calls without any fault."""
    sc = copy.deepcopy(sc)
    for c in sc["calls"]:
        c["faults"], c["bad"], c["delivery"], c["open"], c["lat"] = [], [], "full", None, 0
    return sc


def shrink_scenario(sc, same, deadline):
    """Greedy minimisation: keeps a change when the same class of violation remains."""
    best = copy.deepcopy(sc)
    tries = 0

    def attempt(mut):
        nonlocal best, tries
        if time.time() > deadline:
            return False
        t = copy.deepcopy(best)
        if mut(t) is False or t == best:
            return False
        tries += 1
        if same(t):
            best = t
            return True
        return False

    # The contents of these belong together.
    fixed = best["property"] == "C21" or best["property"] == "C05" and best["param"] != (1 << 64) - 1
    progress = True
    while progress and time.time() < deadline:
        progress = False
        # Calls.
        if best["property"] in ("C07", "C08") or fixed is False and best["property"] not in ("C15",):
            k = len(best["calls"])
            step = max(1, k // 2)
            while step >= 1 and len(best["calls"]) > 1:
                i = 0
                while i < len(best["calls"]) and len(best["calls"]) > 1:
                    def drop(t, i=i, step=step):
                        if len(t["calls"]) <= step:
                            return False
                        del t["calls"][i : i + step]
                        if t["property"] == "C08":
                            ids = sorted({c["thread"] for c in t["calls"]})
                            for c in t["calls"]:
                                c["thread"] = ids.index(c["thread"])
                    if attempt(drop):
                        progress = True
                    else:
                        i += step
                step //= 2
        if any(best["env"].values()):
            for k in list(best["env"]):
                progress |= attempt(lambda t, k=k: t["env"].__setitem__(k, [] if k == "words" else 0))
            for j in reversed(range(len(best["env"].get("words", [])))):
                progress |= attempt(lambda t, j=j: t["env"]["words"].pop(j) and None if len(t["env"]["words"]) > j else False)
        for i in range(len(best["calls"])):
            def on(f, i=i):
                def both(t):
                    if f(t["calls"][i]) is False:
                        return False
                    if t["property"] == "C15":
                        # The two calls are on the same content.
                        for c in t["calls"]:
                            c["content"] = copy.deepcopy(t["calls"][i]["content"])
                return attempt(both)
            c = best["calls"][i]
            if c["delivery"] != "full":
                if on(lambda c: c.__setitem__("delivery", "full")):
                    progress = True
                elif "cuts" in c["delivery"]:
                    for j in reversed(range(len(c["delivery"]["cuts"]))):
                        progress |= on(lambda c: c["delivery"]["cuts"].pop(j) and None if len(c["delivery"]["cuts"]) > j else False)
                elif "rand" in c["delivery"] or "mixed" in c["delivery"]:
                    for k in (1, 8, 64, 512, 4096):
                        if on(lambda c: c.__setitem__("delivery", {"fixed": k})):
                            progress = True
                            break
            for key, zero in (("lat", 0), ("start", 0), ("path", 0), ("again", False), ("open", None)):
                if fixed and key == "start":
                    continue
                if c[key] != zero:
                    progress |= on(lambda c: c.__setitem__(key, zero))
            for key in ("faults", "bad"):
                for j in reversed(range(len(best["calls"][i][key]))):
                    progress |= on(lambda c: c[key].pop(j) and None if len(c[key]) > j else False)
            for j in range(len(best["calls"][i]["faults"])):
                f = best["calls"][i]["faults"][j]
                if f.get("sticky"):
                    progress |= on(lambda c: c["faults"][j].__setitem__("sticky", False))
                for k in (1, 2, 5, 20, 100):
                    if f.get("count", 0) > k:
                        if on(lambda c: c["faults"][j].__setitem__("count", k)):
                            progress = True
                            break
                if f["at"] > 0:
                    for a in (0, f["at"] // 2, f["at"] - 1):
                        if on(lambda c: c["faults"][j].__setitem__("at", a)):
                            progress = True
                            break
            if fixed:
                continue
            c = best["calls"][i]["content"]
            # Length.
            ends = max([o + len(b) // 2 for o, b in c["segs"]] or [0])
            for l in (ends, c["len"] // 2, c["len"] - 1024, c["len"] - 16, c["len"] - 1):
                if 0 <= l < c["len"] and on(lambda c: c["content"].__setitem__("len", l)):
                    progress = True
                    break
            if c["fill"] != {"byte": 0}:
                progress |= on(lambda c: c["content"].__setitem__("fill", {"byte": 0}))
            for j in reversed(range(len(best["calls"][i]["content"]["segs"]))):
                progress |= on(lambda c: c["content"]["segs"].pop(j) and None if len(c["content"]["segs"]) > j else False)
            for j in range(len(best["calls"][i]["content"]["segs"])):
                o, b = best["calls"][i]["content"]["segs"][j]
                n = len(b) // 2
                for keep in (n // 2, n * 3 // 4, n - 64, n - 8, n - 1):
                    if 0 < keep < n:
                        if on(lambda c: c["content"]["segs"].__setitem__(j, [o, b[: 2 * keep]])):
                            progress = True
                            break
                # Zero out blocks that do not matter.
                b = best["calls"][i]["content"]["segs"][j][1]
                for blk in (1024, 128, 16):
                    if len(b) // 2 > 64 * blk:
                        continue
                    for p in range(0, len(b), 2 * blk):
                        cur = best["calls"][i]["content"]["segs"][j][1]
                        piece = cur[p : p + 2 * blk]
                        if piece.strip("0"):
                            on(lambda c: c["content"]["segs"][j].__setitem__(1, cur[:p] + "0" * len(piece) + cur[p + len(piece) :]))
    return best, tries
