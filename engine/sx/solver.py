"""SMT back end: persistent z3 for small queries, z3 and cvc5 side by side with a hard time limit for checks."""
import os, re, select, subprocess, tempfile, time, signal
Z3 = next((p for p in ("/usr/local/bin/z3-new", "/usr/bin/z3-new", "/opt/veriftools/bin/z3-new") if os.path.exists(p)), None) or "z3-new"
import shutil
Z3 = shutil.which("z3-new") or shutil.which("z3")
CVC5 = shutil.which("cvc5")

class Stats:
    def __init__(s): s.queries = 0; s.unsat = 0; s.sat = 0; s.unknown = 0; s.time = 0.0; s.max = 0.0; s.by = {}
    def add(s, r, t, who="z3"):
        s.queries += 1; s.time += t; s.max = max(s.max, t)
        if r == "unsat": s.unsat += 1
        elif r == "sat": s.sat += 1
        else: s.unknown += 1
        s.by[who] = s.by.get(who, 0) + 1

class Persistent:
    def __init__(s): s.p = None
    def start(s):
        s.p = subprocess.Popen([Z3, "-in", "-smt2"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, bufsize=0, start_new_session=True)
        s.buf = b""
    def kill(s):
        if s.p:
            try: s.p.kill(); s.p.wait()
            except OSError: pass
        s.p = None
    def query(s, text, ms, values=None):
        """-> (result, {var: float})"""
        if s.p is None or s.p.poll() is not None: s.start()
        q = "(reset)\n(set-option :timeout %d)\n%s\n(check-sat)\n(echo \"##\")\n" % (ms, text)
        try: s.p.stdin.write(q.encode())
        except OSError:
            s.kill(); return "unknown", None
        out = s._until(b"##", ms / 1000.0 + 1.5)
        if out is None:
            s.kill(); return "unknown", None
        out = out.decode()
        if "(error" in out: return "error:" + out, None
        r = "unsat" if "unsat" in out else "sat" if re.search(r"^sat", out, re.M) else "unknown"
        if r == "sat" and values:
            q = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n(get-value (%s))\n(echo \"##\")\n" % " ".join(values)
            try: s.p.stdin.write(q.encode())
            except OSError: s.kill(); return r, None
            o = s._until(b"##", 5)
            if o is None: s.kill(); return r, None
            return r, parse_values(o.decode())
        return r, None
    def _until(s, mark, t):
        end = time.time() + t
        while mark not in s.buf:
            left = end - time.time()
            if left <= 0: return None
            rl, _, _ = select.select([s.p.stdout], [], [], left)
            if not rl: return None
            d = os.read(s.p.stdout.fileno(), 1 << 16)
            if not d: return None
            s.buf += d
        i = s.buf.index(mark); o = s.buf[:i]; s.buf = s.buf[i + len(mark):].lstrip(b"\"\n")
        return o

_tok = re.compile(r"\(|\)|[^\s()]+")
def parse_values(txt):
    toks = _tok.findall(txt); pos = 0
    def parse():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t != "(": return t
        r = []
        while toks[pos] != ")": r.append(parse())
        pos += 1; return r
    def num(e):
        if isinstance(e, str):
            if e in ("true", "false"): return 1.0 if e == "true" else 0.0
            return float(e.rstrip("?"))
        if e[0] == "-": return -num(e[1]) if len(e) == 2 else num(e[1]) - num(e[2])
        if e[0] == "/": return num(e[1]) / num(e[2])
        if e[0] == "to_real": return num(e[1])
        raise ValueError(str(e))
    try: tree = parse()
    except IndexError: return None
    r = {}
    for it in tree:
        try: r[it[0]] = num(it[1])
        except (ValueError, IndexError, OverflowError, ZeroDivisionError): pass
    return r

def portfolio(text, seconds, values=None, which=("z3", "cvc5")):
    """z3 and cvc5 in parallel, first definite answer wins -> (result, values, who)"""
    d = tempfile.mkdtemp(prefix="sxq")
    f = os.path.join(d, "q.smt2")
    gv = "(get-value (%s))\n" % " ".join(values) if values else ""
    ps = []
    try:
        if "z3" in which:
            open(f, "w").write(text + "\n(check-sat)\n" + ("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" + gv if gv else ""))
            ps.append(("z3", subprocess.Popen([Z3, "-smt2", "-T:%d" % max(1, int(seconds)), f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)))
        if "cvc5" in which and CVC5:
            f2 = os.path.join(d, "q2.smt2")
            open(f2, "w").write("(set-logic QF_NRA)\n(set-option :produce-models true)\n" + text + "\n(check-sat)\n" + gv)
            ps.append(("cvc5", subprocess.Popen([CVC5, "--tlimit=%d" % int(seconds * 1000), f2], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)))
        end = time.time() + seconds + 1; live = dict(ps); outs = {n: b"" for n, _ in ps}; best = ("unknown", None, "none")
        while live and time.time() < end:
            rl, _, _ = select.select([p.stdout for p in live.values()], [], [], max(0.05, end - time.time()))
            for n, p in list(live.items()):
                if p.stdout in rl:
                    b = os.read(p.stdout.fileno(), 1 << 16)
                    if b: outs[n] += b; continue
                    del live[n]
                    o = outs[n].decode()
                    first = o.split("\n", 1)[0].strip()
                    if first == "unsat": return "unsat", None, n
                    if first == "sat":
                        return "sat", (parse_values(o.split("\n", 1)[1]) if values and "(" in o else None), n
        return best
    finally:
        for n, p in ps:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.stdout.close()
            try: p.wait(1)
            except Exception: pass
        shutil.rmtree(d, ignore_errors=True)
