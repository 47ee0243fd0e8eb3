"""Replays the checker's cases on the Python binding and compares every result."""
import sys, json, ctypes, os
target, path = sys.argv[1], sys.argv[2]
sys.path.insert(0, os.path.join(target, "module"))
out = os.fdopen(os.dup(1), "w", buffering=1)
try:
    import ms_toollib as m
    clib = ctypes.CDLL(None)
    clib.vp_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
    clib.vp_release.argtypes = []
except BaseException as e:
    out.write("SETUP %s %s\n" % (type(e).__name__, e))
    sys.exit(5)
clk = lambda a, b: clib.vp_set(a, b)
rel = lambda: clib.vp_release()
null = open(os.devnull, "w")
os.dup2(null.fileno(), 1)

def norm(x):
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    if isinstance(x, (bytes, bytearray)): return list(x)
    if isinstance(x, dict): return {k: norm(v) for k, v in x.items()}
    if isinstance(x, m.GameBoard): return [norm(x.poss), norm(x.basic_not_mine), norm(x.basic_is_mine), norm(x.enum_not_mine), norm(x.enum_is_mine)]
    if isinstance(x, m.SafeBoard): return norm(x.into_vec_vec())
    return x
def same(a, b):
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    return a == b or (a != a and b != b)
def attempt(f):
    try: return norm(f())
    except (KeyboardInterrupt, SystemExit, MemoryError): raise
    except BaseException: return "!"
def obs(o, want): return {k: attempt(lambda: getattr(o, k)) for k in want}
def events(o):
    r = []
    for i in range(o.events_len + 1):
        r.append([attempt(lambda: o.events_time(i)), attempt(lambda: o.events_mouse(i)), attempt(lambda: o.events_x(i)), attempt(lambda: o.events_y(i)), attempt(lambda: o.events_useful_level(i)), attempt(lambda: o.events_comments(i)), attempt(lambda: o.events_mouse_state(i)), attempt(lambda: o.events_prior_game_board(i))])
    return r
def saved(o, f):
    o.save_to_evf_file(f)
    with open(f + ".evf", "rb") as h: d = list(h.read())
    os.remove(f + ".evf")
    return d
def numbered(b):
    r, c = len(b), len(b[0])
    for i in range(r):
        if len(b[i]) != c: return False
        for j in range(c):
            if b[i][j] != -1 and b[i][j] != sum(b[p][q] == -1 for p in range(max(0, i - 1), min(r, i + 2)) for q in range(max(0, j - 1), min(c, j + 2))): return False
    return True
def contract(b, a, _):
    r, c, n, x, y = a[:5]
    return len(b) == r and all(len(v) == c for v in b) and sum(v == -1 for w in b for v in w) == n and b[x][y] != -1 and numbered(b)
def sound(t, a):
    b, ok = t
    return contract(b, a, None) and (not ok or m.is_solvable(b, a[3], a[4]))

tp = lambda v: [tuple(x) for x in v]
env = dict(m=m, tp=tp, clk=clk, rel=rel, obs=obs, events=events, saved=saved, contract=contract, sound=sound)
code = {}
done = bad = 0
def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return " ".join("%s: %.300r want %.300r;" % (k, b.get(k), a[k]) for k in a if not same(a[k], b.get(k)))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b): return " ".join("[%d]: %.300r want %.300r;" % (i, y, x) for i, (x, y) in enumerate(zip(a, b)) if not same(x, y))
    return "%.600r want %.600r" % (b, a)
for no, line in enumerate(open(path)):
    ops = json.loads(line)
    env["o"] = None
    if no % 200 == 0: out.write("AT case %d: %.300s\n" % (no, line))
    for idx, (expr, args, want) in enumerate(ops):
        c = code.get(expr)
        if c is None:
            c = code[expr] = compile(expr[1:], expr, "exec") if expr[0] == "=" else compile(expr, expr, "eval")
        env["a"] = args
        env["W"] = want
        try: got = norm(eval(c, env))
        except (KeyboardInterrupt, SystemExit, MemoryError): raise
        except BaseException: got = "!"
        if expr[0] == "=" and got != "!": got = None
        if want == "?" : continue
        done += 1
        if not same(want, got):
            bad += 1
            hist = " ; ".join("%s %s" % (e, json.dumps(x)[:200]) for e, x, _ in ops[max(0, idx - 12):idx + 1])
            out.write(("BAD %s :: after %d calls, %s gives %s -- last calls: %s" % (expr.strip("=").split("(")[0].replace(" ", "") or expr, idx, expr, diff(want, got), hist)).replace("\n", " ")[:4000] + "\n")
            break
    if bad > 5: break
out.write("DONE %d\n" % done)
out.flush()
os._exit(0)
