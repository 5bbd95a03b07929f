"""Executes a scenario file several times and shows the first difference."""
import sys, json
sys.path.insert(0, "/verif")
from sim import boot
boot.boot()
from sim import scen
rec = json.load(open(sys.argv[1]))
base = None
for k in range(int(sys.argv[2]) if len(sys.argv) > 2 else 8):
    rs = scen.execute(rec["scenario"], record=True)
    d = scen.digest(rs)
    print(k, d, [[r.switches for r in x] for x in rs])
    if base is None:
        base = (d, rs)
    elif d != base[0]:
        for a, b in zip(base[1], rs):
            for i, (x, y) in enumerate(zip(a, b)):
                for e, f in zip(x.events, y.events):
                    if scen.ADDRS.sub("0x", json.dumps(e)) != scen.ADDRS.sub("0x", json.dumps(f)):
                        print("item", i, x.item["calls"]); print(e); print(f); break
                for n, (e, f) in enumerate(zip(x.decisions, y.decisions)):
                    if e != f:
                        print("decision", n, e, f, len(x.decisions), len(y.decisions)); break
                for kk in sorted(set(x.after) | set(y.after)):
                    p, q = x.after.get(kk), y.after.get(kk)
                    if p != q and (p is None or q is None or scen.ADDR.sub(b"", p) != scen.ADDR.sub(b"", q)):
                        print("file", kk, p and p[:600], q and q[:600])
                if scen.ADDR.sub(b"", x.stdout) != scen.ADDR.sub(b"", y.stdout):
                    print("stdout", x.stdout[-500:], y.stdout[-500:])
                print(x.ended, y.ended, x.ops, y.ops, x.sim_ns, y.sim_ns, x.switches, y.switches)
        break
