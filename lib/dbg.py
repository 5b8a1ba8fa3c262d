"""dbg.py crate entry [time]: one entry, with what the executor says."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
exe = vf.engine()
cr = {"gp": vf.Generated, "boot": vf.Booted}.get(sys.argv[1], vf.Crate)(sys.argv[1]).build()
names = sys.argv[2].split(",")
nat = cr.native(names)
for n in names:
    e = vf.Entry(sys.argv[1], n, "", time=int(sys.argv[3]) if len(sys.argv) > 3 else 60)
    c = vf.Check("DBG", "quick")
    o = c.run_entry(exe, cr, nat, e)
    print({k: v for k, v in o.n.items()}, "covers", o.covers)
    for f in o.fails[:2]:
        print("FAIL", str(f)[:3000])
        print(str(vf.replay(nat, n, f["model"]))[:1000])
    for x in o.errors[:3]:
        print("ERR", x)
    for b in c.broken[:5]:
        print("BROKEN", b[:1500])
