"""C05: discriminant derivation equals the specified expansion on every surface."""
import glob, os, tempfile, json
import vlib

RULE = ("seeds of 1..20000 bytes (random, all-ff, all-zero, long carry chains, SHA block boundaries) x every byte-multiple size up to 1024 bits, "
        "plus empty seeds and unsupported sizes; one case = one derivation or refusal compared with the reference expansion; distinct by (seed,size)")

PY = r'''
import sys, json
from chiavdf import create_discriminant
bad=[]; n=0
for path in sys.argv[1:]:
    for l in open(path):
        s,b,d=l.split(); seed=b"" if s=="-" else bytes.fromhex(s); n+=1
        try: got=str(int(create_discriminant(seed,int(b)),0))
        except Exception as e: got="-"
        if got!=d: bad.append((s,b,d,got))
print(json.dumps({"n":n,"bad":bad[:5]}))
'''

def check(ck):
    ck.rule = RULE
    ck.assumptions = ["reference SHA-256/expansion in /verif/ref/ref.hpp, primality by GMP", "sizes up to 1024 bits, seeds up to 20 kB"]
    plain, asan, pk = vlib.build_many([lambda: vlib.program("c05", ["c05.cpp"], "plain"), lambda: vlib.program("c05", ["c05.cpp"], "asan"), lambda: vlib.python_module()])
    with tempfile.TemporaryDirectory() as td:
        vlib.shards(ck, plain, ["--cases", ck.pick(6000, 200000), "--dump", td + "/d"], ck.pick(300, 3600))
        files = sorted(glob.glob(td + "/d.*"))
        script = td + "/p.py"
        open(script, "w").write(PY)
        outs = vlib.parallel([lambda f=f: vlib.run([vlib.VENV + "/bin/python", script, f], ck.pick(300, 3600), {"PYTHONPATH": pk, "PYTHONDONTWRITEBYTECODE": "1"}) for f in files])
        for r in outs:
            if r.timed_out:
                ck.violation("python:hang", r.err[-1000:]); continue
            if r.rc != 0:
                c = vlib.classify(r.rc, r.err)
                if c: ck.violation("python:" + c[0], c[1]); continue
                raise vlib.HarnessError("python surface: " + r.err[-2000:])
            d = json.loads(r.out.splitlines()[-1])
            ck.add("python_surface_compared", d["n"])
            for b in d["bad"]:
                ck.violation("python:value", b)
    vlib.shards(ck, asan, ["--cases", ck.pick(800, 20000)], ck.pick(300, 3600), prefix="asan_", tag="asan_build:")
    ck.need("derived", 1000); ck.need("refused_inputs", 300); ck.need("python_surface_compared", 1000)
