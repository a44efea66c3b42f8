"""C19: the C, C++, Python and Rust surfaces agree."""
import os, shutil
import vlib

def rust_server(flavor="plain"):
    cw = vlib.obj(os.path.join(vlib.SRC, "c_bindings/c_wrapper.cpp"), flavor); lz = vlib.obj(os.path.join(vlib.SRC, "refcode/lzcnt.c"), flavor)
    lib = os.path.join(vlib.REPO, "rust_bindings/src/lib.rs"); surf = os.path.join(vlib.VERIF, "harness/surf")
    def make(tmp):
        d = tmp + ".d"; os.makedirs(d + "/out", exist_ok=True)
        shutil.copy(surf + "/bindings.rs", d + "/out/bindings.rs"); open(d + "/stub.rs", "w").write("")
        rc = ["rustc", "--edition", "2021", "--cap-lints", "allow", "-C", "debug-assertions=on", "-L", d]
        env = dict(os.environ, OUT_DIR=d + "/out")
        vlib.sh(rc + ["--crate-type", "rlib", "--crate-name", "link_cplusplus", d + "/stub.rs", "-o", d + "/liblink_cplusplus.rlib"])
        vlib.sh(rc + ["--crate-type", "rlib", "--crate-name", "chiavdf", lib, "-o", d + "/libchiavdf.rlib"], env=env)
        vlib.sh(rc + [surf + "/rust_srv.rs", "-o", tmp, "-C", "link-arg=" + cw, "-C", "link-arg=" + lz, "-C", "link-arg=-lgmpxx", "-C", "link-arg=-lgmp", "-C", "link-arg=-lstdc++"])
        shutil.rmtree(d)
    return vlib.cached("rustsrv", cw + lz + vlib._fhash(lib) + vlib.inputs_key(), make)

def check(ck):
    ck.rule = "one case = one argument tuple (seed, size, element, blob, count, depth; honest chains of depth 0..2, mutants, invalid sizes, huge counts) put to every surface that can express it: Python in-process, a C program on c_wrapper.h, a C++ program on verifier.h/prover_slow.h, a Rust program on lib.rs; distinct by tuple"
    ck.assumptions = ["bindgen is not available offline: the extern declarations lib.rs includes are written by hand from c_wrapper.h", "failure forms: C false/NULL with length 0, Rust false/None, Python ValueError for invalid_argument, RuntimeError for runtime_error, MemoryError for bad_alloc"]
    surf = os.path.join(vlib.VERIF, "harness/surf")
    def csrv(fl):
        o = [vlib.obj(surf + "/c_srv.c", fl), vlib.obj(os.path.join(vlib.SRC, "c_bindings/c_wrapper.cpp"), fl, ["-fvisibility=default"]), vlib.obj(os.path.join(vlib.SRC, "refcode/lzcnt.c"), fl)]
        return vlib.link("c_srv", o, fl)
    c, cx, rs, pk = vlib.build_many([lambda: csrv("plain"), lambda: vlib.program("cxx_srv", ["surf/cxx_srv.cpp"], "plain"), rust_server, lambda: vlib.python_module("plain", ["-DNDEBUG"])])
    n = vlib.NCPU; t = ck.pick(400, 7200)
    # The huge counts of the plan must fail by bad_alloc: bound the address space instead of the machine's memory.
    env = {"PYTHONPATH": pk, "PYTHONDONTWRITEBYTECODE": "1", "ASAN_OPTIONS": vlib.SAN_ENV["ASAN_OPTIONS"]}
    vlib.parallel([lambda i=i: vlib.harness(ck, vlib.VENV + "/bin/python", [surf + "/agree.py", "--c", c, "--cxx", cx, "--rust", rs, "--cases", ck.pick(480, 60000), "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)], t, env) for i in range(n)])
    ck.need("accepted", 200); ck.need("tuples_create", 300); ck.need("tuples_prove", 500); ck.need("tuples_verify", 1000); ck.need("withb_accepted", 100); ck.need("outcome_verify_refused", 200); ck.need("outcome_verify_raise", 100); ck.need("outcome_prove_raise", 50)
