"""What run_check.py runs for each property."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BOOST = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]
SELFTEST = {"name": "self", "src": "selftest.cpp"}


def v(src, cases, name="main", **kw):
    return dict({"src": src, "cases": cases, "name": name, "shim": True}, **kw)


def programs(*names, plain=()):
    """compile programs of src/hubbard into build/app (sanitized, except those in plain)"""
    def prepare(repo, build):
        out = os.path.join(build, "app")
        os.makedirs(out, exist_ok=True)

        def one(n):
            san = ["-O2"] if n in plain else ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
            r = subprocess.run(["g++", "-std=c++14", "-fopenmp", "-w", "-include", "cstdint", "-I" + repo + "/include", "-I" + HERE + "/shim_app", "-I" + HERE + "/shim"]
                               + san + [repo + "/src/hubbard/" + n + ".cpp", "-o", os.path.join(out, n)] + BOOST,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return n, r.returncode, r.stdout
        with ThreadPoolExecutor(8) as ex:
            for n, rc, text in ex.map(one, names + tuple(plain)):
                if rc:
                    print("the program %s does not compile:\n%s" % (n, text[-4000:]), flush=True)
                    raise SystemExit(2)
    return prepare


def threads(*names):
    """compile programs with ThreadSanitizer and the OpenMP run time of schedules.hpp into build/threads"""
    def prepare(repo, build):
        out = os.path.join(build, "threads")
        os.makedirs(out, exist_ok=True)

        def one(n):
            r = subprocess.run(["g++", "-std=c++14", "-fopenmp", "-w", "-include", "cstdint", "-DPBT_PROGRAM", "-include", HERE + "/harness/schedules.hpp",
                                "-I" + repo + "/include", "-I" + HERE + "/shim_app", "-I" + HERE + "/shim", "-O1", "-g", "-fsanitize=thread",
                                repo + "/src/hubbard/" + n + ".cpp", "-o", os.path.join(out, n)] + BOOST,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return n, r.returncode, r.stdout
        with ThreadPoolExecutor(8) as ex:
            for n, rc, text in ex.map(one, names):
                if rc:
                    print("the program %s does not compile:\n%s" % (n, text[-4000:]), flush=True)
                    raise SystemExit(2)
    return prepare


def c(src, cases, **kw):
    """a harness under ThreadSanitizer, with arbitrary schedules of the parallel loops"""
    return v(src, cases, name="schedules", flags=["-O1", "-DPBT_SCHEDULES", "-fsanitize=thread", '-DAPP_DIR="@BUILD@/threads"'], sanitize=False, fuzz=False, workers=8, **kw)


def one(src, cases, **kw):
    """a harness and the library without OpenMP"""
    return v(src, cases, name="serial", openmp=False, libs=["-lgomp"], fuzz=False, **kw)


def s(src, cases, **kw):
    return v(src, cases, include=["@HERE@/shim_app", "@REPO@/src/hubbard"], libs=BOOST, flags=["-O1", '-DAPP_DIR="@BUILD@/app"'], fuzz=False, workers=8, **kw)


CHECKS = {
    "A01": {"variants": [v("A01.cpp", 30000)]},
    "A02": {"variants": [v("A02.cpp", 20000)]},
    "A03": {"variants": [v("A03.cpp", 40000)]},
    "A04": {"variants": [v("A04.cpp", 40000)]},
    "A05": {"variants": [v("A05.cpp", 60000)]},
    "A06": {"variants": [v("A06.cpp", 80000)]},
    "A07": {"variants": [v("A07.cpp", 40000), v("A07.cpp", 10000, name="no-arrows", flags=["-O1", "-DIEOMPP_DISABLE_ARROWS"])]},
    "A08": {"variants": [v("A08.cpp", 40000)]},
    "A09": {"variants": [v("A09.cpp", 60000)]},
    "A10": {"variants": [v("A10.cpp", 40000)]},
    "C01": {"variants": [c("C01.cpp", 3000)],
            "prepare": threads("hubbard_real_1d_rk4", "hubbard_real_1d_rk4_jump", "hubbard_real_2d_rk4_jump", "hubbard_real_1d_kinetic_rk4", "hubbard_real_1d_kinetic_theory")},
    "I01": {"variants": [v("I01.cpp", 200000)]},
    "L01": {"variants": [v("L01.cpp", 20000)]},
    "L02": {"variants": [v("L02.cpp", 20000)]},
    "L03": {"variants": [v("L03.cpp", 10000)]},
    "L04": {"variants": [v("L04.cpp", 10000)]},
    "L05": {"variants": [v("L05.cpp", 10000), c("L05.cpp", 1500), one("L05.cpp", 1500)]},
    "M01": {"variants": [v("M01.cpp", 6000), c("M01.cpp", 1200), one("M01.cpp", 600)]},
    "M02": {"variants": [v("M02.cpp", 6000), c("M02.cpp", 1200)]},
    "M03": {"variants": [v("M03.cpp", 20000), c("M03.cpp", 2000), one("M03.cpp", 2000)]},
    "M04": {"variants": [v("M04.cpp", 3000), c("M04.cpp", 600), one("M04.cpp", 500)]},
    "M05": {"variants": [v("M05.cpp", 5000), c("M05.cpp", 1000), one("M05.cpp", 800)]},
    "M06": {"variants": [v("M06.cpp", 2000), c("M06.cpp", 400), one("M06.cpp", 400)]},
    "M08": {"variants": [v("M08.cpp", 40000)]},
    "M09": {"variants": [v("M09.cpp", 3000)]},
    "M10": {"variants": [v("M10.cpp", 3000)]},
    "M11": {"variants": [v("M11.cpp", 2000)]},
    "M12": {"variants": [v("M12.cpp", 5000)]},
    "M13": {"variants": [v("M13.cpp", 1000)]},
    "N01": {"variants": [v("N01.cpp", 4000), v("N01.cpp", 4000, name="eigen", flags=["-O1", "-DPBT_EIGEN", "-DNDEBUG"])]},
    "T01": {"variants": [v("T01.cpp", 40000)]},
    "T02": {"variants": [v("T02.cpp", 40000)]},
    "T03": {"variants": [v("T03.cpp", 20000)]},
    "T04": {"variants": [v("T04.cpp", 40000), c("T04.cpp", 3000)]},
    "T05": {"variants": [v("T05.cpp", 40000)]},
    "P01": {"variants": [v("P01.cpp", 40000)]},
    "P02": {"variants": [v("P02.cpp", 20000)]},
    "P03": {"variants": [s("P03.cpp", 4000)], "prepare": programs("hubbard_real_1d_kinetic_rk4", "hubbard_real_1d_kinetic_rk4_coefficients")},
    "S01": {"variants": [s("S01.cpp", 2000)], "prepare": programs("hubbard_real_1d_kinetic_rk4", "hubbard_real_1d_kinetic_rk4_coefficients")},
    "S02": {"variants": [s("S02.cpp", 1500)],
            "prepare": programs("hubbard_real_1d_rk4", "hubbard_real_1d_rk4_jump", "hubbard_real_1d_rk4_coefficients", "hubbard_real_1d_kinetic_rk4", "hubbard_real_1d_kinetic_rk4_coefficients")},
    "S03": {"variants": [s("S03.cpp", 20000)]},
    "S04": {"variants": [s("S04.cpp", 400)],
            "prepare": programs("hubbard_real_2d_rk4_jump", "hubbard_momentum_1d_rk4", "hubbard_dispersion_1d", "hubbard_trivial", plain=("hubbard_real_1d_kinetic_theory",))},
    "D01": {"variants": [v("D01.cpp", 3000, flags=["-O1", '-DTOOLS="@REPO@/tools"'], fuzz=False, workers=8)]},
    "S05": {"variants": [s("S05.cpp", 400)], "prepare": programs("hubbard_commutators_real_space", "hubbard_commutators_momentum_space")},
}
