# Which simulation binaries decide which property: (harness, build variant, share of the worker processes)
def T(h, full=5, fast=3, **kw):
    d = {"targets": [t for t in ((h, "full", full), (h, "fast", fast)) if t[2]], "thorough_targets": [(h, "full20", 1), (h, "dbg", 1)]}; d.update(kw); return d
# algorithms: with the standard allocator every sequence has its own block, so that the simulator sees each access past its end;
# the fast build keeps the library's own allocator
def A(h, sa=4, fast=4): return {"targets": [(h, "stdalloc", sa), (h, "fast", fast)], "thorough_targets": [(h, "full", 2), (h, "full20", 1), (h, "dbg", 1)]}
PROPS = {
  "C01": dict(targets=[("c01","full",4),("c01","fast",2),("c01","full20",1),("c01","doze",1)], thorough_targets=[("c01","condvar",1),("c01","spin",1),("c01","dbg",1)]),
  "C02": T("c02"),
  "C03": dict(targets=[("c03","full",3),("c03","fast",2),("c03","full20",1),("c03","doze",2)], thorough_targets=[("c03","condvar",1),("c03","spin",1),("c03","dbg",1)]),
  "C04": dict(targets=[("c04","full",4),("c04","fast",2),("c04","full20",1),("c04","doze",1)], thorough_targets=[("c04","condvar",1),("c04","spin",1),("c04","dbg",1)]),
  "C05": T("c05"), "C06": T("c06"), "C07": T("c07"), "C08": T("c08"), "C09": T("c09"), "C10": T("c10"), "C11": T("c11"),
  "C12": dict(targets=[("c12","full",3),("c12","fast",1),("c12","full20",1),("c12","condvar",1),("c12","notable",1),("c12","timed",1)]),
  "C13": A("c13"), "C14": A("c14"), "C15": A("c15"),
  "C16": dict(targets=[("c16","stdalloc",4),("c16","fast",2),("c16","dbg",2)], thorough_targets=[("c16","full",2),("c16","full20",1)]),
  "C17": dict(targets=[("c17","stdalloc",3),("c17","fast",3),("c17","dbg",2)], thorough_targets=[("c17","full",2),("c17","full20",1)]),
  "C18": A("c18"), "C19": A("c19"), "C20": A("c20"), "C21": A("c21"), "C22": A("c22"),
  "C23": dict(targets=[("c23","full",8)], thorough_targets=[("c23","fast",2),("c23","stdalloc",2),("c23","full20",1),("c23","dbg",1)]), "C24": A("c24"),
  "C25": T("c25"), "C26": T("c26"),
  "C27": dict(targets=[("c27","full",4),("c27","full20",4)], thorough_targets=[("c27","stdalloc",2),("c27","dbg",2)]), "C28": T("c28", full=4, fast=4),
}
ASSUMPTIONS = [
  "x86-64 code as compiled by clang at -O1 with the C++17 (and where listed C++20) code paths of the library on Linux",
  "weak memory behaviour is limited to store buffering (x86-TSO); weaker orderings are covered only by the happens-before race detector",
  "a clean batch of seeds is evidence, not proof: schedules and inputs outside the sampled ones are not covered",
]
