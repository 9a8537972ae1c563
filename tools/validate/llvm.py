#!/usr/bin/env python3
"""Compare the reference's numbering, field positions and stream parser with LLVM 18's own tools.

Not a check: it validates the oracle. usage: llvm.py [MC-BINARY]
"""
import re, subprocess, sys, os, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
MC = sys.argv[1] if len(sys.argv) > 1 else os.path.join(HERE, "../../mc/target/release/mc")
TABLES = open(os.path.join(HERE, "../../mc/src/tables.rs")).read()
tmp = tempfile.mkdtemp()
bad = 0
n = 0

def table(name):
    t = TABLES[TABLES.index(f"pub const {name}:"):]
    t = t[:t.index("];")]
    return {int(a): b for a, b in re.findall(r"\((\d+), \w+::(\w+)\)", t)}

def records(ll, raw=False):
    p, b = f"{tmp}/x.ll", f"{tmp}/x.bc"
    open(p, "w").write(ll)
    r = subprocess.run(["llvm-as-18", p, "-o", b], capture_output=True, text=True)
    if r.returncode:
        return None
    d = subprocess.run(["llvm-bcanalyzer-18", "--dump", b], capture_output=True, text=True).stdout
    m = subprocess.run([MC, "dump", b], capture_output=True, text=True).stdout
    # The streams: every record of the analyzer has to be in the reference's entries, in order.
    mine = [[int(x) for x in f.split(",") if x.strip()] for f in re.findall(r"^Rec .*fields: \[(.*)\]", m, re.M)]
    theirs = []
    for l in d.splitlines():
        x = re.match(r"\s*<(\w+)(?: abbrevid=\d+)?((?: op\d+=-?\d+)*)(?:/>|>)(?: (?:with|record|blob).*)?", l)
        if not x or l.strip().startswith("</") or "NumWords" in l or x.group(1) == "BLOCKINFO_BLOCK" or "_BLOCK_ID" in l:
            continue
        theirs.append((x.group(1), [int(v) & (2**64 - 1) for v in re.findall(r"op\d+=(-?\d+)", x.group(2))], "blob" in l or "record string" in l))
    check(len(mine) == len(theirs), f"record counts {len(mine)} {len(theirs)}")
    for a, (name, b, blob) in zip(mine, theirs):
        check(a == b or (blob and a[:len(b)] == b), f"{name} {a} {b}")
    check("parsers agree" in m, "the parsers disagree")
    return [(c, f) for c, f, _ in theirs if c != "FUNCTION" or len(f) > 12]

def check(ok, what):
    global bad, n
    n += 1
    if not ok:
        bad += 1
        print("MISMATCH", what)

def rec(rs, name, k=0):
    return [f for c, f in rs if c == name][k]

FUN = dict(name=0, size=1, ty=2, cc=3, proto=4, linkage=5, attrs=6, align=7, section=8, vis=9, gc=10, unnamed=11, dll=13)
base = records("declare void @ff()\n")
check(len(rec(base, "FUNCTION")) >= 14, "function record length")

ccs = table("CALLING_CONVENTIONS")
word = {"C": "ccc", "Fast": "fastcc", "Cold": "coldcc", "GHC": "ghccc", "HiPE": "cc 11", "WebKitJS": "webkit_jscc", "AnyReg": "anyregcc",
        "PreserveMost": "preserve_mostcc", "PreserveAll": "preserve_allcc", "Swift": "swiftcc", "CXXFASTTLS": "cxx_fast_tlscc",
        "X86Stdcall": "x86_stdcallcc", "X86Fastcall": "x86_fastcallcc", "ARMAPCS": "arm_apcscc", "ARMAAPCS": "arm_aapcscc",
        "ARMAAPCSVFP": "arm_aapcs_vfpcc", "MSP430INTR": "msp430_intrcc", "X86ThisCall": "x86_thiscallcc", "PTXKernel": "ptx_kernel",
        "PTXDevice": "ptx_device", "SPIRFUNC": "spir_func", "SPIRKERNEL": "spir_kernel", "IntelOCLBI": "intel_ocl_bicc",
        "X8664SysV": "x86_64_sysvcc", "Win64": "win64cc", "X86VectorCall": "x86_vectorcallcc", "HHVM": "hhvmcc", "HHVMC": "hhvm_ccc",
        "X86INTR": "x86_intrcc", "AVRINTR": "avr_intrcc", "AVRSIGNAL": "avr_signalcc", "AMDGPUVS": "amdgpu_vs", "AMDGPUGS": "amdgpu_gs",
        "AMDGPUPS": "amdgpu_ps", "AMDGPUCS": "amdgpu_cs", "AMDGPUKERNEL": "amdgpu_kernel", "X86RegCall": "x86_regcallcc",
        "AMDGPUHS": "amdgpu_hs", "AMDGPULS": "amdgpu_ls", "AMDGPUES": "amdgpu_es"}
for code, name in ccs.items():
    w = word.get(name)
    args = "ptr byval(i32) %x" if name == "X86INTR" else ""
    rs = w and records(f"declare {w} void @ff({args})\n")
    if not rs:
        print("no keyword:", name); continue
    check(rec(rs, "FUNCTION")[FUN["cc"]] == code, f"cc {name} {code} {rec(rs, 'FUNCTION')}")

links = table("LINKAGES")
kw = {"external": "External", "extern_weak": "ExternalWeak", "weak": "WeakAny", "weak_odr": "WeakOdr", "linkonce": "LinkOnceAny",
      "linkonce_odr": "LinkOnceOdr", "internal": "Internal", "private": "Private", "common": "Common", "appending": "Appending",
      "available_externally": "AvailableExternally"}
for k, name in kw.items():
    if k == "appending":
        rs = records("@xx = appending global [1 x i32] zeroinitializer\n")
    elif k in ("extern_weak", "external"):
        rs = records(f"@xx = {k} global i32\n")
    else:
        rs = records(f"@xx = {k} global i32 0\n")
    check(links.get(rec(rs, "GLOBALVAR")[5]) == name, f"linkage {k} {rec(rs, 'GLOBALVAR')}")
    rs = records(f"@xx = global i32 0\n@al = {k} alias i32, ptr @xx\n")
    if rs:
        check(links.get(rec(rs, "ALIAS")[5]) == name, f"alias linkage {k}")
for w, v in {"default": 0, "hidden": 1, "protected": 2}.items():
    check(rec(records(f"declare {w} void @ff()\n"), "FUNCTION")[FUN["vis"]] == v, f"vis {w}")
    check(rec(records(f"@xx = global i32 0\n@al = {w} alias i32, ptr @xx\n"), "ALIAS")[6] == v, f"alias vis {w}")
for w, v in {"": 0, "dllimport": 1, "dllexport": 2}.items():
    check(rec(records(f"declare {w} void @ff()\n"), "FUNCTION")[FUN["dll"]] == v, f"dll {w}")
    rs = records(f"@xx = global i32 0\n@al = {w} alias i32, ptr @xx\n")
    if rs: check(rec(rs, "ALIAS")[7] == v, f"alias dll {w}")
for w, v in {"": 0, "unnamed_addr": 1, "local_unnamed_addr": 2}.items():
    check(rec(records(f"declare void @ff() {w}\n"), "FUNCTION")[FUN["unnamed"]] == v, f"unnamed {w}")
    check(rec(records(f"@xx = global i32 0\n@al = {w} alias i32, ptr @xx\n"), "ALIAS")[9] == v, f"alias unnamed {w}")
for w, v in {"": 0, "thread_local": 1, "thread_local(localdynamic)": 2, "thread_local(initialexec)": 3, "thread_local(localexec)": 4}.items():
    check(rec(records(f"@xx = thread_local global i32 0\n@al = {w} alias i32, ptr @xx\n"), "ALIAS")[8] == v, f"tls {w}")
for w, v in {"dso_preemptable": 0, "dso_local": 1}.items():
    check(rec(records(f"@xx = global i32 0\n@al = {w} alias i32, ptr @xx\n"), "ALIAS")[10] == v, f"preemption {w}")
for k in range(0, 33):
    check(rec(records(f"declare void @ff() align {1 << k}\n"), "FUNCTION")[FUN["align"]] == k + 1, f"align {k}")
rs = records('declare void @ff() section "ss" gc "gg"\ndeclare void @fg() section "tt" gc "hh"\n')
check([f[FUN["section"]] for c, f in rs if c == "FUNCTION"] == [1, 2], "sections")
check([f[FUN["gc"]] for c, f in rs if c == "FUNCTION"] == [1, 2], "gcs")
for w, v in {"any": 1, "exactmatch": 2, "largest": 3, "nodeduplicate": 4, "samesize": 5}.items():
    rs = records(f"$cc = comdat {w}\n@cc = global i32 0, comdat\n")
    check(rec(rs, "COMDAT")[2] == v and len(rec(rs, "COMDAT")) == 3, f"comdat {w}")

# Attributes: by keyword, in the position where they're allowed.
attrs = table("ATTRIBUTES")
plain = {"AlwaysInline": "alwaysinline", "InlineHint": "inlinehint", "InReg": "inreg", "MinSize": "minsize", "Naked": "naked", "Nest": "nest",
 "NoAlias": "noalias", "NoBuiltin": "nobuiltin", "NoCapture": "nocapture", "NoDuplicate": "noduplicate", "NoImplicitFloat": "noimplicitfloat",
 "NoInline": "noinline", "NonLazyBind": "nonlazybind", "NoRedZone": "noredzone", "NoReturn": "noreturn", "NoUnwind": "nounwind",
 "OptimizeForSize": "optsize", "ReadNone": "readnone", "ReadOnly": "readonly", "Returned": "returned", "ReturnsTwice": "returns_twice",
 "SExt": "signext", "StackProtect": "ssp", "StackProtectReq": "sspreq", "StackProtectStrong": "sspstrong", "SanitizeAddress": "sanitize_address",
 "SanitizeThread": "sanitize_thread", "SanitizeMemory": "sanitize_memory", "ZExt": "zeroext", "Builtin": "builtin", "Cold": "cold",
 "OptimizeNone": "optnone noinline", "NonNull": "nonnull", "JumpTable": "jumptable", "Convergent": "convergent", "SafeStack": "safestack",
 "SwiftSelf": "swiftself", "SwiftError": "swifterror", "NoRecurse": "norecurse", "WriteOnly": "writeonly", "Speculatable": "speculatable",
 "StrictFp": "strictfp", "SanitizeHwAddress": "sanitize_hwaddress", "NoCfCheck": "nocf_check", "OptForFuzzing": "optforfuzzing",
 "Shadowcallstack": "shadowcallstack", "SpeculativeLoadHardening": "speculative_load_hardening", "ImmArg": "immarg", "WillReturn": "willreturn",
 "NoFree": "nofree", "NoSync": "nosync", "SanitizeMemtag": "sanitize_memtag", "NoMerge": "nomerge", "NullPointerIsValid": "null_pointer_is_valid",
 "NoUndef": "noundef", "MustProgress": "mustprogress", "NoCallback": "nocallback", "Hot": "hot", "NoProfile": "noprofile",
 "SwiftAsync": "swiftasync", "NoSanitizeCoverage": "nosanitize_coverage", "DisableSanitizerInstrumentation": "disable_sanitizer_instrumentation",
 "NoSanitizeBounds": "nosanitize_bounds", "AllocAlign": "allocalign", "AllocatedPointer": "allocptr", "PresplitCoroutine": "presplitcoroutine",
 "FnretthunkExtern": "fn_ret_thunk_extern", "SkipProfile": "skipprofile"}
typed = {"ByVal": "byval(i32)", "StructRet": "sret(i32)", "InAlloca": "inalloca(i32)", "Preallocated": "preallocated(i32)", "ByRef": "byref(i32)",
 "ElementType": "elementtype(i32)"}
ints = {"Alignment": ("align 8", 8), "StackAlignment": ("alignstack(16)", 16), "Dereferenceable": ("dereferenceable(24)", 24),
 "DereferenceableOrNull": ("dereferenceable_or_null(24)", 24), "AllocSize": ("allocsize(1,0)", 1 << 32), "VScaleRange": ("vscale_range(2,8)", 2 << 32 | 8),
 "UwTable": ("uwtable", 2), "AllocKind": ('allockind("alloc")', 1), "Memory": ("memory(none)", 0)}
def groups(a):
    for ll in (f"declare void @ff() {a}\n", f"declare void @ff(ptr {a})\n", f"declare void @ff(i32 {a})\n", f"declare i32 @ff(i32 {a})\n",
               f"declare {a} ptr @ff()\n", f"declare void @ff(i32, i32) {a}\n", f"declare ptr @ff(i32, i32, ptr, ptr) {a}\n"):
        rs = records(ll)
        g = rs and [f for c, f in rs if c == "ENTRY" and len(f) > 3]
        if g: return g[0]
for code, name in attrs.items():
    if name in plain:
        g = groups(plain[name])
        if not g: print("not assembled:", name); continue
        check([0, code] in [g[i:i + 2] for i in range(2, len(g))] , f"attribute {name} {code} {g}")
    elif name in typed:
        g = groups(typed[name])
        check(g and g[2:4] == [6, code], f"attribute {name} {code} {g}")
    elif name in ints:
        g = groups(ints[name][0])
        check(g and g[2:5] == [1, code, ints[name][1]], f"attribute {name} {code} {g}")
    else:
        print("no keyword:", name)
print(n, "comparisons,", bad, "mismatches")
sys.exit(bad != 0)
