def tu(name, src, **kw):
    return dict(name=name, src=src, **kw)
CHECKS = {}
CHECKS["C07"] = dict(tus=[tu("C07", "C07.cpp", unwind=9)])
CHECKS["C08"] = dict(tus=[tu("C08", "C08.cpp", unwind=10), tu("C08i", "C08.cpp", flags=["-DVF_INV"], unwind=10, optional=True)])
CHECKS["C09"] = dict(tus=[tu("C09", "C09.cpp", unwind=8)])
NOT_APPLICABLE = {
    "C33": "the results are types and constants computed by the compiler from the program text: there is no function "
           "with inputs to put a contract on, and the universe (all programs) is not one a verifier of functions "
           "ranges over. Compiling chosen instances would be a test, not a proof.",
}
CHECKS["C10"] = dict(tus=[tu("C10", "C10.cpp", unwind=8)])
CHECKS["C11"] = dict(tus=[tu("C11", "C11.cpp", unwind=9)])
CHECKS["C05"] = dict(tus=[tu("C05", "C05.cpp", unwind=10), tu("C05f", "C05.cpp", flags=["-DVF_FALLBACK"], unwind=10)])
CHECKS["C06"] = dict(tus=[tu("C06", "C06.cpp", unwind=6), tu("C06f", "C06.cpp", flags=["-DVF_FALLBACK"], unwind=6),
                          tu("C06g", "C06.cpp", flags=["-DVF_FALLBACK", "-DVF_NOCLANG"], unwind=6),
                          tu("C06b", "C06b.cpp", unwind=66), tu("C06bf", "C06b.cpp", flags=["-DVF_FALLBACK"], unwind=66)])
CHECKS["C15"] = dict(tus=[tu("C15", "C15.cpp", unwind=4, uf="VF_UF")])
CHECKS["C16"] = dict(tus=[tu("C16", "C16.cpp", unwind=4)])
CHECKS["C01"] = dict(tus=[tu("C01", "C01.cpp", unwind=10, unwinds={"range_": 5, "string_9": 13})])
CHECKS["C02"] = dict(tus=[tu("C02", "C02.cpp", unwind=6)])
CHECKS["C03"] = dict(tus=[tu("C03", "C03.cpp", unwind=18)])
CHECKS["C04"] = dict(tus=[tu("C04", "C04.cpp", unwind=6)])
CHECKS["C17"] = dict(tus=[tu("C17", "C17.cpp", unwind=8)])
CHECKS["C18"] = dict(tus=[tu("C18", "C18.cpp", unwind=4)])
CHECKS["C25"] = dict(tus=[tu("C25", "C25.cpp", unwind=4)])
CHECKS["C32"] = dict(tus=[tu("C32", "C32.cpp", unwind=4)])
CHECKS["C19"] = dict(tus=[tu("C19", "C19.cpp", unwind=4)])
CHECKS["C12"] = dict(tus=[tu("C12", "C12.cpp", unwind=13, gap="any_")])
CHECKS["C13"] = dict(tus=[tu("C13", "C13.cpp", unwind=13, gap="any_")])
CHECKS["C14"] = dict(tus=[tu("C14", "C14.cpp", unwind=13, gap="any_")])
CHECKS["C30"] = dict(tus=[tu("C30", "C30.cpp", unwind=4),
                          tu("C30w", "C30.cpp", unwind=4, flags=["-DVF_ATOMIC_CFG=\"atomic_cfg.hpp\""])])
CHECKS["C31"] = dict(tus=[tu("C31", "C31.cpp", unwind=8),
                          tu("C31w", "C31.cpp", unwind=8, flags=["-DVF_ATOMIC_CFG=\"atomic_cfg.hpp\""])])
GCC = ["-DVF_GCC_BRANCH"]
CHECKS["C20"] = dict(tus=[tu("C20", "C20.cpp", unwind=6), tu("C20g", "C20.cpp", unwind=6, flags=GCC)])
CHECKS["C21"] = dict(tus=[tu("C21", "C21.cpp", unwind=8), tu("C21g", "C21.cpp", unwind=8, flags=GCC)])
CHECKS["C22"] = dict(tus=[tu("C22", "C22.cpp", unwind=60), tu("C22g", "C22.cpp", unwind=60, flags=GCC)])
CHECKS["C26"] = dict(tus=[tu("C26", "C26.cpp", unwind=18)])
CHECKS["C27"] = dict(tus=[tu("C27", "C27.cpp", unwind=18)])
CHECKS["C28"] = dict(tus=[tu("C28", "C28.cpp", unwind=8)])
CHECKS["C29"] = dict(tus=[tu("C29", "C29.cpp", unwind=26, unwinds={"integer_u": (4, 1), "integer_i": (4, 0.5)}, defs=["-DVF_DIVQ"], uf="VF_DIVU", exact=40),
                          tu("C29s", "C29s.cpp", unwind=12, unwinds={"(count|find|split)_%d" % k: k + 2 for k in range(9)}),
                          tu("C29i", "C29i.cpp", unwind=48)])
for c in ("C23", "C24"):
    CHECKS[c] = dict(tus=[tu(c + "b", c + ".cpp", unwind=6, flags=["-DVF_BOUNDED=4"]), tu(c + "l", c + ".cpp", mode="loop")])
CHECKS["C34"] = dict(tus=[tu("C34", "C34.cpp", unwind=8), tu("C34i", "C34i.cpp", unwind=8, optional=True)])
