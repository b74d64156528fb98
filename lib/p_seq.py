"""Sequential components. Per property: the components (specification module, driver, library sources, depth and number of
random sequences in the quick and thorough tiers)."""
import vlib, seqrun

T = "thorough"


def C(X, driver, libs=(), depth=(3, 4), seeds=(2000, 30000), cap=(6000, 60000), **kw):
    return dict(X=X, driver=driver, libs=list(libs), depth=depth, seeds=seeds, cap=cap, kw=kw)


SEQ = {
    "R01": [C("Blob", "blob_driver", depth=(3, 4), seeds=(2000, 40000))],
    "R02": [C("EmplArray", "empl_driver", depth=(4, 5), seeds=(2000, 40000))],
    "R03": [C("ScopeGuard", "scope_driver", depth=(4, 5), seeds=(2000, 40000))],
    "R04": [C("StringParam", "sparam_driver", ["string_param"], depth=(2, 3), seeds=(8000, 80000))],
    "R05": [C("TaggedPtr", "tagged_driver", depth=(3, 4), seeds=(3000, 40000), parts=4)],
    "R06": [C("FunctionView", "fview_driver", depth=(4, 5), seeds=(3000, 40000))],
    "T01": [C("Text", "text_driver", depth=(4, 5), seeds=(10000, 100000), env={"TEXT": "1"})],
    "T02": [C("Text", "text_driver", depth=(4, 5), seeds=(10000, 100000), env={"TEXT": "2"})],
    "T03": [C("Text", "text_driver", depth=(4, 5), seeds=(10000, 100000), env={"TEXT": "4"})],
    "T05": [C("FixedStr", "fixed_driver", depth=(2, 3), seeds=(4000, 40000), parts=5)],
    "N01": [C("Accum", "accum_driver", depth=(3, 4), seeds=(3000, 40000))],
    "N02": [C("IntRange", "irange_driver", depth=(3, 4), seeds=(5000, 50000))],
    "N03": [C("BitOps", "bit_driver", depth=(1, 1), seeds=(4000, 60000), cap=(12000, 60000), parts=6)],
    "N04": [C("Math", "math_driver", depth=(3, 3), seeds=(3000, 40000), parts=5, link=["-lquadmath"])],
    "N05": [C("Half", d, depth=(2, 2), seeds=(600, 20000), cap=(12000, 60000), link=["-lquadmath"])
            for d in ("half_driver", "half_emu_driver", "half_soft_driver")],
    "S01": [C("Span", "span_driver", depth=(3, 4), seeds=(1200, 20000), cap=(5000, 40000))],
    "N06": [C("Consts", d, depth=(1, 1), seeds=(10, 100), link=["-lquadmath"]) for d in ("consts_driver", "consts_emu_driver")]
           + [C("VConsts", "vconsts_driver", ["vector_types_common", "uuid", "hashing"], depth=(1, 1), seeds=(8, 20))],
    "H01": [C("Hash", "hash_driver", ["hashing"], depth=(2, 3), seeds=(2500, 20000), env={"HASH": "1"})],
    "H02": [C("Hash", "hash_driver", ["hashing"], depth=(2, 3), seeds=(2500, 20000), env={"HASH": "2"})],
    "V01": [C("Vec", "vec_driver", depth=(3, 4), seeds=(6000, 60000), parts=6)],
    "V02": [C("Mat", "mat_driver", depth=(3, 4), seeds=(6000, 60000), parts=6)],
    "V03": [C("Quat", "quat_driver", depth=(3, 4), seeds=(6000, 60000), parts=3)],
    "G01": [C("Geom", "geom_driver", ["vector_types_common"], depth=(2, 3), seeds=(6000, 60000), parts=3)],
    "G02": [C("Geom", "geom_driver", ["vector_types_common"], depth=(2, 3), seeds=(6000, 60000), parts=3)],
    "U01": [C("Uuid", "uuid_driver", ["uuid", "hashing"], depth=(1, 2), seeds=(6000, 60000))],
    "U02": [C("Uuid", "uuid_driver", ["uuid", "hashing"], depth=(1, 2), seeds=(6000, 60000))],
}
ASSUME = {}


def run(prop):
    ck = vlib.Check(prop)
    t = 1 if vlib.TIER == T else 0
    for c in SEQ[prop]:
        seqrun.component(ck, c["X"], prop, c["driver"], c["libs"], depth=c["depth"][t], seeds=c["seeds"][t], cap=c["cap"][t],
                         timeout=3000 if t else 700, tag="_" + prop, **c["kw"])
    ck.assume = ASSUME.get(prop, []) + ["g++ -O1 with AddressSanitizer and UndefinedBehaviorSanitizer, x86-64 (little-endian), C++20"]
    return ck.finish()
