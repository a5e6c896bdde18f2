"""The registry of checks: property -> jobs, rule, explanation."""


ABSINT = "abstract interpretation of the MIR over symbolic shapes and array contents"
NOTE = ("Static, all inputs at once, no bound on sizes; sound relative to the abstract interpreter and its models of the "
        "library functions, which are trusted and not machine-checked. Constructs it cannot interpret are reported as "
        "undetermined in the evidence and never as violations.")

VNOTE = ("Static: the terms and recurrences compared are extracted from the MIR by the abstract interpreter with symbolic "
         "sizes; the identities themselves are decided at pseudo-random atoms for every shape up to a small bound, so a "
         "defect that needs larger shapes or a special value outside the drawn families can be missed. The interpreter and "
         "its library models are trusted. Constructs without a closed form are reported as undetermined, never as violations.")


class Spec:
    def __init__(self, jobs, rule, explain, level="other", trusted=(), assumptions=(), technique=ABSINT, note=None):
        self.technique = technique
        self.note = note or NOTE
        self.jobs, self.rule, self.explain, self.level = jobs, rule, explain, level
        self.trusted = list(trusted) or TRUSTED
        self.assumptions = list(assumptions) + COMMON


TRUSTED = [
    "rustc's type checker and MIR construction (nightly), the dump driver in /verif/driver",
    "the abstract interpreter in /verif/lv (lin, term, interp, loops) and its models of core, alloc, ndarray and num-traits in models.py",
]
COMMON = [
    "usize arithmetic on array dimensions does not overflow (dimensions are those of arrays that exist)",
]
PROPS = {}


def spec(pid, **k):
    k.setdefault("note", VNOTE if "identity testing" in k.get("technique", "") or "non-interference" in k.get("technique", "") else None)
    PROPS[pid] = Spec(**k)


from . import p_shape, p_effects, p_value, p_rot, p_factor, p_indep, p_pair, p_iter, p_svd, p_lob, p_trunc, p_layout  # noqa
p_pair.extend_magnitudes(PROPS)
