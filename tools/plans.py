"""All plans."""
import plans_seq
PLANS = dict(plans_seq.PLANS)
for _m in ("plans_ord", "plans_val", "plans_mem", "plans_misc", "plans_stab", "plans_cost"):
    try:
        PLANS.update(__import__(_m).PLANS)
    except ImportError as e:
        if _m not in str(e):
            raise
NOTES = {"": "TLC explores the bounded models exhaustively; the real code is judged on the recorded histories (covering walks of "
             "the model graph and seeded random histories), so the guarantee on the code is conformance on those histories, not a proof"}
