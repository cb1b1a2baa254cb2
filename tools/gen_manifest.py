"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "/opt/venv/bin/python /verif/pbt/run.py %s %s"

# id: (technique, level_note)
T = {
    "C01": ("property-based testing: steps against an independent implementation of the textbook formulas",
            "Random dyadic problems (dimension 1-4), t0, h, step counts, all explicit fixed-step solvers."),
    "C02": ("property-based testing: residual of the textbook implicit formula after each step",
            "Linear, stiff, nonlinear and scalar problems; allows the documented root finder tolerance and errors that are raised."),
    "C03": ("property-based testing: start-up history against the first stepper run on its own",
            "All multistep solvers, t0 and first stepper choices (class, name, default, none)."),
    "C04": ("differential property-based testing against SciPy's RK23/RK45/DOP853, step by step and free-running",
            "Trusts the installed SciPy; comparisons that are ill-conditioned by rounding are skipped by a stated noise model."),
    "C05": ("property-based testing: observed order of convergence and error/tolerance ratio against exact solutions",
            "Families of problems with known solutions; asymptotic ranges only."),
    "C06": ("model-based (stateful) property-based testing: call histories against the list of steps of a second solver",
            "Call histories up to a dozen operations over all 26 solvers."),
    "C07": ("model-based (stateful) property-based testing of the stop rule of step and skip",
            "The stop rule is evaluated on the step list of a second solver."),
    "C08": ("model-based (stateful) property-based testing with generated t_bound positions",
            "The expected outcome (position, exception, unchanged state) is computed on the step list of a second solver."),
    "C09": ("property-based testing: time lists, orders and splits against the requested list and a reference solver",
            "One known finding is listed in known_findings.txt."),
    "C10": ("differential property-based testing against SciPy dense output and the Hermite formula",
            "Positions inside and outside the recorded history, in any order."),
    "C11": ("stateful property-based testing with snapshots of every array given or returned",
            "Interleavings of calls on one to three solvers sharing right-hand side or class."),
    "C12": ("property-based testing: reported events against sign changes over the reference step list",
            "Event functions of time and state, all directions, up to four at once."),
    "C13": ("property-based testing: terminal runs against the earliest crossing on the reference step list",
            "Several terminal and non-terminal events per run, sorted and unsorted requests."),
    "C14": ("metamorphic property-based testing: run against run_events, joint against single events, split against whole",
            "All solvers and event sets; splits at arbitrary times."),
    "C15": ("differential property-based testing of compiled mode against NBKODE_NONUMBA=1 in a sibling process",
            "One compiled right-hand side reads its coefficients from a buffer, so that one compilation serves many cases."),
    "C16": ("property-based testing: lookups against a brute-force filter over facts observed by probing the methods",
            "All filter combinations and spellings are sampled; facts come from observing right-hand side evaluations."),
    "C17": ("differential property-based testing against scipy.optimize.newton",
            "Real, complex and array problems with all option combinations; trusts the installed SciPy."),
    "C18": ("property-based testing: returned points against the function, the bracket and newton",
            "Random functions incl. failing ones, tolerances and iteration limits; isclose and clip against NumPy."),
    "C19": ("metamorphic property-based testing: shift, scale, permute, split, mirror, rescale, invariants",
            "Relations between two runs of the code under test, all solvers."),
    "C20": ("metamorphic property-based testing over input forms",
            "Includes compiled mode for plain and already compiled right-hand sides."),
    "C21": ("fault-injecting property-based testing with evaluation and loop budgets",
            "Blow-ups, NaN/inf, zero and constant problems; non-termination is decided by a deterministic budget."),
    "C22": ("property-based testing: solver classes generated from random coefficients against direct evaluation and a registry model",
            "Random tableaux, embedded pairs, multistep tables, names and aliases, valid and invalid."),
    "C23": ("stateful property-based testing against a dict keyed by lower-cased keys",
            "Operation sequences over a small alphabet of colliding keys."),
}
NOT = {}
checks = [dict(property=k, quick_cmd=RUN % (k, "quick"), thorough_cmd=RUN % (k, "thorough"), technique=v[0],
               level="exploration", level_note=v[1] + " Generated-input search: no counterexample found, not a proof.")
          for k, v in T.items() if k not in NOT and os.path.exists(f"{HERE}/pbt/checks/{k.lower()}.py")]
NOT = {**{k: "check under construction" for k in T if not os.path.exists(f"{HERE}/pbt/checks/{k.lower()}.py")}, **NOT}
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=[dict(property=k, reason=r) for k, r in NOT.items()],
         notes="No hooks: the checks import nbkode from /repo as it is. Repaired defects and the known finding are in known_findings.txt.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
