"""Optional packages."""
from hypothesis import strategies as st

from pbt import programs
from pbt.core import Sub, info, require
from pbt.props.c31 import equal, program, together

OPTIONAL = ["h5py", "tensorflow", "tensorflow_datasets", "ujson", "haiku"]
KINDS = ["npz", "hdf5", "json_files", "solver", "tensorflow", "dictionary",
         "stream", "full", "thinning"]


@st.composite
def cases(draw):
  missing = draw(st.lists(st.sampled_from(OPTIONAL), max_size=5, unique=True))
  if draw(st.integers(0, 2)) == 0:
    missing = list(OPTIONAL)
  imports = draw(st.lists(st.sampled_from(programs.MODULES), max_size=5,
                          unique=True))
  return {"missing": sorted(missing), "imports": imports,
          "programs": draw(st.lists(program(tuple(KINDS)), min_size=2,
                                    max_size=5,
                                    unique_by=lambda p: p["program"]))}


def check(case):
  missing = set(case["missing"])
  complete, partial = together([
    ({"programs": case["programs"]}, {}),
    ({"programs": case["programs"], "block": case["missing"],
      "imports": case["imports"]}, {})])
  for name, error in partial["imports"].items():
    require(error is None, f"import of jax_sgmc.{name} failed", error=error,
            missing=case["missing"])
  refused = 0
  for p, a, b in zip(case["programs"], complete["results"],
                     partial["results"]):
    name = p["program"]
    if missing & programs.NEEDS.get(name, set()):
      require("error" not in a, f"program {name} failed", error=a.get("error"))
      if "error" not in b:
        # Possibly replaced by something equivalent
        equal(a, b, f"program {name} without {sorted(missing)}")
        continue
      kind = b["error"].split(":")[0]
      require(kind in ("ModuleNotFoundError", "ImportError", "AssertionError"),
              f"program {name} is not refused but fails", error=b["error"],
              trace=b["trace"][-300:], missing=case["missing"])
      refused += 1
    else:
      equal(a, b, f"program {name} without {sorted(missing)}")
  return info(bool(missing) and refused < len(case["programs"]),
              *(f"without {m}" for m in sorted(missing)),
              "refused" if refused else "nothing refused")


SUBS = [
  Sub("optional packages", cases, check, 40, 400),
]
