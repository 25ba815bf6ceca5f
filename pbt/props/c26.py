"""Metropolis correction of SGGMC."""
from functools import partial

from pbt import mh
from pbt.core import Sub

KIND = "sggmc"

SUBS = [
  Sub("steps", partial(mh.base_cases, KIND), partial(mh.check_steps, kind=KIND),
      48, 1000),
  Sub("wide", partial(mh.wide_cases, KIND),
      partial(mh.check_steps, kind=KIND), 24, 500, weight=0.7),
  Sub("invariance", partial(mh.invariance_cases, KIND),
      partial(mh.check_invariance, kind=KIND), 32, 600),
  Sub("divergence", partial(mh.divergence_cases, KIND),
      partial(mh.check_divergence, kind=KIND), 24, 300, weight=0.4),
]
