"""P12: abstract (shape-only) execution of the compiled operators agrees with the real execution."""
from symx import opcheck

PROPERTY = "P12"
FUNCTIONS = ["register_fake kernels of philtorch/__init__.py for recur2, recurN, lti_recur2, lti_recurN, lti_recur",
             "the host functions of csrc/*.cpp (CPU) and csrc/*.cu (CUDA, host side)"]
BOUNDS = ("sizes 1..2^20 per dimension, symbolic on both sides (pairs z3 leaves open are decided for sizes up to 8: column in the evidence); ranks A 0..4, "
          "zi and x around the documented ranks (thorough: zi 1..3, x 1..4); memory layouts contiguous, transposed, with gaps and expanded; "
          "dtypes float16/32/64, bfloat16, complex64/128 and one differing argument")
OUTSIDE = ["empty tensors", "the Helion operators (not installed here)", "autograd registrations (P09, P10)"]
ASSUME = ["the model of ATen's shape semantics (symx/cxx/mini) for the calls in the host functions: every path of it is confirmed on real tensors at one point"]
NEEDS_CXX = False


def cases(tier):
    return []


def extra(tier, rep):
    return opcheck.drive_p12(tier, rep)
