"""P06: lpv.state_space satisfies the time-varying state-space equations for every documented shape."""
import sys
from .util import Cases
from .p05 import gen

PROPERTY = "P06"
FUNCTIONS = ["philtorch.lpv.state_space", "philtorch.lpv.ssm._ext_ss_recur", "philtorch.lpv.state_space_recursion",
             "philtorch.lpv.ssm.MatrixRecurrence", "csrc/host_recurN.cpp"]
BOUNDS = ("state size 1..4, batch 1..3, length 1..7 (quick) / 1..12 (thorough), 1..6 input and output channels, unroll_factor None,1..5, "
          "axis sizes pairwise distinct where the documentation would otherwise be ambiguous; real and complex")
ASSUME = ["torchlpc.sample_wise_lpc computes its documented recursion (state size 1)"]
MOD = "lpv"
KA = ("NMM", "BNMM")
KB2 = (None, "M", "NM", "BM", "BNM")
KB3 = ("MF", "NMF", "BMF", "BNMF")
KC = ("M", "NM", "BM", "PM", "BNM", "NPM", "BPM", "BNPM")
SCALAR_C = ("M", "NM", "BM", "BNM")
D2S = ("", "1", "N", "B", "BN")
D2V = ("P", "NP", "BP", "BNP")
D3S = ("F", "NF", "BF", "BNF")
D3V = ("PF", "NPF", "BPF", "BNPF")
DIMS = [dict(B=2, N=4, M=3, F=5, P=6), dict(B=3, N=5, M=2, F=4, P=6), dict(B=2, N=3, M=1, F=4, P=5)]


def cases(tier):
    cs = Cases()
    gen(cs, tier, sys.modules[__name__])
    return cs.list
