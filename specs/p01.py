"""P01: moments of a numeric column, streamed or merged, are those of the whole data."""
from __future__ import annotations

from .common import *
from .columns import history, oneshot, NOHIST


def obs(ctx, col, d, rows, tag):
    corrected = col.bias_correction
    ctx.prove_eq(f"{tag}: match_count is the number of values", col.match_count, N(d.n))
    ctx.prove_eq(f"{tag}: sum", col.sum, N(d.P(1)))
    ctx.prove_eq(f"{tag}: mean", col.mean, spec_mean(d))
    ctx.prove_eq(f"{tag}: variance", col.variance, spec_variance(d, corrected))
    ctx.prove_eq(f"{tag}: stddev", col.stddev, spec_stddev(d, corrected))
    ctx.prove_eq(f"{tag}: skewness", col.skewness, spec_skew(d, corrected))
    ctx.prove_eq(f"{tag}: kurtosis", col.kurtosis, spec_kurt(d, corrected))


PROOFS = {}
for kind, bias in (("int", True), ("float", False), ("text", True), ("float", True)):
    OFF = NOHIST + ("min", "max") if kind == "text" else NOHIST
    t = f"{kind}/{'corrected' if bias else 'biased'}"
    PROOFS[f"single {t}"] = (lambda c, k=kind, b=bias, o=OFF: oneshot(k, b, o, obs), {})
    PROOFS[f"update {t}"] = (lambda c, k=kind, b=bias, o=OFF: history(k, b, o, obs, "update"),
                             {"weight": 5, "covers": ["both parts non-empty", "one part empty"]})
    PROOFS[f"merge {t}"] = (lambda c, k=kind, b=bias, o=OFF: history(k, b, o, obs, "merge"),
                            {"weight": 5, "covers": ["both parts non-empty", "one part empty"]})

ASSUMPTIONS = [
    "data are finite (rows that parse to nan/inf are outside the statement)",
    "central moment sums of every batch are 0 or at least 1e-14 (the library's own noise threshold)",
    "the number of rows is an integer; the proof relaxes it to a real >= 1",
    "histogram, mode, median, precision and vocabulary are switched off in these harnesses through the real options "
    "(their code is covered by other properties)",
]
TRUSTED = []
