"""Per property: (technique, level note). tools/gen.py writes MANIFEST.json from this."""
H = "Hypothesis-generated cases, shrunk; "
T = {
 "C01": (H + "differential batch calls vs per-instance calls, recording subclasses", "every model class in several configurations plus recording user subclasses; random data, labels and call mixtures"),
 "C02": (H + "differential batch calls vs per-instance calls, recording subclasses", "every transformer, postprocessor, calibrator and ensembler plus recording user subclasses"),
 "C03": (H + "model-based operation sequences against an exact rational multiset model", "tolerances bound float round-off only"),
 "C04": (H + "model-based sequences against list slices and exact rational statistics", "tolerances bound float round-off only"),
 "C05": (H + "reference model: textbook metric recomputed exactly on the whole history", "rational arithmetic oracle"),
 "C06": (H + "reference model: blockwise metric recomputed from the history", "wrapped metrics incl. recording user metrics"),
 "C07": (H + "round-trip and permutation oracle on tagged instances", "the random-permutation part is a statistical test with failure probability below 1e-9"),
 "C08": (H + "round-trip through files in a scratch directory", "mat and txt files written by the harness"),
 "C09": (H + "reference model: exact rational statistics of the fitted scores", "tolerances bound float round-off only"),
 "C10": (H + "reference model: definitions on the retained scores", "tolerances bound float round-off only"),
 "C11": (H + "reference model: definitions per score vector; feasible-set oracle for random buckets", "dynamic buckets are judged by what some bucketing could give"),
 "C12": (H + "invariants and reference formulas per instance", "tolerances bound float round-off only"),
 "C13": (H + "metamorphic linearity, own Murmur3 reference, statistical family test", "statistical sub-check has failure probability below 1e-9"),
 "C14": (H + "model-based call sequences against a whole-history reference", "tolerances bound float round-off only"),
 "C15": (H + "reference model with statsmodels STL on the last window and own ESD test", "cases within round-off of a decision threshold are not judged"),
 "C16": (H + "recording detector whose score encodes what it was fitted on, vs window model", "isolation forest compared with a forest fitted directly"),
 "C17": (H + "reference model with error intervals", "tolerances bound float round-off only"),
 "C18": (H + "reference model (all trees enumerated in small dimensions), metamorphic relations", "multi-dimensional trees are judged by existence of a consistent tree"),
 "C19": (H + "closed-form reference on separated codebooks, bounds elsewhere", "exact on separated data, sandwich bounds elsewhere"),
 "C20": (H + "closed-form reference on separated codebooks, metamorphic relations", "exact on separated data, order/forgetting relations on any data"),
 "C21": (H + "reference model: direct count over the last window", "queries within round-off of the radius accept both answers, exact ties are judged exactly"),
 "C22": (H + "differential against random cut trees over exactly the last instances with the same draws, metamorphic relations", "judged through the rrcf library, whose tree algorithm is not itself under test"),
 "C23": (H + "differential against an independent reimplementation", "relative tolerance 1e-6"),
 "C24": (H + "differential against an independent reimplementation", "ill-conditioned or tied steps are judged by intervals"),
 "C25": (H + "reference model: histogram test recomputed from the history", "statistics within round-off of the threshold are not judged"),
 "C26": (H + "quantised score levels, far-instance and line-scan relations", "projection directions are not observed directly"),
 "C27": (H + "differential against own random Fourier features and closed form", "single precision, relative tolerance 1e-3"),
 "C28": (H + "differential against the LoOP library used directly, own formula on small data", "floating-point tolerance 1e-9"),
 "C29": (H + "metamorphic: same history with and without extra reads", "all components of the zoo"),
 "C30": (H + "differential re-execution, in process and in a fresh process", "all components of the zoo"),
 "C31": (H + "metamorphic: interleaved vs separate execution with private random streams", "all components of the zoo"),
 "C32": (H + "before/after comparison of every argument, read-only differential", "all components of the zoo"),
 "C33": (H + "metamorphic: runs differing only in labels", "all unsupervised models of the zoo"),
 "C34": (H + "type, finiteness and range invariants over degenerate streams", "all models of the zoo"),
 "C35": (H + "reachable-size invariant at growing stream lengths", "all windowed components of the zoo"),
 "C36": (H + "metamorphic: planted far instance vs normal instances", "known findings listed per model"),
 "C37": (H + "model-based call sequences", "exact"),
 "C38": (H + "reference comparison by element-wise scan", "exact"),
 "C39": (H + "metamorphic: copied run vs uncopied run, bit for bit", "all components of the zoo except the random cut forest; INQMAD by deep copy only"),
 "C40": (H + "acceptance predicate over constructor arguments; metamorphic: runs with and without rejected calls", "limits as documented by the error messages"),
}
NA = {}
NOTES = ("All checks: ./check <id> quick|thorough; they load pysad's sources from /repo's working tree in a fresh process "
         "(no byte code, no installed copy). ./check <id> --replay FILE re-runs one shrunk failing case without Hypothesis. "
         "Known and fixed defects: known_findings.json.")
