from .checks import manager_props as mp
from .checks import clust_props as cp
from .checks import clust_rel as cr
from .checks import clust_spec as cs
from .checks import clust_order as co
from .checks import clust_density as cd
from .checks import clust_number as cn
from .checks import sampling as sm
from .checks import settings as st
from .checks import texts as tx
from .checks import limits as lm
from .checks import defaults as df

CHECKS = {
    "C01": (mp.c01, "exploration"), "C02": (mp.c02, "exploration"), "C03": (mp.c03, "exploration"), "C04": (mp.c04, "exploration"),
    "C05": (mp.c05, "exploration"), "C06": (mp.c06, "exploration"), "C07": (mp.c07, "exploration"), "C08": (mp.c08, "exploration"),
    "C30": (mp.c30, "exploration"),
    "C09": (cp.c09, "exploration"), "C10": (cp.c10, "exploration"), "C11": (cp.c11, "exploration"),
    "C16": (cr.c16, "exploration"),
    "C13": (cr.c13_clustering, "exploration"),
    "C14": (cr.c14_clustering, "exploration"),
    "C12": (cr.c12_clustering, "exploration"),
    "C29": (cr.c29, "exploration"),
    "C26": (cs.c26, "exploration"),
    "C27": (cs.c27, "exploration"),
    "C28": (cs.c28, "exploration"),
    "C31": (cd.c31, "exploration"),
    "C32": (cn.c32, "exploration"),
    "C33": (cn.c33, "exploration"),
    "C34": (df.c34, "exploration"),
    "C15": (co.c15, "exploration"),
    "C17": (st.c17, "exploration"),
    "C18": (st.c18, "exploration"),
    "C19": (sm.c19, "exploration"),
    "C20": (sm.c20, "exploration"),
    "C21": (tx.c21, "exploration"),
    "C22": (tx.c22, "exploration"),
    "C25": (tx.c25, "exploration"),
    "C23": (lm.c23, "exploration"),
    "C24": (lm.c24, "exploration"),
}

_AI = "abstract interpretation of the syntax trees (uninterpreted IDs, trace partitioning), compared with the specified closure"
_MN = ("Every partition of the analysed abstract states is decided; states are only produced by the analysed constructor and methods (closed for three IDs, up to a limit for four, role scenarios up to ten IDs and groups of symbolic size). "
       "Trusts the interpreter's transfer functions and that IDs are used only through identity and order; partitions it has no transfer function for are reported as undecided, never as violations.")
TECHNIQUE = {k: "static analysis: " + _AI for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C30")}
NOTE = {k: _MN for k in TECHNIQUE}

_CL = "abstract interpretation of the clustering sources against a symbolic constraints manager, vectors and random draws, one trace per outcome of each comparison, "
_CN = ("Every partition (one per outcome of each numeric comparison) of the analysed scenarios is decided: all constraint relations on two to four IDs, chosen ones on five, every setting branch, vectors and draws symbolic. "
       "Trusts the models of numpy, scipy and scikit-learn calls (DESIGN.md); partitions outside the transfer functions are reported as undecided, never as violations.")
_CT = {
    "C09": "keys and label kinds of the returned dictionary compared with the managed IDs",
    "C10": "returned labels compared with the inferred relation",
    "C11": "returned labels compared with the canonical numbering of their partition",
    "C12": "two traces that differ only in the state of the random generators, set order or clock compared, and every random draw traced to the seed",
    "C13": "a call after an earlier call on the same or another object compared with a call on fresh objects",
    "C14": "effect analysis: the abstract inputs before and after each call compared, writes to them reported",
    "C15": "a call compared with the same call on permuted or enlarged vectors dictionaries and permuted manager lists; every row, distance and label traced to the ID of its vector",
    "C16": "traces with and without verbose output compared",
    "C23": "passes of every loop observed for several limits with convergence denied, endless loops and recursion that deepens with the data reported",
    "C24": "uses of the manager other than declared queries reported; declared and implemented signatures compared on the syntax trees",
    "C26": "each merge of the abstract tree compared with the linkage distances as polynomials of pair distances",
    "C27": "each choice of centroid and the exposed centroids compared with the specified ones as terms",
    "C29": "returned values compared before and after later calls, and calls compared before and after the client changes a returned value",
    "C31": "clusters and noise recounted from the pairs known to be within eps on each partition",
    "C32": "the returned clusters compared with the cuts of the abstract tree, and the numbers of clusters with the request",
    "C33": "partitions returned for successive iteration limits, with the data at definite places, compared with the movement of the centroids",
    "C28": "matrix entries and penalty terms compared with the inferred relation",
}
_ST = "abstract interpretation of the sources of the samplers, settings checks and factories with symbolic values, "
_SN = ("Every partition of the analysed scenarios is decided: symbolic names and numbers with their documented limits, every constraint relation on up to four IDs, symbolic vectors and draws. "
       "Trusts the models of numpy, random and scikit-learn calls (DESIGN.md); partitions outside the transfer functions are reported as undecided, never as violations.")
_SS = {
    "C17": "the outcome of each partition (accepted, ValueError, other error) compared with the documented range",
    "C18": "class, restrictions and options of each constructed object compared with the documented name",
    "C19": "the set of candidate pairs and each returned pair compared with the eligible pairs",
    "C34": "objects and calls with an option left out compared with the same given the documented default, calls searched for unasked printing",
    "C20": "number and order of the returned pairs compared with the request and the symbolic distances",
}
for _k, _v in _SS.items():
    TECHNIQUE[_k] = "static analysis: " + _ST + _v
    NOTE[_k] = _SN
_TX = "abstract interpretation of the helper sources with symbolic answers of the language model and constant folding of text operations, "
_TN = ("Every combination of options and of what the language model says of each word is decided for the analysed texts, which represent every listed mark, spacing, case, accent and non-string class; labels are symbolic or enumerated. "
       "Trusts the models of spaCy, TF-IDF and string library calls (DESIGN.md); partitions outside the transfer functions are reported as undecided, never as violations.")
_TT = {
    "C21": "keys and the text each value is derived from compared with the given dictionary",
    "C22": "keys and values of the returned dictionary compared with the counts of the labels",
    "C25": "the returned text compared with the specified one for every answer of the language model",
}
for _k, _v in _TT.items():
    TECHNIQUE[_k] = "static analysis: " + _TX + _v
    NOTE[_k] = _TN
for _k, _v in _CT.items():
    TECHNIQUE[_k] = "static analysis: " + _CL + _v
    NOTE[_k] = _CN
