"""C21, C22, C25 and the text parts of C13 and C14: preprocessing, vectorisation and frequencies.

Texts are constants (representatives of character and spacing classes) or IDs; what the language model says of a word
(punctuation, quote, stop word, depth in the parse tree) is a symbol, so each trace stands for every language model that
answers so.  A flag the code never asked for can have both values: the expected text must not depend on it."""
import itertools
import re
import unicodedata
from ..interp import Interp, Cut, Unsupported, explore, exc_isa
from ..models import Models
from ..npmodel import Opq
from ..project import Project, PKG
from ..report import AnalysisBroken, Part, parallel
from ..values import *
from .clust import usable, USABLE
from .relational import canonical, digest

PRE = "utils.preprocessing"
VEC = "utils.vectorization"
FRE = "utils.frequency"
MARKS = (".", ",", ";", ":", "!", "¡", "?", "¿", "…", "•", "(", ")", "{", "}", "[", "]", "«", "»", "^", "`", "'", '"', "\\", "/", "|", "-", "_", "#", "&", "~", "@")
MODEL = "model-x"
OPTIONS = ("apply_stopwords_deletion", "apply_parsing_filter", "apply_lemmatization")


# ---------------------------------------------------------------------- any language model
def words_of(text):
    """tokens of a text: words, and what is left of each run of spaces after the one that follows a word"""
    out = []
    for m in re.finditer(r"\s+|\S+", text):
        w = m.group()
        if not w.isspace():
            out.append(w)
        else:
            if out and not out[-1].isspace() and w.startswith(" "):
                w = w[1:]
            if w:
                out.append(w)
    return out


def lemma(w):
    return "lémme" + w[::-1]


FLAGS = ("is_punct", "is_quote", "is_stop")


def flag(it, w, name):
    """quotes are punctuation, stop words are not, spaces are neither"""
    if w.isspace():
        return False
    known = {f: it.facts.atoms.get(("token", f, w)) for f in FLAGS}
    if known[name] is not None:
        return known[name]
    if name == "is_punct" and (known["is_quote"] or known["is_stop"]):
        return bool(known["is_quote"])
    if name == "is_quote" and (known["is_punct"] is False or known["is_stop"]):
        return False
    if name == "is_stop" and (known["is_punct"] or known["is_quote"]):
        return False
    return it.atom(("token", name, w), "%r %s" % (w, name), "ok")


def depth(it, text, i):
    for d in (0, 1, 2):
        if not it.atom(("token", "deeper than %d" % d, text, i), "word %d of %r is deeper than %d" % (i, text, d), "ok"):
            return d
    return 3


class Token(Native):
    typename = "token"

    def __init__(self, doc, i, above=None):
        self.doc, self.i, self.above = doc, i, above
        self.w = doc.words[i] if above is None else "ancestor"

    def levels(self, it):
        if self.above is not None:
            return self.above
        if self.w.isspace() or not self.doc.nlp.has("parser", "tok2vec", "transformer"):
            return 0
        return depth(it, self.doc.text, self.i)

    def up(self, it):
        n = self.levels(it)
        out = []
        for d in range(n - 1, -1, -1):
            key = (self.i, d)
            if key not in self.doc.above:
                self.doc.above[key] = Token(self.doc, self.i, d)
            out.append(self.doc.above[key])
        return out

    def getattr(self, it, name):
        w = self.w
        if self.above is not None and name not in ("ancestors", "head", "i"):
            raise Unsupported("attribute %s of an ancestor" % name)
        if name in ("text", "orth_"):
            return w
        if name == "lower_":
            return w.lower()
        if name == "is_space":
            return w.isspace()
        if name in FLAGS:
            return flag(it, w, name)
        if name == "lemma_":
            if w.isspace():
                return w
            if not self.doc.nlp.has("lemmatizer"):
                return ""
            return lemma(w) if self.doc.nlp.has("morphologizer", "tok2vec", "attribute_ruler", "tagger") else "poor" + w
        if name == "ancestors":
            return AIter(self.up(it))
        if name == "head":
            u = self.up(it)
            return u[0] if u else self
        if name == "i" and self.above is None:
            return self.i
        if name in ("is_alpha", "is_digit", "is_ascii", "is_lower", "is_upper", "is_title"):
            return {"is_alpha": w.isalpha(), "is_digit": w.isdigit(), "is_ascii": w.isascii(), "is_lower": w.islower(), "is_upper": w.isupper(), "is_title": w.istitle()}[name]
        if name in ("text_with_ws", "whitespace_"):
            ws = " " if not w.isspace() and self.i + 1 < len(self.doc.words) else ""
            return ws if name == "whitespace_" else w + ws
        raise Unsupported("token." + name)

    def length(self, it):
        return len(self.w)


class Doc(Native):
    typename = "doc"

    def __init__(self, nlp, text):
        self.nlp, self.text, self.words = nlp, text, words_of(text)
        self.above = {}
        self.toks = [Token(self, i) for i in range(len(self.words))]

    def iterate(self, it):
        return list(self.toks)

    def length(self, it):
        return len(self.toks)

    def getitem(self, it, k):
        try:
            return self.toks[k] if isinstance(k, int) else it.newlist(self.toks[k])
        except IndexError:
            raise Raised("IndexError", (), True)

    def getattr(self, it, name):
        if name == "vector":
            return Opq(T("docvec", self.nlp.model, self.text))
        if name == "text":
            return self.text
        if name == "vector_norm":
            return T("num:norm", T("docvec", self.nlp.model, self.text), kind="num")
        if name == "has_vector":
            return True
        raise Unsupported("doc." + name)


class Nlp(Native):
    typename = "language model"

    def __init__(self, model, off):
        self.model, self.off = model, frozenset(off)

    def has(self, *names):
        return not any(n in self.off for n in names)

    def doc(self, it, text, k=None):
        off = names_of(it, (k or {}).get("disable"))
        if not isinstance(text, str):
            if isinstance(text, (T, Tok)):
                raise Unsupported("document of a symbolic text")
            raise Raised("ValueError", ("not a text",), True)
        return Doc(self if not off else Nlp(self.model, self.off | off), text)

    def call(self, it, a, k):
        return self.doc(it, a[0] if a else k.get("text"), k)

    def getattr(self, it, name):
        if name == "pipe":
            def f(i, a, k):
                items = i.iter_items(a[0] if a else k.get("texts"))
                if i.truth(k.get("as_tuples", False)):
                    return AIter([], None, iter([(self.doc(i, i.unpack(x, 2)[0], k), i.unpack(x, 2)[1]) for x, _ in items]))
                return AIter([self.doc(i, x, k) for x, _ in items])
            return PyFn("pipe", f)
        if name == "make_doc":
            return PyFn("make_doc", lambda i, a, k: Doc(Nlp(self.model, {"parser", "lemmatizer"}), a[0]))
        if name == "pipe_names":
            return it.newlist([n for n in ("tok2vec", "morphologizer", "parser", "attribute_ruler", "lemmatizer", "ner") if n not in self.off])
        raise Unsupported("nlp." + name)


def names_of(it, v):
    if v is None:
        return frozenset()
    if isinstance(v, str):
        return frozenset([v])
    out = frozenset(x for x, _ in it.iter_items(v))
    if not all(isinstance(x, str) for x in out):
        raise Unsupported("pipe names")
    return out


# ---------------------------------------------------------------------- TF-IDF
WORD = re.compile(r"(?u)\b\w\w+\b")


def bag(text):
    return tuple(WORD.findall(text.lower()))


class Rows(Native):
    typename = "sparse matrix"

    def __init__(self, fitted, docs):
        self.fitted, self.docs = fitted, tuple(docs)
        self.term = T("tfidf-matrix", fitted, tuple(docs))

    def row(self, i):
        return T("tfidf", self.fitted, self.docs[i], kind="vec")

    def getitem(self, it, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None, None, None):
            k = k[0]
        if isinstance(k, int) and not isinstance(k, bool):
            if not -len(self.docs) <= k < len(self.docs):
                raise Raised("IndexError", (), True)
            return self.row(k)
        if isinstance(k, slice) and all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step)):
            d = self.docs[k]
            return T("tfidf", self.fitted, d[0], kind="vec") if len(d) == 1 else Rows(self.fitted, d)
        raise Unsupported("rows[%r]" % (k,))

    def iterate(self, it):
        return [self.row(i) for i in range(len(self.docs))]

    def length(self, it):
        raise Raised("TypeError", ("sparse matrix length is ambiguous",), True)

    def getattr(self, it, name):
        if name == "shape":
            return (len(self.docs), T("sym", "number of terms", kind="int"))
        if name == "getrow":
            return PyFn(name, lambda i, a, k: self.getitem(i, a[0] if a else k["i"]))
        if name in ("tocsr", "copy", "asfptype"):
            return PyFn(name, lambda i, a, k: self)
        raise Unsupported("sparse matrix." + name)


class Tfidf(Native):
    typename = "TfidfVectorizer"

    def __init__(self, it, a, k):
        if a:
            raise Raised("TypeError", (), True)
        self.settings, self.fitted = tuple(sorted((x, repr(canonical(y))) for x, y in k.items())), None

    def docs(self, it, v):
        out = [it.resolve(x) for x, _ in it.iter_items(v)]
        for x in out:
            if isinstance(x, (T, Tok)):
                raise Unsupported("TF-IDF of a symbolic text")
            if not isinstance(x, str):
                raise Raised("AttributeError", ("lower",), True)
        return out

    def getattr(self, it, name):
        def f(i, a, k):
            docs = self.docs(i, a[0] if a else k.get("raw_documents"))
            if name in ("fit", "fit_transform"):
                self.fitted = (self.settings, tuple(sorted(docs)))
            elif self.fitted is None:
                raise Raised("NotFittedError", (), True)
            return self if name == "fit" else Rows(self.fitted, docs)
        if name in ("fit", "fit_transform", "transform"):
            return PyFn(name, f)
        if name in ("vocabulary_", "idf_"):
            if self.fitted is None:
                raise Raised("AttributeError", (name,), True)
            return T("tfidf-" + name, self.fitted)
        raise Unsupported("TfidfVectorizer." + name)


# ---------------------------------------------------------------------- the world
def text_models(installed):
    m = Models()

    def ok(it, name):
        if isinstance(name, T):
            return it.truth(T("installed", name, kind="bool"))
        return name in installed

    def load(it, a, k):
        name = a[0] if a else k.get("name")
        if len(a) > 1 or any(x not in ("name", "disable", "exclude", "vocab", "enable", "config") for x in k) or "enable" in k or not a and "name" not in k:
            raise Unsupported("spacy.load arguments")
        if name is None or isinstance(name, (int, float)):
            raise Raised("OSError", ("E050",), True)
        if not ok(it, name):
            it.events.append(("load-failed", name, None))
            raise Raised("OSError", ("E050",), True)
        it.events.append(("load", name, None))
        return Nlp(name, names_of(it, k.get("disable")) | names_of(it, k.get("exclude")))
    for n in ("spacy.load", "spacy.util.load_model", "spacy.cli.load"):
        m.ext[n] = load
    m.ext["spacy.util.is_package"] = lambda it, a, k: ok(it, a[0] if a else k["name"])
    m.ext["spacy.cli.download"] = lambda it, a, k: it.events.append(("download", a[0] if a else None, None))
    for n in ("sklearn.feature_extraction.text.TfidfVectorizer", "sklearn.feature_extraction.TfidfVectorizer"):
        m.ext[n] = lambda it, a, k: Tfidf(it, a, k)

    def csr(it, a, k):
        x = a[0] if a else k.get("arg1")
        if isinstance(x, T) and x.kind == "vec" or isinstance(x, Rows):
            return x
        return T("csr", freeze(x), kind="vec")
    for n in ("csr_matrix", "csr_array", "coo_matrix", "csc_matrix"):
        m.ext["scipy.sparse." + n] = csr
    return m


class TWorld:
    """one module of utils, analysed from a fresh import"""

    def __init__(self, project, prefix=(), policy=None, installed=(MODEL,)):
        self.it = Interp(project, prefix, text_models(installed))
        self.it.policy = policy

    def call(self, mod, fn, args, kwargs):
        f = self.it.lookup_dotted("%s.%s.%s" % (PKG, mod, fn))
        if not isinstance(f, Func):
            raise AnalysisBroken("%s.%s is not a function" % (mod, fn))
        return self.it.call(f, args, kwargs)


def loc(mod, fn):
    return "src/%s/%s.py:%s" % (PKG.replace(".", "/"), mod.replace(".", "/"), fn)


def ids(n, order=None):
    ts = [Tok("id%d" % i, i) for i in range(n)]
    return [ts[i] for i in order] if order is not None else ts


def texts_dict(it, toks, texts):
    d = ADict()
    for t, x in zip(toks, texts):
        it.dict_set(d, t, x)
    return d


def no_flags(it, key):
    return False if key[0] == "token" else None


def some_flags(salt):
    import hashlib

    def f(it, key):
        if key[0] == "token":
            return int(hashlib.md5((salt + repr(key)).encode()).hexdigest()[:6], 16) % 3 == 0
        return None
    return f


# ---------------------------------------------------------------------- the specified text
def clean(text):
    s = str(text).lower()
    return "".join(" " if c in MARKS else c for c in s)


def strip_accents(s):
    return "".join(c for c in unicodedata.normalize("NFKD", s) if not unicodedata.combining(c))


def expected(it, text, opts):
    """all texts the specification allows on this partition: one per completion of the flags nobody asked for"""
    s = clean(text)
    alts = [()]
    for i, w in enumerate(words_of(s)):
        if w.isspace():
            continue
        a = it.facts.atoms
        p, q, st = (a.get(("token", f, w)) for f in FLAGS)
        known_deep = None
        d0, d1, d2 = (a.get(("token", "deeper than %d" % d, s, i)) for d in (0, 1, 2))
        deep = False if d0 is False else d1
        kept = set()
        for pv in ([bool(p)] if p is not None else [True] if q else [False] if st else [True, False]):
            for qv in ([bool(q)] if q is not None else [True, False] if pv and not st else [False]):
                if qv and not pv:
                    continue
                for sv in ([bool(st)] if st is not None else [False] if pv else [True, False]):
                    if sv and pv:
                        continue
                    for dv in ([bool(deep)] if deep is not None else [True, False]):
                        kept.add(not pv and not qv and not (opts["apply_stopwords_deletion"] and sv) and not (opts["apply_parsing_filter"] and dv))
        word = lemma(w) if opts["apply_lemmatization"] else w
        alts = [x + ((word,) if k else ()) for x in alts for k in sorted(kept)][:64]
    return sorted({strip_accents(" ".join(x)) for x in alts})


def judge_pre(part, pr, w, toks, texts, opts, result, text, rule="the preprocessed text is the specified one"):
    L = loc(PRE, "preprocess")
    if pr[0] == "raise":
        part.violation("preprocessing accepts every text", L, "%s: raises %s" % (text, pr[1].name))
        return False
    d = pr[1]
    if not isinstance(d, ADict):
        if isinstance(d, (T, Native)):
            part.und("result not understood: %r" % (d,))
            return False
        part.violation("preprocessing returns a dictionary", L, "%s: returns %r" % (text, d))
        return False
    if list(d.keys) != list(toks):
        part.violation("exactly the given IDs, in the given order", L, "%s: returns the IDs %s for %s" % (text, [str(k) for k in d.keys], [str(k) for k in toks]))
        return False
    for t, x, v in zip(toks, texts, d.vals):
        exp = expected(w.it, x, opts)
        if not isinstance(v, str):
            if isinstance(v, T):
                part.und("text not understood: %r" % (v,))
                return False
            part.violation(rule, L, "%s: the text %r becomes %r" % (text, x, v))
            return False
        bad = [e for e in exp if e != v]
        if bad:
            part.violation(rule, L, "%s: the text %r becomes %r, specified is %r" % (text, x, v, bad[0]))
            return False
    return True


def run_pre(part, project, texts, opts, policy=None, order=None, symbolic=False, kwargs=None, installed=(MODEL,), maxp=600, before=None, rule="the preprocessed text is the specified one"):
    toks = ids(len(texts), order)
    box = {}
    kw = dict(opts, spacy_language_model=MODEL) if kwargs is None else kwargs

    def make(prefix):
        box["w"] = TWorld(project, prefix, policy, installed)
        return box["w"].it

    def go(it):
        w = box["w"]
        if before is not None:
            before(w)
        box["d"] = texts_dict(it, toks, texts)
        return w.call(PRE, "preprocess", [box["d"]], dict(kw))
    for pr in explore(make, go, maxp):
        part["evaluations"] += 1
        if pr.undecided:
            part.und(pr.undecided)
            continue
        w = box["w"]
        part["functions"].update(w.it.funcs_seen)
        if not usable(w.it):
            part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
            continue
        on = [o for o in OPTIONS if opts.get(o)]
        text = "preprocess(%r, %s)%s" % (list(texts), ", ".join(on) or "no option", "".join("; %s%s" % ("" if c else "not ", d) for d, _, c in w.it.notes[:8]))
        part["nontrivial"].add(text)
        if len(part["samples"]) < 3:
            part["samples"].append(text)
        if not judge_pre(part, pr.outcome, w, toks, texts, opts, None, text, rule):
            continue


ALLOPTS = [dict(zip(OPTIONS, bits)) for bits in itertools.product((False, True), repeat=3)]
OFF = ALLOPTS[0]
SHORT = ["mot", "un mot", "deux mots"]
SPACING = ["", " ", "   ", " mot", "mot ", "  un   mot  ", "tab\tet\nligne", "\n", "a\u00a0b", "un  deux", "\u2009x"]
CASES = ["MOT", "Mot Capital", "ÉTÉ À LA MER", "été e\u0301te\u0301 à ñ ç ü", "Œuvre cœur", "Straße ẞ", "ﬁn ½ x²", "Å Å Ω", "İ", "naïve Noël", "ÇA VA"]
KEEP = ["50% de 3+4=7", "a*b<c>d", "5€ $3 £2 n°4", "l’ami", "abc123 2x", "a–b", "x±y", "日本 語", "Привет", "§ ¶"]
OTHER = [42, None, 3.5, True, 0, -7]


def c25_items(tier):
    out = []
    for opts in ALLOPTS:
        for t in SHORT[:2] + (SHORT[2:] if tier == "thorough" else []) + ["a' b", "a  b"]:
            out.append(("sym", [t], opts))
        out.append(("sym", ["mot", "mot"], opts))
        for chunk in (SPACING, CASES, KEEP, OTHER):
            for policy in ("none", "h1", "h2"):
                out.append((policy, chunk, opts))
        for i in range(0, len(MARKS), 8):
            ms = MARKS[i:i + 8]
            out.append(("none", ["a%sb" % m for m in ms] + [m for m in ms] + ["%smot%s" % (m, m) for m in ms] + ["A%s %sB" % (m, m) for m in ms], opts))
        out.append(("none", ["".join(MARKS), " ".join(MARKS), "x" + "y".join(MARKS)], opts))
        for policy in ("h3", "h4") + (tuple("h%d" % i for i in range(5, 30)) if tier == "thorough" else ()):
            out.append((policy, ["le chat a mangé la souris", "le chat", "souris le la chat", ""], opts))
    out.append(("defaults", None, None))
    out.append(("missing", None, None))
    out.append(("vectoriser", None, None))
    return out


def pol(name):
    return None if name == "sym" else no_flags if name == "none" else some_flags(name)


def c25_one(project, part, item):
    kind, texts, opts = item
    if kind == "defaults":
        for given in ({}, dict(apply_stopwords_deletion=True), dict(apply_parsing_filter=True), dict(apply_lemmatization=True)):
            o = dict(OFF, **given)
            run_pre(part, project, ["un mot"], o, kwargs=given, installed=("fr_core_news_md",), rule="options not given are off")
            run_pre(part, project, ["un mot"], o, kwargs=dict(given, spacy_language_model="fr"), installed=("fr",), rule="options not given are off")
    elif kind == "missing":
        for o in ALLOPTS:
            for texts in ([], ["mot"], ["un mot", "mot"]):
                refuse(part, project, PRE, "preprocess", texts, dict(o, spacy_language_model="unknown model"), "a missing language model")
        for texts in ([], ["mot"], ["un mot", "mot"]):
            refuse(part, project, VEC, "vectorize", texts, dict(vectorizer_type="spacy", spacy_language_model="unknown model"), "a missing language model")
            refuse(part, project, VEC, "vectorize", texts, dict(vectorizer_type="spacy", spacy_language_model=""), "a missing language model")
    elif kind == "vectoriser":
        for v in ("TFIDF", "Spacy", "", "tf-idf", "tfidf ", "unknown", None, 3, "spacy_", "tfid", "word2vec"):
            for texts in (["mot", "mot"], []):
                refuse(part, project, VEC, "vectorize", texts, dict(vectorizer_type=v, spacy_language_model=MODEL), "an unknown vectoriser type")
        symbolic_vectoriser(part, project)
    else:
        run_pre(part, project, texts, opts, pol(kind), maxp=3000)


def refuse(part, project, mod, fn, texts, kw, what):
    w = TWorld(project, (), no_flags)
    toks = ids(len(texts))
    part["evaluations"] += 1
    text = "%s(%r, %s)" % (fn, texts, ", ".join("%s=%r" % x for x in kw.items() if x[1] is not False))
    try:
        r = w.call(mod, fn, [texts_dict(w.it, toks, texts)], kw)
        res = "returns %r" % (r,)
    except Raised as e:
        res = None if exc_isa(e.name, "ValueError") else "raises %s" % e.name
    except (Unsupported, Cut) as u:
        part.und("no transfer function: %s" % u)
        return
    part["nontrivial"].add(text)
    part["functions"].update(w.it.funcs_seen)
    if not usable(w.it):
        part.und("depends on a decision the analysis has no meaning for")
    elif res is not None:
        part.violation("%s is reported as a ValueError" % what, loc(mod, fn), "%s: %s" % (text, res))


def symbolic_vectoriser(part, project):
    name = T("sym", "vectorizer_type", kind="str")
    toks = ids(2)
    box = {}

    def make(prefix):
        box["w"] = TWorld(project, prefix)
        return box["w"].it
    for pr in explore(make, lambda it: box["w"].call(VEC, "vectorize", [texts_dict(it, toks, ["un mot", "un mot"])], dict(vectorizer_type=name, spacy_language_model=MODEL)), 60):
        part["evaluations"] += 1
        if pr.undecided:
            part.und(pr.undecided)
            continue
        w = box["w"]
        part["functions"].update(w.it.funcs_seen)
        if not usable(w.it):
            part.und("depends on a decision the analysis has no meaning for")
            continue
        c = w.it.facts.const_of(name)
        text = "vectorize(vectorizer_type = %s)" % (repr(c[1]) if c else "any other name")
        part["nontrivial"].add(text)
        known = c is not None and c[1] in ("tfidf", "spacy")
        other = all(w.it.facts.known_eq(name, n) is False for n in ("tfidf", "spacy")) or c is not None and not known
        L = loc(VEC, "vectorize")
        if pr.outcome[0] == "raise":
            if known:
                part.violation("documented vectoriser types are accepted", L, "%s: raises %s" % (text, pr.outcome[1].name))
            elif not exc_isa(pr.outcome[1].name, "ValueError"):
                part.violation("an unknown vectoriser type is reported as a ValueError", L, "%s: raises %s" % (text, pr.outcome[1].name))
        elif not known:
            part.violation("an unknown vectoriser type is reported as a ValueError", L, "%s: returns %r" % (text, pr.outcome[1]))


def go(check, items, one, chunk=2):
    project = Project()

    def work(chunk_):
        part = Part()
        for x in chunk_:
            try:
                one(project, part, x)
            except (Unsupported, Cut) as e:
                part["evaluations"] += 1
                part.und("no transfer function: %s" % e)
        return part
    parallel(check, work, items, chunk)


def c25(check):
    check.rule = "for every combination of options and of what the language model says of each word, the returned text is the specified one; a missing model or unknown vectoriser type raises ValueError"
    check.assumptions += ["texts are representatives: every listed mark, spacing classes, case, accents, compatibility characters, non-strings",
                          "quotes are punctuation and stop words are not; tokens are separated by spaces"]
    go(check, c25_items(check.tier), c25_one)


# ---------------------------------------------------------------------- C21
ORDERS = [None, (2, 0, 1), (1, 2, 0), (2, 1, 0)]


def c21_texts():
    base = [["alpha beta", "gamma beta", "alpha gamma"], ["mot", "mot", "mot"], ["mot", "", "mot"], ["", "", ""], ["b mot", "a mot", "c mot"],
            [None, 42, 3.5], ["42", 42, "mot"], ["none mot", None, "mot none"], ["mot mot", "autre", "mot mot"], [True, 1, "1"], [" ", "mot", "  mot "], [0, "", None]]
    return base


def terms_in(v, op, out=None):
    out = set() if out is None else out
    if isinstance(v, T):
        if v.op == op:
            out.add(v)
        for a in v.args:
            terms_in(a, op, out)
    elif isinstance(v, tuple):
        for a in v:
            terms_in(a, op, out)
    elif isinstance(v, Native) and getattr(v, "term", None) is not None:
        terms_in(v.term, op, out)
    elif isinstance(v, AList):
        for a in v.items:
            terms_in(a, op, out)
    return out


def shape_of(v, op):
    """the value with the part that comes from the text cut out"""
    if isinstance(v, T):
        return ("*",) if v.op == op else (v.op,) + tuple(shape_of(a, op) for a in v.args)
    if isinstance(v, tuple):
        return tuple(shape_of(a, op) for a in v)
    if isinstance(v, Native) and getattr(v, "term", None) is not None:
        return shape_of(v.term, op)
    return canonical(v)


def judge_vec(part, d, it, toks, texts, vt, text, rule="the vector of an ID comes from its own text"):
    L = loc(VEC, "vectorize")
    if d[0] == "raise":
        part.violation("vectorisation accepts every text", L, "%s: raises %s" % (text, d[1]))
        return
    d = d[1]
    if not isinstance(d, ADict):
        if isinstance(d, (T, Native)):
            part.und("result not understood: %r" % (d,))
        else:
            part.violation("vectorisation returns a dictionary", L, "%s: returns %r" % (text, d))
        return
    if list(d.keys) != list(toks):
        part.violation("exactly the given IDs, in the given order", L, "%s: returns the IDs %s for %s" % (text, [str(k) for k in d.keys], [str(k) for k in toks]))
        return
    op = "tfidf" if vt == "tfidf" else "docvec"
    shapes = set()
    for t, x, v in zip(toks, texts, d.vals):
        got = terms_in(v, op)
        if not got:
            if isinstance(v, (T, Native)):
                part.und("vector not understood: %r" % (v,))
                return
            part.violation(rule, L, "%s: the vector of the text %r is %r" % (text, x, v))
            return
        for g in got:
            doc = g.args[1]
            same = bag(doc) == bag(str(x)) if vt == "tfidf" else doc == str(x)
            if not same:
                part.violation(rule, L, "%s: the vector of %s, whose text is %r, is the one of the text %r" % (text, t.name, x, doc))
                return
            if vt == "tfidf" and sorted(map(bag, g.args[0][1])) != sorted(bag(str(y)) for y in texts):
                part.violation("the TF-IDF model is fitted on the given texts", L, "%s: fitted on %r" % (text, list(g.args[0][1])))
                return
            if vt == "spacy" and g.args[0] != MODEL:
                part.violation("the given language model is used", L, "%s: uses %r" % (text, g.args[0]))
                return
        shapes.add(repr(shape_of(v, op)))
    if len(shapes) > 1:
        part.violation(rule, L, "%s: vectors are built differently for different IDs" % text)


def run_vec(project, texts, vt, order=None, before=None, kwargs=None):
    w = TWorld(project, (), no_flags)
    if before is not None:
        before(w)
    toks = ids(len(texts), order)
    d = texts_dict(w.it, toks, texts)
    frozen = freeze(d)
    kw = dict(vectorizer_type=vt, spacy_language_model=MODEL) if kwargs is None else kwargs
    try:
        r = ("ok", w.call(VEC, "vectorize", [d], kw))
    except Raised as e:
        r = ("raise", e.name)
    return w, toks, r, freeze(d) == frozen


def c21_one(project, part, item):
    kind, texts, order, opts = item
    if kind == "pre":
        run_pre(part, project, texts, opts, no_flags, order, rule="the text of an ID comes from its own text")
    else:
        w, toks, r, _ = run_vec(project, texts, kind, order)
        part["evaluations"] += 1
        text = "vectorize(%r, %r)" % (texts, kind)
        part["functions"].update(w.it.funcs_seen)
        part["nontrivial"].add((text, order))
        if len(part["samples"]) < 3:
            part["samples"].append(text)
        if not usable(w.it):
            part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
            return
        judge_vec(part, r, w.it, toks, texts, kind, text)


def perms(n):
    return list(itertools.permutations(range(n)))


def c21(check):
    check.rule = "the returned dictionary has the given IDs in the given order and each value is computed from the text of its own ID"
    check.assumptions += ["TF-IDF rows and language-model vectors are symbols tagged with the text they come from"]
    items = []
    sets = c21_texts() + [["mot"], [], ["a mot", "b mot"], ["mot a", "mot b", "mot c", "mot b"], ["t%d mot" % (i // 2) for i in range(6)]]
    if check.tier == "thorough":
        sets += [list(p) for p in itertools.product(["mot un", "mot", "", 5, None], repeat=3)]
    for ts in sets:
        orders = perms(len(ts)) if len(ts) <= 3 else [tuple(range(len(ts))), tuple(reversed(range(len(ts)))), tuple([1, 3, 0, 2] + list(range(4, len(ts))))]
        for order in orders:
            for vt in ("tfidf", "spacy"):
                items.append((vt, ts, order, None))
            items.append(("pre", ts, order, ALLOPTS[sum(order) % 8 if order else 0]))
            items.append(("pre", ts, order, OFF))
    go(check, items, c21_one, 8)


# ---------------------------------------------------------------------- C22
def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def judge_freq(part, it, r, labels, text):
    L = loc(FRE, "compute_clusters_frequency")
    if r[0] == "raise":
        part.violation("frequencies exist for every result", L, "%s: raises %s" % (text, getattr(r[1], "name", r[1])))
        return
    d = r[1]
    if not isinstance(d, ADict):
        if isinstance(d, (T, Native)):
            part.und("result not understood: %r" % (d,))
        else:
            part.violation("frequencies are a dictionary", L, "%s: returns %r" % (text, d))
        return
    want = {}
    for l in labels:
        c = it.facts.const_of(l) if isinstance(l, T) else None
        want[l] = want.get(l, 0) + 1
    groups = []
    for l in labels:
        for g in groups:
            if g[0] is l or not isinstance(l, T) and g[0] == l or isinstance(l, T) and it.facts.known_eq(g[0], l) is True:
                g.append(l)
                break
        else:
            if any(isinstance(l, T) and it.facts.known_eq(g[0], l) is None for g in groups):
                part.und("labels neither equal nor different")
                return
            groups.append([l])
    seen = []
    for k, v in zip(d.keys, d.vals):
        hit = [g for g in groups if any(k is x or not isinstance(k, T) and not isinstance(x, T) and k == x or (isinstance(k, T) or isinstance(x, T)) and it.facts.known_eq(k, x) is True for x in g)]
        if not hit:
            part.violation("frequencies for exactly the labels used", L, "%s: reports a frequency for %r" % (text, k))
            return
        seen.append(id(hit[0]))
        v = it.resolve(v)
        if not num(v):
            if isinstance(v, T):
                part.und("frequency not understood: %r" % (v,))
                return
            part.violation("a frequency is the share of the data", L, "%s: the frequency of %r is %r" % (text, k, v))
            return
        if abs(v - len(hit[0]) / len(labels)) > 1e-9:
            part.violation("a frequency is the share of the data", L, "%s: the frequency of %r is %r, its share %d/%d" % (text, k, v, len(hit[0]), len(labels)))
            return
    if len(set(seen)) != len(groups) or len(seen) != len(groups):
        part.violation("frequencies for exactly the labels used", L, "%s: returns %r" % (text, d))


def c22_one(project, part, labels):
    toks = ids(len(labels))
    toks = toks[1::2] + toks[::2]
    box = {}

    def make(prefix):
        box["w"] = TWorld(project, prefix)
        return box["w"].it

    def run(it):
        return box["w"].call(FRE, "compute_clusters_frequency", [texts_dict(it, toks, labels)], {})
    for pr in explore(make, run, 800):
        part["evaluations"] += 1
        if pr.undecided:
            part.und(pr.undecided)
            continue
        it = box["w"].it
        part["functions"].update(it.funcs_seen)
        text = "labels %r%s" % (list(labels), "".join("; %s%s" % ("" if c else "not ", d) for d, _, c in it.notes[:8]))
        if not usable(it):
            part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in it.notes if c not in USABLE][:1])
            continue
        part["nontrivial"].add(text)
        if len(part["samples"]) < 3:
            part["samples"].append(text)
        judge_freq(part, it, pr.outcome, labels, text)


def c22(check):
    check.rule = "for symbolic labels (every pattern of equal and different, ordered in every way) and for constant ones, the returned dictionary maps exactly the labels used to count / total"
    check.assumptions += ["symbolic labels: up to 3 (thorough: 4) data; constant labels: every result of up to 4 data with 5 labels, chosen ones up to 12"]
    items = [(), (0,), (-1,), (7,)]
    pool = (0, 1, 2, -1, 5)
    for n in (2, 3, 4):
        items += list(itertools.product(pool, repeat=n))[:: (1 if n < 4 or check.tier == "thorough" else 3)]
    items += [(0,) * 12, tuple(range(12)), tuple(-i - 1 for i in range(9)), (0, 0, 0, 1, 1, 2, 9, 9, 9, 9, 9), (-1, -2, 0, 0, 0, 0, 3), (1,) * 999 + (0,), (0,) * 2001 + (-1,) * 3]
    for n in (1, 2, 3) + ((4,) if check.tier == "thorough" else ()):
        items.append(tuple(T("sym", "label%d" % i, kind="int") for i in range(n)))
    go(check, items, c22_one, 12)


# ---------------------------------------------------------------------- C13 and C14 for the helpers
class NumpyInt(int):
    """a label stored as numpy integer: equal to an int, but not the same object"""


def c14_texts(project, part, item):
    kind, texts, opts = item
    w = TWorld(project, (), some_flags("c14") if kind == "pre" else no_flags)
    toks = ids(len(texts), None)
    d = texts_dict(w.it, toks[::-1], texts)
    frozen, types = freeze(d), [type(v) for v in d.vals]
    part["evaluations"] += 1
    mod, fn, kw = (PRE, "preprocess", dict(opts, spacy_language_model=MODEL)) if kind == "pre" else (FRE, "compute_clusters_frequency", {}) if kind == "freq" else (VEC, "vectorize", dict(vectorizer_type=kind, spacy_language_model=MODEL))
    try:
        r = w.call(mod, fn, [d], kw)
        if isinstance(r, ADict) and r is d:
            part.violation("a helper returns a new dictionary", loc(mod, fn), "%s returns the dictionary it was given" % fn)
    except Raised as e:
        pass
    part["functions"].update(w.it.funcs_seen)
    text = "%s(%r, %s)" % (fn, texts, kw)
    part["nontrivial"].add(text)
    if freeze(d) != frozen or [type(v) for v in d.vals] != types:
        part.violation("the texts and results given to a helper are not modified", loc(mod, fn), "%s: the given dictionary becomes %r" % (text, d))


def c14_text_items(tier):
    out = []
    for ts in c21_texts():
        out += [("pre", ts, o) for o in ALLOPTS[::3]] + [("tfidf", ts, None), ("spacy", ts, None)]
    return out + [("freq", l, None) for l in ([], [0], [1, 0, 1], [-1, 2, 2, -3], [NumpyInt(1), NumpyInt(0), NumpyInt(1)])]


def c13_texts(project, part, item):
    """a call after another one gives what a fresh process gives"""
    kind, first, second = item

    def one(w, x, tag):
        texts, kw = x
        toks = ids(len(texts))
        d = texts_dict(w.it, toks, texts)
        mod, fn = (PRE, "preprocess") if kind == "pre" else (VEC, "vectorize")
        try:
            return ("ok", w.call(mod, fn, [d], dict(kw)))
        except Raised as e:
            return ("raise", e.name)
    pol_ = some_flags("c13") if kind == "pre" else no_flags
    w = TWorld(project, (), pol_, (MODEL, "other"))
    one(w, first, "first")
    b = one(w, second, "second")
    w2 = TWorld(project, (), pol_, (MODEL, "other"))
    c = one(w2, second, "second")
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    fn = "preprocess" if kind == "pre" else "vectorize"
    text = "%s(%r, %s) after %s(%r, %s)" % (fn, second[0], second[1], fn, first[0], first[1])
    part["nontrivial"].add(text)
    key = lambda o: (o[0], canonical(o[1]), repr(o[1].keys) if isinstance(o[1], ADict) else None)
    if key(b) != key(c):
        part.violation("an earlier call of a helper does not matter", loc(PRE if kind == "pre" else VEC, fn), "%s: gives %r, alone it gives %r" % (text, b[1], c[1]))


def c13_text_items(tier):
    out = []
    A, B, C = ["un mot", "le mot", "mot"], ["autre mot", "mot un", "un"], ["un mot"]
    ks = [dict(o, spacy_language_model=m) for o in (ALLOPTS[0], ALLOPTS[1], ALLOPTS[2], ALLOPTS[4], ALLOPTS[7]) for m in (MODEL,)] + [dict(OFF, spacy_language_model="other"), dict(OFF, spacy_language_model="missing")]
    for k1, k2 in itertools.product(ks, repeat=2):
        for t1, t2 in ((A, B), (B, C), (A, A)):
            out.append(("pre", (t1, k1), (t2, k2)))
    vs = [dict(vectorizer_type=v, spacy_language_model=m) for v, m in (("tfidf", MODEL), ("spacy", MODEL), ("spacy", "other"), ("spacy", "missing"), ("unknown", MODEL))]
    for k1, k2 in itertools.product(vs, repeat=2):
        for t1, t2 in ((A, B), (B, C), (A, A)):
            out.append(("vec", (t1, k1), (t2, k2)))
    return out


def c29_texts(project, part, item):
    """a dictionary given back by a helper stays as it is, and what the client does to it does not matter"""
    kind, first, second = item
    mod, fn = (PRE, "preprocess") if kind == "pre" else (VEC, "vectorize")

    def one(w, x):
        d = texts_dict(w.it, ids(len(x[0])), x[0])
        try:
            return ("ok", w.call(mod, fn, [d], dict(x[1])))
        except Raised as e:
            return ("raise", e.name)
    key = lambda o: (o[0], canonical(o[1]), repr(o[1].keys) if isinstance(o[1], ADict) else None)
    pol_ = some_flags("c13") if kind == "pre" else no_flags
    w = TWorld(project, (), pol_, (MODEL, "other"))
    a = one(w, first)
    before = key(a)
    one(w, second)
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    text = "%s(%r, %s) then %s(%r, %s)" % (fn, first[0], first[1], fn, second[0], second[1])
    part["nontrivial"].add(text)
    if key(a) != before:
        part.violation("a returned dictionary keeps its content", loc(mod, fn), "%s: the later call changes the dictionary returned by the first one" % text)
        return
    if a[0] == "ok" and isinstance(a[1], ADict):
        a[1].clear() if hasattr(a[1], "clear") else w.it.call(w.it.getattr(a[1], "clear"), [], {})
        w.it.dict_set(a[1], Tok("other", 99), "other")
        b = one(w, first)
        if key(b) != before:
            part.violation("what a client does to a returned dictionary does not matter", loc(mod, fn), "%s: after the client changed the dictionary it got, the same call gives %r" % (text, b[1]))
