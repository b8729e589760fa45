"""The programs (sets of translation units) the rules analyse."""
import hashlib, os, pickle
from .ir import extract, package_sources, VERIF, REPO, AnalysisError

PACKAGES = ["aslam_cv_common", "aslam_cv_cameras", "aslam_cv_frames", "aslam_cv_detector", "aslam_cv_matcher",
            "aslam_cv_tracker", "aslam_cv_triangulation", "aslam_cv_geometric_vision", "aslam_cv_pipeline",
            "aslam_cv_visualization", "aslam_cv_calibration"]


def driver(n):
    return os.path.join(VERIF, "drivers", n)


def _cached(files):
    """development aid only: VERIF_CACHE=<dir> keeps extracted programs keyed by the content of everything they read"""
    d = os.environ.get("VERIF_CACHE")
    if not d:
        return extract(files)
    h = hashlib.sha1(repr(files).encode())
    for root in [REPO, os.path.join(VERIF, "tool"), os.path.join(VERIF, "drivers"), os.path.join(VERIF, "stubs"),
                 os.path.join(VERIF, "sa", "ir.py")]:
        for dp, dn, fn in sorted(os.walk(root)) if os.path.isdir(root) else [(os.path.dirname(root), [], [os.path.basename(root)])]:
            if ".git" in dp or "/_build" in dp or "/share" in dp:
                continue
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".cc", ".cpp", ".py", ".proto")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    p = os.path.join(d, h.hexdigest())
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    P = extract(files)
    os.makedirs(d, exist_ok=True)
    pickle.dump(P, open(p, "wb"))
    return P


def common(*drivers):
    return _cached(package_sources("aslam_cv_common") + [driver(d) for d in drivers])


def packages(names, *drivers):
    fs = []
    for n in names:
        fs += package_sources(n)
    return _cached(fs + [driver(d) for d in drivers])


def whole(*drivers):
    ps = sorted(d for d in os.listdir(REPO) if d.startswith("aslam_cv_") and os.path.isdir(os.path.join(REPO, d, "src")))
    return packages(ps, *drivers)
