"""Make hypothesis importable in SPECULA's own interpreter without shadowing any of its packages."""
import importlib.util, os, sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


def ensure_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    cands = []
    if os.path.isdir(os.path.join(_VT, 'hypothesis')):
        cands.append(_VT)
    if os.path.isdir(_WHEELS):
        for f in sorted(os.listdir(_WHEELS)):
            if f.startswith(('hypothesis-', 'sortedcontainers-')) and f.endswith('.whl'):
                cands.append(os.path.join(_WHEELS, f))
    # Appended at the END of sys.path: everything the project's interpreter has wins.
    for c in cands:
        if c not in sys.path:
            sys.path.append(c)
    import hypothesis  # noqa


def setup_paths():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('VERIF_REPO', '/repo')
    for p in (here, repo):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    return here, repo
