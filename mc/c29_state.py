"""Process-wide state that no operation of a library may change."""
import decimal, gc, locale, logging, os, random, signal, sys, warnings
import numpy as np


def settings():
    out = dict(err=np.geterr(), errcall=repr(np.geterrcall()), bufsize=np.getbufsize(), printing={k: repr(v) for k, v in np.get_printoptions().items()}, python_random=hash(random.getstate()),
               filters=[repr(f) for f in warnings.filters], env=dict(os.environ), cwd=os.getcwd(), recursion=sys.getrecursionlimit(), path=list(sys.path), locale=locale.setlocale(locale.LC_ALL, None),
               signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)], hook=repr(sys.excepthook), stdout=(id(sys.stdout), id(sys.stderr)),
               decimal=repr(decimal.getcontext()), gc=gc.isenabled(), root=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable), switch=sys.getswitchinterval(),
               trace=(repr(sys.gettrace()), repr(sys.getprofile())), umask=None, printer=repr(print), choice=repr(np.random.choice), nan=repr(np.float64), threads=[(k, v) for k, v in os.environ.items() if k.endswith("_THREADS")])
    t = sys.modules.get("torch")
    if t is not None and hasattr(t, "get_default_dtype"):
        out.update(torch_dtype=str(t.get_default_dtype()), grad=t.is_grad_enabled(), torch_threads=t.get_num_threads(), det=t.are_deterministic_algorithms_enabled(), torch_rng=hash(t.get_rng_state().numpy().tobytes()),
                   anomaly=t.is_anomaly_enabled(), torch_print=repr(vars(t._tensor_str.PRINT_OPTS)), flush=t.is_inference_mode_enabled())
    c = sys.modules.get("MuyGPyS")
    if c is not None and hasattr(c, "config"):
        out["config"] = {k: repr(v) for k, v in sorted(getattr(c.config, "values", {}).items())} or repr(c.config.state.__dict__ if hasattr(c.config, "state") else "")
    return out


def draws():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])
