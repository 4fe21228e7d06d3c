"""C22  device selection."""
import contextlib
import io
from engine.api import case, Skip

F = ["cuda.configure_device", "cuda.get_selected_device"]
NAMES = ["cpu", "CPU", "gpu", "Gpu", "GPU", "cuda", "CUDA", "auto", "AUTO", "Auto", "cuda:0", "tpu", "", "c p u", "none", "cpu0", "mps", "gpus", "au to", "autocpu", "cudagpu"]


@contextlib.contextmanager
def machine(c, usable):
    """a machine whose gpu is usable or not; yields the devices made the default one, in order"""
    torch = c.mod("cuda").torch
    made = []
    old = [(torch, "set_default_device", torch.set_default_device), (torch.cuda, "is_available", torch.cuda.is_available), (torch.cuda, "device_count", torch.cuda.device_count)]
    torch.set_default_device = lambda d: made.append(str(getattr(d, "type", d)))
    torch.cuda.is_available = lambda: usable
    torch.cuda.device_count = lambda: 1 if usable else 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield made
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def expected(name, usable):
    """the device selected for a request, or None if the request is to be refused"""
    if name is None:
        return "cuda" if usable else "cpu"
    low = name.lower()
    if low == "cpu":
        return "cpu"
    if low == "gpu" or low == "cuda" or low == "auto":
        return "cuda" if usable else "cpu"
    return None



@case("C22", F, samples=300, budget=10)
def requests(c):
    """every request, after every earlier one"""
    m = c.mod("cuda")
    usable = True if c.pick("usable gpu", [True, False]) else False
    with machine(c, usable) as made:
        try:
            first = c.pick("earlier request", [None, "cpu", "gpu", "none"])
            if first != "none":
                m.configure_device(first, verbose=False)
            before, n0 = m.get_selected_device(), len(made)
            asked = c.pick("kind of request", ["text", "default", "None"])
            name = c.text("request", NAMES) if asked == "text" else None
            verbose = c.pick("verbose", [False, True])
            run = (lambda: m.configure_device(verbose=verbose)) if asked == "default" else (lambda: m.configure_device(name, verbose=verbose))
            raised, got = c.attempt(run, ValueError)
            want = expected(name, usable)
            c.ensure("refused exactly when unknown", raised == (want is None))
            if want is None:
                c.ensure("selection kept", m.get_selected_device() == before)
                c.ensure("default device kept", len(made) == n0)
            else:
                c.ensure("returned", got == want)
                c.ensure("reported", m.get_selected_device() == want)
                c.ensure("used for new tensors", len(made) > n0 and made[-1] == want)
                c.ensure("usable", want == "cpu" or usable)
        finally:
            if not c.sym:
                m.configure_device("cpu", verbose=False)


@case("C22", F, samples=20, budget=5)
def at_start(c):
    """a fresh process: the reported device is the one tensors are created on"""
    m = c.mod("cuda")
    c.ensure("usable device", m.get_selected_device() == "cpu")
    if not c.sym:
        import torch
        m.configure_device(c.pick("request", ["cpu", "CPU"]), verbose=False)
        c.ensure("new tensors", torch.zeros(2).device.type == m.get_selected_device())
        c.ensure("package tensors", c.mod("utils").ensure_torch([1.0]).device.type == m.get_selected_device())
