"""uvm imported on the stand-in simulator, with reporting reduced to a log.

`setup()` is idempotent.  REPORTS collects (severity, id, message) of every report
that the real filtering lets through; a UVM_FATAL raises UVMFinishError as the real
server does.  Nothing is printed, no file is opened.
"""
from . import simk, sre

REPORTS = []
_done = False
RecServer = None


class _FI:
    filename = "f.py"
    lineno = 1


def _stack(*a, **k):
    return [[None], [None], [None], [None]]


def setup(record=True):
    global _done, RecServer
    simk.bootstrap()
    if _done:
        return
    _done = True
    sre.install()
    import sys
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        import uvm  # noqa: F401
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.base.uvm_object_globals import UVM_FATAL
    from uvm.base.uvm_exceptions import UVMFinishError

    class _RecServer(UVMReportServer):
        def process_report_message(self, m):
            REPORTS.append((m.get_severity(), m.get_id(), m.get_message()))
            if m.get_severity() == UVM_FATAL:
                raise UVMFinishError("UVM_FATAL [%s] %s" % (m.get_id(), m.get_message()))

    # the log of transactions is not written
    from uvm.base.sv import sv
    fopen = sv.fopen
    sv.fopen = lambda name, *a: open("/dev/null", "w") if str(name).endswith("tr_db.log") else fopen(name, *a)

    RecServer = _RecServer
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("uvm"):
            d = mod.__dict__
            if "getframeinfo" in d:
                d["getframeinfo"] = lambda f: _FI
            if "stack" in d and getattr(d["stack"], "__module__", "") == "inspect":
                d["stack"] = _stack
    if record:
        UVMReportServer.set_server(_RecServer("rec"))
    with contextlib.redirect_stdout(io.StringIO()):
        UVMCoreService.get().get_root()
    # callback tracing would build strings for every call
    from uvm.base import uvm_callback
    if hasattr(uvm_callback, "UVMCallbacksBase"):
        uvm_callback.UVMCallbacksBase.m_tracing = False
    del REPORTS[:]


def reports(severity=None, rid=None):
    return [r for r in REPORTS if (severity is None or r[0] == severity) and (rid is None or r[1] == rid)]


def errors():
    from uvm.base.uvm_object_globals import UVM_ERROR
    return [r for r in REPORTS if r[0] >= UVM_ERROR]


def clear():
    del REPORTS[:]
