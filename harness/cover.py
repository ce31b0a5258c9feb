"""Records the lines of the repository that a driver executes (tools/cover.py)."""
import os, sys


def start(path, root):
    m = sys.monitoring
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    m.use_tool_id(m.COVERAGE_ID, "verif")

    def hit(code, line):
        if code.co_filename.startswith(root):
            os.write(fd, ("%s:%d\n" % (code.co_filename[len(root):], line)).encode())
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, hit)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
