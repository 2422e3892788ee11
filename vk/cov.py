"""Development aid (VK_COV=DIR): which lines of the code under test the workloads of a check executed."""
import atexit, json, os, sys, threading
HITS = set()

def start(root):
    m = sys.monitoring
    m.use_tool_id(3, "vkcov")
    root = os.path.abspath(root) + "/eckity/"

    def line(code, ln):
        if code.co_filename.startswith(root):
            HITS.add((code.co_filename[len(root):], ln))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)

def dump(d, tag):
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/{tag}.{os.getpid()}.json", "w") as f:
        json.dump(sorted(HITS), f)
