"""Runs of optimize/map under the controlled scheduler."""
import multiprocessing, os, shutil
from . import sched, envsetup, ds
import litdata
import litdata.processing.functions, litdata.processing.data_processor


def run(home, main, nodes=None, **kw):
    """Run `main` (which calls optimize/map/merge...) in a forked child with its default folders in `home`."""
    def setup(sc):
        envsetup.isolate(home)
        if nodes:
            os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes[0]), str(nodes[1])
    return sched.execute(setup, main, **kw)


def ok(r):
    return r["status"] == "ok" and r["main_done"] and r["exc"] is None


def short(r):
    return f"{r['status']} {r['detail'][:300]} {r['exc'] or ''} {[t for t in r['tasks'] if t[2] not in (0,)]}"


def read(path, **kw):
    """Every sample of the dataset at `path`, in order."""
    d = litdata.StreamingDataset(path, **kw)
    return [d[i] for i in range(len(d))]


def warm():
    """Import everything once, in the parent of the forked runs."""
    from litdata.utilities._pytree import tree_flatten
    import numpy as np, tqdm.auto, concurrent.futures.thread
    tree_flatten(["x", np.zeros(1), {"a": 1}])


warm()


def node_main(job, home, node, nodes, delay=0):
    if delay: sched._vt_sleep(delay)
    envsetup.isolate(home)
    os.environ["DATA_OPTIMIZER_NUM_NODES"], os.environ["DATA_OPTIMIZER_NODE_RANK"] = str(nodes), str(node)
    job()


def on_nodes(job, base, nodes, delay=None):
    """The program of `job` run by `nodes` nodes side by side, each with default folders of its own; delay[k] seconds late."""
    if nodes == 1: return lambda: node_main(job, os.path.join(base, "home"), 0, 1)
    def main():
        ps = [multiprocessing.Process(target=node_main, args=(job, os.path.join(base, f"home{k}"), k, nodes, delay[k] if delay else 0)) for k in range(nodes)]
        for p in ps: p.start()
        for p in ps: p.join()
        if any(p.exitcode for p in ps): raise RuntimeError(f"a node failed: {[p.exitcode for p in ps]}")
    return main
