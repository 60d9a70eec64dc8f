"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
HERE = os.path.join(os.path.dirname(__file__), "..")
OPS = "explicit-state exploration of the real code: "
T = {
 "C01": (OPS + "exhaustive enumeration of write histories, each executed and read back", "sizes/limits/options enumerated exhaustively within small bounds; larger datasets only by the small-scope argument"),
 "C02": (OPS + "exhaustive enumeration of write histories, chunk files and index decoded independently", "bounded sequence length"),
 "C03": (OPS + "exhaustive enumeration of (kind, dtype, shape) leaves and nested structures up to a depth", "value content per leaf is a small fixed set"),
 "C04": (OPS + "exhaustive enumeration of chunk vectors x topologies x epochs, every rank and worker executed", "bounded dataset size and world size; one known finding (multi-node epoch 2) is recorded"),
 "C05": (OPS + "exhaustive enumeration of chunk vectors x topologies x batch sizes under drop_last", "bounded; one known finding (multi-node epoch 2) is recorded"),
 "C06": (OPS + "exhaustive enumeration of checkpoint positions and resume chains", "worker processes are deterministic coroutines running torch's own worker loop"),
 "C07": (OPS + "exhaustive enumeration of dataset lengths, weights, seeds and checkpoint positions", "worker processes are deterministic coroutines running torch's own worker loop"),
 "C08": ("stateless model checking of the real reader under a controlled scheduler: every interleaving up to a deviation bound", "deviation-bounded; scheduling points at file, lock, queue and sleep operations"),
 "C09": (OPS + "exhaustive enumeration of access histories with a bounded cache, disk usage monitored at every file operation", "bounded history depth"),
 "C10": ("exhaustive crash-point and fault enumeration: the real reader killed at every file operation, including torn writes, then a fresh reader on the same cache", "single crash (two in the thorough tier) per history"),
 "C11": (OPS + "exhaustive enumeration of inputs x workers x nodes x weights x outputs through optimize", "processes are tasks of the controlled scheduler (one schedule per case, C12 explores schedules)"),
 "C12": ("stateless model checking of the real pipeline stages under a controlled scheduler, plus every single stage failure", "deviation-bounded"),
 "C13": (OPS + "exhaustive enumeration of operation histories (optimize, append, overwrite, refuse) up to a depth", "bounded depth"),
 "C14": ("exhaustive crash-point enumeration of optimize with checkpoints, each followed by a resumed run", "bounded inputs"),
 "C15": (OPS + "exhaustive enumeration of lists of datasets and of merges of merges", "bounded"),
 "C16": (OPS + "exhaustive enumeration of chunk vectors x fractions x splits of splits", "bounded"),
 "C17": (OPS + "exhaustive enumeration of row-group layouts x access histories x loading modes", "bounded"),
 "C18": (OPS + "exhaustive enumeration of update/read histories on locations up to a depth", "bounded depth"),
 "C19": (OPS + "exhaustive enumeration of sibling object names x operation sequences on an in-memory object store", "the cloud client is an in-memory model of the object-store API"),
 "C20": (OPS + "exhaustive enumeration of access histories up to a depth", "bounded depth"),
 "C21": (OPS + "exhaustive enumeration of inputs x workers x nodes x outputs x failing input through map", "bounded"),
 "C22": (OPS + "exhaustive enumeration of dataset sizes x batch x workers x ranks x epochs", "bounded"),
 "C23": (OPS + "exhaustive enumeration of all pairs of write and read settings", "keys from a fixed set"),
 "C24": (OPS + "exhaustive enumeration of document lengths, and of access histories with all returned blocks kept alive", "bounded"),
 "C25": (OPS + "exhaustive enumeration of row counts, shard sizes and placements; of trees and completion orders of the walk", "bounded"),
 "C26": (OPS + "exhaustive enumeration of epoch histories (full, partial, restarted, setting changes) up to a depth", "worker processes are deterministic coroutines running torch's own worker loop"),
 "C27": (OPS + "exhaustive enumeration of location forms from a grammar, requests recorded by in-memory clients", "cloud clients are in-memory models"),
 "C28": ("stateless model checking of the real nodes' exchange over a modelled service (every interleaving and failed request, deviation-bounded), and exhaustive enumeration of platform contents x paths", "the hosted service and the platform's SDK are models"),
 "C29": (OPS + "exhaustive enumeration of column sets x compression x shard layouts, written by the MosaicML library", "bounded; the installed MosaicML writer is the oracle"),
}
NA = {}
LEVEL = {"C10": "model_checking"}
claimed = [l.split()[0] for l in open(os.path.join(HERE, "tools", "claimed.txt")) if l.strip()]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
m = dict(version=1, setup_cmd=f"{PY} -c \"import sys; sys.path.insert(0, '/repo/src'); import litdata\"",
         checks=[dict(property=i, quick_cmd=f"{PY} run.py {i}", thorough_cmd=f"VERIF_TIER=thorough {PY} run.py {i}", technique=T[i][0], level=LEVEL.get(i, "model_checking"), level_note=T[i][1]) for i in ids if i in claimed],
         not_applicable=[dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in claimed],
         hooks=dict(guard="none", enable="no hooks: the checks control the unmodified code from outside (patched time, queues, file operations and clients)"))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
