#!/usr/bin/env python3
"""Compares the simulated TCP stack with the system's loopback (see harness/netconf.cpp).

Prints the number of sequences that agree.  Exit 0: all agree."""
import os
import re
import socket
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build  # noqa: E402


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def compare(depth, limit=None):
    """Returns (sequences, list of (sequence, simulated, real))."""
    sim = build.build("netconf", "mc", ["netconf.cpp"], libset="none")
    real = build.build("netconf_real", "plain", ["netconf.cpp"], libset="none", extra=["-DNETCONF_REAL"])
    with tempfile.TemporaryDirectory(prefix="netconf") as d:
        out = os.path.join(d, "sim")
        env = dict(os.environ, NETCONF_OUT=out, NETCONF_DEPTH=str(depth))
        subprocess.run([sim, "--tier", "quick", "--budget", "600", "--out", d, "--workers", "4"], cwd=d, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        want = {}
        for l in open(out):
            k, _, v = l.rstrip("\n").partition(" ")
            want[k] = v

    def native(seqs, pause):
        p = subprocess.run([real, str(free_port()), str(pause)], input="\n".join(seqs) + "\n", stdout=subprocess.PIPE, text=True, check=True)
        return dict(l.partition(" ")[::2] for l in p.stdout.splitlines())

    bad = sorted(want)
    # a difference must persist when the system is given time to deliver
    for pause in (0, 2000, 20000):
        got = native(bad, pause)
        bad = [k for k in bad if got.get(k) != want[k]]
        if not bad:
            break
        if len(bad) > 300:
            break
    return len(want), [(k, want[k], got.get(k)) for k in bad]


if __name__ == "__main__":
    n, bad = compare(int(sys.argv[1]) if len(sys.argv) > 1 else 3)
    for k, a, b in bad[:int(os.environ.get("SHOW", "20"))]:
        print("%s\n  simulated %s\n  real      %s" % (k, a, b))
    print("%d sequences, %d differ" % (n, len(bad)))
    sys.exit(1 if bad else 0)
