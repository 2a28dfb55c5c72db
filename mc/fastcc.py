"""Compiler configuration of pystencils: its own default flags, with the headers precompiled."""
import json
import os
import subprocess
import sysconfig

FLAGS = "-Ofast -DNDEBUG -fPIC -march=native -fopenmp -std=c++11"


def prepare(scratch, flags=FLAGS, command="g++"):
    import importlib.util

    root = os.path.dirname(importlib.util.find_spec("pystencils").origin)
    header = os.path.join(scratch, "pre.h")
    with open(header, "w") as f:
        f.write('#include "Python.h"\n#include <math.h>\n#include <stdint.h>\n')
    subprocess.run(["g++", "-x", "c++-header"] + flags.split()
                   + ["-I" + sysconfig.get_paths()["include"], "-I" + os.path.join(root, "include"),
                      header, "-o", header + ".gch"], check=False)
    conf = os.path.join(scratch, "pystencils.json")
    with open(conf, "w") as f:
        json.dump({"compiler": {"command": command, "flags": f"{flags} -include {header}"}}, f)
    return dict(PYSTENCILS_CONFIG=conf)
