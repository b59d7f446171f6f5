"""helper for planting bugs: writes /verif/seeded/<id>/ from an edit and a demonstration program"""
import json, os, shutil, subprocess, tempfile
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# builds a small program against the library and runs it in a scratch directory
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/minimc_demo.XXXXXX)
H=/usr/include/hdf5/serial
L=/usr/lib/x86_64-linux-gnu
g++ -std=gnu++17 -g -O1 -fno-access-control -w -I"$R/src" -isystem $H -I"$D" "$D/demo.cpp" "$R/_build/src/libminimc.a" \\
  -lxerces-c -lpugixml $L/hdf5/serial/libhdf5_cpp.so $L/hdf5/serial/libhdf5.so -ldl -pthread -o "$W/demo" || { rm -r "$W"; echo "demo does not build"; exit 2; }
cp "$R"/test/minimc*.xsd "$D"/*.xml "$W" 2>/dev/null
cd "$W" && timeout 200 ./demo
rc=$?
cd / && rm -r "$W"
exit $rc
'''
HPP = '''#pragma once
#include "BasicTypes.hpp"
#include "Bank.hpp"
#include "Bins.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Constants.hpp"
#include "Continuous.hpp"
#include "ContinuousEvaluation.hpp"
#include "ContinuousMap.hpp"
#include "ContinuousReaction.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "FixedSource.hpp"
#include "HDF5DataSet.hpp"
#include "Interaction.hpp"
#include "Material.hpp"
#include "Multigroup.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Perturbation.hpp"
#include "Point.hpp"
#include "Reaction.hpp"
#include "ScalarField.hpp"
#include "Scorable.hpp"
#include "Sensitivity.hpp"
#include "Source.hpp"
#include "ThermalScattering.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"
#include "XMLDocument.hpp"
#include "pugixml.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define EXPECT(c)                                                             \\
  do {                                                                         \\
    if (!(c)) {                                                                \\
      std::cerr << "line " << __LINE__ << ": " << #c << " does not hold\\n";   \\
      std::exit(1);                                                            \\
    }                                                                          \\
  } while (0)
inline bool near(double a, double b, double eps = 1e-9) {
  return std::abs(a - b) <= eps * (1 + std::abs(a) + std::abs(b));
}
struct Doc {
  pugi::xml_document d;
  Doc(const std::string& s) { EXPECT(d.load_string(s.c_str())); }
  pugi::xml_node root() const { return d.document_element(); }
};
'''


def seed(name, prop, edits, cpp, needs, breaks, xml=()):
    d = os.path.join(OUT, name)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/src", w + "/src"], check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=w, check=True)
    for f, a, b in edits:
        p = w + "/src/" + f
        s = open(p).read()
        assert s.count(a) == 1, (name, f, s.count(a), a[:80])
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + cpp)
    open(d + "/demo.hpp", "w").write(HPP)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in xml:
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
