import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import build
os.makedirs(V + '/evidence', exist_ok=True)
for f in (build.build_lib, build.build_cli, build.build_asan, build.build_gyaml, build.build_genyaml_main): print(f())
