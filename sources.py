import os
REPO = os.environ.get("VP_REPO", "/repo")
# every C++ source of the library proper (a function may move between them); the host side of OpenCL, the reader and main on request
CORE = sorted(f[:-4] for f in os.listdir(REPO + "/lib") if f.endswith(".cpp") and f[:-4] not in ("main", "gpu_csp", "compile_cl", "pgm_io"))
