"""Nothing to build ahead of time: every check regenerates its encoding from /repo. Verifies the tools are there."""
import shutil
import sys

missing = [t for t in ("cbmc", "gcc", "python3-vt", "node", "go", "rustc", "dotnet") if not shutil.which(t)]
print("setup ok" if not missing else f"missing: {missing}")
sys.exit(0)
