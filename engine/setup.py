"""setup: checks that the tools the machinery needs are installed (nothing is built: every check builds from /repo itself)"""
import shutil, sys
missing = [t for t in ("clang++", "g++", "why3", "z3", "cvc5") if not shutil.which(t)]
print("missing:" if missing else "tools present", missing or "")
sys.exit(1 if missing else 0)
