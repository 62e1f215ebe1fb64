"""setup: the framework is interpreted Python plus a harness crate that every check builds itself; verify that the tools are there."""
import shutil, subprocess, sys
for t in('cargo','rustc'):
    if not shutil.which(t): sys.exit('missing '+t)
import z3
print('ok',z3.get_version_string())
