# technique: exhaustive enumeration of checkpoints, selections and options of the stand-alone tools (all variables x boxes x formats, all subsets of variables, all modifications, all cuts, all pairs of short files), compared with an independent parser and read back by the program
# note: the tools are compiled from /repo/utilities under AddressSanitizer and UBSan; parameter values that contain the text of a section marker are outside the bounds
import sys, os, subprocess, glob; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
import sgbuild
c = Check("C31", "exploration")
c.rule = "all selections, modifications and cuts up to the bound; non-trivial = the tool had something to do"
c.assumptions = ["parameter values contain no line breaks and no section markers", "lines of a checkpoint have less than 8000 characters"]
tools = os.path.join(c.scratch, "tools")
os.makedirs(tools)
os.chmod(tools, 0o755)
for f in sorted(glob.glob(os.path.join(sgbuild.REPO, "utilities", "*.c"))):
    exe = os.path.join(tools, os.path.basename(f)[:-2])
    r = subprocess.run(["gcc", "-w", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-o", exe, f, "-lm"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-3000:])
        raise SystemExit("ERROR: %s does not compile" % f)
    os.chmod(exe, 0o755)
c.harness("plain", "c31_tools.c", env={"VH_TOOLS": tools})
c.finish()
