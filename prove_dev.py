import sys, extract, glob, subprocess, os
UNITS={"out": dict(modules=["errors","inputs::vertex_index","inputs::vertex","mappable","inputs::polygon_list","outputs","fan_builder_state","math","monotone","idx","segment","querynode","trapezoid","nexus","trapezoidation"], vc=["prelude.vc","outputs.vc","monotone.vc","trap.vc","inputs.vc"])}
def gen(u):
    U=UNITS[u]; C=extract.Contracts(["/verif/contracts/"+x for x in U["vc"]])
    X=extract.Extraction(os.environ.get("RS","/repo/src"),C,U["modules"]); t=X.run()
    os.makedirs("/tmp/v/x",exist_ok=True); open(f"/tmp/v/x/{u}.rs","w").write(t)
    return X
X=gen(sys.argv[1]); print("LOST",X.lost)
r=subprocess.run(["timeout","100","verus",f"/tmp/v/x/{sys.argv[1]}.rs"]+sys.argv[2:],capture_output=True,text=True)
import re
o=r.stderr+r.stdout; o="\n\n".join(x for x in o.split("\n\n") if "autoderive Clone" not in x); print(o[:6000]); print("...",o[-300:] if len(o)>6000 else "")
