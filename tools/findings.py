import subprocess
M={ # subject fragment -> property
"undo of a transposition":"C02","view could start":"C02","END_OF_LINE":"C02","FORWARD_CHAR":"C07","cycling":"C05","edited back":"C05",
"panicked on an empty quoted":"C12","never ended":"C12","common prefix":"C11","BindKeySymbol":"C14","NON-JOINER":"C08","printed raw or altered":"C10",
"tabs after a joined":"C09","32767":"C02","word commands":"C01","ZERO WIDTH JOINER was lost":"C20","divide the restored":"C04","moving right over":"C03",
"SWAPCHAR left":"C03","repainting all":"C19","outdated widths of tabs":"C03","skin tone":"C09",
"terminal control characters for composed":"C18","colors of the old cursor":"C18","remove a typed letter":"C11","cases differ in length":"C12","followed by a NUL":"C13","tty10 corrupted":"C13","CTRL_DOWN":"C14",
"titles ended by ST":"C19","prompts with tabs":"C19","drew the line over the prompt":"C19","raced with the editor":"C16","size was not available":"C15","search prompt stayed":"C15","polling terminal twice":"C23","before the beginning of the line":"C22"}
import sys
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','e190c8b..HEAD'],capture_output=True,text=True).stdout
out=["# Findings. Only lines starting with \"open:\" are used by the checks:",
"#   open: property=ID sig=SIG match=TEXT :: what fails",
"# A violation with that signature whose text contains TEXT is reported as KNOWN-FINDING.",
"# Lines starting with \"fixed:\" record defects that were repaired in /repo; they suppress nothing."]
exec(open('/verif/tools/findings_extra.py').read()) if __import__('os').path.exists('/verif/tools/findings_extra.py') else None
for l in log.splitlines():
    h,s=l.split(' ',1)
    s=subprocess.run(['git','-C','/repo','log','-1','--format=%B',h],capture_output=True,text=True).stdout.split('\n')[0]
    assert s.startswith('fix: '),l
    k=[p for f,p in M.items() if f in s]
    assert len(k)==1,(l,k)
    out.append(f"fixed: property={k[0]} {h} {s[5:]}")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
