"""Writes KNOWN_FINDINGS.txt from the table below (property per fix subject)."""
import subprocess,os
M={"Base64::encode read":"C18","url_decode mangled":"C14","HTTP header end depended":"C08","reported success when fed more data":"C09",
"accepted malformed request lines":"C09","construct compared iterators":"C12","a header with an empty value":"C12","merged an argument":"C11","threw or corrupted the body":"C13",
"used Packet kept stale":"C04","bounds arithmetic overflowed":"C03","allocated whatever length":"C02","64 bit length form":"C16",
"masked the frame's own payload":"C16","ftp URL scheme":"C25","kept parts of the previously parsed":"C15","mixed up components":"C15",
"SocketSelector::remove failed":"C20","restarted from the beginning":"C24","non-blocking mode was never set":"C24","TcpSocket reported the blocking mode":"C22","orderly TLS close":"C24",
"leaked descriptors":"C21","begin no method":"C25","a reconnected SSLSocket reported":"C24",
"moved-from TcpListener":"C21","past FD_SETSIZE":"C21"}
out=["# One line per genuine defect found. 'fixed:' lines are repaired in /repo and suppress nothing.",
"# 'known:' lines (property id, then the exact input / call site / history) are unrepaired: none at present."]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%H %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[p for m,p in M.items() if m in s]; assert len(k)==1,(s,k)
    out.append(f"fixed: property={k[0]} {h[:12]} {s[5:]}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","KNOWN_FINDINGS.txt"),"w").write("\n".join(out)+"\n")
