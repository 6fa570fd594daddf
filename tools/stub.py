import sys, types, os
import numpy as np
def install():
    h=types.ModuleType("bdld.helpers"); h.__path__=[]
    m=types.ModuleType("bdld.helpers.misc"); ph=types.ModuleType("bdld.helpers.plumed_header")
    class PlumedHeader:
        def __init__(s,fields=None,constants=None,delim=None):
            s.fields=fields or []; s.constants=constants or {}; s.delim=delim or "#!"
        def __repr__(s):
            return "\n".join([s.delim+" FIELDS "+" ".join(s.fields)]+[f"{s.delim} SET {k} {v}" for k,v in s.constants.items()])
    def backup_if_exists(n):
        if os.path.exists(n):
            d,f=os.path.split(n); k=0
            while os.path.exists(os.path.join(d,f"bck.{k}.{f}")): k+=1
            os.rename(n,os.path.join(d,f"bck.{k}.{f}"))
    def initialize_file(fn,fields=None,constants=None,comment_delim=None,overwrite=False):
        if not overwrite: backup_if_exists(fn)
        with open(fn,"w") as f:
            if fields: f.write(str(PlumedHeader(fields,constants,comment_delim))+"\n")
    def write2d(fn,data,nb,fmt="%.18e",header=None):
        data=data.reshape(*nb,len(data[0]))
        with open(fn,"w") as o:
            if header:o.write(str(header)+"\n")
            for row in data[:-1]:
                np.savetxt(o,row,comments="",fmt=fmt); o.write("\n")
            np.savetxt(o,data[-1],comments="",fmt=fmt)
    m.backup_if_exists=backup_if_exists;m.initialize_file=initialize_file
    m.write_2d_sliced_to_file=write2d;m.make_ordinal=lambda n:f"{n}th"
    ph.PlumedHeader=PlumedHeader
    sys.modules.update({"bdld.helpers":h,"bdld.helpers.misc":m,"bdld.helpers.plumed_header":ph})
