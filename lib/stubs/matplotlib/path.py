'''A stand-in for matplotlib.path.Path.contains_points(): matplotlib isn't installed here'''
import numpy as np
class Path:
    def __init__(s,v): s.v=np.asarray(v,dtype=float)
    def contains_points(s,q):
        q=np.asarray(q,dtype=float); a=s.v; b=np.roll(a,-1,axis=0); r=np.zeros(len(q),bool)
        for (ax,ay),(bx,by) in zip(a,b):
            if ay==by: continue
            r ^= ((ay>q[:,1])!=(by>q[:,1]))&(q[:,0]<(bx-ax)*(q[:,1]-ay)/(by-ay)+ax)
        return r
