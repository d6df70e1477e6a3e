class MillingCutter:
    pass
class CylCutter(MillingCutter):
    def __init__(self,d,l): self.d=d; self.l=l
    def getDiameter(self): return self.d
    def getRadius(self): return self.d/2
class Point:
    def __init__(self,x,y,z): self.x=x;self.y=y;self.z=z
class CLPoint(Point): pass
class Triangle:
    def __init__(self,*p): self.p=p
class STLSurf:
    def __init__(self): self.t=[]
    def addTriangle(self,t): self.t.append(t)
class BatchDropCutter:
    def __init__(self): self.pts=[]
    def setCutter(self,c): self.c=c
    def appendPoint(self,p): self.pts.append(p)
    def setSTL(self,s): self.s=s
    def run(self):
        for p in self.pts:
            z=p.z; r=self.c.getRadius()
            for t in self.s.t:
                xs=[q.x for q in t.p]; ys=[q.y for q in t.p]
                if min(xs)-r<=p.x<=max(xs)+r and min(ys)-r<=p.y<=max(ys)+r:
                    z=max(z,max(q.z for q in t.p))
            p.z=z
    def getCLPoints(self): return self.pts
import sys
ocl=sys.modules[__name__]
