"""The bounded spaces that each property is checked on.  One line = one exhaustive exploration."""
import math, re
ASSUMPTIONS = [
    "the bounded spaces listed under coverage.configurations: histories of the given default operation (L steps) with up to D deviations drawn from ops= at every position, on the listed geometries",
    "page writes and block erases are atomic device operations; file contents survive a power cut as written (torn pages are outside the storage contract the code assumes)",
    "gcc 13 -O1 x86-64 objects of /repo's sources; heap, stdio and static data are redirected to the explorer so that every state can be saved and restored",
]
S, D = "src", "dist"


def E(text, tgts=(S, D)):
    """explorer jobs, one per non-empty line; a line starting with 'src:' or 'dist:' runs on that target only"""
    r = []
    for l in text.strip().splitlines():
        l = l.split("#")[0].strip()
        if not l:
            continue
        t = tgts
        for x in (S, D):
            if l.startswith(x + ":"):
                t, l = (x,), l[len(x) + 1:].strip()
        for x in t:
            r.append({"bin": x if x in ("pair", "pairA", "amalg") else "explore-" + x, "args": l})
    return r


def U(prog, text, tgts=(S, D)):
    """jobs of a component explorer, one per non-empty line"""
    return [dict(j, bin=j["bin"].replace("explore", prog)) for j in E(text, tgts)]


def P(text):
    """jobs that run an exploration on both builds and compare"""
    return E(text.replace("\n", "\n"), ("pair",))


NEEDS = {"pair": [p + "-" + t for p in ("explore", "opsx", "splinex", "utilx") for t in (S, D)],
         "pairA": [p + "-" + t for p in ("explore", "opsx") for t in (S, "amalg")], "amalg": []}

_COMP = "Every bounded history of the component's calls is executed on the objects compiled from /repo (sources and distribution) and judged against an independent definition; exhaustive within the listed bounds, nothing beyond them."
NOTES, NA = {}, {}
TECH = {"*": "explicit-state model checking of the implementation (stateful exploration of all bounded histories, reference model as oracle)"}
Q, T = {}, {}          # quick jobs; additional thorough jobs

# --------------------------------------------------------------------------- C01 point lookup
Q["C01"] = E("""
obs=Gg N=4 D=4 L=26 ops=f,l0,l3,x
obs=G N=8 B=2 D=2 L=40 ops=f,w,i0,r,k3,l2,X
obs=G k=8 D=1 L=40 ops=f,g1,g1000000,l0 N=8 gap=100
obs=G k=8 D=2 L=40 ops=f,G,g5000000000 spl=4 N=12 B=3
obs=G k=1 D=2 L=40 ops=f,r,g7 N=4
obs=G k=2 D=2 L=40 ops=f,g200 N=6 B=1 err=0
obs=G k=3 d=3 D=2 L=40 ops=f,g900 N=6 B=3 bin=1
obs=G k=6 d=10 D=2 L=40 ops=f,G N=4 ps=128
obs=G k=7 d=1 D=2 L=40 ops=f,G N=8 ps=128
obs=G k=4 d=100 D=2 L=30 ops=f,g50 N=12 ps=512 B=4
obs=G k=4 d=4 D=2 L=36 ops=f,k60,g3 N=6 ps=512 B=2
obs=Gg N=4 bin=1 D=3 L=40 ops=f,l0,l3,i0
obs=G N=8 var=1 lens=12,-1,0 D=2 L=30 ops=f,V0,l1,N
obs=Gg N=8 idx=1 bmap=1 D=3 L=30 ops=f,i3,l1
obs=Gg N=8 rlc=1 D=3 L=34 ops=f,l0,i0
obs=G N=8 mm=1 bmap=1 ps=128 D=2 L=34 ops=f,g60
obs=G N=8 owncmp=0 D=2 L=34 ops=f,G
obs=G N=8 k=8 owncmp=0 D=2 L=34 ops=f,G
obs=G N=8 key0=0 gap=1 D=2 L=34 ops=f,g2
obs=G ps=32 N=16 err=2 D=2 L=40 ops=g9,g40
obs=G ps=32 N=20 err=3 D=2 L=50 ops=g60,r
obs=g ps=32 N=24 err=4 D=1 L=72 ops=g9,g200,f spl=4
obs=G ps=32 N=12 err=2 D=2 L=50 ops=g9,g400 k=8 spl=4
obs=G ps=40 N=16 rlc=1 err=3 D=2 L=40 ops=g60,f
""")
T["C01"] = E("""
obs=Gg N=4 D=3 L=26 ops=f,l0,l3,x,i0
obs=G N=8 D=2 L=40 ops=f,w,i0,r,k3,l2,X,g50
obs=G k=8 D=2 L=40 ops=f,g1,g1000000,G,g5000000000 N=8 gap=100
obs=G k=8 D=2 L=60 ops=f,g1,g1000000 N=12 B=3 gap=100 spl=4
obs=G k=4 d=12 D=1 L=120 ops=f,r,k40 N=12 ps=512
obs=Gg N=8 rlc=1 D=2 L=34 ops=f,l0,i0
obs=Gg N=4 d=1 k=1 ps=40 D=2 L=60 ops=f,l0,g2
""")

# --------------------------------------------------------------------------- C02 key ranges
Q["C02"] = E("""
obs=i ps=32 N=16 err=2 D=2 L=40 ops=g9,g40
obs=i ps=32 N=20 err=3 D=2 L=50 ops=g60,r
obs=i ps=32 N=24 err=4 D=1 L=72 ops=g9,g200,f spl=4
obs=i ps=32 N=12 err=2 D=2 L=50 ops=g9,g400 k=8 spl=4
obs=i ps=40 N=16 rlc=1 err=3 D=2 L=40 ops=g60,f
obs=I N=4 D=2 L=24 ops=f,l0,g9
obs=I N=8 D=2 L=30 ops=f,w,r,i2
obs=i N=8 D=2 L=30 ops=f,w,g40 spl=4
obs=I k=8 D=1 L=30 ops=f,G,g5000000000 N=8 gap=100
obs=I k=1 D=2 L=30 ops=f,g9 N=4 B=1
obs=I bin=1 D=2 L=30 ops=f,g500 N=6 B=3
obs=i k=8 bin=1 D=1 L=40 ops=f,r,G N=6 B=2
obs=I rlc=1 D=3 L=30 ops=f N=8
obs=I var=1 lens=12,-1 D=3 L=24 ops=f,V0 N=8
obs=I idx=1 bmap=1 D=3 L=24 ops=f,i3
obs=i k=4 d=4 D=3 L=20 ops=f,k60,g3 N=6 ps=512 B=2
obs=I mm=1 bmap=1 ps=128 k=3 d=7 D=2 L=24 ops=f,G N=4
obs=I key0=0 gap=1 D=2 L=24 ops=f,g5 err=0 spl=4 N=6 B=1
obs=I owncmp=0 D=2 L=24 ops=f,G err=10 N=4
""")
T["C02"] = E("""
obs=I N=4 D=2 L=30 ops=f,l0,g9,r
obs=I N=8 D=2 L=40 ops=f,w,r,g70 spl=4
obs=i N=8 D=3 L=30 ops=f,w,g40 spl=4
obs=I k=8 D=2 L=30 ops=f,G,g5000000000 N=8 gap=100
obs=I k=8 bin=1 D=2 L=40 ops=f,r,G N=6 B=2
""")

# --------------------------------------------------------------------------- C03 data filters / bitmap index
Q["C03"] = E("""
obs=D idx=1 bmap=1 D=1 L=26 ops=f,h0,h5 ip=4
obs=d idx=1 bmap=1 D=1 L=50 ops=f,h0,h5,w ip=4 N=12 B=2 ps=40
obs=d idx=1 bmap=1 D=2 L=26 ops=f,h0,w ip=4 N=8 B=1 ps=40
obs=d idx=1 bmap=1 D=1 L=60 def=w ops=p,h0,h5 ip=4 N=8 B=1 ps=40
obs=d idx=1 D=2 L=40 ops=f,h5 ip=4
obs=d bmap=1 D=2 L=40 ops=f,h5
obs=d D=2 L=30 ops=f,h5
obs=d mm=1 k=4 d=4 D=3 L=30 ops=f,r N=6 B=2
obs=D mm=1 bmap=1 k=8 d=4 D=2 L=24 ops=f,h0 N=6 B=2 ps=128
obs=D mm=1 bmap=1 idx=1 k=8 d=8 D=2 L=24 ops=f,h0 N=6 B=1 ps=128
obs=D bmap=1 idx=1 k=4 d=4 bm=1 ownbm=0 D=2 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=-5 vstep=20 nb=7
obs=D bmap=1 idx=1 k=4 d=4 bm=2 ownbm=0 D=2 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=-5 vstep=20 nb=7
obs=D bmap=1 idx=1 k=4 d=4 bm=8 ownbm=0 D=2 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=-5 vstep=20 nb=7
obs=D bmap=1 k=4 d=1 bm=1 ownbm=0 D=2 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=0 vstep=10
obs=d idx=1 bmap=1 var=1 lens=12,-1 D=2 L=26 ops=f,h0 ip=4
obs=d idx=1 bmap=1 rlc=1 D=2 L=34 ops=f,h0 ip=4 N=8
obs=d idx=1 bmap=1 D=1 L=60 ops=f,h5 ip=6 B=3 N=12 ps=64 bm=8 k=8
""")
T["C03"] = E("""
obs=D idx=1 bmap=1 D=2 L=30 ops=f,h0,h5 ip=4
obs=d idx=1 bmap=1 D=2 L=60 ops=f,h0,h5,w ip=4 N=12 B=2 ps=40
obs=d idx=1 bmap=1 D=2 L=60 def=w ops=p,h0,h5 ip=4 N=8 B=1 ps=40
obs=d idx=1 bmap=1 D=3 L=26 ops=f,h0,w ip=4 N=8 B=1 ps=40
""")

# --------------------------------------------------------------------------- C04 strict ascending
Q["C04"] = E("""
obs=GFSX N=4 D=4 L=26 ops=f,d,s,z
obs=GFSX N=8 D=2 L=30 ops=f,r,d,s
obs=GFSX k=8 D=3 L=20 ops=f,G,d,s N=8
obs=GFSX k=1 D=2 L=30 ops=f,d,s,z,g9 N=4
obs=GFX rlc=1 D=5 L=24 ops=f,d,s N=8
obs=GFX rlc=1 D=2 L=30 ops=f,d,s,r,R,z N=8 B=1
obs=GFVSX var=1 lens=12,-1 D=2 L=28 ops=f,d,d1,s,v70,r
obs=GFVX var=1 lens=12,-1 D=4 L=12 ops=f,d,d1,s,v70 N=4
obs=GFVX var=1 rlc=1 lens=12,-1 D=4 L=24 ops=f,d1,s N=8
obs=GFDX idx=1 bmap=1 D=2 L=26 ops=f,d,s,h0
obs=GFX bin=1 owncmp=0 D=3 L=30 ops=f,d,s,z,r N=4 B=1
obs=GFX key0=0 D=3 L=30 ops=f,d,s,z,r N=4 B=1
obs=GFX k=5 d=9 ps=128 D=2 L=30 ops=f,d,s,z,r,G N=6 B=3
obs=GF prop=C04 D=4 L=36 ops=f,d,s,z,k3 N=4 ps=40 d=12
""")
T["C04"] = E("""
obs=GFSX N=4 D=3 L=26 ops=f,d,s,z
obs=GFSX N=8 D=3 L=24 ops=f,r,d
obs=GFVSX var=1 lens=12,-1 D=2 L=28 ops=f,d,d1,s,v70,r
obs=GFX rlc=1 D=2 L=30 ops=f,d,s,r,R N=8 B=1
""")

# --------------------------------------------------------------------------- C05 wrap-around retention
Q["C05"] = E("""
obs=GF N=4 B=2 D=2 L=40 ops=f,w
obs=GF N=4 B=1 D=3 L=30 ops=f,w
obs=GF N=12 B=3 D=1 L=70 ops=f,w
obs=GF N=12 B=4 D=1 L=70 ops=f
obs=GF N=8 B=4 D=1 L=60 ops=f,r
obs=GF N=2 B=1 D=4 L=24 ops=f,w
obs=GF N=8 B=2 D=1 L=120 def=w ops=p,r kind=2
obs=GF N=8 B=2 D=2 L=60 def=w ops=p,r kind=1
obs=GF N=12 B=3 rlc=1 D=2 L=60 ops=f
obs=GF N=8 B=2 rlc=1 D=2 L=60 ops=f,w
obs=GF N=4 B=1 rlc=1 D=3 L=40 ops=f,w
obs=GF N=8 B=2 bin=1 D=1 L=50 ops=f,g9
obs=GF N=8 B=2 var=1 lens=12,-1 vp=16 D=2 L=50 ops=f
obs=GFd N=12 B=2 idx=1 bmap=1 ip=4 D=2 L=50 ops=f,w ps=40
obs=GF N=12 B=3 k=8 D=1 L=60 ops=f,G nosc=1 spl=4
obs=GF N=16 B=2 d=20 D=2 L=60 ops=f,w
obs=GF N=30 B=5 D=1 L=110 ops=w d=24
""")
T["C05"] = E("""
obs=GF N=4 B=2 D=3 L=40 ops=f,w
obs=GF N=12 B=3 D=2 L=70 ops=f,w
obs=GF N=8 B=2 rlc=1 D=2 L=60 ops=f,w
obs=GF N=30 B=5 D=1 L=220 ops=w,f
""")

# --------------------------------------------------------------------------- C06-C08 variable data
Q["C06"] = E("""
obs=V var=1 lens=12 D=1 L=24 ops=f,v-1,v0,v1,v70,V1
obs=V var=1 lens=0,1,50 D=2 L=24 ops=f,v200,i0
obs=V var=1 lens=48 D=1 L=24 ops=f,v44,v47,v49,v120
obs=V var=1 lens=7 ps=40 d=2 D=2 L=14 ops=f,v-1,v28,v24,v90 vp=20
obs=V var=1 lens=3 ps=40 d=2 k=1 D=1 L=14 ops=f,v27,v28,v29,v30,v31,v32,v33,v34,v35,v36,v66,v67,v68,v69,v70 vp=20
obs=V var=1 lens=-1,12 k=8 d=9 ps=64 D=1 L=24 ops=f,v44,v45,v46,v47,v48,v49,v50,v51,v52 vp=20
obs=V var=1 idx=1 bmap=1 lens=12,-1 D=2 L=24 ops=f,v60
obs=V var=1 rlc=1 lens=12,-1 D=2 L=24 ops=f,v60 N=8 vp=20
obs=V var=1 lens=-2,9 D=2 L=20 ops=f,v-1,v30
obs=V var=1 lens=12 ps=512 k=8 d=100 D=1 L=24 ops=f,v500,v499,v501,v498,v1100 vp=16
obs= var=1 lens=33 D=6 L=8 ops=S0,S1,q1,q20,q100,f,V0,V1 vp=20
obs=V var=1 lens=4 D=2 L=26 ops=f,v52,v108 mm=1 ps=64 vp=20
obs=V var=1 lens=12,-1 D=2 L=20 ops=f,y,v44,v70 vp=20
""")
T["C06"] = E("""
obs=V var=1 lens=12 D=2 L=24 ops=f,v-1,v0,v1,v70,V1
obs=V var=1 lens=7 ps=40 d=2 D=3 L=14 ops=f,v-1,v28,v24,v90 vp=20
obs= var=1 lens=33 D=4 L=9 ops=S0,S1,q1,q20,q100,f,V0,V1 vp=20
""")
Q["C07"] = E("""
obs=V var=1 lens=12 D=1 L=40 ops=f,v70,v-1 vp=4
obs=V var=1 lens=30 D=1 L=36 ops=f,v100,v-1 vp=6 B=3 N=12
obs=V var=1 lens=48 D=2 L=20 ops=f,v49,v120 vp=4
obs=V var=1 lens=20 D=1 L=36 ops=f,v60,r vp=4 B=1 N=8
obs=V var=1 lens=7 ps=40 d=2 D=2 L=22 ops=f,v28,v60 vp=4
obs=V var=1 idx=1 bmap=1 lens=30 D=2 L=30 ops=f,v70 vp=4
obs=V var=1 rlc=1 lens=30 D=2 L=30 ops=f,v70 vp=4 N=8
obs=V var=1 lens=30,-1 D=2 L=40 ops=f,w,v70 vp=8 B=2 N=4
obs=V var=1 lens=30 k=8 D=2 L=30 ops=f,v70,G vp=4
obs=V var=1 lens=30 key0=0 gap=1 D=2 L=30 ops=f,v70 vp=4
obs= var=1 lens=30 D=3 L=10 pre=p,p,p,p,f ops=S0,S2,q7,V1,f,v70,w vp=4
obs=V var=1 lens=12,-1 D=2 L=26 ops=f,y,v70 vp=4
""")
T["C07"] = E("""
obs=V var=1 lens=12 D=2 L=44 ops=f,v70,v-1 vp=4
obs=V var=1 lens=30 D=2 L=36 ops=f,v100,v-1 vp=6 B=3 N=12
obs=V var=1 lens=48 D=3 L=20 ops=f,v49,v120 vp=4
obs= var=1 lens=30 D=4 L=12 pre=p,p,p,p,f ops=S0,S2,q7,V1,f,v70,w vp=4
""")
Q["C08"] = E("""
obs=GNV var=1 lens=12 D=1 L=28 ops=f,r,v70
obs=N var=1 lens=0,1,50,-1 D=3 L=20 ops=f,v200,i0
obs=N var=1 lens=48,-1 D=1 L=28 ops=f,v44,v47,v49,v120,V0,V2
obs=N var=1 lens=7 ps=40 d=2 D=2 L=20 ops=f,v-1,v28,v24,v90
obs=NV var=1 rlc=1 lens=12,-1 D=2 L=28 ops=f,v70 N=8
obs=NV var=1 idx=1 bmap=1 lens=12,-1 D=2 L=26 ops=f,v70
obs=NV var=1 lens=30 D=2 L=30 ops=f,v70,r vp=4
obs=N var=1 bin=1 k=8 lens=30,-1 D=2 L=30 ops=f,v70,G vp=4
obs= var=1 lens=30 D=6 L=10 pre=p,p,p,p,f,p ops=o10,o11,t,u12,T,V0,V2,f vp=8
""")
T["C08"] = E("""
obs=GNV var=1 lens=12 D=2 L=28 ops=f,r,v70
obs=N var=1 lens=0,1,50,-1 D=3 L=20 ops=f,v200,i0
obs= var=1 lens=30 D=4 L=12 pre=p,p,p,p,f,p ops=o10,o11,t,u12,T,V0,V2,f vp=8
""")

# --------------------------------------------------------------------------- C09 clean reopen
Q["C09"] = E("""
obs=GFSXL N=8 D=2 L=30 ops=f,r,d
obs=GFSX N=4 D=3 L=30 ops=f,r,d
obs=GFX N=4 B=1 D=4 L=24 ops=f,r
obs=GFX N=12 B=3 D=1 L=60 ops=f,r,w kind=1
obs=GFX N=12 B=3 D=1 L=60 ops=f,r,w kind=2
obs=GFX N=12 B=4 D=1 L=60 ops=f,r,w kind=3
obs=GFX N=12 B=3 k=8 D=1 L=50 ops=f,r,G spl=4
obs=GFX N=12 B=3 k=8 bin=1 D=1 L=50 ops=f,r,g1
obs=GFX N=8 rlc=1 D=2 L=40 ops=f,r,R
obs=GFX N=12 B=3 rlc=1 D=2 L=40 ops=f,r kind=2
obs=GFX N=6 B=1 rlc=1 D=2 L=40 ops=f,r kind=3
obs=GFVX N=8 var=1 lens=12,-1 D=1 L=34 ops=f,r,v70 vp=6
obs=VX var=1 lens=12 N=4 vp=20 ops=f,r D=2 L=34
obs=VN var=1 lens=4,-1 N=6 vp=20 ops=w,r D=2 L=34
obs=VN var=1 lens=12 N=8 rlc=1 vp=40 ops=f,r D=1 L=50
obs=FVX N=8 var=1 lens=30 D=2 L=34 ops=f,r kind=2 vp=4
obs=GFdX N=8 idx=1 bmap=1 D=1 L=34 ops=f,r,h0 ip=4
obs=FdX N=12 B=2 idx=1 bmap=1 D=1 L=60 def=w ops=p,r kind=2 ip=4 ps=40
obs=GFX N=8 mm=1 bmap=1 ps=128 D=2 L=40 ops=f,r k=8
obs=GFX N=4 k=1 d=1 ps=40 D=2 L=40 ops=f,r
obs=GFX N=6 B=2 k=4 d=4 ps=512 D=2 L=30 ops=f,r,k60
obs=GFX N=8 key0=0 gap=1 kind=3 D=2 L=40 ops=f,r
""")
T["C09"] = E("""
obs=GFSXL N=8 D=3 L=30 ops=f,r,d
obs=GFX N=12 B=3 D=2 L=60 ops=f,r,w kind=2
obs=GFX N=8 rlc=1 D=2 L=40 ops=f,r,R cap=600
obs=GFVX N=8 var=1 lens=12,-1 D=2 L=30 ops=f,r,v70 vp=6
obs=GFdX N=8 idx=1 bmap=1 D=2 L=34 ops=f,r,h0 ip=4
""")

# --------------------------------------------------------------------------- C10 crash without record-level consistency
Q["C10"] = E("""
obs=GFX crash=1 kind=0 N=12 B=3 L=24 P1=30 D=2 ops=f
obs=GFX crash=1 kind=1 N=12 B=3 L=24 P1=30 D=2 ops=f
obs=GFX crash=1 kind=2 N=12 B=3 L=24 P1=30 D=2 ops=f
obs=GFX crash=1 kind=3 N=12 B=3 L=24 P1=30 D=2 ops=f
obs=GFX crash=1 kind=2 N=4 B=2 L=24 P1=30 D=2 ops=f,w cinit=1
obs=GFX crash=1 kind=3 N=4 B=1 L=24 P1=30 D=1 ops=f cinit=1
obs=GFX crash=1 kind=1 N=2 B=1 L=24 P1=30 D=2 ops=f cinit=1
obs=GFX crash=1 kind=0 N=8 B=2 L=34 D=2 ops=f,w k=8 gap=1000 cinit=1
obs=GFX crash=1 kind=2 N=8 B=4 L=34 P1=20 Ps=4 D=2 ops=f,w bin=1
obs=GFX crash=2 kind=2 N=6 B=2 L=30 postL=8 D=2
obs=GFX crash=1 kind=2 N=16 B=2 d=20 L=60 D=1 postL=20
obs=GFX crash=1 kind=3 key0=0 gap=1 N=8 B=2 L=40 D=2 ops=f
""")
T["C10"] = E("""
obs=GFX crash=2 kind=0 N=8 B=2 L=34 postL=10 D=1 ops=f,w
obs=GFX crash=2 kind=1 N=8 B=2 L=34 postL=10 D=1 ops=f,w
obs=GFX crash=2 kind=2 N=8 B=2 L=34 postL=10 D=1 ops=f,w
obs=GFX crash=2 kind=3 N=12 B=3 L=44 postL=10 D=1 ops=f,w
obs=GFX crash=1 kind=2 N=8 B=2 L=34 D=2 ops=f,w postD=1
""")

# --------------------------------------------------------------------------- C11 crash with record-level consistency
Q["C11"] = E("""
obs=GFX rlc=1 crash=1 kind=0 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=1 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=2 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=3 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=2 N=8 B=2 L=24 P1=60 Ps=6 D=1 ops=f
obs=GFX rlc=1 crash=1 kind=0 N=8 B=2 L=24 P1=60 Ps=6 D=1 ops=f
obs=GFX rlc=1 crash=1 kind=2 N=6 B=1 L=24 P1=60 Ps=6 D=1 ops=f
obs=GFX rlc=1 crash=1 kind=0 N=4 B=1 L=24 P1=60 Ps=6 D=1 ops=f
obs=GFX rlc=1 crash=1 kind=3 N=8 B=2 k=8 key0=0 gap=1 L=50 D=1 cinit=1
obs=GFX rlc=1 crash=2 kind=2 N=8 B=2 L=24 postL=6 D=1
obs=FX rlc=1 crash=1 kind=2 N=16 B=4 L=60 D=1 postL=16
""")
T["C11"] = E("""
obs=GFX rlc=1 crash=1 kind=0 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=1 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=2 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=1 kind=3 N=12 B=3 L=24 P1=60 Ps=6 D=1 cinit=1
obs=GFX rlc=1 crash=2 kind=2 N=8 B=2 L=40 postL=10 D=0 cinit=1
obs=GFX rlc=1 crash=2 kind=0 N=8 B=2 L=40 postL=10 D=0 cinit=1
""")

# --------------------------------------------------------------------------- C12 variable data after crash
Q["C12"] = E("""
obs=NVX var=1 lens=12 D=1 crash=1 kind=0 ops=f,v70 L=26
obs=NVX var=1 lens=12 D=1 crash=1 kind=1 ops=f,v70 L=26
obs=NVX var=1 lens=12,-1 D=1 crash=1 kind=2 ops=f,v70 L=26
obs=NVX var=1 lens=30 vp=6 B=3 N=12 D=1 crash=1 kind=3 ops=f,v70 L=26
obs=VX var=1 lens=48 vp=4 D=1 crash=1 kind=2 ops=f,v120 L=26
obs=VX var=1 rlc=1 lens=12 D=1 crash=1 kind=2 L=30 cinit=1 N=8
obs=VX var=1 rlc=1 lens=30,-1 D=1 crash=1 kind=0 L=30 cinit=1 N=8 vp=4
obs=VX var=1 rlc=1 idx=1 lens=12 D=1 crash=1 kind=2 L=24 cinit=1
obs=VX var=1 lens=12 D=2 key0=0 gap=1 crash=1 kind=3 ops=f,r L=24
obs=VX var=1 lens=30 D=2 ops=f,r,v70 L=34 vp=4 kind=2 N=4
obs=VX var=1 lens=20 D=2 ops=f,r,v70 L=34 vp=4 kind=1 B=1
obs=VX var=1 rlc=1 lens=20 D=2 ops=f,r,R L=24 vp=4 kind=0 N=8
obs=VX var=1 lens=12,30 D=1 crash=1 kind=2 ops=f,y,v70 L=26 vp=4
obs=VX var=1 lens=12 N=4 vp=20 ops=f,r D=2 L=34
obs=VN var=1 lens=12 N=4 vp=40 ops=f,r D=1 L=34
obs=VN var=1 lens=4,-1 N=6 vp=20 ops=w,r D=2 L=34
obs=VN var=1 lens=12 N=4 vp=20 ops=f D=1 L=30 crash=1 kind=2
obs=VN var=1 lens=12 N=8 rlc=1 vp=40 ops=f,r D=1 L=50
obs=VN var=1 lens=12 N=8 rlc=1 vp=40 ops=f D=0 L=40 crash=1
obs=VX var=1 rlc=1 lens=12 D=1 crash=1 kind=0 ops=f,y L=26 N=8 vp=4
""")
T["C12"] = E("""
obs=GNVX var=1 lens=12 D=1 crash=2 kind=2 ops=f,v70 L=26 postL=6
obs=GNVX var=1 rlc=1 lens=12 D=1 crash=1 kind=2 ops=f,r,v70,R L=30 cinit=1
obs=GNVX var=1 rlc=1 lens=12 D=1 crash=1 kind=0 ops=f,r,v70,R L=30 cinit=1
obs=GNVX var=1 rlc=1 idx=1 lens=12 D=1 crash=1 kind=2 ops=f,r,v70,R L=30 cinit=1
obs=VX var=1 lens=30 D=2 ops=f,r,v70 L=30 vp=4 kind=2 N=4
""")

# --------------------------------------------------------------------------- C13 index after crash
Q["C13"] = E("""
obs=dX idx=1 bmap=1 D=1 ops=f,h0 L=30 ip=6 N=12 B=3 ps=40 crash=1 kind=2
obs=dX idx=1 bmap=1 D=1 ops=f,h0 L=30 ip=4 N=12 B=2 ps=40 crash=1 kind=0
obs=dX idx=1 bmap=1 D=1 ops=f,h0 L=30 ip=4 N=12 B=2 ps=40 crash=1 kind=1 bm=2
obs=dX idx=1 bmap=1 D=1 ops=h0 L=60 def=w ip=4 N=8 B=1 ps=40 crash=1 kind=2
obs=dX idx=1 bmap=1 D=6 L=60 def=w ip=4 N=8 B=2 ps=40 crash=1 kind=0 cinit=1
obs=dX idx=1 bmap=1 D=6 L=60 def=w ip=4 N=8 B=2 ps=40 crash=1 kind=3 bm=8
obs=FdX idx=1 bmap=1 D=1 ops=f,w,r L=60 ip=4 N=16 B=2 ps=40 kind=0
obs=FdX idx=1 bmap=1 D=1 ops=f,w,r L=60 ip=6 N=18 B=3 ps=40 kind=1 bm=2 ownbm=0 d=4
obs=dX idx=1 bmap=1 D=1 ops=p,r,h5 def=w L=60 ip=4 N=8 B=1 ps=40 kind=2
obs=dX idx=1 bmap=1 rlc=1 D=1 L=30 ip=4 N=12 B=2 ps=40 crash=1 kind=3 cinit=1
obs=dX idx=1 bmap=1 var=1 lens=12 D=1 L=40 ip=4 N=8 B=2 crash=1 kind=2
""")
T["C13"] = E("""
obs=GFdX idx=1 bmap=1 D=1 ops=f,h0,h5,r,R L=30 ip=6 N=12 B=3 ps=40 crash=1 kind=2 cinit=1
obs=GFdX idx=1 bmap=1 D=1 ops=f,h0,h5,r,R L=30 ip=4 N=12 B=2 ps=40 crash=1 kind=0 cinit=1
obs=FdX idx=1 bmap=1 D=2 ops=f,w,r L=40 ip=4 N=8 B=1 ps=40 crash=1 kind=2
obs=FdX idx=1 bmap=1 rlc=1 D=1 ops=f,h0,h5,r,R L=30 ip=4 N=12 B=2 ps=40 crash=1 kind=3 cinit=1
""")

# --------------------------------------------------------------------------- C14 search structure independence
def searchVariants(base, more=()):
    v = ["spl=4 err=0", "spl=4 err=1", "spl=5 err=1 nosc=1", "spl=4 err=30", "spl=30 err=0 nosc=1", "spl=8 err=4", "bin=1"] + list(more)
    return "\n".join(base + " " + x for x in v)
Q["C14"] = E(searchVariants("obs=GF k=4 N=8 D=1 L=44 ops=f,g100000,g1,r gap=7")) + E(searchVariants("obs=GF k=8 N=12 B=3 D=1 L=50 ops=G,g5000000000,w gap=100")) + \
    E(searchVariants("obs=GFi k=2 N=6 B=1 D=1 L=30 ops=f,g300 gap=3")) + E("""
obs=GF k=4 N=8 D=2 L=30 ops=g100000,g1,G spl=4 gap=7
obs=GF k=4 N=8 rlc=1 D=2 L=40 ops=f,g9000 spl=4 err=0
obs=GF k=4 N=8 rlc=1 bin=1 D=2 L=40 ops=f,g9000
obs=GF k=4 d=12 N=12 ps=512 D=2 L=40 ops=k40,g99 spl=4
obs=GF k=4 d=12 N=12 ps=512 D=2 L=40 ops=k40,g99 bin=1
""")
T["C14"] = E(searchVariants("obs=GF k=4 N=8 D=2 L=40 ops=f,g100000,g1,G gap=7")) + E(searchVariants("obs=GF k=8 N=12 B=3 D=2 L=40 ops=G,g5000000000,g1 gap=100"))

# --------------------------------------------------------------------------- C22 device contract, C28 statistics
Q["C22"] = E("""
obs=X N=4 B=2 D=5 L=30 ops=f,r
obs=X N=12 B=3 D=3 L=60 ops=f,r,w kind=2
obs=X N=4 B=1 D=4 L=30 ops=f,r,w kind=1
obs=X rlc=1 N=8 B=2 D=3 L=40 ops=f,r
obs=X rlc=1 N=12 B=3 D=4 L=44 ops=f,w kind=2
obs=X rlc=1 N=12 B=1 D=3 L=40 ops=f,r,R kind=1
obs=X rlc=1 N=16 B=4 D=1 L=60 ops=f,r,R,w kind=3
obs=X idx=1 bmap=1 N=12 B=2 ip=4 ps=40 D=2 L=60 ops=f,r,w,p def=w
obs=X idx=1 bmap=1 N=12 B=3 ip=6 ps=40 D=3 L=40 ops=f,r,w
obs=X var=1 lens=30,-1 D=3 L=34 ops=f,r,v70 vp=4
obs=X var=1 lens=30 B=3 N=12 D=2 L=50 ops=f,r,v150,w vp=6
obs=X var=1 idx=1 rlc=1 lens=30 D=2 L=40 ops=f,r,R,v90 vp=4
obs=X crash=1 kind=2 N=8 B=2 L=40 D=3 ops=f,w cinit=1
obs=X crash=1 kind=0 rlc=1 N=8 B=2 L=40 D=2 cinit=1
obs=X crash=1 kind=2 var=1 lens=30 vp=4 L=30 D=3 ops=f cinit=1
obs=X crash=1 kind=1 idx=1 bmap=1 ip=4 N=8 B=2 ps=40 def=w L=40 D=6 cinit=1
obs=X var=1 lens=30,-1 D=3 L=34 ops=f,r,v70,y vp=4
""")
T["C22"] = E("""
obs=X N=12 B=3 D=3 L=60 ops=f,r,w kind=2
obs=X rlc=1 N=8 B=2 D=3 L=40 ops=f,r cap=500
obs=X crash=2 kind=2 rlc=1 N=8 B=2 L=40 D=0 cinit=1 postL=10
obs=X crash=2 kind=2 var=1 lens=30 vp=4 L=30 D=1 ops=f cinit=1 postL=8
""")
Q["C28"] = E("""
obs=GFS N=4 D=4 L=26 ops=f,d,l0,i0
obs=GFS N=8 D=2 L=40 ops=f,r,w,i2,x,s
obs=GFS N=8 bin=1 D=2 L=40 ops=f,r,w,i2,x
obs=GFS rlc=1 N=8 D=2 L=40 ops=f,r,w,l0
obs=GFS rlc=1 N=12 B=3 D=2 L=40 ops=f,R,l0
obs=FdS idx=1 bmap=1 ip=4 N=12 ps=40 D=1 L=50 ops=f,w,r,h0
obs=FdS idx=1 bmap=1 ip=4 N=8 B=1 ps=40 D=2 L=40 def=w ops=p,i3
obs=VNS var=1 lens=12,-1 D=1 L=30 ops=f,r,v70,V0
obs=VS var=1 lens=30 D=2 L=30 ops=f,r,v70 vp=4 k=8
obs=VS var=1 rlc=1 lens=30 D=2 L=30 ops=f,r vp=4
obs=VdS var=1 idx=1 bmap=1 lens=30 D=2 L=24 ops=f,h0 vp=4
obs=GFS k=8 D=1 L=40 ops=f,G,g5000000000 spl=4
obs=GFS N=8 D=2 L=30 ops=f,Z,E,r
obs=VS var=1 lens=12,-1 D=2 L=20 ops=f,y,Z,E
obs=FdS idx=1 bmap=1 ip=4 N=8 ps=40 D=1 L=30 ops=f,Z,E
""")
Q["C28"] += E("""
fault=1 fsticky=1 fmask=39 obs=GFS N=8 L=30 ops=f,l0 D=1
fault=1 fsticky=1 fmask=39 obs=FdS idx=1 bmap=1 ip=4 N=8 ps=40 D=1 L=30 ops=f,w,i3
fault=1 fsticky=1 fmask=39 obs=FdS idx=1 bmap=1 ip=4 N=8 ps=40 D=1 L=24 def=w ops=p,i3,f,i5
fault=1 fsticky=1 fmask=39 obs=VNS var=1 lens=12,-1 D=1 L=20 ops=f,V0,V3 vp=4
fault=1 fsticky=1 fmask=39 obs=VS var=1 rlc=1 lens=30 D=1 L=20 ops=f vp=4
crash=1 obs=FS idx=1 bmap=1 N=8 D=0 L=24 ops=f
crash=1 obs=VS var=1 rlc=1 lens=30 N=8 D=0 L=24 ops=f vp=4
""")
T["C28"] = E("""
obs=GFS N=4 D=3 L=26 ops=f,d,l0,i0
obs=FdS idx=1 bmap=1 ip=4 N=12 ps=40 D=2 L=50 ops=f,w,r,h0
obs=VNS var=1 lens=12,-1 D=2 L=30 ops=f,r,v70,V0
""")

# --------------------------------------------------------------------------- C24 open cursors
Q["C24"] = E("""
obs= D=6 L=14 ops=o0,o2,t,c,f,w N=4 B=2
obs= D=6 L=12 ops=o0,o3,t,f,w N=8 B=2 idx=1 bmap=1 ip=4
obs= D=5 L=24 ops=o0,t,u3,T,f N=4 B=2 ps=40
obs= D=6 L=14 pre=k12,f ops=o0,o1,t,u0,T,f,w,l0 N=8 B=2
obs= D=5 L=14 pre=k24 ops=o0,o4,t,u2,T,w,l1 N=8 B=2
obs= D=5 L=14 pre=k24 ops=o0,o3,t,w,h0 N=8 B=2 idx=1 bmap=1 ip=4
obs= D=6 L=12 pre=k20 ops=o0,t,u1,T,f,w N=8 B=2 rlc=1
obs= var=1 lens=30 D=6 L=10 pre=p,p,p,p,f,p ops=o10,t,u0,T,V0,f,w vp=8
obs= var=1 lens=33 D=6 L=8 ops=S0,q1,q20,f,V1,w vp=8
obs= var=1 lens=33 D=3 L=12 pre=k12 ops=S0,S2,q9,q40,w,o10,t,v90 vp=4
obs= D=5 L=16 pre=k30 ops=o0,o2,t,w,f N=8 B=2 bin=1 k=8
obs= D=6 L=16 pre=k12 ops=o0,t,w,u0,T N=4 B=1 spl=4 gap=50
obs= D=6 L=12 pre=h0,f,h2,f,h4,f,h0,f ops=o5,u6,t,T,w,c N=8 B=2 idx=1 bmap=1 ip=4
obs= D=5 L=14 pre=h0,h0,f,h3,h3,f,h0,f,h5,f ops=o5,u6,u3,t,T,h5,f N=16 B=2 idx=1 bmap=1 ip=4 bm=2
obs= D=5 L=12 pre=h0,f,h2,f,h4,f ops=o5,u6,u4,t,T,w N=8 B=2 bmap=1 mm=1
""")
T["C24"] = E("""
obs= D=5 L=14 ops=o0,o2,t,c,f,w N=4 B=2
obs= D=5 L=14 ops=o0,o3,t,f,w N=8 B=2 idx=1 bmap=1 ip=4
obs= D=4 L=16 pre=k24 ops=o0,o4,t,u2,T,w,l1 N=8 B=2
obs= D=4 L=12 pre=k20 ops=o0,t,u1,T,f,w N=8 B=2 rlc=1
""")

# --------------------------------------------------------------------------- C23 memory
Q["C23"] = E("""
obs=GFXL N=4 D=4 L=24 ops=f,r,d
obs=GFiXL k=8 d=100 ps=512 N=6 B=2 D=2 L=24 ops=f,r,G
obs=GFXL k=1 d=1 ps=40 N=4 D=1 L=60 ops=f,r,d
obs=GFXL rlc=1 N=8 D=2 L=34 ops=f,r,R,d
obs=FdXL idx=1 bmap=1 ip=4 N=12 ps=40 D=1 L=50 ops=f,r,w,h0 bm=8
obs=NVXL var=1 lens=12,-1,0 D=2 L=26 ops=f,r,v70,d1
obs=NVXL var=1 lens=50 idx=1 rlc=1 D=2 L=24 ops=f,r,v170 vp=4
obs=GFXL bin=1 N=8 D=2 L=34 ops=f,r,d,G k=8
obs=GFXL spl=4 err=0 N=8 D=2 L=34 ops=f,r,g70000
obs=XL D=6 L=12 ops=o0,o3,t,c,f,w N=8 B=2 idx=1 bmap=1 ip=4
obs=XL var=1 lens=33 D=3 L=10 ops=S0,q1,q40,Q,f,o10,t,c vp=4
obs=GFXL crash=1 N=8 D=2 L=34 ops=f kind=1 cinit=1
obs=GNVXL crash=1 var=1 rlc=1 lens=30 N=8 D=0 L=30 kind=0 cinit=1 vp=4
fault=1 fsticky=1 fmask=39 obs=L N=8 L=24 ops=f,l0,i0,i2,o2,t D=2
fault=1 fsticky=1 fmask=39 obs=L idx=1 bmap=1 ip=4 N=8 L=14 def=w ops=i3,o3,t,l0 D=2
fault=1 fsticky=1 fmask=39 obs=NVL var=1 lens=30,-1 N=8 L=20 ops=f,V0,N,S0,q9 D=1 vp=4
fault=1 fsticky=1 fmask=39 obs=L var=1 lens=60,10 N=8 L=20 ops=f,V0,V2,N,o10,t D=2 vp=8
fault=1 fsticky=1 fmask=39 obs=VL var=1 rlc=1 lens=30 N=8 L=16 ops=f,V0,N,r D=1 vp=4
""")
Q["C23"] += U("opsx", """
what=pipe schema=0 depth=2 n=4
what=pipe schema=4 depth=1 n=3
what=aggpipe n=3
what=agg n=3 k=4 vals=2 full=1
what=join n=4 k=4
what=long
what=wide cols=4
what=nest kind=0 n=5 cfg=63
what=nest kind=1 m=3
what=two n=2
what=pipe n=5 depth=1 dbounds=1 cfg=63
""") + U("splinex", """
k=4 gaps=1,2,50 n=6 err=0,1,2 size=4,5 leak=1
k=4 gaps=1,30 erase=1 n=7 err=0,1 size=6 leak=1
""") + U("filex", """
what=desk n=4
what=sd n=4
what=df n=4
""") + P("""
mode=digest other=fill obs=GFiS N=8 D=2 L=20 ops=f,r,d
mode=digest other=fill obs=GFS rlc=1 D=1 L=34 ops=f,r,R N=8
mode=digest other=fill obs=NVS var=1 lens=12,-1,0 D=1 L=30 ops=f,r,v70,V0 vp=4
mode=digest other=fill obs=FdS idx=1 bmap=1 D=1 L=30 ops=f,r,h0,w ip=4 N=12 ps=40
mode=digest other=fill obs=DS mm=1 bmap=1 k=8 d=4 D=1 L=24 ops=f,h0 ps=128
mode=digest other=fill obs=DS bmap=1 idx=1 bm=2 ownbm=0 D=1 L=24 ops=f,h3 ps=128 vbase=290 vstep=30 nb=10
mode=digest other=fill D=4 L=10 pre=k12,f ops=o0,o1,t,u0,T,w N=8 B=2
mode=digest other=fill obs=GFS crash=1 kind=2 D=1 L=40 ops=f N=8 cinit=1
mode=digest other=fill obs=NVS crash=1 kind=1 var=1 rlc=1 lens=30 D=0 L=24 vp=4
mode=digest other=fill obs=VNS fault=1 fmask=39 var=1 lens=30 rlc=1 D=0 L=24 vp=4
mode=same other=fill prog=opsx what=sel n=2 k=4
mode=same other=fill prog=opsx what=pipe schema=0 depth=2 n=4
mode=same other=fill prog=opsx what=agg n=3 k=4 vals=3 full=1
mode=same other=fill prog=opsx what=aggpipe n=3
mode=same other=fill prog=opsx what=join n=4 k=4
mode=same other=fill prog=opsx what=nest n=4
mode=same other=fill prog=opsx what=two n=2
mode=same other=fill prog=opsx what=pipe n=5 depth=1 dbounds=1 cfg=63
mode=same other=fill prog=splinex k=4 gaps=1,2,50 n=7 err=0,1,2 size=4,5
""")
T["C23"] = E("""
obs=GFXL N=4 D=3 L=24 ops=f,r,d
obs=NVXL var=1 lens=12,-1,0 D=2 L=26 ops=f,r,v70,d1
obs=XL D=4 L=14 ops=o0,o3,t,c,f,w N=8 B=2 idx=1 bmap=1 ip=4
""")


# --------------------------------------------------------------------------- C21 failing devices
F1 = "fault=1 fsticky=1 fmask=39 "
Q["C21"] = E("\n".join(F1 + l for l in """
obs=GF N=8 L=40 ops=f,l0,i0 D=2
obs=GFX N=6 B=3 L=40 ops=f,l0,i0,X D=2 kind=2
obs=GFX bin=1 N=6 B=2 L=40 ops=f,l0,i1,x D=2 kind=1
obs=GF spl=4 err=0 N=8 L=34 ops=f,g500,l3,i2 D=2
obs=Fd N=8 L=34 ops=f,l0,i3 D=2 idx=1 bmap=1 ip=4
obs=FdX N=12 B=2 ps=40 L=40 ops=f,w,i3 D=1 idx=1 bmap=1 ip=4 kind=3
obs=GFX rlc=1 N=8 L=40 ops=f,l0,i0 D=2
obs=GFX rlc=1 N=12 B=3 L=50 ops=f,l3 D=2 kind=2
obs=GFX rlc=1 N=4 B=1 L=40 ops=f D=2
obs=GNV var=1 lens=30 N=8 L=24 ops=f,l0,V0,N,V3 D=1 vp=4
obs=GNV var=1 lens=12,-1,0 N=8 L=24 ops=f,V3,v70,N D=1 vp=8
obs=NV var=1 lens=60,150 N=8 L=24 ops=f,V3,V2 D=1 vp=12 B=4
obs=GNVX var=1 rlc=1 lens=30 N=8 L=24 ops=f,V0,N D=1 vp=4
obs=NVdX var=1 idx=1 bmap=1 lens=30 N=8 L=24 ops=f,V3,i3 D=1 vp=4 kind=1
obs=GF crash=1 N=6 L=24 ops=f D=1
obs=GF crash=1 rlc=1 N=8 L=34 ops=f D=0
obs=NV crash=1 var=1 lens=30 N=8 L=20 ops=f D=0 vp=4
obs= D=5 L=8 pre=k12,f ops=o0,o1,t,f,l0 N=8 B=2
obs= D=4 L=8 pre=k24 ops=o3,t,w N=8 B=2 idx=1 bmap=1 ip=4
obs= var=1 lens=33 D=5 L=8 pre=k12,f ops=S0,q1,q40,o10,t vp=8
obs=GFX rlc=1 N=8 L=40 ops=r D=2 kind=2
obs=GNVX var=1 rlc=1 lens=30 N=8 L=24 ops=r D=1 vp=4
obs=GFXY N=8 L=40 ops=r,f,l0 D=1 kind=2 idx=1 bmap=1
obs=GFXY N=8 L=30 ops=f,l0 D=1 kind=2 idx=1 bmap=1 fault=2 postD=1 postL=16
obs=GNVY N=8 L=20 ops=f,V0 D=0 kind=2 var=1 lens=25 vp=4 fault=2 postL=16
obs=GNVY N=8 L=24 ops=f,y D=1 kind=2 var=1 lens=25 vp=4
obs=GFd N=8 L=20 def=w ops=i3,l0,p D=1 idx=1 bmap=1 ip=4 fcut=16
obs=GF N=8 L=30 ops=f,l0,i0,i2,x D=1 fcut=10
obs=GF N=8 L=30 ops=f,l4,l3,i0,x D=1 fcut=58 gap=100
obs=GF N=8 L=30 ops=f,l0,l2,l4,g900 D=2 fcut=10 err=0
obs=GF N=8 L=30 ops=f,l0,l2,l4,i0 D=2 fcut=26 bin=1
obs=GF N=8 L=30 ops=f,l0,l2,l4,i0 D=2 fcut=64
obs=GF N=8 L=40 ops=f,l0,l2,l4,g9000 D=2 fcut=10 spl=4
obs=GF rlc=1 N=8 L=24 ops=f,l0,l2,i0 D=1 fcut=18
obs=GF rlc=1 N=8 L=34 ops=r D=2 fcut=18
obs=GNV var=1 lens=30 N=8 L=20 ops=f,l0,V0,N D=1 vp=4 fcut=14
obs=GNV var=1 lens=30 N=8 L=20 ops=f,l0,V0,N D=1 vp=4 fcut=18
obs=GNV var=1 lens=60,150 N=8 L=20 ops=f,V3,N D=1 vp=12 B=4 fcut=64
obs=NV var=1 rlc=1 lens=30 N=8 L=20 ops=f,V0,N,r D=1 vp=4 fcut=12
""".strip().splitlines()))
T["C21"] = E("\n".join(F1 + l for l in """
obs=GF N=8 L=40 ops=f,l0,i0 D=2 postD=1
obs=GFX N=6 B=3 L=40 ops=f,l0,i0,X D=3 kind=2
obs=GFX rlc=1 N=8 L=40 ops=f,l0,i0 D=2 postD=1
obs=GFX rlc=1 N=12 B=3 L=50 ops=f,l3,r D=2 kind=2 fault=2
obs=GNV var=1 lens=30 N=8 L=24 ops=f,l0,V0,N,V3 D=2 vp=4
obs=GNV var=1 lens=12,-1,0 N=8 L=24 ops=f,V3,v70,N D=2 vp=8
obs=GNVX var=1 rlc=1 lens=30 N=8 L=24 ops=f,V0,N D=2 vp=4
obs=NVdX var=1 idx=1 bmap=1 lens=30 N=8 L=24 ops=f,V3,i3 D=2 vp=4 kind=1 fault=2
obs=GF crash=1 rlc=1 N=8 L=34 ops=f D=1 cinit=1
""".strip().splitlines()))

# --------------------------------------------------------------------------- C15 learned index
Q["C15"] = U("splinex", """
k=4 gaps=1,2,50 n=8 err=0,1,2,3 size=4,5,8
k=4 gaps=1,2,3,7,200 n=6 err=0,1,2 size=4,5 p0=1000
k=8 gaps=1,7,1000,5000000000,2305843009213693952 n=6 err=0,1,2 size=4,6
k=8 gaps=1,1000000,4611686018427387904 n=7 err=0,1,100 size=4,5 key0=0
k=4 gaps=1,9 n=13 err=0,1,4 size=4,30
k=4 gaps=1,1000,100000 def=10 n=30 D=2 err=0,1,3 size=4,8
k=4 gaps=1,90 def=10 n=24 D=3 err=0,1 size=5
k=1 gaps=1,2,30,100 n=8 err=0,1,2 size=4,5 key0=0
k=2 gaps=1,3,2000,30000 n=7 err=0,1,5 size=4,6 key0=0
k=3 gaps=1,500,2000000 n=8 err=0,1 size=4
k=5 gaps=1,500,137438953472 n=8 err=0,1 size=4
k=7 gaps=1,500,9007199254740992 n=8 err=0,1 size=4
k=4 gaps=1,2000000000 def=1 n=30 D=1 err=0,1,1000000,4294967295 size=4,5 key0=4294967000
k=4 gaps=1,30 erase=1 n=9 err=0,1 size=6
k=4 gaps=1,30,700 erase=2 n=7 err=0 size=5,7
k=8 gaps=1,30 def=1000 D=3 erase=1 n=20 err=0,1 size=5
""") + E("""
obs=GF k=4 N=8 D=2 L=44 ops=g100000,g1,r gap=7 spl=4 err=0
obs=GF k=8 N=12 B=3 D=1 L=70 ops=G,g5000000000,w gap=100 spl=4
obs=GF k=4 N=8 D=2 L=44 ops=g100000,g1,r gap=7 spl=5 err=1 nosc=1
obs=GF k=4 N=30 B=5 d=24 D=1 L=90 ops=g5000,w gap=7 spl=6 err=0
""")
T["C15"] = U("splinex", """
k=4 gaps=1,2,50 n=10 err=0,1,2,3 size=4,5,8
k=4 gaps=1,2,3,7,200,5000 n=7 err=0,1,2,3 size=4,5,6
k=8 gaps=1,7,1000,5000000000,2305843009213693952 n=8 err=0,1,2 size=4,6
k=4 gaps=1,9 n=17 err=0,1,4 size=4,6,30
k=4 gaps=1,1000,100000 def=10 n=60 D=2 err=0,1,3 size=4,8
k=4 gaps=1,90 def=10 n=40 D=3 err=0,1 size=5
k=2 gaps=1,3,2000,30000 n=9 err=0,1,5 size=4,6 key0=0
k=4 gaps=1,30 erase=1 n=11 err=0,1 size=6
k=8 gaps=1,30 def=1000 D=4 erase=2 n=22 err=0 size=5
""")

# --------------------------------------------------------------------------- C16 bitmap helpers and comparators
Q["C16"] = U("utilx", """
what=int8 full=1
what=int16
what=int64
what=cmp32
what=cmp64
""") + E("""
obs=D bmap=1 idx=1 k=4 d=4 bm=1 ownbm=0 D=2 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=-5 vstep=10 nb=14
obs=D bmap=1 idx=1 k=4 d=4 bm=2 ownbm=0 D=1 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=290 vstep=30 nb=18
obs=D bmap=1 idx=1 k=4 d=4 bm=8 ownbm=0 D=1 L=24 ops=f,h3 N=6 B=1 ps=128 vbase=300 vstep=20 nb=34
""")
T["C16"] = U("utilx", """
what=int8 full=1 wide=300
what=int16 wide=400
what=int64 wide=400
""")
NOTES["C16"] = _COMP + " The helpers are transition functions on bitmaps: every 8- and 16-bit bitmap (64 bits: up to three buckets set or up to two clear) x every value class is stepped; every (low, high) range incl. half-open x every value inside is compared; comparators on all pairs of a domain around all powers of two."
TECH["C16"] = "explicit-state enumeration of all bitmaps x values (transitions) and all ranges x values of the implementation"

# --------------------------------------------------------------------------- C17-C19 query operators
Q["C17"] = U("opsx", """
what=sel n=2 k=4
what=sel n=1 k=8 vals=12
what=sel n=2 k=1 vals=5
what=sel n=3 k=4 vals=4
what=pipe schema=0 depth=2 n=5
what=pipe schema=1 depth=3 n=4 k=8
what=pipe schema=2 depth=2 n=5 k=2
what=pipe schema=3 depth=2 n=4
what=pipe schema=4 depth=2 n=5 k=1
what=pipe schema=0 depth=1 n=16 ps=64
what=pipe schema=2 depth=1 n=12 ps=64
""")
Q["C17"] += U("opsx", """
what=pipe schema=0 depth=2 n=5 keyhi=1
what=pipe schema=1 depth=2 n=4 k=8 keyhi=1
what=pipe schema=0 depth=2 n=5 k=2 keyhi=1
what=sel n=3 k=4 vals=7
what=sel n=4 k=4 vals=4
what=pipe schema=0 depth=3 n=4
what=pipe schema=0 depth=2 n=16 ps=64
""")
T["C17"] = U("opsx", """
what=sel n=4 k=4 vals=9
what=sel n=5 k=4 vals=5
what=sel n=3 k=8 vals=14
what=pipe schema=0 depth=3 n=8
what=pipe schema=3 depth=3 n=4
what=pipe schema=2 depth=3 n=5 k=8
what=pipe schema=1 depth=4 n=3 k=2
what=pipe schema=0 depth=3 n=16 ps=64
""")
Q["C18"] = U("opsx", """
what=agg n=3 k=4 full=1
what=agg n=4 k=8 vals=5
what=agg n=6 k=4 vals=2
what=agg n=5 k=4 vals=4
what=agg n=8 k=4 vals=2
what=agg n=2 k=2 vals=12 full=1
what=aggpipe n=4
what=aggpipe n=6
what=long
what=long len=65535,65536,65537
""")
T["C18"] = U("opsx", """
what=agg n=4 k=4 vals=8 full=1
what=agg n=5 k=4 vals=5
what=agg n=8 k=4 vals=2
what=agg n=7 k=8 vals=3
what=aggpipe n=8
what=long len=1,2,100,126,127,128,129,130,200,254,255,256,257,258,300,511,512,513
""")
Q["C19"] = U("opsx", """
what=join n=5 k=4
what=join n=5 k=8 wide=1
what=join n=5 k=1
what=join n=6 k=2
what=join n=8 k=4 self=1
what=join n=6 k=4 ps=64
what=join n=7 k=4 filt=0
what=join n=7 k=8
what=join n=8 k=2 filt=0
""")
T["C19"] = U("opsx", """
what=join n=7 k=4
what=join n=7 k=8 wide=1
what=join n=8 k=4 filt=0
what=join n=8 k=2 filt=0
what=join n=8 k=1
what=join n=8 k=8 ps=64
""")
for _p, _w in (("C17", "PS"), ("C18", "A"), ("C19", "J")):
    Q[_p] += U("opsx", "what=wide cols=4 parts=" + _w)
    T[_p] += U("opsx", "what=wide cols=6 parts=%s\nwhat=wide cols=5 parts=%s sizes=1,2,63,64,100,127\nwhat=wide cols=4 parts=%s k=8 sizes=1,2,3,8,100,126,127" % (_w, _w, _w))
for _p in ("C17", "C18", "C19"):
    TECH[_p] = "explicit-state enumeration on the implementation of all tables over a value alphabet x all pipelines up to a depth, step by step"
    NOTES[_p] = _COMP + " Every table of the given size over a value alphabet (extremes of each column width and signedness) is stored in a real database and every query of the given shape is run on it to two calls past its end, with heap accounting."


# --------------------------------------------------------------------------- C20 two databases side by side
Q["C20"] = E("""
obs=GF two=1 D=4 L=16 def=E:p ops=A:f,B:f,A:r,B:r N=4
obs=GFL two=1 D=2 L=24 def=E:p ops=A:f,B:f,A:r,B:r,A:K,B:O,A:O,B:K N=8 b.N=4 b.B=1 b.k=8
obs=GF two=1 D=2 L=30 def=E:p ops=A:f,B:f,A:R,B:r,A:d N=8 rlc=1 b.rlc=0 b.N=4 b.d=12 b.ps=128
obs=GF two=1 D=2 L=30 def=E:p ops=A:f,B:f,A:R,B:R,B:d N=8 rlc=1 b.N=12 b.B=3
obs=GFd two=1 D=2 L=24 def=E:p ops=A:f,B:f,B:i3,A:i3 N=8 idx=1 bmap=1 b.bm=2 b.ownbm=1 ip=4 b.N=6 b.B=1
obs=GFdL two=1 D=2 L=30 def=E:p ops=A:f,B:f,A:r,B:r,A:h0 N=8 idx=1 bmap=1 b.idx=0 b.bmap=0 b.mm=1 b.ps=128
obs=GNV two=1 D=2 L=20 def=E:p ops=A:f,B:f,A:v70,B:v-1 var=1 lens=12,-1 b.lens=30 b.vp=4
obs=GV two=1 D=2 L=24 def=E:p ops=A:f,B:f,A:r,B:r,A:K,A:O var=1 lens=30 vp=4 b.lens=9,0 b.k=8
obs=GV two=1 D=3 L=16 def=E:p ops=A:f,B:f,A:K,B:r,A:O var=1 lens=12,-1 b.var=0
obs= two=1 D=8 L=12 def=E:p ops=A:o0,B:o0,A:t,B:t,A:f,B:f N=4 b.N=4 b.B=1
obs= two=1 D=6 L=10 def=E:p pre=A:k12,B:k12,A:f ops=A:o1,B:o2,A:t,B:t,A:l0,B:l1,A:c,A:u0,A:T N=8
obs= two=1 D=6 L=10 def=E:p pre=A:k12,B:k12 ops=A:o3,B:o3,A:t,B:t,A:w,B:r N=8 idx=1 bmap=1 ip=4 b.bm=2
obs= two=1 D=6 L=7 def=E:p pre=A:k9,B:k9 ops=A:S0,B:S0,A:q7,B:q20,A:V1,B:V0,A:o10,A:t,B:o10,B:t var=1 lens=33 vp=8 b.lens=20,50
obs= two=1 D=5 L=8 def=E:p pre=A:k12,B:k9 ops=A:S0,A:q7,B:o1,B:t,B:l0,B:f,B:K,B:O var=1 lens=33 vp=8 b.var=0 b.rlc=1
obs=GF two=1 D=2 L=30 def=E:p ops=A:g1,B:g100000,B:f,A:f k=4 spl=4 b.spl=5 b.err=4 b.nosc=1 gap=7
obs=GF two=1 D=2 L=30 def=E:p ops=A:G,B:g9,B:f k=8 b.k=2 b.bin=1 b.N=4
obs=GFL two=1 fault=1 fsticky=1 fmask=39 D=1 L=24 def=E:p ops=A:f,B:l0,A:r N=8 b.rlc=1
obs=GV two=1 fault=1 fmask=39 D=0 L=20 def=E:p N=8 var=1 lens=30 vp=4 b.idx=1 b.bmap=1
""")
T["C20"] = E("""
obs=GF two=1 D=5 L=18 def=E:p ops=A:f,B:f,A:r,B:r N=4
obs=GFL two=1 D=3 L=24 def=E:p ops=A:f,B:f,A:r,B:r,A:K,B:O,A:O,B:K N=8 b.N=4 b.B=1 b.k=8
obs=GF two=1 D=3 L=40 def=E:p ops=A:f,B:f,A:R,B:R,B:d N=8 rlc=1 b.N=12 b.B=3
obs=GFdL two=1 D=3 L=24 def=E:p ops=A:f,B:f,A:r,B:r,A:h0 N=8 idx=1 bmap=1 b.idx=0 b.bmap=0 b.mm=1 b.ps=128
obs=GV two=1 D=3 L=24 def=E:p ops=A:f,B:f,A:r,B:r,A:K,A:O var=1 lens=30 vp=4 b.lens=9,0 b.k=8
obs= two=1 D=9 L=14 def=E:p ops=A:o0,B:o0,A:t,B:t,A:f,B:f N=4 b.N=4 b.B=1
obs= two=1 D=8 L=10 def=E:p pre=A:k12,B:k12,A:f ops=A:o1,B:o2,A:t,B:t,A:l0,B:l1,A:c,A:u0,A:T N=8
obs= two=1 D=8 L=8 def=E:p pre=A:k9,B:k9 ops=A:S0,B:S0,A:q7,B:q20,A:V1,B:V0,A:o10,A:t,B:o10,B:t var=1 lens=33 vp=8 b.lens=20,50
obs=GFL two=1 fault=1 fsticky=1 fmask=39 D=2 L=24 def=E:p ops=A:f,B:l0,A:r N=8 b.rlc=1
""")
# both have wrapped and are reopened in either order, with different erase blocks and areas: nothing of one may be used for the other
Q["C20"] += E("""
obs=GF two=1 D=2 L=40 def=E:p pre=A:k40,B:k41 ops=A:r,B:r ps=40 N=6 B=3 b.N=4 b.B=1
obs=GF two=1 D=2 L=40 def=E:p pre=A:k60,B:k41 ops=A:r,B:r ps=40 N=12 B=3 rlc=1 b.N=8 b.B=2 b.rlc=1
obs=Fd two=1 D=2 L=40 def=E:p pre=A:k60,B:k61 ops=A:r,B:r ps=40 N=6 B=1 idx=1 bmap=1 ip=6 b.N=12 b.B=3 b.ip=6
obs=NV two=1 D=2 L=40 def=E:p pre=A:k60,B:k61 ops=A:r,B:r var=1 lens=30 vp=6 N=6 B=3 b.N=8 b.B=2 b.vp=8
obs=NV two=1 D=2 L=14 def=E:p pre=A:k60,B:k61 ops=A:r,B:r,A:f,B:f var=1 lens=30 vp=6 N=6 B=3 ps=64 b.ps=128 b.k=8 b.vp=8 b.N=8 b.B=2 b.rlc=1
obs=D two=1 D=2 L=14 def=E:p pre=A:k60,B:k61 ops=A:r,B:r,A:h0,B:h3 mm=1 bmap=1 N=6 B=3 ps=128 b.idx=1 b.ip=4 b.bm=2 b.mm=0 b.ps=64 b.k=8 b.d=4 b.N=8 b.B=2
obs=GF two=1 D=2 L=14 def=E:p pre=A:G,B:k61 ops=A:r,B:r,A:g50,B:g3 spl=4 err=1 N=6 B=3 ps=64 b.ps=128 b.spl=12 b.err=8 b.N=8 b.B=2
""")
Q["C20"] += U("opsx", "what=two n=2\n" + "".join("what=two n=3 k0=%d k1=%d\n" % (_i, _i) for _i in range(10)))
T["C20"] += U("opsx", "".join("what=two n=4 k0=%d k1=%d\n" % (_i, _i) for _i in range(10)))
T["C20"] += U("opsx", "".join("what=two n=3 cfg=60 k0=%d k1=%d\n" % (_i, _i) for _i in range(10)))
for _p in ("C17", "C18", "C19", "C24"):
    Q[_p] += U("opsx", "what=two n=2")
    T[_p] += U("opsx", "".join("what=two n=3 k0=%d k1=%d\n" % (_i, _i) for _i in range(10)))
# queries on tables of other configurations: variable data, index, bitmaps, minima and maxima, record-level consistency, reopened; and data-bounded scans
Q["C17"] += U("opsx", "".join("what=pipe n=5 depth=1 dbounds=1 cfg=%d\n" % _c for _c in (0, 1, 2, 4, 8, 16, 27, 32, 59, 63)) + """what=pipe n=12 depth=1 dbounds=1 schema=0 ps=128 cfg=6
what=pipe n=12 depth=1 dbounds=1 schema=0 ps=128 cfg=1
what=pipe n=12 depth=1 dbounds=1 schema=1 ps=64 cfg=32
what=sel n=1 cfg=63""")
T["C17"] += U("opsx", "".join("what=pipe n=5 depth=2 dbounds=1 cfg=%d\n" % _c for _c in range(0, 64, 3)))
Q["C18"] += U("opsx", "what=aggpipe n=4 cfg=63\nwhat=aggpipe n=4 cfg=1\nwhat=agg n=2 cfg=63 full=1\nwhat=nest kind=0 n=5 cfg=63")
T["C18"] += U("opsx", "".join("what=aggpipe n=5 cfg=%d\n" % _c for _c in range(1, 64, 6)))
Q["C19"] += U("opsx", "what=join n=5 cfg=60\nwhat=join n=5 cfg=28\nwhat=join n=6 self=1 cfg=63 ps=128\nwhat=join n=6 self=1 cfg=1")
T["C19"] += U("opsx", "".join("what=join n=6 cfg=%d\n" % _c for _c in range(4, 64, 4)))
Q["C18"] += U("opsx", "what=nest kind=0 n=6\nwhat=nest kind=1 m=3")
T["C18"] += U("opsx", "what=nest kind=0 n=9\nwhat=nest kind=1 m=4 k=2")
Q["C19"] += U("opsx", "what=nest kind=1 m=4 k=4\nwhat=nest kind=1 m=4 k=1\nwhat=nest kind=1 m=4 k=2")
T["C19"] += U("opsx", "what=nest kind=1 m=5 k=4\nwhat=nest kind=1 m=5 k=1\nwhat=nest kind=1 m=5 k=2")
NOTES["C20"] = "Two real databases of different configurations live side by side; every bounded interleaving of their operations, open cursors, streams, closes and reopens (and failing accesses of one) is executed, each is compared with its own reference model, and after every call the complete memory and storage of the other is compared byte for byte with what it was before; and for every pair of ten operator trees (scans, selections, projections, aggregates, joins and nestings of them), open at the same time on the same or on two different databases, every interleaving of their calls is executed. Exhaustive within the listed bounds; more than two databases are not explored."
TECH["C20"] = "explicit-state model checking of the implementation: all bounded interleavings of operations on two instances"

# --------------------------------------------------------------------------- C26 distribution = sources
Q["C26"] = P("""
mode=digest obs=GFiS N=8 D=2 L=20 ops=f,r,d
mode=digest obs=GFS N=4 D=3 L=18 ops=f,r,d
mode=digest obs=GFS k=8 D=1 L=40 ops=G,g5000000000,r,f N=8 spl=4
mode=digest obs=GFS k=1 D=1 L=60 ops=f,r,s N=4
mode=digest obs=GFS bin=1 D=2 L=30 ops=f,r,g500 N=6 B=3
mode=digest obs=GFS rlc=1 D=2 L=34 ops=f,r,R N=8
mode=digest obs=NVS var=1 lens=12,-1,0 D=1 L=30 ops=f,r,v70,V0 vp=4
mode=digest obs=VNS var=1 lens=48 D=1 L=24 ops=f,v44,v47,v49,v120
mode=digest obs=VS var=1 rlc=1 lens=30 D=1 L=30 ops=f,r,R vp=4
mode=digest obs=FdS idx=1 bmap=1 D=1 L=30 ops=f,r,h0,w ip=4 N=12 ps=40
mode=digest obs=DS mm=1 bmap=1 k=8 d=4 D=1 L=24 ops=f,h0 ps=128
mode=digest obs=DS bmap=1 idx=1 bm=2 ownbm=0 D=1 L=24 ops=f,h3 ps=128 vbase=290 vstep=30 nb=10
mode=digest obs=DS bmap=1 idx=1 bm=8 ownbm=0 D=1 L=24 ops=f,h3 ps=128 vbase=300 vstep=20 nb=10
mode=digest obs=GFS crash=1 kind=2 D=1 L=40 ops=f N=8 cinit=1
mode=digest obs=GFS crash=1 kind=0 rlc=1 D=0 L=40 N=8 cinit=1
mode=digest obs=NVS crash=1 kind=1 var=1 lens=30 D=0 L=24 vp=4
mode=digest obs=FdS crash=1 kind=2 idx=1 bmap=1 D=0 L=34 def=w ip=4 N=8 ps=40
mode=digest obs=GFS fault=1 fsticky=1 fmask=38 D=0 L=30 N=8
mode=digest obs=VNS fault=1 fmask=38 var=1 lens=30 rlc=1 D=0 L=24 vp=4
mode=digest D=4 L=10 pre=k12,f ops=o0,o1,t,u0,T,w N=8 B=2
mode=cross obs=GF N=8 D=2 L=34 ops=f,r
mode=cross obs=GF N=12 B=3 k=8 D=1 L=50 ops=f,w kind=2 spl=4
mode=cross obs=GF rlc=1 N=8 D=1 L=40 ops=f,r
mode=cross obs=NV var=1 lens=30 D=1 L=26 ops=f,v70 vp=4
mode=cross obs=Fd idx=1 bmap=1 D=1 L=40 def=w ops=p,r ip=4 N=12 ps=40
mode=cross obs=GFD mm=1 bmap=1 idx=1 k=8 D=1 L=20 ops=f,h0 ps=128
mode=cross obs=NVd rlc=1 var=1 idx=1 bmap=1 lens=30 D=1 L=20 ops=f,v70 vp=4 ps=128
mode=same prog=opsx what=sel n=2 k=4
mode=same prog=opsx what=pipe schema=0 depth=2 n=5
mode=same prog=opsx what=pipe schema=2 depth=2 n=5 k=2
mode=same prog=opsx what=agg n=3 k=4 full=1
mode=same prog=opsx what=aggpipe n=4
mode=same prog=opsx what=join n=5 k=4
mode=same prog=opsx what=nest n=4
mode=same prog=opsx what=pipe n=5 depth=1 dbounds=1 cfg=63
mode=same prog=utilx what=int8
mode=same prog=utilx what=int16
mode=same prog=utilx what=int64
mode=same prog=utilx what=cmp64
mode=same prog=splinex k=4 gaps=1,2,50 n=7 err=0,1,2 size=4,5
mode=same prog=splinex k=8 gaps=1,30 def=1000 D=3 erase=1 n=20 err=0,1 size=5
""")
T["C26"] = P("""
mode=digest obs=GFiS N=8 D=3 L=20 ops=f,r,d
mode=digest obs=GFS rlc=1 D=3 L=24 ops=f,r,R N=8
mode=digest obs=NVS var=1 lens=12,-1,0 D=2 L=26 ops=f,r,v70,V0 vp=4
mode=digest obs=FdS idx=1 bmap=1 D=2 L=30 ops=f,r,h0,w ip=4 N=12 ps=40
mode=digest obs=GFS crash=1 kind=0 rlc=1 D=1 L=34 ops=f N=8 cinit=1
mode=digest obs=VNS fault=1 fsticky=1 fmask=38 var=1 lens=30 rlc=1 D=1 L=24 ops=f vp=4
mode=digest D=5 L=11 pre=k12,f ops=o0,o1,t,u0,T,w N=8 B=2
mode=cross obs=GF rlc=1 N=12 B=3 D=2 L=40 ops=f,r
mode=cross obs=NV var=1 lens=30 D=2 L=26 ops=f,v70 vp=4
""")
NOTES["C26"] = "Both builds execute every history of the bounded spaces in the same order; a digest over all return codes, outputs, write counters and storage images is compared step by step (digest), every storage state one build reaches is opened, read completely and continued by the other (cross), and the component explorers must have equal outcomes on both builds (same). Exhaustive within the listed bounds."
TECH["C26"] = "explicit-state model checking of both builds in lock step (all bounded histories; storage of every state exchanged)"


# --------------------------------------------------------------------------- C27 file interfaces
_TWO = "ops=Ao,Aw,Ac,Af,AR0,AW0,AW1,At,Bo,Bw,Bc,Bf,BR0,BW0,BW1 pages=0,1"
_FAR = "ps=512 pages=0,1,8388608 ops=Ao,Aw,Ac,Af,AR0,AR8388608,AW0,AW1,AW8388608"
Q["C27"] = U("filex", """
what=desk n=6
what=desk n=5 fault=1
what=desk n=4 fault=1 ps=5000
what=mock n=6
what=mock n=5 fault=1
what=mock n=4 fault=1 ps=5000
what=sd n=6
what=sd n=5 fault=1
what=sd n=4 fault=1 ps=512
what=sd n=6 ps=4
what=df n=6
what=df n=6 ps=512
what=real n=5
what=realmock n=5
what=real n=4 ps=4096
what=sd n=3 ps=40000
what=desk n=3 ps=40000
what=desk n=5 %(far)s
what=mock n=5 %(far)s,AE8388608
what=real n=4 %(far)s
what=desk n=5 %(two)s
what=desk n=4 fault=1 %(two)s
what=mock n=5 %(two)s,AE0
what=sd n=5 %(two)s
what=sd n=4 fault=1 %(two)s
what=df n=5 ops=Ao,Aw,Ac,Af,AR0,AR4,AW0,AW3,AW4,At,Bo,Bc,BR0,BW0,BW3,BW4 pages=0,3
what=desk n=5 ops=Ao,Aw,Ac,Am,At,AW0,AR0 pages=0
what=sd n=5 ops=Ao,Aw,Ac,Am,At,AW0,AR0 pages=0
what=df n=5 ops=Ao,Aw,Ac,Am,At,AW0,AR0 pages=0
what=sd n=5 pages=0,5,9 ops=Ao,Aw,Ac,Af,AR0,AR5,AW0,AW5,AW9 fault=1 ps=12
""" % {"far": _FAR, "two": _TWO})
T["C27"] = U("filex", """
what=desk n=7
what=desk n=6 fault=1
what=mock n=7
what=mock n=6 fault=1
what=sd n=7
what=sd n=6 fault=1
what=df n=7
what=real n=6
what=realmock n=6
what=desk n=6 %(two)s
what=desk n=5 fault=1 %(two)s
what=sd n=6 %(two)s
what=sd n=5 fault=1 %(two)s
what=mock n=5 fault=1 ps=8192 pages=0,1
what=desk n=5 fault=1 ps=5000
what=sd n=6 fault=1 ps=4
""" % {"two": _TWO})
NOTES["C27"] = "The interfaces' own C/C++ code is executed on stand-ins for the storage libraries below them (stdio streams over fopencookie, the SdFat File32/SdFat32 classes, the dataflash driver functions) and on real files in a scratch directory; every call of the stand-ins fails once. Exhaustive within the listed bounds; one failing call per sequence; the stand-ins follow the documented behaviour of the libraries, the hardware itself is not explored."
TECH["C27"] = "explicit-state model checking of the implementation: all bounded call sequences, with exhaustive single faults of the storage library"


# --------------------------------------------------------------------------- C25 configurations
Q["C25"] = U("cfgx", "".join("mode=valid t=1 f0=%d f1=%d\n" % (a, a + 31) for a in (0, 32, 64, 96))
             + "".join("mode=valid t=2 f0=%d f1=%d\n" % (f, f) for f in (0, 1, 2, 4, 8, 9, 16, 17, 24, 25, 31, 32, 59))
             + "".join("mode=valid t=1 kind=%d f0=%d f1=%d\n" % (kd, f, f) for kd in (1, 2, 3) for f in (0, 9, 16, 25, 31))
             + "".join("mode=blocks pages=1300 f0=%d f1=%d\n" % (a, a + 15) for a in range(0, 128, 16))
             + "mode=open\nmode=open kind=2\nmode=open kind=1\n"
             + "".join("mode=grid k=%d L=8\n" % k for k in range(1, 9))
             + "".join("mode=grid k=%d L=6 D=2 d=%d bm=%d\n" % x for x in ((1, 1, 1), (2, 12, 8), (4, 4, 1), (4, 1, 2), (8, 4, 8), (5, 3, 3)))
             + "".join("mode=grid k=4 L=11 d=4 bm=1 rpp=%d kind=%d slacks=1\n" % x for x in ((1, 0), (2, 2), (5, 2), (4, 3), (3, 1))))
T["C25"] = U("cfgx", "".join("mode=valid t=2 f0=%d f1=%d\n" % (a, a + 7) for a in range(0, 128, 8))
             + "".join("mode=valid t=3 f0=%d f1=%d\n" % (f, f) for f in (0, 1, 8, 16, 25, 31))
             + "".join("mode=grid k=%d L=9 D=2\n" % k for k in range(1, 9))
             + "".join("mode=grid k=%d L=9 D=1 d=1,3,7,8,30,100 bm=1,3,5,8,12\n" % k for k in range(1, 9))
             + "mode=grid k=4 L=7 D=3 d=4 bm=1\nmode=grid k=8 L=7 D=3 d=2 bm=8\n")
NOTES["C25"] = "Every combination of the seven feature flags with every choice of one (selected combinations: two; thorough: two and three) parameters moved to boundary values; a rejected configuration must not have touched storage or kept memory, an accepted one runs a history past the wrap-around; every combination of features with key, data, bitmap and page sizes runs all histories with up to D flushes or reopens at every position and must return exactly what an array returns. Creating each file fails in every combination with the others present or absent. Parameter values between the listed ones are not explored."
TECH["C25"] = "explicit-state enumeration of the configuration space on the implementation, with all bounded histories per configuration"


# --------------------------------------------------------------------------- C29 storage format
Q["C29"] = E("""
obs=P L=40 D=3 ops=f,r,w
obs=P N=4 L=40 D=3 ops=f,r kind=2 mm=1
obs=P bmap=1 k=8 d=9 ps=96 L=30 D=3 ops=f,r,h0,h5
obs=P mm=1 bmap=1 k=1 d=1 ps=40 L=40 D=2 ops=f,r,h0,h5
obs=P mm=1 bmap=1 bm=8 k=5 d=12 ps=128 N=6 B=3 L=30 D=3 ops=f,r,h0,G
obs=P idx=1 bmap=1 ps=40 ip=4 L=60 D=2 ops=f,r,h0,h5
obs=P idx=1 bmap=1 mm=1 ps=64 ip=4 N=12 L=60 D=2 ops=f,r,h0
obs=P idx=1 bmap=1 bm=2 ps=40 ip=6 B=3 N=12 L=80 D=1 ops=f,r,h0,w
obs=P idx=1 L=40 D=2 ops=f,r
obs=P idx=1 bmap=1 bm=1 ownbm=0 mm=1 owncmp=0 d=4 ps=96 L=30 D=2 ops=f,r,h3 vbase=-5 vstep=20 nb=7
obs=P idx=1 bmap=1 bm=2 ownbm=0 d=4 ps=96 L=30 D=2 ops=f,r,h3 vbase=-5 vstep=20 nb=7
obs=P idx=1 bmap=1 bm=8 ownbm=0 d=4 ps=96 L=30 D=2 ops=f,r,h3 vbase=-5 vstep=20 nb=7
obs=P var=1 lens=12,-1,-2,0,50 L=30 D=2 ops=f,r,v1,v70
obs=P var=1 lens=7 ps=40 d=2 k=1 L=24 D=2 ops=f,r,v27,v28,v29,v30,v31,v32,v66 vp=20
obs=P var=1 lens=30,9 vp=4 L=40 D=2 ops=f,r,v100,v-1
obs=P var=1 idx=1 bmap=1 mm=1 k=8 d=4 ps=128 lens=30,9 vp=6 ip=6 B=3 N=12 L=40 D=2 ops=f,r,h0,v150
obs=P rlc=1 mm=1 bmap=1 N=8 L=40 D=3 ops=f,r,R,h0
obs=P rlc=1 var=1 lens=12,-1 N=8 L=36 D=2 ops=f,r,R,v60 vp=20
obs=P mm=1 bmap=1 L=24 D=1 ops=f,w crash=1 cinit=1 kind=2
obs=P idx=1 bmap=1 ps=40 L=24 D=1 ops=f,h5 crash=1 kind=1
obs=P var=1 lens=12,-1 L=24 D=1 ops=f,v60 crash=1 kind=2
obs=P rlc=1 mm=1 bmap=1 N=8 L=18 D=1 ops=f,r crash=1
obs=P gap=0 key0=5 k=8 mm=1 bmap=1 L=30 D=3 ops=f,r,G,w ps=128 N=6
""")
T["C29"] = E("""
obs=P L=50 D=4 ops=f,r,w
obs=P mm=1 bmap=1 L=40 D=4 ops=f,r,h0,h5 ps=96
obs=P idx=1 bmap=1 ps=40 ip=4 L=80 D=3 ops=f,r,h0
obs=P var=1 lens=12,-1,-2,0,50 L=34 D=3 ops=f,r,v1,v70
obs=P var=1 lens=7 ps=40 d=2 k=1 L=24 D=3 ops=f,r,v27,v28,v29,v30,v66 vp=20
obs=P rlc=1 mm=1 bmap=1 N=8 L=40 D=4 ops=f,r,R,h0
obs=P var=1 idx=1 bmap=1 mm=1 k=8 d=4 ps=128 lens=30,9 vp=6 ip=6 B=3 N=12 L=44 D=3 ops=f,r,h0
obs=P var=1 rlc=1 mm=1 lens=12,-1 N=8 L=24 D=1 ops=f,r crash=1 cinit=1
""")
TECH["C29"] = "explicit-state model checking of the implementation: the raw bytes of every page are judged in every reachable state"

# --------------------------------------------------------------------------- C30 queries are read-only
Q["C30"] = E("""
obs=GIQ L=30 D=2 ops=f,r,g3 N=6
obs=GQ L=40 D=3 ops=f,g0,i0,w N=4
obs=GFdQ idx=1 bmap=1 ps=40 ip=4 L=40 D=2 ops=f,r,h0
obs=GFdQ idx=1 bmap=1 mm=1 var=1 lens=12,-1 ps=96 L=30 D=1 ops=f,r,h0,v60
obs=GVNQ var=1 lens=12,-1,50 L=30 D=2 ops=f,r,V1 vp=8
obs=VNQ var=1 lens=7 ps=40 d=2 D=2 L=14 ops=f,v28,v90,q5,S0 vp=20
obs=GFVQ rlc=1 var=1 lens=12,-1 N=8 L=30 D=2 ops=f,R,v60 vp=20
obs=GFQ rlc=1 N=8 B=2 L=50 D=2 ops=f,r,R
obs=GIQ bin=1 k=8 ps=128 L=30 D=2 ops=f,r,G N=6
obs=GQ L=30 D=2 ops=f,o0,t,w N=4
""")
T["C30"] = E("""
obs=GIQ L=40 D=3 ops=f,r,g3 N=6
obs=GVNQ var=1 lens=12,-1,50 L=34 D=3 ops=f,r,V1 vp=8
obs=GFVQ rlc=1 var=1 lens=12,-1 N=8 L=34 D=3 ops=f,R,v60 vp=20
obs=GFdQ idx=1 bmap=1 ps=40 ip=4 L=60 D=3 ops=f,r,h0
""")
NOTES["C29"] = _COMP + " After every operation the raw bytes of all retained pages of the three files are compared with the documented format, computed from the model; unused bytes of a page are not judged."
NOTES["C30"] = _COMP + " The device log of every query issued by the observers and by the query operations of the alphabet is judged. A lookup of variable data may write out the page of buffered variable data (it says so in the code); nothing else."
TECH["C30"] = "explicit-state model checking of the implementation with a monitor on every device access of every query"

# --------------------------------------------------------------------------- C31 amalgamation
Q["C31"] = E("""
mode=tree
mode=graph hdrs=a.h inc=12 perms=1 cc=1
mode=graph hdrs=a.h,ab.h inc=12 perms=1 cc=1
mode=graph hdrs=b.h,a.b.h inc=12 perms=1 cc=1
mode=graph hdrs=io.hal.h,io.h inc=6 perms=1
mode=graph hdrs=z.h,y.h,x.h inc=4 self=0 perms=1 cc=1
mode=graph hdrs=a.h,b.h,ab.h inc=2 part=0/2
mode=graph hdrs=a.h,b.h,ab.h inc=2 part=1/2
""" + "".join("mode=graph hdrs=d.h,b.h,a.h,c.h self=0 inc=1 part=%d/8\n" % i for i in range(8)), ("amalg",)) + E("""
other=amalg mode=digest obs=GFiS N=8 D=2 L=20 ops=f,r,d
other=amalg mode=digest obs=GFS rlc=1 D=1 L=34 ops=f,r,R N=8
other=amalg mode=digest obs=NVS var=1 lens=12,-1,0 D=1 L=30 ops=f,r,v70,V0 vp=4
other=amalg mode=digest obs=FdS idx=1 bmap=1 D=1 L=30 ops=f,r,h0,w ip=4 N=12 ps=40
other=amalg mode=cross obs=GF N=8 D=1 L=34 ops=f,r
other=amalg mode=same prog=opsx what=pipe schema=0 depth=2 n=5
other=amalg mode=same prog=opsx what=join n=5 k=4
""", ("pairA",))
T["C31"] = E("".join("mode=graph hdrs=d.h,b.h,a.h,c.h self=0 inc=3 perms=1 cc=1 part=%d/16\n" % i for i in range(16))
             + "".join("mode=graph hdrs=a.h,b.h,c.h,d.h inc=1 part=%d/32\n" % i for i in range(32)), ("amalg",))
TECH["C31"] = "exhaustive enumeration of include graphs through the amalgamation script, and lock-step explicit-state exploration of the sources and their amalgamation"
NOTES["C31"] = "Every include graph over up to four headers (three with self-includes) in the supported form (one source per header, one directive per line) is amalgamated under several directory orders and layouts, in scratch copies; the output is parsed, compared with the inputs and compiled. The repository itself is amalgamated under eight hash seeds and four directory orders (those are listed values, not all), and its amalgamation explored in lock step with the sources."


def properties():
    return sorted(Q)


def jobs(p, tier):
    if tier != "thorough":
        return list(Q[p])
    return [deeper(j) for j in Q[p]] + list(T.get(p, []))


def deeper(j, limit=4e5):
    """the same exploration with as many more deviations as keep the number of histories below a limit (no change if it is above already)"""
    a = j["args"]
    m = dict(x.split("=", 1) for x in a.split() if "=" in x)
    if not (j["bin"].startswith("explore") or (j["bin"].startswith("pair") and "obs" in m)) or "D" not in m:
        return j
    if re.search(r"ps=\d{4,}|lens=\d{4,}|[FJ]\d{3,}", a):
        limit /= 50
    d, l = int(m["D"]), int(m.get("L", 20))
    n = m.get("ops", "").count(",") + 1 + ("crash" in m) * 4 + ("fault" in m) * 4
    if "crash" in m or "fault" in m:
        limit /= 10
    e = d
    while e < l and math.comb(l, e + 1) * n ** (e + 1) <= limit:
        e += 1
    return dict(j, args=re.sub(r"\bD=\d+", "D=%d" % e, a)) if e > d else j


def all_bins():
    return sorted({j["bin"] for p in Q for j in Q[p] + T.get(p, [])})


# --------------------------------------------------------------------------- large geometries and long histories
# Pages of hundreds of records, devices of hundreds of pages, page numbers beyond 16 bits, variable data beyond
# 64 kB: F/J fast-forward through tens of thousands of real puts before the exhaustive part begins.
BIG = {
    "C01": """
obs=G ps=4096 N=4 B=2 def=k85 L=30 D=1 ops=p,f,r
obs=G ps=65535 d=120 N=4 B=1 def=k107 L=20 D=1 ops=p,f
obs=G ps=40000 d=120 k=8 bin=1 N=4 B=1 def=k107 L=14 D=1 ops=p,f
obs=G ps=16 N=300 B=10 pre=F66000 L=20 D=1 ops=f,r
obs=G ps=16 N=300 B=10 pre=J66000 L=20 D=1 ops=f,r spl=4
obs=G ps=16 N=300 B=10 pre=J66000 L=20 D=1 ops=f,r bin=1
obs=G ps=128 k=8 d=100 N=960 B=2 def=k3 L=16 D=1 pre=J1500 ops=f,r spl=300 nosc=1
""",
    "C02": """
obs=i ps=4096 N=4 B=2 def=k85 L=40 D=1 ops=p,f
obs=i ps=40000 d=120 k=8 N=4 B=1 def=k107 L=24 D=1 ops=p,f
obs=i ps=16 N=300 B=10 pre=J66000 L=10 D=1 ops=f,r
obs=i ps=128 k=8 d=100 N=960 B=2 def=k3 L=10 D=1 pre=J1500 ops=f spl=200 nosc=1
""",
    "C03": """
obs=d ps=4096 N=4 B=1 idx=1 bmap=1 def=k85 L=30 D=1 ops=p,f
obs=d ps=4096 N=4 B=2 mm=1 def=k85 L=30 D=1 ops=p,f
obs=d ps=32 N=300 B=10 idx=1 bmap=1 ip=20 pre=J200000 L=16 D=1 ops=f,r
obs=d ps=600 k=8 d=120 N=700 B=2 idx=1 bmap=1 bm=2 ip=4 def=k3 L=16 D=1 pre=J5000 ops=f,r
obs=d ps=1024 k=8 d=120 N=300 B=10 idx=1 bmap=1 ip=20 def=k5 L=14 D=1 pre=J30000 ops=f,r
""",
    "C04": """
obs=GF ps=4096 N=4 B=2 def=k85 L=16 D=1 ops=p,f,d,s
obs=GF ps=16 N=300 B=10 pre=J66000 L=14 D=1 ops=f,d,s,z
""",
    "C05": """
obs=GF ps=4096 N=4 B=2 def=k85 L=40 D=1 ops=p,f
obs=GF ps=16 N=300 B=10 pre=J66000 L=30 D=1 ops=f,r
obs=GF ps=16 N=999 B=37 pre=F66000 L=50 D=1 ops=f
obs=GF ps=16 N=300 B=10 rlc=1 pre=J66000 L=30 D=1 ops=f
obs=GF ps=128 k=8 d=100 N=960 B=60 def=k3 L=20 D=1 pre=J1500 ops=f rlc=1
""",
    "C06": """
obs=V var=1 lens=13000 ps=60000 vp=8 N=4 B=2 d=100 L=14 D=1 ops=f,v70000
obs=N var=1 lens=13000,-1,0,200 ps=65535 vp=8 N=4 B=2 d=12 L=16 D=1 ops=f,v40000
obs=V var=1 lens=12 ps=4096 vp=60 N=4 B=2 L=4 D=1 ops=v70000,v65536,v65535,f
obs=V var=1 lens=70000 ps=4096 vp=60 N=4 B=2 L=8 D=1 ops=v1,f
obs=V var=1 lens=12 ps=40000 vp=8 N=4 B=2 d=100 def=k90 L=12 D=1 ops=f
obs=V ps=40 N=300 B=10 var=1 lens=12 vp=300 pre=J150000 L=8 D=1 ops=f,r,v500
""",
    "C07": """
obs=V var=1 lens=13000 ps=60000 vp=4 N=4 B=2 d=100 L=16 D=1 ops=f,v50000
obs=V ps=40 N=30 B=5 var=1 lens=12 vp=10 pre=J150000 L=20 D=1 ops=f,v90
obs=V var=1 lens=3000 ps=4096 vp=4 N=4 B=2 L=20 D=1 ops=f,v9000
""",
    "C08": """
obs=N var=1 lens=13000,-1,0,200 ps=65535 vp=8 N=4 B=2 d=12 L=16 D=1 ops=f,v40000
obs=N var=1 lens=12,-1 ps=8192 vp=20 N=4 B=2 d=12 def=k90 L=20 D=1 ops=f
obs=NV ps=40 N=300 B=10 var=1 lens=12 vp=280 pre=J150000 L=8 D=1 ops=f,r
""",
    "C09": """
obs=VX var=1 lens=13000 ps=60000 vp=6 N=4 B=2 d=100 L=14 D=1 ops=f,r
obs=GFX ps=4096 N=4 B=2 def=k85 L=24 D=1 ops=p,f,r
obs=GFX ps=16 N=300 B=10 pre=J66000 L=24 D=1 ops=f,r,R kind=2
obs=GFX ps=16 N=300 B=5 rlc=1 pre=J66000 L=24 D=1 ops=f,r,R kind=1
obs=GFdX ps=32 N=100 B=10 idx=1 bmap=1 ip=20 pre=J200000 L=14 D=1 ops=f,r,R kind=2
obs=GFVX ps=40 N=30 B=10 var=1 lens=12 vp=100 pre=J150000 L=14 D=1 ops=f,r,R kind=3
""",
    "C10": """
obs=GFX crash=1 ps=4096 N=4 B=1 def=p pre=F1500 L=10 D=1 ops=f,k600 kind=2
obs=GFX crash=1 kind=2 ps=16 N=300 B=10 pre=J66000 L=24 D=1 ops=f,r
obs=GFX crash=1 kind=0 ps=16 N=24 B=4 pre=J66000 L=34 D=1 ops=f cinit=1
""",
    "C11": """
obs=GFX rlc=1 crash=1 ps=4096 N=4 B=1 def=p pre=F1500 L=10 D=1 ops=f,k600
obs=GFX crash=1 kind=2 rlc=1 ps=16 N=60 B=3 pre=J66000 L=20 D=1 ops=f,r
""",
    "C12": """
obs=VX crash=1 var=1 lens=13000 ps=60000 vp=6 N=4 B=2 d=100 L=12 D=0 kind=2
obs=VX crash=1 ps=40 N=30 B=5 var=1 lens=12 vp=20 pre=J150000 L=10 D=1 ops=f,v90 kind=2
""",
    "C13": """
obs=dX crash=1 ps=32 N=30 B=5 idx=1 bmap=1 ip=20 pre=J200000 L=10 D=1 ops=f
obs=dX crash=1 ps=17 bm=1 N=30 B=2 idx=1 bmap=1 ip=8 pre=J66000 def=p L=10 D=1 ops=f kind=2
obs=dX crash=1 ps=1024 k=8 d=120 N=20 B=2 idx=1 bmap=1 ip=4 def=p L=10 D=1 pre=J28190 ops=f,r
""",
    "C14": """
obs=GF ps=32 N=300 B=10 idx=1 bmap=1 ip=20 pre=J198400 L=10 D=1 ops=f,r spl=6
obs=GFX ps=32 N=300 B=10 idx=1 bmap=1 ip=20 rlc=1 pre=J198400 L=10 D=1 ops=f,r
obs=GF ps=128 k=8 d=100 N=960 B=2 def=k3 L=12 D=1 pre=J1500 ops=f,r spl=300 nosc=1
obs=GF ps=128 k=8 d=100 N=960 B=2 def=k3 L=12 D=1 pre=J1500 ops=f,r spl=4
obs=GF ps=128 k=8 d=100 N=960 B=2 def=k3 L=12 D=1 pre=J1500 ops=f,r bin=1
obs=GF ps=4096 N=4 B=2 def=k85 L=20 D=1 ops=g9000,f spl=4
""",
    "C22": """
obs=X ps=16 N=300 B=10 pre=J66000 L=40 D=2 ops=f,r kind=2
obs=X ps=16 N=300 B=10 rlc=1 pre=J66000 L=30 D=2 ops=f,r kind=1
obs=X ps=17 N=30 B=2 idx=1 bmap=1 ip=8 pre=J66000 L=30 D=2 ops=f,r
obs=X ps=40 N=30 B=5 var=1 lens=12 vp=20 pre=J150000 L=20 D=2 ops=f,r,v90
""",
    "C23": """
obs=GFL ps=4096 N=4 B=2 def=k85 L=20 D=1 ops=p,f,r
obs=GFL ps=65535 d=120 k=8 N=4 B=1 def=k107 L=10 D=1 ops=p,f
obs=VL var=1 lens=70000 ps=4096 vp=60 N=4 B=2 L=6 D=1 ops=v1,f
obs=GFL ps=128 k=8 d=100 N=960 B=2 def=k3 L=8 D=1 pre=J1500 ops=f,r spl=300
""",
    "C28": """
obs=GS ps=4096 N=4 B=2 def=p pre=F1500 L=6 D=1 ops=f,k600
obs=GFS ps=16 N=300 B=10 pre=J66000 L=14 D=1 ops=f,r
""",
    "C29": """
obs=P ps=4096 N=4 B=2 mm=1 bmap=1 def=k85 L=30 D=1 ops=p,f,r
obs=P ps=65535 d=120 k=8 N=4 B=1 def=k107 L=20 D=1 ops=p,f
obs=P ps=17 N=30 B=2 idx=1 bmap=1 ip=8 pre=J66000 L=30 D=1 ops=f,r
obs=P ps=40 N=30 B=5 var=1 lens=12 vp=20 pre=J150000 L=20 D=1 ops=f,r,v90
obs=P ps=1024 k=8 d=120 N=300 B=10 idx=1 bmap=1 ip=20 def=k5 L=20 D=1 pre=J30000 ops=f,r
""",
}
for _p, _t in BIG.items():
    Q[_p] = Q[_p] + U("explorel", _t)

# --------------------------------------------------------------------------- manifest texts
for _p in ("C10", "C11", "C12", "C13"):
    TECH[_p] = "explicit-state model checking of the implementation with exhaustive crash-point enumeration (also during recovery)"
TECH["C21"] = "explicit-state model checking of the implementation with exhaustive enumeration of failing device accesses (every access of every operation, once and persistently)"
TECH["C24"] = "explicit-state model checking of all bounded interleavings of cursors with the database"
NOTES["C15"] = (_COMP + " The learned index is driven directly (all gap sequences of an alphabet, up to n pages, all error bounds and sizes listed, all erasures) and through the database.")
TECH["C15"] = "explicit-state model checking of the implementation (all bounded histories of adds, evictions and erasures of the learned index)"

# reopened with other choices of lookup method, learned index and bitmap index; files removed
Q["C09"] += E("""
obs=GF N=8 L=40 D=2 ops=f,A1,A4,D1
obs=GFX N=8 L=60 D=1 ops=f,A1,A4,A8,D1 spl=4
obs=GFX N=8 L=40 D=2 ops=f,A1,A5,D1 rlc=1 kind=2
obs=GNV N=8 L=24 D=2 ops=f,D1,D5 var=1 lens=30 vp=4
obs=GNVX N=8 L=24 D=2 ops=f,D5 var=1 lens=30 vp=4 rlc=1
obs=GNV N=8 L=30 D=1 ops=f,D5,D1,A5 var=1 lens=12,-1 vp=8 B=4
""")
Q["C12"] += E("""
obs=NV N=8 L=24 D=2 ops=f,D5,D1 var=1 lens=30 vp=4
obs=NVX N=8 L=24 D=2 ops=f,D5 var=1 lens=30 vp=4 rlc=1 crash=1
""")
Q["C13"] += E("""
obs=FdX N=12 L=40 D=2 def=w ops=p,A2,D1,D2,D3 idx=1 bmap=1 ip=4 ps=40
obs=FdX N=12 B=2 L=40 D=2 def=w ops=p,D1,D3 idx=1 bmap=1 ip=4 ps=64 bm=2 kind=2
obs=FdX N=12 L=60 D=2 ops=A2,D2 def=w idx=1 bmap=1 ip=4 ps=32 bm=8
obs=FdX N=12 L=60 D=1 ops=A2,D2 def=w idx=1 bmap=1 ip=4 ps=32 bm=8 crash=1
obs=Fd rlc=1 N=12 L=26 D=1 ops=f,A2,D2 idx=1 bmap=1 ip=4 ps=40 crash=1
""")
T["C09"] += E("""
obs=GF N=8 L=40 D=3 ops=f,A1,A4
obs=GFX N=8 L=60 D=2 ops=f,A1,A4,A8 spl=4
""")
T["C13"] += E("""
obs=FdX N=16 L=60 D=3 ops=A2,D2 def=w idx=1 bmap=1 ip=4 ps=32 bm=8
obs=FdXNV N=12 L=40 D=2 ops=f,A2,A3 idx=1 bmap=1 ip=4 ps=40 var=1 lens=10 vp=8
obs=Fd rlc=1 N=12 L=40 D=2 ops=f,A2,A3 idx=1 bmap=1 ip=4 ps=40 crash=1
""")
Q["C23"] += U("cfgx", "mode=open\nmode=open kind=2\nmode=open kind=1\n")

# the format is kept also when operations fail in between
Q["C29"] += E("""
obs=P fault=1 fsticky=1 fmask=39 mm=1 bmap=1 N=8 D=2 L=30 ops=f,h3,r
obs=P fault=1 fsticky=1 fmask=39 idx=1 bmap=1 mm=1 ip=4 N=12 ps=40 D=1 L=40 ops=f,h3,r def=w k=2 d=2
obs=P fault=1 fmask=39 idx=1 bmap=1 ip=4 N=12 ps=40 D=1 L=30 ops=p,h3,r def=w kind=1
obs=P fault=1 fsticky=1 fmask=39 var=1 lens=12,-1,50 vp=8 N=8 L=20 D=1 ops=f,v70,r
obs=P fault=1 fmask=39 rlc=1 var=1 lens=30 vp=4 N=8 L=20 D=1 ops=f,v70,r
obs=P fault=1 fmask=39 rlc=1 mm=1 bmap=1 N=8 D=2 L=24 ops=f,h3,g9
obs=P fault=2 fsticky=1 fmask=39 rlc=1 mm=1 bmap=1 bm=2 N=8 D=1 L=24 ops=f,h3,h0 def=h2
obs=PFd fault=1 fmask=39 rlc=1 idx=1 mm=1 bmap=1 bm=8 N=12 ps=64 D=1 L=30 ops=f,h3,h0,r def=h2 kind=2
""")
for _p in ("C17", "C18", "C19", "C23"):
    Q[_p] += U("opsx", "what=again n=5")
    T[_p] += U("opsx", "what=again n=7")

# areas whose page count divides 2^32-1: an erased page reads as one that belongs where it is
Q["C12"] += E("""
obs=NVX N=5 B=1 L=24 D=1 ops=f,r var=1 lens=30 vp=5 kind=2 crash=1
obs=NVX N=15 B=3 L=30 D=1 ops=f,r var=1 lens=30,9 vp=15 kind=2 crash=1
""")
Q["C13"] += E("obs=dX N=5 B=1 L=40 D=1 ops=r,p def=w idx=1 bmap=1 ip=5 kind=2 crash=1 ps=40")
Q["C10"] += E("""
obs=GFX N=5 B=1 L=40 D=2 ops=f,r kind=2 crash=1
obs=GFX N=3 B=1 L=40 D=2 ops=f,r kind=2 crash=1
obs=GFX N=15 B=3 L=60 D=1 ops=f,r kind=2 crash=1
""")
Q["C11"] += E("obs=GFX N=5 B=1 L=40 D=1 ops=f,r kind=2 crash=1 rlc=1")
Q["C09"] += E("obs=NVX N=5 B=1 L=40 D=2 ops=f,r var=1 lens=30 vp=5 kind=2")

# what embedDBFlush reports as stored has left the device's write buffers (obs Y): judged with the properties that promise durability
for _p in ("C09", "C10", "C11", "C12", "C13", "C20"):
    for _tab in (Q, T):
        for _j in _tab.get(_p, []):
            if _j["bin"].startswith("explore"):
                _j["args"] = re.sub(r"\bobs=(\w*)", lambda m: "obs=" + m[1] + ("" if "Y" in m[1] else "Y"), _j["args"], count=1)

# C21: reads of pages that the same initialisation has already read once
Q["C21"] += E("\n".join("fault=1 fsticky=1 fmask=64 " + l for l in """
obs=GF N=8 L=40 ops=r D=2
obs=GF N=8 L=40 ops=r D=2 err=0 fcut=64
obs=GF N=8 L=40 ops=r D=2 spl=4
obs=GF N=8 L=40 ops=r D=2 bin=1
obs=GF N=6 B=3 L=30 ops=r,f D=2 kind=3
obs=GF N=8 L=40 ops=r D=2 rlc=1
obs=GF N=12 B=3 L=40 ops=r,f D=1 rlc=1 kind=2
obs=GF N=4 B=1 L=40 ops=r,f D=1 rlc=1 fcut=18
obs=GFd N=8 L=40 ops=r D=1 idx=1 bmap=1 ip=4
obs=GNV N=8 L=30 ops=r D=2 var=1 lens=30 vp=4
obs=GNV N=8 L=30 ops=r D=1 var=1 lens=60 vp=4 rlc=1 fcut=64
""".strip().splitlines()))

# the power may also fail while a block is being erased (perase, on by default for devices that erase): its first 1..B-1 pages are gone, the others are not
Q["C10"] += E("""
obs=GFXY N=12 B=3 L=50 D=1 ops=f,r kind=2 crash=1 cinit=1 postL=12
obs=GFXY N=12 B=4 ps=40 L=60 D=1 ops=f,r kind=1 crash=1 cinit=1 postL=16
obs=GFXY N=6 B=3 L=30 D=1 ops=f kind=2 crash=2 postL=14
""")
Q["C11"] += E("""
obs=GFXY N=16 B=4 L=50 D=1 ops=f,r kind=3 crash=1 rlc=1 postL=16
obs=GFXY N=12 B=3 L=46 D=0 ops=f,r kind=2 crash=1 cinit=1 rlc=1 postL=16
""")
Q["C13"] += E("""
obs=dXY idx=1 bmap=1 D=1 L=40 def=w ops=p,f,r ip=6 N=12 B=3 ps=40 crash=1 cinit=1 kind=2 postL=14
obs=dXY idx=1 bmap=1 D=1 L=40 def=w ops=p,f,r ip=8 N=16 B=4 ps=40 crash=1 kind=3 postL=14
""")
Q["C12"] += E("""
obs=NVXY var=1 lens=30 D=1 L=30 ops=f,r vp=6 B=3 N=12 crash=1 cinit=1 kind=2
obs=NVXY var=1 lens=48 D=1 L=34 ops=f,v120 vp=8 B=4 N=12 crash=1 kind=3
obs=NVXY var=1 lens=30 D=0 L=34 ops=f,r vp=6 B=3 N=12 rlc=1 crash=1 cinit=1 kind=2
""")
Q["C22"] += E("""
obs=X N=12 B=3 L=60 D=1 ops=f,r kind=2 crash=1 cinit=1 postL=24 idx=1 bmap=1 ip=6
obs=X N=16 B=4 L=60 D=1 ops=f,r kind=2 crash=1 postL=24 rlc=1
obs=X var=1 lens=48 D=1 L=44 ops=f,r vp=8 B=4 N=12 crash=1 cinit=1 kind=2 postL=24
""")

# --------------------------------------------------------------------------- C32 running out of memory
_OOM = "fault=1 fsticky=1 fmask=128 "
_OOMX = """
%(o)sobs=VNSL var=1 lens=12,-1 N=8 D=2 L=20 ops=f,V0,V3,N,S0,q9,r vp=4
%(o)sobs=VL var=1 rlc=1 lens=30 N=8 L=20 ops=f,V0,N,r D=2 vp=4
%(o)sobs=FIdSL idx=1 bmap=1 ip=4 N=8 ps=40 D=2 L=26 ops=f,w,i3,o3,t,r
%(o)sobs=IL bmap=1 mm=1 N=8 D=2 L=24 ops=f,i1,i3,i5,o3,o5,t,r
%(o)sobs=GFL N=8 L=30 ops=f,l0,r D=2
%(o)sobs=GFL N=8 bin=1 L=30 ops=f,l0,r D=2
fault=1 fmask=128 obs=VNL two=1 D=1 L=16 def=E:p ops=A:f,B:V0,A:V0,A:N,A:r,B:r var=1 lens=30 vp=4 b.idx=1 b.bmap=1
fault=2 fsticky=1 fmask=128 obs=VL var=1 lens=30 N=8 L=12 D=2 postL=6 postD=1 ops=f,V0,N,r,o3 bmap=1 mm=1 vp=4
"""
_FX = "".join("what=%s oom=1 fault=1 n=%%d\n" % w for w in ("desk", "mock", "sd", "df", "real", "realmock"))
Q["C32"] = E(_OOMX % {"o": _OOM}) + U("opsx", "what=oom n=4\n") + U("filex", _FX.replace("%d", "4"))
T["C32"] = E("".join("""
%(o)sobs=VNSL var=1 lens=12,-1 N=8 D=3 L=24 ops=f,V0,V3,N,S0,q9,r vp=4
%(o)sobs=VL var=1 rlc=1 lens=30 N=8 L=24 ops=f,V0,N,r D=3 vp=4
%(o)sobs=FIdSL idx=1 bmap=1 ip=4 N=8 ps=40 D=3 L=30 ops=f,w,i3,o3,t,r
%(o)sobs=IL bmap=1 mm=1 N=8 D=3 L=24 ops=f,i1,i3,i5,o3,o5,t,r
%(o)sobs=GFL N=8 L=40 ops=f,l0,r D=3
%(o)sobs=GFL N=8 bin=1 L=40 ops=f,l0,r D=3
fault=1 fmask=128 obs=VNL two=1 D=2 L=16 def=E:p ops=A:f,B:V0,A:V0,A:N,A:r,B:r var=1 lens=30 vp=4 b.idx=1 b.bmap=1
fault=2 fsticky=1 fmask=128 obs=VL var=1 lens=30 N=8 L=16 D=2 postL=8 postD=2 ops=f,V0,N,r,o3 bmap=1 mm=1 vp=4
""" % {"o": o} for o in (_OOM, "fault=1 fmask=128 "))) + U("opsx", "what=oom n=6\n") + U("filex", _FX.replace("%d", "6"))
NOTES["C32"] = _COMP + " Every allocation of every history is made to fail once (and, sticky, with all later ones of the same call); the oracle then demands a reported failure, unchanged contents, an exact retry and an empty heap in the end. Allocations of C++ new are outside (they do not return on failure)."
TECH["C32"] = "explicit-state model checking of the implementation with exhaustive allocation faults"
# schemas: every combination of sizes and signedness, refused or stored exactly
Q["C17"] += U("opsx", "what=schema cols=3\n")
T["C17"] += U("opsx", "what=schema cols=4\n")

# --------------------------------------------------------------------------- C33 read budgets
Q["C33"] = E("""
obs=GBF N=8 L=40 D=2 ops=f,r,g5,g50 spl=30 err=1
obs=GIB N=8 L=30 D=2 ops=f,r,g7,G spl=30 err=1 k=8
obs=GIB N=8 L=30 D=1 ops=f,r,g5,g100 spl=20 err=4
obs=GB N=16 L=80 D=1 ops=f,r,g5,g50,g500,G spl=30 err=1
obs=GB N=24 B=2 L=100 D=1 ops=g5,g60,G,k8 spl=30 err=1 k=8
obs=GB N=12 B=3 L=60 D=1 ops=f,r,g5,g70 spl=20 err=2 k=8
obs=GB N=16 L=44 D=2 ops=g5,g60,G,w spl=30 err=1
obs=GIB bin=1 N=8 L=30 D=1 ops=f,r,g5,g50
obs=GB bin=1 N=16 B=4 L=80 D=1 ops=f,r,g5,G
obs=GIB rlc=1 N=8 L=30 D=1 ops=f,r,g5,g50 spl=20
obs=GB rlc=1 N=8 L=40 D=2 ops=f,r,g60 spl=20 err=1
obs=DGB idx=1 bmap=1 ip=4 ps=40 N=8 L=30 D=1 ops=f,h3,r,w
obs=dB idx=1 bmap=1 ip=8 N=16 L=70 D=1 ops=f,h3,r,w spl=30
obs=dB idx=1 bmap=1 ip=8 N=16 ps=40 L=50 D=2 ops=f,h3,w spl=30 bin=1
obs=dB N=12 L=60 D=1 ops=f,r,h0 def=w idx=1 bmap=1 ip=6 B=3 spl=30 kind=3 ps=40
obs=dB N=8 L=60 D=1 ops=f,r,h4 def=w idx=1 bmap=1 ip=8 B=2 spl=30 kind=3 ps=40 rlc=1
obs=DB bmap=1 N=8 L=30 D=1 ops=f,h3,r
obs=VNB var=1 lens=30 vp=4 N=8 L=24 D=2 ops=f,r spl=20
obs=VNB var=1 lens=60,5 vp=8 N=8 L=24 D=2 ops=f,r,g60 spl=20
obs=VNB var=1 lens=200,5 vp=16 N=8 L=24 D=2 ops=f,r spl=20 rlc=1
obs=VNB var=1 lens=47,48,49,-1 vp=8 N=8 L=30 D=1 ops=f,r,v0 bin=1
obs=GB N=8 L=60 D=1 ops=f,r,g60 rlc=1 crash=1 spl=30
obs=GB N=8 L=60 D=1 ops=f,r,g60 crash=1 idx=1 bmap=1 ip=4 spl=30 kind=2
obs=dB N=8 L=60 D=1 ops=f,r crash=1 idx=1 bmap=1 ip=4 spl=30 kind=2 ps=40
obs=GVB N=8 L=40 D=1 ops=f,r crash=1 var=1 lens=30 vp=4 spl=30 kind=3
obs=GB N=12 B=3 L=60 D=1 ops=f,r,G crash=1 cinit=1 kind=2 spl=30
""")
T["C33"] = E("""
obs=GBF N=8 L=50 D=3 ops=f,r,g5,g50 spl=30 err=1
obs=GIB N=8 L=40 D=2 ops=f,r,g7,G spl=30 err=1 k=8
obs=GIB N=8 L=40 D=2 ops=f,r,g5,g100 spl=20 err=4
obs=GB N=16 L=60 D=2 ops=f,r,g5,g50,g500,G spl=30 err=1
obs=GIB N=16 L=60 D=2 ops=g60,G,g500 spl=30 err=2
obs=GB N=24 B=2 L=100 D=2 ops=g60,G,k8 spl=30 err=1 k=8
obs=GB bin=1 N=16 B=4 L=80 D=2 ops=f,r,g5
obs=GIB rlc=1 N=8 L=40 D=2 ops=f,r,g5,g50 spl=20
obs=DGB idx=1 bmap=1 ip=4 ps=40 N=8 L=40 D=2 ops=f,h3,r,w
obs=dB idx=1 bmap=1 ip=8 N=16 L=70 D=2 ops=f,h3,r,w spl=30
obs=dB idx=1 bmap=1 ip=8 N=16 ps=40 L=60 D=2 ops=f,h3,r,w spl=30 bin=1
obs=VNB var=1 lens=60,5 vp=8 N=8 L=30 D=3 ops=f,r,g60 spl=20
obs=VNB var=1 lens=200,5 vp=16 N=8 L=30 D=3 ops=f,r spl=20 rlc=1
obs=GB N=8 L=60 D=2 ops=f,r,g60 rlc=1 crash=1 spl=30
obs=GVB N=8 L=40 D=2 ops=f,r crash=1 var=1 lens=30 vp=4 spl=30 kind=3
""")
TECH["C33"] = "explicit-state model checking of the implementation with a monitor that counts every page access of every query"
NOTES["C33"] = _COMP + " The read log of every lookup, of every whole iteration, of every whole stream and of every initialisation is judged. The learned index budget is judged where it has room for every page (otherwise it may have to forget points)."

# --------------------------------------------------------------------------- every combination of features for every property
def cross(base, need="", sizes=((4, 4), (8, 12)), N=8, ip=4, vp=8, lens="30,3"):
    out = []
    for k, d in sizes:
        for m in range(32):
            bi, ix, mm, va, rl = (m >> i & 1 for i in range(5))
            if ("v" in need and not va) or ("r" in need and not rl) or ("x" in need and not ix) or ("m" in need and not mm): continue
            rec = k + d + 4 * va
            ps = 6 + (4 if ix else 0) + (2 * (k + d) if mm else 0) + (8 if rl else 0) + 4 * rec
            ps = max(ps + (-ps) % 4, 40)
            f = ["N=%d ps=%d" % (N, ps), "bin=1" if bi else "spl=12"]
            if (k, d) != (4, 4): f.append("k=%d d=%d" % (k, d))
            if ix: f.append("idx=1 bmap=1 ip=%d" % ip)
            if mm: f.append("mm=1")
            if va: f.append("var=1 lens=%s vp=%d" % (lens, vp))
            if rl: f.append("rlc=1")
            out.append(base + " " + " ".join(f))
    return E("\n".join(out))
_CROSS = {
    "C01": ("obs=Gg L=40 D=1 ops=f,r,g60", ""), "C02": ("obs=FI L=36 D=1 ops=f,r,g9", ""), "C03": ("obs=d L=36 D=1 ops=f,h0,h5", "x"),
    "C04": ("obs=GF L=30 D=1 ops=f,r,d,s,z", ""), "C05": ("obs=GF L=44 D=1 ops=f,w", ""), "C06": ("obs=V L=26 D=1 ops=f,r,v70,v0", "v"),
    "C07": ("obs=V L=30 D=1 ops=f,v100,S0,q7", "v"), "C08": ("obs=NV L=26 D=1 ops=f,v70,o10,t", "v"), "C09": ("obs=GFXL L=40 D=1 ops=f,r,w", ""),
    "C10": ("obs=GFX L=24 D=1 ops=f,r kind=2 crash=1", "", ((4, 4),)), "C11": ("obs=GFX L=40 D=0 kind=2 crash=1", "r", ((4, 4),)), "C12": ("obs=NVX L=20 D=1 ops=f kind=2 crash=1", "v", ((4, 4),)),
    "C13": ("obs=dX L=22 D=1 def=w ops=p kind=2 crash=1", "x", ((4, 4),)), "C14": ("obs=GF L=40 D=1 ops=f,g100000,g1,r gap=7", ""),
    "C20": ("obs=GFVN two=1 L=16 D=1 def=E:p ops=A:f,B:f,A:r,B:r b.N=4 b.B=1 b.k=4 b.d=4", ""),
    "C21": ("fault=1 fsticky=1 fmask=39 obs=GFVN L=20 D=0 ops=f,r", "", ((4, 4),)), "C22": ("obs=X L=50 D=2 ops=f,r,w kind=2", ""), "C23": ("obs=GFVNXL L=24 D=1 ops=f,r,d", ""),
    "C24": ("obs= L=24 D=3 ops=o3,o5,t,f", ""), "C28": ("obs=GFVNS L=26 D=1 ops=f,r,w", ""), "C29": ("obs=P L=30 D=2 ops=f,r,w,h3", ""), "C30": ("obs=GdVNQ L=24 D=1 ops=f,r", ""),
    "C32": (_OOM + "obs=GVL L=20 D=1 ops=f,i3,r", "", ((4, 4),)), "C33": ("obs=GdVNB L=30 D=1 ops=f,r,g60", ""),
}
for _p, _a in _CROSS.items():
    Q[_p] += cross(_a[0], _a[1], *_a[2:])
# ... and every erase block size and area size, for every kind of device, with few and with many features
def geo(base, need="", kinds=(0, 2, 3), rich=(0, 1)):
    out = []
    for B, n in ((1, 5), (1, 4), (2, 4), (2, 3), (3, 3), (3, 2), (3, 4), (4, 2), (4, 4), (5, 3), (5, 4)):
        for kd in kinds:
            for r in rich:
                N = B * n; ix, va, rl = "x" in need or r, "v" in need or r, "r" in need or (r and n >= 4)
                if rl and N < 4 * B: continue
                if ix and N < 4 * B: continue
                rec = 8 + 4 * va; ps = max(6 + 4 * ix + 8 * rl + 2 * rec, 40 if va or ix else 24); ps += -ps % 4
                out.append("%s N=%d B=%d ps=%d L=%d kind=%d%s%s%s" % (base, N, B, ps, min(N * 2 * 2 + 12, 90), kd, " idx=1 bmap=1 ip=%d" % (2 * B) if ix else "", " var=1 lens=30,3 vp=%d" % (B * (3 if B % 2 else 2)) if va else "", " rlc=1" if rl else ""))
    return E("\n".join(out))
_GEO = {
    "C01": ("obs=G D=1 ops=f,r", ""), "C02": ("obs=F D=1 ops=f,r", ""), "C03": ("obs=d D=0 def=w", "x"), "C05": ("obs=GF D=1 ops=f", ""), "C06": ("obs=V D=0 ops=f", "v"), "C07": ("obs=V D=1 ops=f", "v", (0,)),
    "C08": ("obs=N D=1 ops=f", "v", (0,)), "C09": ("obs=GFX D=1 ops=r,f", ""), "C10": ("obs=GFX D=0 crash=1", "", (1, 2, 3), (0,)), "C11": ("obs=GFX D=0 crash=1", "r", (1, 2, 3), (0,)), "C12": ("obs=NVX D=0 crash=1", "v", (1, 2, 3), (0,)),
    "C13": ("obs=dX D=0 crash=1 def=w", "x", (1, 2, 3), (0,)), "C21": ("fault=1 fsticky=1 fmask=39 obs=GF D=0", "", (0, 2)), "C22": ("obs=X D=1 ops=f,r,w", "", (1, 2, 3)),
    "C24": ("obs= D=2 ops=o0,t,f", "", (0,)), "C28": ("obs=GFS D=1 ops=f,r", "", (0, 2)), "C29": ("obs=P D=1 ops=f,r,w", ""), "C30": ("obs=GQ D=1 ops=f", "", (0,)), "C33": ("obs=GB D=1 ops=f,r spl=24", "", (0, 2)),
}
for _p, _a in _GEO.items():
    Q[_p] += geo(_a[0], _a[1], *_a[2:])
# ... and with keys around every power of two at which an implementation could change its mind, up to the largest key
def edge(base, need="", L=20, some=None):
    out = []
    for i, (k, s) in enumerate(((1, 120), (1, 240), (2, 0x7ff4), (2, 0xfff0), (3, 0xfffff0), (4, 0xfff4), (4, 0xfffff4), (4, 0x7ffffff4), (4, 0xfffffff0),
                                (5, 0xfffffff4), (8, 0x7ffffff4), (8, 0xfffffff4), (8, 0x1ffffffffffff4), (8, 0x7ffffffffffffff4), (8, 0xfffffffffffffff0))):
        for v in (0, 1):
            if some is not None and (i + v) % some: continue
            ix, va, rl = "x" in need, "v" in need, "r" in need
            ps = max(6 + ix + 2 * (k + 4 + 4 * va), (12 + k) if va else 0, 24 if ix else 0)
            out.append("%s k=%d key0x=%x gap=1 L=%d N=%d B=%d ps=%d%s%s%s%s" % (base, k, s, L, 4 + 4 * v, 1 + v, max(ps, 40), " bin=1" if (i + v) % 2 else "", " idx=1 bmap=1 ip=%d" % (2 + 2 * v) if ix else "", " var=1 lens=30,3 vp=%d" % (4 + 2 * v) if va else "", " rlc=1 N=8" if rl else ""))
    return E("\n".join(out))
_EDGE = {
    "C01": ("obs=Gg D=2 ops=f,r,g2", ""), "C02": ("obs=FI D=1 ops=f,r,g3", ""), "C03": ("obs=d D=2 def=w ops=p,r", "x"), "C04": ("obs=GF D=2 ops=f,r,d,s,z", ""), "C05": ("obs=GF D=2 ops=f,w", ""),
    "C06": ("obs=V D=1 ops=f,v70,v300,v-1", "v"), "C07": ("obs=V D=2 ops=f,v70,v300,v-1", "v"), "C08": ("obs=NV D=1 ops=f,v70,v300", "v"), "C09": ("obs=GFXL D=2 ops=f,r,w", ""),
    "C10": ("obs=GFX D=1 crash=1 kind=2 ops=f", ""), "C11": ("obs=GFX D=1 crash=1 kind=2 ops=f", "r"), "C12": ("obs=NVX D=1 crash=1 kind=2 ops=f,v300", "v", 16, 3), "C13": ("obs=dX D=1 crash=1 kind=2 def=w", "x"),
    "C14": ("obs=GF D=2 ops=f,g2,g3,r", ""), "C21": ("fault=1 fsticky=1 fmask=39 obs=GF D=1 ops=f", ""), "C24": ("obs= D=3 ops=o0,o2,t,f", ""), "C28": ("obs=GFS D=2 ops=f,r", ""), "C29": ("obs=P D=2 ops=f,r", "v"),
    "C33": ("obs=GB D=2 ops=f,r spl=24", ""), "C23": ("obs=GFVL D=2 ops=f,r,d", "v"), "C22": ("obs=X D=2 ops=f,r", "v"),
}
for _p, _a in _EDGE.items():
    Q[_p] += edge(*_a)

Q["C27"] += U("filex", """
what=sd n=5 ps=512 pages=0,1,8388608 ops=Ao,Aw,Ac,Af,AR0,AR8388608,AW0,AW1,AW8388608
what=df n=5 ps=512 pages=0,1,8388608 ops=Ao,Aw,Ac,Af,AR0,AR8388608,AW0,AW1,AW8388608
what=sd n=5 ps=512 pages=0,1,8388607,8388609 ops=Ao,Aw,Ac,Af,AR0,AR1,AR8388607,AW0,AW1,AW8388607,AR8388609,AW8388609
""")
# ... and erase blocks around and above 127 and 255 pages: sizes that do not fit the types one might keep them in
_BLK = {}
def _blk(p, l):
    _BLK.setdefault(p, []).append(l)
for _B, _n in ((128, 3), (256, 2), (257, 4)):
    _N = _B * _n
    _b = "ps=16 N=%d B=%d pre=J%d D=1" % (_N, _B, 3 * _N - 5)
    for _p, _a in (("C01", "obs=G L=12 ops=f,r"), ("C02", "obs=F L=12 ops=f,r"), ("C05", "obs=GF L=12 ops=f,r"), ("C09", "obs=GFX L=12 ops=r,R,f kind=2"), ("C10", "obs=GFX L=8 crash=1 ops=f kind=2"),
                   ("C21", "obs=GF L=6 fault=1 fsticky=1 fmask=39 ops=f"), ("C22", "obs=X L=12 ops=f,r,w kind=2"), ("C28", "obs=GFS L=12 ops=f,r"), ("C29", "obs=P L=12 ops=f,r"), ("C33", "obs=GB L=8 ops=f,r spl=1200")):
        _blk(_p, _a + " " + _b)
    if _n < 4:
        _N = 4 * _B
    _i = "idx=1 bmap=1 bm=1 ip=%d ps=17 N=%d B=%d pre=J%d D=1 def=p" % (2 * _B, _N, _B, 2 * _N - 5)
    for _p, _a in (("C03", "obs=d L=10 ops=f,r"), ("C13", "obs=dX L=6 crash=1 kind=2 ops=f"), ("C22", "obs=X L=10 ops=f,r")):
        _blk(_p, _a + " " + _i)
    _blk("C22", "obs=X rlc=1 ps=24 N=%d B=%d pre=J%d L=10 D=1 ops=f,r" % (_N, _B, 2 * _N))
    for _ps, _j in ((24, 2 * _N), (40, 3 * _B + 1)):
        _blk("C11", "obs=GFX crash=1 rlc=1 ps=%d N=%d B=%d pre=J%d L=8 D=1 ops=f kind=2" % (_ps, _N, _B, _j))
for _B, _j in ((128, 238), (256, 479)):
    _b = "var=1 lens=30 ps=40 N=%d B=%d vp=%d pre=J%d D=0" % (2 * _B, _B, 2 * _B, _j)
    for _p, _a in (("C06", "obs=V L=10"), ("C07", "obs=V L=14"), ("C08", "obs=NV L=8"), ("C12", "obs=NVX L=5 crash=1 kind=2"), ("C22", "obs=X L=10")):
        _blk(_p, _a + " " + _b)
for _p, _l in _BLK.items():
    Q[_p] += U("explorel", "\n".join(_l))
Q["C33"] += E("""
obs=GB N=16 L=80 D=1 ops=f,r,g9000,g100000,G spl=30 err=1 gap=1 k=8
obs=GIB N=8 ps=40 L=50 D=1 ops=f,r,g9000,g100000,G spl=30 err=1 gap=1
obs=GB N=12 ps=40 L=60 D=2 ops=g9000,g300 spl=30 err=1 gap=1
obs=GB N=12 ps=40 L=60 D=2 ops=g9000,g300 spl=30 err=2 gap=1 rlc=1
""")
