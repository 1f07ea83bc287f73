import sys,collections,os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lb.engine import *
from lb.sut import Sut
pid=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 1000
m=load(pid); c=collections.Counter(); sut=Sut()
for i in range(n):
    case=None
    try:
        case=m.gen(Choices(rng=rng_for(1,pid,i)))
        m.judge(case,sut)
    except Discard as e: c[str(e)+(" [judge]" if case else "")]+=1
sut.close()
print(c)
