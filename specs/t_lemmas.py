from lemmas import *
TARGETS = [PIGEON_LEMMA, CND_LEMMA, CBT_LEMMA]
from c01 import *
TARGETS = [dict(name=n, tu=drv("crossover.cpp"), qname=D + n, match=ul, contracts=VALID, prelude=PERM_AX) for n in ("findOddCycleIndices","cycleCrossoverImpl","edgeCrossoverImpl","makeNeighbourLists")]
TARGETS += [dict(name="nb_"+n, tu=drv("crossover.cpp"), qname=D + "NeighbourList::"+n, match=lambda f: True) for n in ("add", "remove")]
