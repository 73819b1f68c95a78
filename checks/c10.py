"""C10: the greedy balancer terminates, never creates overload and balances whatever unit weights allow."""
from .common import split, seeds
TECHNIQUE = "TLA+ model of the balancer's workers with liveness (TLC) + TLC validation of balancer runs"
LEVEL_NOTE = ("GreedyBalancer.tla: all schedules of one worker per block, with termination under fair scheduling; real runs on random "
              "overloaded partitions, uniform and individual limits, 1-8 threads, reused for several graphs.")
MC = ("SPECIFICATION Spec\nINVARIANTS Booked Guarded UnitBalanced\n%sCHECK_DEADLOCK FALSE\nCONSTANTS %s Variant=\"%s\"\n")
WEIGHTED = "V<-Vw Edges<-Ew Weight<-Weights K=3 Limit<-Limw Fair<-Fairw Start0<-Startsw"
UNIT = "V<-V4 Edges<-E4 Weight<-Unit K=3 Limit<-Lim4 Fair<-Fair4 Start0<-Starts4"
RACE = "V<-Vr Edges<-Er Weight<-Unitr K=4 Limit<-Limr Fair<-Fairr Start0<-Startsr"
P = "PROPERTY Returns\n"


def body(c):
    exe = c.build("refine")
    acts = ("Begin", "Pop", "MoveAdjacent", "MoveRandom")
    c.model("GreedyBalancerMC", MC % (P, WEIGHTED, "ok"), acts, label="GreedyBalancer/weighted")
    c.model("GreedyBalancerMC", MC % (P, UNIT, "ok"), acts, label="GreedyBalancer/unit")
    c.model("GreedyBalancerMC", MC % (P, RACE, "ok"), acts, label="GreedyBalancer/race")
    c.model("GreedyBalancerMC", MC % (P, WEIGHTED, "Retry"), expect=("property",), label="GreedyBalancer/Retry")
    c.model("GreedyBalancerMC", MC % ("", WEIGHTED, "NoCheck"), expect=("invariant",), label="GreedyBalancer/NoCheck")
    c.model("GreedyBalancerMC", MC % ("", RACE, "Lossy"), expect=("invariant",), label="GreedyBalancer/Lossy")
    recs = seeds(c, exe, [(("balance", "small"), 80, 800, 4, 8), (("balance", "mid"), 25, 250, 4, 8)], what="balancer", par=3)
    c.validate("RefinerTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="RefinerTrace")
