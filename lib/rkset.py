"""the explicit Runge-Kutta steppers of the library and their witnesses"""
import vp, rk
import absint as A
from absint import const, patom, atom, is_const, cval
from interp import Interp, loc_str
from fractions import Fraction as Fr

V = "double,double,double,double,vector_space_algebra"
HDR = "#include <vp.hpp>\n#include <boost/array.hpp>\n#include <boost/fusion/container.hpp>\n" \
      "#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>\n%s\nusing namespace boost::numeric::odeint;\n"


def inc(*h):
    return "".join("#include <boost/numeric/odeint/%s.hpp>\n" % x for x in h)


STEPPERS = {
    # name: (headers, type, error stepper?)
    "euler": (("stepper/euler",), "euler<%s>" % V, False),
    "runge_kutta4": (("stepper/runge_kutta4",), "runge_kutta4<%s>" % V, False),
    "runge_kutta4_classic": (("stepper/runge_kutta4_classic",), "runge_kutta4_classic<%s>" % V, False),
    "runge_kutta_cash_karp54": (("stepper/runge_kutta_cash_karp54",), "runge_kutta_cash_karp54<%s>" % V, True),
    "runge_kutta_cash_karp54_classic": (("stepper/runge_kutta_cash_karp54_classic",), "runge_kutta_cash_karp54_classic<%s>" % V, True),
    "runge_kutta_dopri5": (("stepper/runge_kutta_dopri5",), "runge_kutta_dopri5<%s>" % V, True),
    "runge_kutta_fehlberg78": (("stepper/runge_kutta_fehlberg78",), "runge_kutta_fehlberg78<%s>" % V, True),
}


def F(*s):
    return [Fr(x) for x in s]


CK_A = [[], F("1/5"), F("3/40", "9/40"), F("3/10", "-9/10", "6/5"), F("-11/54", "5/2", "-70/27", "35/27"),
        F("1631/55296", "175/512", "575/13824", "44275/110592", "253/4096")]
DP_A = [[], F("1/5"), F("3/40", "9/40"), F("44/45", "-56/15", "32/9"), F("19372/6561", "-25360/2187", "64448/6561", "-212/729"),
        F("9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656"),
        F("35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84")]
F78_A = [[], F("2/27"), F("1/36", "1/12"), F("1/24", 0, "1/8"), F("5/12", 0, "-25/16", "25/16"), F("1/20", 0, 0, "1/4", "1/5"),
         F("-25/108", 0, 0, "125/108", "-65/27", "125/54"), F("31/300", 0, 0, 0, "61/225", "-2/9", "13/900"),
         F(2, 0, 0, "-53/6", "704/45", "-107/9", "67/90", 3),
         F("-91/108", 0, 0, "23/108", "-976/135", "311/54", "-19/60", "17/6", "-1/12"),
         F("2383/4100", 0, 0, "-341/164", "4496/1025", "-301/82", "2133/4100", "45/82", "45/164", "18/41"),
         F("3/205", 0, 0, 0, 0, "-6/41", "-3/205", "-3/41", "3/41", "6/41"),
         F("-1777/4100", 0, 0, "-341/164", "4496/1025", "-289/82", "2193/4100", "51/82", "33/164", "12/41", 0, 1)]
# named methods: nodes of the published scheme: (A, b, b of the embedded scheme)
LIT = {
    "euler": ([[]], F(1), None),
    "runge_kutta4": ([[], F("1/2"), F(0, "1/2"), F(0, 0, 1)], F("1/6", "1/3", "1/3", "1/6"), None),
    "runge_kutta_cash_karp54": (CK_A, F("37/378", 0, "250/621", "125/594", 0, "512/1771"),
                                F("2825/27648", 0, "18575/48384", "13525/55296", "277/14336", "1/4")),
    "runge_kutta_dopri5": (DP_A, F("35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84", 0),
                           F("5179/57600", 0, "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40")),
    "runge_kutta_fehlberg78": (F78_A, F(0, 0, 0, 0, 0, "34/105", "9/35", "9/35", "9/280", "9/280", 0, "41/840", "41/840"),
                               F("41/840", 0, 0, 0, 0, "34/105", "9/35", "9/35", "9/280", "9/280", "41/840", 0, 0)),
}
LIT["runge_kutta4_classic"] = LIT["runge_kutta4"]
LIT["runge_kutta_cash_karp54_classic"] = LIT["runge_kutta_cash_karp54"]


def sys_handler(it, ev, args):
    x = it.load(args[0])
    t = args[2]
    k = A.app("F", x, t)
    it.store(args[1], k)
    ev.info = {"x": x, "t": t, "k": k}
    it.emit(ev)


def sym(n, **kw):
    return patom(atom("sym", n, **kw))
