"""An RS-274/NGC controller: executes a program from any leftover state, with any home position,
stops and jogs, and records the physical motion (machine coordinates, mm), spindle, coolant, tool
and feed of every move. Lines a controller rejects raise Rejected."""
import math
import re

from .util import R


class Rejected(Exception):
    pass


MODAL = {}
for g, codes in {
    0: "G4 G10 G28 G30 G52 G53 G92 G92.1 G92.2 G92.3",
    1: "G0 G1 G2 G3 G38.2 G38.3 G38.4 G38.5 G80 G81 G82 G83 G84 G85 G86 G87 G88 G89",
    2: "G17 G18 G19", 3: "G90 G91", 4: "G90.1 G91.1", 5: "G93 G94 G95", 6: "G20 G21", 7: "G40 G41 G42",
    8: "G43 G49", 10: "G98 G99", 12: "G54 G55 G56 G57 G58 G59 G59.1 G59.2 G59.3", 13: "G61 G61.1 G64",
    14: "G96 G97", 11: "G50 G51",
}.items():
    for c in codes.split():
        MODAL[c] = g
MGROUP = {}
for g, codes in {4: "M0 M1 M2 M30 M60", 7: "M3 M4 M5", 8: "M7 M8 M9", 6: "M6", 9: "M48 M49"}.items():
    for c in codes.split():
        MGROUP[c] = g

WORD = re.compile(r"([A-Za-z])\s*([-+]?(?:\d+\.?\d*|\.\d+))")

LEFTOVER = {  # group -> values a previous program may have left
    1: ["G0", "G1", "G2", "G3", "G80", "G81", "G83"], 2: ["G17", "G18", "G19"], 3: ["G90", "G91"],
    4: ["G91.1", "G90.1"], 5: ["G94", "G93", "G95"], 6: ["G21", "G20"], 7: ["G40", "G41", "G42"], 8: ["G49", "G43"],
    10: ["G98", "G99"], 12: ["G54", "G55", "G56", "G57", "G58", "G59"], 13: ["G64", "G61", "G61.1"], 14: ["G97", "G96"],
    11: ["G50", "G51"],
}
OFFSETS = {c: (37.0 * i, -53.0 * i, 11.0 * i) for i, c in enumerate(["G54", "G55", "G56", "G57", "G58", "G59"], 1)}
RAPID_RATE = 5000.0  # mm/min


def neutral():
    return {"modal": {g: v[0] for g, v in LEFTOVER.items()}, "pos": [0.0, 0.0, 150.0], "home": [0.0, 0.0, 200.0],
            "spindle": None, "s": 0.0, "f": 0.0, "coolant": "M9", "tool": None}


def gen_state(r: R, groups=None):
    st = neutral()
    for g, v in LEFTOVER.items():
        if groups is None or g in groups:
            if r.p(0.5):
                st["modal"][g] = r.pick(v)
    st["pos"] = [r.uniform(-100, 100), r.uniform(-100, 100), r.uniform(0, 250)]
    st["home"] = [r.uniform(-50, 50), r.uniform(-50, 50), r.uniform(120, 250)]
    st["spindle"] = r.pick([None, "M3", "M4"])
    st["s"] = r.pick([0.0, 3000.0])
    st["f"] = r.pick([0.0, 17.0, 999.0])
    st["coolant"] = r.pick(["M9", "M7", "M8"])
    st["tool"] = r.pick([None, 5])
    return {**st, "modal": {str(k): v for k, v in st["modal"].items()}}


class Move:
    __slots__ = ("kind", "a", "b", "feed", "spindle", "s", "coolant", "tool", "line", "center", "cw", "wcs", "units",
                 "path", "plane", "raw", "wpos")

    def key(self):
        return (self.kind, self.b, self.feed, self.spindle, self.s, self.coolant, self.tool, self.center, self.cw)


class Machine:
    def __init__(self, state=None):
        s = state or neutral()
        self.m = {int(k): v for k, v in s["modal"].items()}
        self.pos = list(s["pos"])  # machine coordinates, mm
        self.home = list(s["home"])
        self.spindle, self.s, self.f, self.coolant, self.tool = s["spindle"], s["s"], s["f"], s["coolant"], s["tool"]
        self.f_units = None
        self.tsel = None
        self.moves = []
        self.events = []
        self.ended = False
        self.lineno = 0
        self.on_stop = None
        self.time = 0.0

    # -------------------------------------------------------------- parsing
    def parse(self, line):
        comments = re.findall(r"\(([^()]*)\)", line)
        code = re.sub(r"\([^()]*\)", "", line)
        code = code.split(";")[0]
        if "(" in code or ")" in code:
            raise Rejected("unbalanced comment: " + line)
        words, i = [], 0
        code = code.strip()
        if code in ("%", ""):
            return [], comments
        code2 = code.replace(" ", "").replace("\t", "")
        while i < len(code2):
            m = WORD.match(code2, i)
            if not m:
                raise Rejected("unreadable word in: " + line)
            words.append((m.group(1).upper(), m.group(2)))
            i = m.end()
        return words, comments

    def scale(self):
        return 25.4 if self.m[6] == "G20" else 1.0

    def offset(self):
        o = OFFSETS.get(self.m[12], (0.0, 0.0, 0.0))
        return o

    def run(self, text, start=0, stop=None):
        lines = text.split("\n")
        for n in range(start, len(lines)):
            if stop is not None and n >= stop:
                return self
            self.lineno = n
            if self.ended:
                if self.parse(lines[n])[0]:
                    raise Rejected(f"line {n} after the program has ended: {lines[n]}")
                continue
            try:
                self.block(lines[n])
            except Rejected as e:
                raise Rejected(f"line {n + 1} {lines[n]!r}: {e}")
        return self

    def block(self, line):
        words, _ = self.parse(line)
        if not words:
            return
        g, mm, p = [], [], {}
        for l, v in words:
            x = float(v)
            if l in "GM":
                c = l + (str(int(x)) if x == int(x) else f"{x:g}")
                if l == "G":
                    if c not in MODAL:
                        raise Rejected(f"unknown code {c}")
                    if any(MODAL[c] == MODAL[o] for o in g):
                        raise Rejected(f"two codes of one modal group: {c}")
                    g.append(c)
                else:
                    if c not in MGROUP:
                        raise Rejected(f"unknown code {c}")
                    if any(MGROUP[c] == MGROUP[o] for o in mm):
                        raise Rejected(f"two codes of one modal group: {c}")
                    mm.append(c)
            elif l == "N":
                pass
            elif l in "XYZIJKFSTHPQRLD":
                if l in p:
                    raise Rejected(f"letter {l} twice")
                p[l] = x
            else:
                raise Rejected(f"letter {l}")
        if len(mm) > 4:
            raise Rejected("too many M codes")
        axis = {k: p[k] for k in "XYZ" if k in p}
        gby = {MODAL[c]: c for c in g}
        if 0 in gby and gby[0] not in ("G4", "G53") and gby.get(1) not in (None, "G80") and axis:
            raise Rejected("motion and group 0 axis words conflict")
        # order of execution of RS274
        if 5 in gby:
            self.m[5] = gby[5]
        if "F" in p:
            if p["F"] <= 0:
                raise Rejected("feed rate must be positive")
            self.f = p["F"] * self.scale_after(gby)
        if "S" in p:
            if p["S"] < 0:
                raise Rejected("negative speed")
            self.s = p["S"]
            self.event("S", p["S"])
        if "T" in p:
            if p["T"] < 0 or p["T"] != int(p["T"]):
                raise Rejected("tool number")
            self.tsel = int(p["T"])
        if "M6" in mm:
            if self.tsel is None:
                raise Rejected("M6 without a selected tool")
            self.event("toolchange", self.tsel)
            self.tool = self.tsel
        for c in mm:
            if MGROUP[c] == 7:
                self.spindle = None if c == "M5" else c
                self.event("spindle", c)
        for c in mm:
            if MGROUP[c] == 8:
                self.coolant = c
                self.event("coolant", c)
        if gby.get(0) == "G4" and "P" not in p:
            raise Rejected("G4 without P")
        for grp in (2, 6, 7):
            if grp in gby:
                self.m[grp] = gby[grp]
        if 8 in gby:
            if gby[8] == "G43":
                if "H" not in p:
                    raise Rejected("G43 without H")
                self.event("length", int(p["H"]))
            self.m[8] = gby[8]
        elif "H" in p:
            raise Rejected("H without G43")
        for grp in (12, 13, 3, 4, 10, 11, 14):
            if grp in gby:
                self.m[grp] = gby[grp]
        if gby.get(0) in ("G28", "G30"):
            if axis:
                raise Rejected("G28/G30 through an intermediate point is not modelled")
            self.move("home", list(self.home))
            self.event("home", gby[0])
        elif gby.get(0) not in (None, "G4", "G53"):
            raise Rejected(f"{gby[0]} is not modelled")
        if 1 in gby:
            self.m[1] = gby[1]
            if gby[1] == "G80":
                if axis:
                    raise Rejected("axis words with G80")
            elif not axis:
                raise Rejected("motion without axis words")
        if axis and gby.get(0) not in ("G28", "G30"):
            self.motion(self.m[1], axis, p, gby)
        elif not axis and any(k in p for k in "IJK"):
            raise Rejected("arc words without axis words")
        for c in mm:
            if MGROUP[c] == 4:
                self.event("stop", c)
                if c in ("M0", "M1") and self.on_stop:
                    self.on_stop(self, c)
                if c in ("M2", "M30"):
                    self.ended = True
                    self.spindle = None if self.spindle is None else self.spindle

    def scale_after(self, gby):
        # F is interpreted in the units of the block
        u = gby.get(6, self.m[6])
        return 25.4 if u == "G20" else 1.0

    def event(self, k, v):
        self.events.append((len(self.moves), k, v, self.lineno))

    # -------------------------------------------------------------- motion
    def motion(self, mode, axis, p, gby):
        if mode in ("G80",):
            raise Rejected("axis words with no motion mode")
        if mode.startswith("G8"):
            raise Rejected("canned cycle still active: would drill at every position")
        k = self.scale()
        off = self.offset()
        work = [self.pos[i] - off[i] for i in range(3)]
        end = list(work)
        for i, a in enumerate("XYZ"):
            if a in axis:
                end[i] = axis[a] * k + (work[i] if self.m[3] == "G91" else 0.0)
        b = [end[i] + off[i] for i in range(3)]
        if mode == "G0":
            self.move("rapid", b)
            return
        if self.m[5] == "G93" and "F" not in p:
            raise Rejected("inverse time feed without F")
        if self.f <= 0:
            raise Rejected("feed motion with no feed rate set")
        if mode == "G1":
            self.move("cut", b)
            return
        pl = self.m[2]
        ax = {"G17": (0, 1, 2), "G18": (2, 0, 1), "G19": (1, 2, 0)}[pl]
        if "R" in p:
            raise Rejected("radius format arcs are not modelled")
        ijk = [p.get(c) for c in "IJK"]
        if ijk[ax[0]] is None and ijk[ax[1]] is None:
            raise Rejected("arc without centre")
        if ijk[ax[2]] not in (None, 0.0):
            raise Rejected("arc centre word outside the arc plane")
        c = [0.0, 0.0]
        for j in (0, 1):
            v = (ijk[ax[j]] or 0.0) * k
            c[j] = v if self.m[4] == "G90.1" else work[ax[j]] + v
        r0 = math.hypot(work[ax[0]] - c[0], work[ax[1]] - c[1])
        r1 = math.hypot(end[ax[0]] - c[0], end[ax[1]] - c[1])
        tol = max(0.004 * k, 0.002 * max(r0, r1))
        if r0 < 1e-9 or abs(r0 - r1) > tol:
            raise Rejected(f"arc radius differs at its ends: {r0:.4f} {r1:.4f}")
        cm = [c[0] + off[ax[0]], c[1] + off[ax[1]]]
        self.move("arc", b, center=cm, cw=(mode == "G2"))

    def move(self, kind, b, center=None, cw=None):
        m = Move()
        m.kind, m.a, m.b = kind, tuple(self.pos), tuple(b)
        m.feed = self.f if kind in ("cut", "arc") else None
        m.spindle, m.s, m.coolant, m.tool = self.spindle, self.s, self.coolant, self.tool
        m.line, m.center, m.cw = self.lineno, tuple(center) if center else None, cw
        m.wcs, m.units, m.path, m.plane = self.m[12], self.m[6], self.m[13], self.m[2]
        m.raw = {g: self.m[g] for g in (3, 5, 7, 8, 11, 14)}
        off = self.offset()
        m.wpos = tuple(b[i] - off[i] for i in range(3))
        d = math.dist(m.a, m.b)
        rate = m.feed if m.feed else RAPID_RATE
        self.time += d / rate * 60 if rate else 0
        self.pos = list(b)
        self.moves.append(m)


def work(m, which="b"):
    """A move's end (or start) in the work coordinates active during it, mm."""
    off = OFFSETS.get(m.wcs, (0, 0, 0))
    v = getattr(m, which)
    return tuple(v[i] - off[i] for i in range(len(v)))


def cuts(moves):
    return [m for m in moves if m.kind in ("cut", "arc")]


def sig(m, nd=6):
    """What a move does, physically."""
    rd = lambda t: None if t is None else tuple(round(x, nd) + 0.0 for x in t)
    return (m.kind, rd(m.a), rd(m.b), None if m.feed is None else round(m.feed, 6), m.spindle, m.s, m.coolant, m.tool,
            rd(m.center), m.cw)
