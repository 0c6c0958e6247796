"""What a correct conversion reports, property by property."""

C09_FIELDS = ("hand", "unseen", "pov", "discards", "melds", "left")
C10_FIELDS = ("scores", "kyotaku", "honba", "dora", "parent", "rounds_left", "parent_left",
              "menzen", "riichi", "double", "ippatsu")


def where(i, pt):
    return "point %d (%s of player %d)" % (i, pt.kind, pt.player)


def structure(r, pts, toks):
    exp = [(p.kind, p.player) for p in r.points]
    got = [(p["kind"], p["player"]) for p in pts]
    if exp != got:
        for i, (a, b) in enumerate(zip(exp, got)):
            if a != b:
                return "point %d is %s of player %d, expected %s of player %d" % ((i,) + b + a)
        return "%d decision points, expected %d" % (len(got), len(exp))
    return None


def C23(r, pts, toks):
    s = structure(r, pts, toks)
    if s:
        yield s
        return
    for i, (e, g) in enumerate(zip(r.points, pts)):
        if e.enc != g["enc"]:
            yield "%s has position %d in the token history, expected %d" % (where(i, e), g["enc"], e.enc)
        if e.kind == "discard" and g["tile"] != e.tile:
            yield "%s discards tile %d, expected %d" % (where(i, e), g["tile"], e.tile)


def _views(e, g):
    """(label, expected view, reported view): the view of the player who decides"""
    if e.kind == "post":
        for q in range(4):
            if q != e.player:
                yield "player %d" % q, e.views[q], g["views"][q]
    else:
        yield "player %d" % e.player, e.view, g["view"]


def _fields(fields):
    def check(r, pts, toks):
        for i, (e, g) in enumerate(zip(r.points, pts)):
            for label, ev, gv in _views(e, g):
                for f in fields:
                    a = getattr(ev, f)
                    b = gv[f]
                    if r.k >= r.n_rounds and f in ("rounds_left", "parent_left"):
                        continue  # extra rounds past the schedule
                    if a != b:
                        yield "%s, view of %s: %s is %r, expected %r" % (where(i, e), label, f, b, a)
                if "hand" in fields and ev.player != gv["player"]:
                    yield "%s: the view of %s is labelled as player %d's" % (where(i, e), label, gv["player"])
    return check


C09 = _fields(C09_FIELDS)
C10 = _fields(C10_FIELDS)


def C05(r, pts, toks):
    for i, (e, g) in enumerate(zip(r.points, pts)):
        if e.kind != "post" or e.cause != "react":
            continue
        for q in range(4):
            exp = sorted(e.offers[q]["calls"], key=repr)
            got = [c for c, _ in g["offers"][q]["calls"]]
            if exp != got:
                yield "%s: player %d is offered %r, legal are %r" % (where(i, e), q, got, exp)
            if g["offers"][q]["who"] - {q}:
                yield "%s: an offer listed for player %d names player %r" % (where(i, e), q, g["offers"][q]["who"])


def C06(r, pts, toks):
    for i, (e, g) in enumerate(zip(r.points, pts)):
        if e.kind == "during":
            exp = sorted(e.offers["calls"], key=repr)
            got = [c for c, _ in g["offers"]["calls"]]
            if exp != got:
                yield "%s: kans offered %r, legal are %r" % (where(i, e), got, exp)
            if len(g["offers"]["riichi"]) != int(e.offers["riichi"]):
                yield "%s: riichi offered %d times, legal: %s" % (where(i, e), len(g["offers"]["riichi"]), e.offers["riichi"])
            if g["offers"]["who"] - {e.player}:
                yield "%s: an offer names player %r" % (where(i, e), g["offers"]["who"])
        elif e.kind == "post" and e.cause == "kakan":
            for q in range(4):
                if g["offers"][q]["calls"] or g["offers"][q]["riichi"]:
                    yield "%s: calls offered on an added kan" % where(i, e)


def C07(r, pts, toks):
    for i, (e, g) in enumerate(zip(r.points, pts)):
        if e.kind == "during":
            if len(g["offers"]["agari"]) != int(e.offers["agari"]):
                yield "%s: self-drawn win offered %d times, legal: %s" % (where(i, e), len(g["offers"]["agari"]), e.offers["agari"])
        elif e.kind == "post":
            for q in range(4):
                if len(g["offers"][q]["agari"]) != int(e.offers[q]["agari"]):
                    yield "%s: ron offered to player %d %d times, legal: %s" % (
                        where(i, e), q, len(g["offers"][q]["agari"]), e.offers[q]["agari"])


def _taken(g):
    out = []
    if g["kind"] == "during":
        for q, o in ((g["player"], g["offers"]),):
            out += [(q, "agari") for x in o["agari"] if x] + [(q, "riichi") for x in o["riichi"] if x]
            out += [(q, c) for c, x in o["calls"] if x]
    elif g["kind"] == "post":
        for q in range(4):
            o = g["offers"][q]
            out += [(q, "agari") for x in o["agari"] if x] + [(q, "riichi") for x in o["riichi"] if x]
            out += [(q, c) for c, x in o["calls"] if x]
    return sorted(out, key=repr)


def C08(r, pts, toks):
    for i, (e, g) in enumerate(zip(r.points, pts)):
        exp = sorted(e.taken, key=repr)
        got = _taken(g)
        if exp != got:
            yield "%s: marked as taken %r, taken in the log %r" % (where(i, e), got, exp)


def C04(r, pts, toks):
    if len(toks) != len(r.tokens):
        yield "%d tokens for %d events" % (len(toks), len(r.tokens))
        return
    for i, (ev, t) in enumerate(zip(r.tokens, toks)):
        if not 0 < t < 1 << 16:
            yield "token %d (%r) is %d, outside the fields the model decodes" % (i, ev, t)
        elif ev[0] != "dora" and (t >> 8) & 3 != ev[1]:
            yield "token %d (%r) carries seat %d" % (i, ev, (t >> 8) & 3)


def token_class(ev):
    """events that may share a token agree in this"""
    if ev[0] == "call":
        # family, seat and the tiles' kinds; which copies or seat it came from may be left open
        _, p, fam = ev[:3]
        if fam == "kakan":
            return ("call", p, fam, ev[4])
        if fam == "ankan":
            return ("call", p, fam, ev[3])
        f = lambda x: x if x < 34 else (x - 34) * 9 + 4
        return ("call", p, fam, tuple(sorted(map(f, ev[4]))), f(ev[5]))
    return ev


CHECKS = dict(C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C23=C23)
